"""C24: number notations against an independent implementation."""

import itertools
import string

from mc import core
from quickly import numbering as N

BOUNDS = {
    "quick": "integers -40..100000 in roman, letters (three alphabets) and text; text also around every power of ten and every multiple of a million/thousand pattern up to 999999999; "
             "all strings over the roman numeral characters up to length 5 and over a letter alphabet (with invalid characters) up to length 4; numbers 0..130 and some large ones after 7 kinds of other text",
    "thorough": "as quick, integers up to 400000 (letters up to 2000000), roman strings up to length 7, letter strings up to length 6",
}
ASSUMPTIONS = ["the number language of parce (parce.lang.numbers) is part of the implementation under test for text2int"]

BLOCK = 500
ONES = "zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
TENS = "x x twenty thirty forty fifty sixty seventy eighty ninety".split()
ROMAN = {"I": 1, "V": 5, "X": 10, "L": 50, "C": 100, "D": 500, "M": 1000}


def roman(n):
    def digit(d, one, five, ten):
        return ["", one, one * 2, one * 3, one + five, five, five + one, five + one * 2, five + one * 3, one + ten][d]
    return "M" * (n // 1000) + digit(n // 100 % 10, *"CDM") + digit(n // 10 % 10, *"XLC") + digit(n % 10, *"IVX")


def roman_value(s):
    """Subtract every character that has a bigger one somewhere after it."""
    v = [ROMAN[c] for c in s.upper()]
    return sum(-a if any(b > a for b in v[i + 1:]) else a for i, a in enumerate(v))


def letters(n, chars):
    if n == 0:
        return ""
    k = len(chars)
    length, first = 1, 1
    while n >= first + k ** length:
        first += k ** length
        length += 1
    n -= first
    out = ""
    for _ in range(length):
        out = chars[n % k] + out
        n //= k
    return out


def english(n):
    def under1000(n):
        out = []
        if n >= 100:
            out += [ONES[n // 100], "hundred"]
            n %= 100
        if n >= 20:
            out.append(TENS[n // 10])
            n %= 10
        if n:
            out.append(ONES[n])
        return out
    out = []
    for unit, name in ((10**6, "million"), (1000, "thousand")):
        if n >= unit:
            out += under1000(n // unit) + [name]
            n %= unit
    out += under1000(n)
    return "".join(w.title() for w in out or ["zero"])


class Range(core.Family):
    name = "numbers"

    def cases(self, tier):
        for i in range(0, 100000 if tier == "quick" else 400000, BLOCK):
            yield ["all", i]
        if tier == "thorough":
            for i in range(400000, 2000000, BLOCK):
                yield ["letters", i]

    def check(self, case, rec):
        kind, first = case
        for n in range(first, first + BLOCK):
            rec.step()
            for chars in (string.ascii_uppercase, "abc", "zyx0"):
                want = letters(n, chars)
                got = N.int2letter(n, chars)
                if got != want:
                    raise core.Violation("int2letter wrong", "{} {}: {!r} instead of {!r}".format(n, chars, got, want))
                if N.letter2int(got, chars) != n:
                    raise core.Violation("letter2int wrong", repr((got, chars, n)))
            if N.int2letter(n) != letters(n, string.ascii_uppercase) or N.letter2int(N.int2letter(n)) != n:
                raise core.Violation("int2letter wrong", repr(n))
            if kind == "letters":
                continue
            if n:
                if N.int2roman(n) != roman(n):
                    raise core.Violation("int2roman wrong", repr((n, N.int2roman(n), roman(n))))
                for s in (roman(n), roman(n).lower(), roman(n).title()):
                    if N.roman2int(s) != n:
                        raise core.Violation("roman2int wrong", repr((s, N.roman2int(s))))
            text(n, rec)
        rec.trace()
        rec.outcome([first, letters(first, "abc")])


def text(n, rec):
    want = english(n)
    got = N.int2text(n)
    if got != want:
        raise core.Violation("int2text wrong", "{}: {} instead of {}".format(n, got, want))
    for s in (got, got.lower()) if n % 50 == 0 else (got,):
        back = N.text2int(s)
        if back != n:
            raise core.Violation("text2int wrong", "{}: {} instead of {}".format(s, back, n))


class Large(core.Family):
    """Texts of large numbers: all combinations of interesting groups of three digits."""
    name = "large"
    GROUPS = [0, 1, 9, 10, 11, 19, 20, 21, 99, 100, 101, 110, 112, 120, 199, 345, 900, 999]

    def cases(self, tier):
        for a in self.GROUPS:
            for b in self.GROUPS if tier == "quick" else range(0, 1000, 7):
                yield [a, b]

    def check(self, case, rec):
        a, b = case
        for c in self.GROUPS:
            text(a * 10**6 + b * 1000 + c, rec)
            rec.step()
        rec.trace()
        rec.outcome(case)


class Invalid(core.Family):
    name = "invalid"

    def cases(self, tier):
        k = 5 if tier == "quick" else 7
        for w in core.words("IVXLCDM", k):
            yield ["roman", "".join(w)]
        for w in core.words("IvMA1 -", 3):
            yield ["roman", "".join(w)]
        for w in core.words("ABZa1 ", 4 if tier == "quick" else 6):
            yield ["letter", "".join(w)]
        for n in range(-40, 1):
            yield ["number", n]

    def check(self, case, rec):
        kind, s = case
        rec.step()
        if kind == "roman":
            valid = all(c in ROMAN for c in s.upper())
            try:
                v = N.roman2int(s)
            except KeyError:
                if valid:
                    raise core.Violation("roman numeral rejected", s)
                return
            if not valid or v != roman_value(s):
                raise core.Violation("roman numeral misread", repr((s, v)))
        elif kind == "letter":
            for chars in (string.ascii_uppercase, "AB"):
                valid = all(c in chars for c in s)
                try:
                    v = N.letter2int(s, chars)
                except ValueError:
                    if valid:
                        raise core.Violation("letters rejected", s)
                    continue
                if not valid:
                    raise core.Violation("invalid letters accepted", repr((s, v)))
                if N.int2letter(v, chars) != s:
                    raise core.Violation("letters misread", repr((s, v)))
        else:
            try:
                N.int2roman(s)
            except ValueError:
                pass
            else:
                raise core.Violation("roman numeral for a number below one", repr(s))
            if N.int2letter(0) != "":
                raise core.Violation("letters for 0")
        rec.trace()


class Injective(core.Family):
    """Different numbers, different texts."""
    name = "injective"

    def cases(self, tier):
        yield 20000 if tier == "quick" else 200000

    def check(self, case, rec):
        for f, first in ((N.int2roman, 1), (N.int2letter, 0), (N.int2text, 0)):
            seen = {f(n) for n in range(first, case)}
            rec.step(case)
            if len(seen) != case - first:
                raise core.Violation("two numbers have the same text", f.__name__)
            for s in seen:
                rec.outcome(s)
        rec.trace()


class Words(core.Family):
    """Texts that are no number, or have other text before it."""
    name = "words"

    def cases(self, tier):
        for n in list(range(0, 130)) + [999, 1000, 1001, 21000, 10**6, 999999999]:
            for pre in ("x", "part ", "Voice", "music-", "1 ", "soprano_", "é"):
                yield [pre, n]
        for s in ("", "x", "music", "  ", "voice", "-", "é", "Tw", "hundre"):
            yield [s, None]

    def check(self, case, rec):
        pre, n = case
        got = N.text2int(pre + (english(n) if n is not None else ""))
        want = n or 0
        rec.step()
        rec.outcome([case, got])
        if got != want:
            raise core.Violation("text2int wrong", "{!r}: {} instead of {}".format(case, got, want))
        rec.trace()


def families():
    return [Range(), Large(), Invalid(), Injective(), Words()]
