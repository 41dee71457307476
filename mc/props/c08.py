"""C08: duration arithmetic is exact."""

import itertools
from fractions import Fraction

from quickly import duration as D
from quickly.dom import lily, read

from mc import core
from mc.core import Violation

NAMES = {-1: "\\breve", -2: "\\longa", -3: "\\maxima"}


def model(log, dots):
    """Sum of the note and its dots, one by one."""
    base = Fraction(1) / Fraction(2) ** log
    return sum((base / 2 ** d for d in range(dots + 1)), Fraction(0))


def text(log, dots):
    return (NAMES[log] if log < 0 else str(2 ** log)) + "." * dots


def bounds(tier):
    return (range(-3, 11), range(0, 9)) if tier == "quick" else (range(-3, 11), range(0, 21))


class Values(core.Family):
    """All (log, dots) values: conversions, string notation, shifting."""
    name = "values"

    def cases(self, tier):
        logs, dots = bounds(tier)
        for log in logs:
            for d in dots:
                yield [log, d, tier]

    def check(self, case, rec):
        log, d, tier = case
        def eq(what, got, want):
            rec.step()
            if got != want or type(got) is not type(want):
                raise Violation("{} for log {} dots {}: got {!r}, expected {!r}".format(what, log, d, got, want))
        v = model(log, d)
        rec.state((log, d)); rec.trace()
        eq("duration", D.duration(log, d), v)
        eq("log_dotcount", tuple(D.log_dotcount(v)), (log, d))
        eq("log_dotcount float", tuple(D.log_dotcount(float(v))), (log, d))
        eq("to_string", D.to_string(v), text(log, d))
        eq("from_string", D.from_string(text(log, d)), v)
        eq("from_string dotcount", D.from_string(text(log, 0), d), v)
        eq("from_string spaces", D.from_string(" {} . ".format(text(log, 0))), model(log, 1))
        if log < 0:
            eq("from_string no backslash", D.from_string(text(log, d)[1:]), v)
        if v >= Fraction(1, 1024) and v < 16:
            eq("is_writable", bool(D.is_writable(v)), True)
            eq("is_writable float", bool(D.is_writable(float(v))), True)
        eq("writable tripled", bool(D.is_writable(v / 3)), _writable(v / 3))
        logs, dots = bounds(tier)
        for dl in range(-14, 15):
            if log + dl not in logs:
                continue
            for dd in range(-9, 10):
                want = model(log + dl, max(0, d + dd))
                rec.state((log, d, dl, dd))
                eq("shift_duration {} {}".format(dl, dd), D.shift_duration(v, dl, dd), want)
                t = D.Transform(dl, dd, Fraction(2, 3))
                eq("transform", t.transform(v, Fraction(1, 5)),
                   ((want if dl or dd else v), Fraction(2, 15)))
                eq("length", t.length(v, 3), (want if dl or dd else v) * 2)
                eq("bool", bool(t), True)
                eq("bool", bool(D.Transform(dl, dd)), bool(dl or dd))
        eq("bool", bool(D.Transform()), False)
        rec.outcome(v)


def _writable(v):
    """v equals one of the writable durations (model: search)."""
    if not Fraction(1, 1024) <= v < 16:
        return False
    for log in range(-3, 11):
        base = Fraction(1) / Fraction(2) ** log
        if base <= v < 2 * base:
            rest = 2 * base - v
            while rest < base:
                rest *= 2
            return rest == base
    return False


class Truncate(core.Family):
    """All fractions n/m in a grid: truncation and writability."""
    name = "truncate"

    def cases(self, tier):
        for m in ([1, 2, 3, 5, 8, 12, 64, 1024] if tier == "quick" else list(range(1, 65)) + [128, 256, 512, 1024, 3072]):
            yield [m]

    def check(self, case, rec):
        m, = case
        for n in range(1, 16 * m):
            v = Fraction(n, m)
            if not Fraction(1, 1024) <= v:
                continue
            rec.step()
            rec.state((n, m))
            log = 10
            while Fraction(1) / Fraction(2) ** log > v or Fraction(2) / Fraction(2) ** log <= v:
                log -= 1
            dots = 0
            while dots < 20 and model(log, dots + 1) <= v:
                dots += 1
            got = tuple(D.log_dotcount(v))
            if dots < 20 and got != (log, dots):
                raise Violation("log_dotcount({}) = {}, expected {}".format(v, got, (log, dots)))
            if bool(D.is_writable(v)) != _writable(v):
                raise Violation("is_writable({}) is {}".format(v, D.is_writable(v)))
            if dots < 20 and D.to_string(v) != text(log, dots):
                raise Violation("to_string({}) = {}".format(v, D.to_string(v)))
            rec.outcome(got)
        rec.trace()


class Compose(core.Family):
    """All pairs and triples of transforms, applied to all values."""
    name = "compose"
    PARTS = [(0, 0, 1), (1, 0, 1), (-1, 0, 1), (0, 1, 1), (1, 1, Fraction(1, 2)), (0, 0, Fraction(2, 3)),
             (-2, 0, 3), (2, 2, Fraction(3, 4))]

    def cases(self, tier):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            for p in itertools.product(range(len(self.PARTS)), repeat=n):
                yield list(p)

    def check(self, case, rec):
        parts = [self.PARTS[i] for i in case]
        rec.state(("c", case)); rec.trace()
        total = D.Transform(*parts[0])
        for p in parts[1:]:
            total = total + D.Transform(*p)
            rec.step()
        for log in range(2, 5):
            for d in range(0, 3):
                v, s = model(log, d), Fraction(1, 7)
                wl, wd, ws = log, d, s
                for l, dd, sc in parts:
                    wl, wd, ws = wl + l, wd + dd, ws * sc
                if wl < -3:
                    continue
                got = total.transform(v, s)
                step = (v, s)
                for p in parts:
                    step = D.Transform(*p).transform(*step)
                    rec.step()
                want = (model(wl, wd), ws)
                if got != want or step != want or total.length(v, s) != want[0] * want[1]:
                    raise Violation("transforms {} on {}: combined {}, one by one {}, expected {}".format(
                        parts, (log, d), got, step, want))
                rec.outcome(want)
        if bool(total) != any((sum(p[0] for p in parts), sum(p[1] for p in parts), _prod(parts) != 1)):
            raise Violation("bool of combined transform {}".format(parts))


def _prod(parts):
    r = 1
    for p in parts:
        r = r * p[2]
    return r


class Invalid(core.Family):
    """All short strings over an alphabet: accepted iff a valid duration."""
    name = "strings"
    ALPHABET = ["1", "2", "3", "4", "6", "8", "0", "-", ".", " ", "\\breve", "longa", "x"]

    def cases(self, tier):
        return core.words(self.ALPHABET, 3 if tier == "quick" else 4, 1)

    def check(self, case, rec):
        t = "".join(case)
        base = t.strip(" .")
        dots = t.count(".")
        want = None
        if base.lstrip("\\") in ("breve", "longa", "maxima"):
            want = model({"breve": -1, "longa": -2, "maxima": -3}[base.lstrip("\\")], dots)
        elif base.isdigit() and base[0] != "0":
            n = int(base)
            if n & (n - 1) == 0:
                want = model(n.bit_length() - 1, dots)
        if "." in base or " " in base or any(c in t[:t.find(base)] for c in ".") or base[:1] == "0":
            return  # odd placement of dots: unspecified
        rec.step(); rec.state(t); rec.trace()
        try:
            got = D.from_string(t)
        except ValueError:
            got = None
        rec.outcome(got)
        if got != want:
            raise Violation("from_string({!r}) = {}, expected {}".format(t, got, want or "ValueError"))


def families():
    return [Values(), Truncate(), Compose(), Invalid()]


BOUNDS = {
    "quick": "log -3..10, 0..8 dots, all shifts keeping log in range; all n/m < 16 for 8 denominators; all sums of up to 3 transforms; strings up to 3 tokens",
    "thorough": "log -3..10, 0..20 dots, all shifts; all n/m < 16 for 69 denominators; all sums of up to 5 transforms; strings up to 4 tokens",
}
ASSUMPTIONS = ["durations between 1/1024 and maxima (LilyPond's own range)"]
