r"""C15: explicit, implicit and implicit-per-line durations."""

import re

import parce

from mc import core, docs
from mc import rhythmref as ref
from quickly import rhythm
from quickly.node import Range
from quickly.rhythm import RhythmExplicit, RhythmImplicit, RhythmImplicitPerLine

BOUNDS = {
    "quick": "all sequences up to length 4 of 12 items and up to length 3 of 30 items (notes, chords, rests, skips, unpitched notes, scaled durations, tuplets, grace notes, nested lists, tempo marks, comments), up to length 4 of lyric items, length 3 of drum and chord mode items; "
             "per-line: all sequences up to length 4 of 9 items with a line break before any of them; every selection (all pairs of first and last durable) of sequences up to length 3",
    "thorough": "sequences up to length 5 of 12 items, length 4 of 23 items, per-line and selections one longer",
}
ASSUMPTIONS = ["a note without duration directly before an unpitched note is read with that duration (as LilyPond does)"]

SMALL = ["c", "d4", "e8", "<f a>8", "<f a>", "8", "\\skip 4", "g4*2", "{ d8 }", "\\grace c16", "c4-.", "r"]
MORE = SMALL + ["4", "q", "s8", "R1*2", "c\\rest", "a4\\rest", "\\tuplet 3/2 8 { f8 g }", "\\tempo 4 = 60", "g4*1", "\\skip { c2 }",
                "c1*2/3*3/4", "%{ x %}", "<< { e } { b8. } >>", "\\breve", "\\after 2 \\f", "\\repeat tremolo 4 c16", "\\partial 8", "<c e>4:16", "c4^\\markup \\score { { e' } }", "<>", "\\octaveCheck c'"]
MODES = {
    "music": "{ # }",
    "lyric": "\\lyricmode { # }",
    "drum": "\\drummode { # }",
    "chord": "\\chordmode { # }",
    "relative": "x = \\relative c' { # } { c8 8 }",
}
LYRIC = ["hoi", "hoi4", "doe8", "8", "\\markup hoi", "\\markup hoi 4", "\"wil\"", "\"wil\"8", "--", "_", "_4", "\\skip 4", "__", "#\"x\"4"]
DRUM = ["bd", "bd4", "<bd sn>8", "<bd sn>", "8", "r4", "hh8-."]
CHORD = ["c", "c4:7", "d:maj7", "e4/g", "f8:7", "r", "8", "s4"]


def words(tier, extra=0):
    deep = tier != "quick"
    for w in core.words(SMALL, (5 if deep else 4) + extra, 1):
        yield ["music", w]
    for w in core.words(MORE, (4 if deep else 3) + extra, 1):
        if deep and len(w) == 4 and any(i in MORE[23:] for i in w):
            continue
        yield ["music", w]
    for w in core.words(LYRIC, (4 if deep else 3) + extra, 1):
        yield ["lyric", w]
    for w in core.words(DRUM, 3 + extra, 1):
        yield ["drum", w]
    for w in core.words(CHORD, 3 + extra, 1):
        yield ["chord", w]
    for w in core.words(SMALL, 2, 0):
        yield ["relative", w]


def check_same(what, text, result, nodes0, bl):
    """Check that the effective durations and everything else are the same."""
    d1 = docs.parse(result)[1]
    nodes1 = ref.durables(d1)
    where = "{!r} became {!r}".format(text, result)
    if [type(n) for n in nodes0] != [type(n) for n in nodes1]:
        raise core.Violation("{}: other notes".format(what), where)
    if ref.effective(nodes0) != ref.effective(nodes1):
        raise core.Violation("{}: effective duration changed".format(what), "{}: {} became {}".format(
            where, ref.effective(nodes0), ref.effective(nodes1)))
    if ref.blank(d1) != bl:
        raise core.Violation("{}: something else changed".format(what), where)
    return nodes1


def check_explicit(nodes1, text, result):
    if any(ref.own(n) is None for n in nodes1):
        raise core.Violation("explicit: a note without duration is left", "{!r} became {!r}".format(text, result))


def check_implicit(nodes1, text, result):
    cur = None
    for i, n in enumerate(nodes1):
        d = ref.own(n)
        if d is None:
            continue
        if d == cur and not ref.is_skip(n) and not ref.bare(n) and not ref.follows_bare(nodes1, i):
            raise core.Violation("implicit: a repeated duration is left", "{!r} became {!r}".format(text, result))
        if not ref.is_skip(n):
            cur = d


class Whole(core.Family):
    name = "whole"

    def cases(self, tier):
        return words(tier)

    def check(self, case, rec):
        mode, items = case
        text = MODES[mode].replace("#", " ".join(items))
        d0 = docs.parse(text)[1]
        nodes0 = ref.durables(d0)
        bl = ref.blank(d0)
        # explicit
        d = d0.copy()
        rhythm.explicit(d)
        ex = d.write()
        check_explicit(check_same("explicit", text, ex, nodes0, bl), text, ex)
        rhythm.explicit(d)
        if d.write() != ex:
            raise core.Violation("explicit: the second time changes something", "{!r}: {!r} became {!r}".format(text, ex, d.write()))
        # implicit
        d = d0.copy()
        rhythm.implicit(d)
        im = d.write()
        check_implicit(check_same("implicit", text, im, nodes0, bl), text, im)
        rhythm.implicit(d)
        if d.write() != im:
            raise core.Violation("implicit: the second time changes something", "{!r}: {!r} became {!r}".format(text, im, d.write()))
        # without a document per-line is the same
        rhythm.implicit(d0, True)
        if d0.write() != im:
            raise core.Violation("implicit per line without a document differs from implicit", "{!r}: {!r} became {!r}".format(text, im, d0.write()))
        # and one after the other
        rhythm.explicit(d)
        check_explicit(check_same("explicit after implicit", text, d.write(), nodes0, bl), text, d.write())
        rec.step(5)
        rec.trace()
        rec.outcome((ex, im))
        rec.state(ref.effective(nodes0))


LINE = ["c", "d4", "e8", "<f a>8", "8", "\\skip 4", "{ d4 }", "c4-.", "\\grace c8"]


def check_lines(text, result, nodes1, first, last):
    """For every line: the first one has a duration, repeated ones have not."""
    ends = [i for i, c in enumerate(result) if c == "\n"]
    line = lambda n: sum(e < n.pos for e in ends)
    where = "{!r} became {!r}".format(text, result)
    cur = None
    eff = ref.effective(nodes1)
    for i, n in enumerate(nodes1):
        d = ref.own(n)
        if not first <= i <= last:
            cur = (line(n), eff[i]) if i < first and not ref.is_skip(n) else cur
            continue
        prev = [m for m in nodes1[:i] if line(m) == line(n) and not ref.is_skip(m)]
        if ref.is_skip(n):
            continue
        if not prev and d is None:
            raise core.Violation("implicit per line: first note on a line has no duration", where)
        if prev and d and first < i and nodes1.index(prev[-1]) >= first and eff[nodes1.index(prev[-1])] == d and not ref.bare(n) and not ref.follows_bare(nodes1, i):
            raise core.Violation("implicit per line: repeated duration is left", where)


class PerLine(core.Family):
    name = "per-line"

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        for w in core.words([s + i for i in LINE for s in ("", "\n")], n, 1):
            yield w
        if tier == "quick":
            for w in core.words([s + i for i in LINE[:5] for s in ("", "\n")], 4, 4):
                yield w

    def check(self, items, rec):
        for text in ("{" + " ".join([""] + items) + " }", "{ c4" + " ".join([""] + items) + "\n}"):
            d0 = docs.parse(text)[1]
            nodes0 = ref.durables(d0)
            bl = ref.blank(d0)
            doc = docs.document(text)
            rhythm.implicit(doc, True)
            result = doc.text()
            nodes1 = check_same("implicit per line", text, result, nodes0, bl)
            split = re.search(r"c *\n8", text)    # a duration not on the line of its note
            if result.count("\n") != text.count("\n") and not split:
                raise core.Violation("implicit per line: lines changed", "{!r} became {!r}".format(text, result))
            if not split:
                check_lines(text, result, nodes1, 0, len(nodes1))
            rhythm.implicit(doc, True)
            if doc.text() != result and not split:
                raise core.Violation("implicit per line: the second time changes something", "{!r}: {!r} became {!r}".format(text, result, doc.text()))
            rec.step(2)
            rec.outcome(result)
        rec.trace(2)
        rec.state(result)


class Selection(core.Family):
    name = "selection"

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        for w in core.words(SMALL + ["\nc", "\nd4", "\ne8"], n, 1):
            yield ["music", w]
        for w in core.words(LYRIC[:8], n, 2):
            yield ["lyric", w]

    def check(self, case, rec):
        mode, items = case
        text = MODES[mode].replace("#", " ".join(items))
        d0 = docs.parse(text)[1]
        nodes0 = ref.durables(d0)
        owns0 = [ref.own(n) for n in nodes0]
        bl = ref.blank(d0)
        for i in range(len(nodes0)):
            for j in range(i, len(nodes0)):
                last = nodes0[j]
                for op in ("explicit", "implicit", "per-line"):
                    if op == "per-line":
                        if "\n" not in text or nodes0[i].pos >= nodes0[j].end:
                            continue
                        doc = docs.document(text)
                        RhythmImplicitPerLine().edit(parce.Cursor(doc, nodes0[i].pos, max(nodes0[j].end, nodes0[i].end)))
                        result = doc.text()
                    else:
                        d = d0.copy()
                        nodes = ref.durables(d)
                        r = Range.from_nodes(nodes[i], nodes[j])
                        (RhythmExplicit if op == "explicit" else RhythmImplicit)().edit_range(r)
                        result = d.write()
                    rec.step()
                    nodes1 = check_same("{} on a selection".format(op), text, result, nodes0, bl)
                    where = "{!r}, {} to {}, became {!r}".format(text, i, j, result)
                    for k, n in enumerate(nodes1):
                        if not i <= k <= j and ref.own(n) != owns0[k]:
                            raise core.Violation("{}: duration outside the selection is changed".format(op), where)
                        elif op == "explicit" and i <= k <= j and ref.own(n) is None:
                            raise core.Violation("explicit: note in the selection has no duration", where)
                    if op == "implicit":
                        cur = None
                        for k in range(i, j + 1):
                            n = nodes1[k]
                            o = ref.own(n)
                            if o and o == cur and not ref.is_skip(n) and not ref.bare(n) and not ref.follows_bare(nodes1, k):
                                raise core.Violation("implicit: a repeated duration is left in the selection", where)
                            if o and not ref.is_skip(n):
                                cur = o
                    elif op == "per-line":
                        check_lines(text, result, nodes1, i, j)
        rec.trace()
        rec.outcome(text)


def families():
    return [Whole(), PerLine(), Selection()]
