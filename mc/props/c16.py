r"""C16: removing, scaling, transforming, copying and pasting rhythms."""

from fractions import Fraction as F

from mc import core, docs
from mc import rhythmref as ref
from quickly import rhythm
from quickly.dom import base, lily
from quickly.node import Range

BOUNDS = {
    "quick": "all sequences up to length 3 of 12 items and up to length 2 of 36 items (all kinds of durables, multiple scalings, tempo, tuplet, partial, after, comments, tweaks, bar checks, nested lists), lyric, drum and chord mode; "
             "every operation on every selection (all pairs of first and last durable; transforms: of sequences up to length 2), 12 transforms each with its inverse; pasting every rhythm up to length 3 of 3 durations and absent on all sequences up to length 2 of 8 items (length 3: rhythms up to length 2), once and cycling, on every selection",
    "thorough": "sequences up to length 4 (transform: 3) of 12 items, length 3 of 24 items and 2 of 36 items; transform selections of sequences up to length 3; target sequences up to length 4 of 8 items",
}
ASSUMPTIONS = ["transforms that lead to a duration longer than \\maxima, which can't be written, are left out"]

SMALL = ["c", "d4", "e8.", "<f a>8", "<f a>", "8", "\\skip 4", "g4*2/3", "{ d8 }", "c4-.", "r", "a2*3/2"]
MORE = SMALL + ["4*1/2", "a2*2", "q", "s8", "R1*2", "c\\rest", "a4\\rest", "\\tuplet 3/2 8 { f8 g }", "\\tempo 4. = 60", "g4*1", "\\skip { c2 }", "c-. 8", "|",
                "%{ x %}", "<< { e } { b8. } >>", "\\breve", "\\after 2 \\f", "\\repeat tremolo 4 c16", "\\partial 8*3", "<c e>4:16", "c4*1/3*2",
                "c4^\\markup \\score { { e'8*2 } }", "<>", "\\grace c16*3", "c4*3*1/3", "\\tuplet 3/2 { c8 }", "\\acciaccatura { c8.. }"]
MODES = {
    "music": "{ # }",
    "lyric": "\\lyricmode { # }",
    "drum": "\\drummode { # }",
    "chord": "\\chordmode { # }",
}
LYRIC = ["hoi", "hoi4", "8", "\\markup hoi", "\\markup hoi 4", "\"wil\"8*2", "--", "_4", "_", "\\skip 4"]
DRUM = ["bd", "bd4", "<bd sn>8*2", "<bd sn>", "8", "r4"]
CHORD = ["c", "c4:7", "e4*2/g", "r", "8", "s4"]


def sources(tier):
    n = 3 if tier == "quick" else 4
    for w in core.words(SMALL, n, 1):
        yield ["music", w]
    for w in core.words(MORE, n - 1, 1):
        if any(i not in SMALL for i in w) and (len(w) < 3 or all(i in MORE[:24] for i in w)):
            yield ["music", w]
    for m, a in (("lyric", LYRIC), ("drum", DRUM), ("chord", CHORD)):
        for w in core.words(a, n if m == "lyric" and tier == "quick" else n - 1 if m != "lyric" else n, 1):
            yield [m, w]


HANDLERS = ref.NAMES + ("Tempo", "Partial", "Tuplet", "After")


def blank(node):
    """Structure without the durations that are transformed."""
    out = []
    for n in node:
        if type(n).__name__ != "Duration" or type(node).__name__ not in HANDLERS:
            out.append(blank(n))
    return (type(node).__name__, repr(node.head) if hasattr(node, "head") else None, tuple(out))


def handlers(root):
    """All the durables and \\tempo, \\partial, \\tuplet and \\after commands that have a duration."""
    res = []

    def walk(node):
        if type(node).__name__ in HANDLERS and any(type(n).__name__ == "Duration" for n in node):
            res.append(node)
        for n in node:
            walk(n)
    walk(root)
    return res


def shift(dur, log, dots):
    """Transform a duration the slow way: base value and number of dots."""
    for b in range(3, -11, -1):
        base = F(2) ** b
        for n in range(12):
            if dur == base * (2 - F(1, 2 ** n)):
                n = max(0, n + dots)
                if b - log > 3:
                    return None
                return F(2) ** (b - log) * (2 - F(1, 2 ** n))
    raise ValueError(dur)


TRANSFORMS = [(1, 0, 1), (-1, 0, 1), (0, 1, 1), (0, -1, 1), (2, 0, 1), (0, 2, 1), (1, 1, 1), (-1, -1, 1), (0, 0, F(1, 3)), (0, 0, 2), (1, 1, F(2, 3)), (0, 0, 1)]


def split_comments(shape):
    """Return the shape without comments and the list of comments.

    A comment between a note and its duration is part of the note, and comes
    after the note when the duration is removed.

    """
    comments = []

    def walk(shape):
        name, head, children = shape
        if "Comment" in name:
            comments.append((name, head))
        return name, head, tuple(walk(c) for c in children if "Comment" not in c[0] or comments.append((c[0], c[1])))
    return walk(shape), comments


class Base(core.Family):
    def prepare(self, mode, items):
        text = MODES[mode].replace("#", " ".join(items))
        d = docs.parse(text)[1]
        return text, d

    def selections(self, d, whole=False):
        """Yield the (first, last) pairs of all selections, first (None, None)."""
        n = len(ref.durables(d))
        yield None, None
        if whole:
            return
        for i in range(n):
            for j in range(i, n):
                yield i, j

    def run(self, d, i, j, func):
        """Run func on a range of copy of d, return the copy."""
        d = d.copy()
        if i is None:
            func(d)
            return d, None
        nodes = ref.durables(d)
        r = Range.from_nodes(nodes[i], nodes[j])
        func(r)
        return d, nodes


class Remove(Base):
    name = "remove"

    def cases(self, tier):
        return sources(tier)

    def check(self, case, rec):
        text, d0 = self.prepare(*case)
        nodes0 = ref.durables(d0)
        own0 = [ref.own(n) for n in nodes0]
        bl = split_comments(ref.blank(d0))
        for i, j in self.selections(d0):
            lo, hi = (0, len(nodes0) - 1) if i is None else (i, j)
            for op in ("remove", "remove_scaling", "remove_fraction_scaling"):
                d, _ = self.run(d0, i, j, getattr(rhythm, op))
                result = d.write()
                where = "{!r}, {} {}-{}: {!r}".format(text, op, lo, hi, result)
                d1 = docs.parse(result)[1]
                nodes1 = ref.durables(d1)
                rec.step()
                if len(nodes1) != len(nodes0) or split_comments(ref.blank(d1)) != bl:
                    raise core.Violation("{}: something else changed".format(op), where)
                own1 = [ref.own(n) for n in nodes1]
                for k, (n, o0, o1) in enumerate(zip(nodes0, own0, own1)):
                    if not lo <= k <= hi or o0 is None:
                        ok = o0 == o1
                    elif op == "remove":
                        must_keep = ref.is_skip(n) or ref.bare(n)
                        may_keep = must_keep or ref.follows_bare(nodes0, k)
                        ok = o1 == o0 if must_keep else o1 in ((None, o0) if may_keep else (None,))
                    elif op == "remove_scaling":
                        ok = o1 == (o0[0], 1)
                    else:
                        ok = o1 == (o0 if o0[1].denominator == 1 else (o0[0], 1))
                    if not ok:
                        raise core.Violation("{}: wrong duration".format(op), "{}: durable {} had {} has {}".format(where, k, o0, o1))
                rec.state((lo, hi, tuple(own1)))
            rec.outcome(result)
        rec.trace()


class Transform(Base):
    name = "transform"

    def cases(self, tier):
        for mode, w in sources(tier):
            if len(w) < 4:
                yield mode, w, len(w) == 3 and not (tier != "quick" and all(i in SMALL for i in w))

    def check(self, case, rec):
        *case, short = case
        text, d0 = self.prepare(*case)
        written = d0.write()
        nodes0 = handlers(d0)
        own0 = [ref.own(n) for n in nodes0]
        bl = blank(d0)
        for i, j in self.selections(d0, short):
            for log, dots, scale in TRANSFORMS if i is None else TRANSFORMS[:4] + TRANSFORMS[10:11]:
                if i is None:
                    sel = [True] * len(nodes0)
                else:
                    ids = [id(n) for n in Range.from_nodes(ref.durables(d0)[i], ref.durables(d0)[j]).nodes()]
                    sel = [id(n) in ids for n in nodes0]
                if any(s and shift(o[0], log, dots) is None for o, s in zip(own0, sel)):
                    continue
                d, _ = self.run(d0, i, j, lambda r: rhythm.transform(r, log, dots, scale))
                result = d.write()
                where = "{!r}, {}-{}, transform {}: {!r}".format(text, i, j, (log, dots, scale), result)
                d1 = docs.parse(result)[1]
                nodes1 = handlers(d1)
                rec.step()
                if len(nodes1) != len(nodes0) or blank(d1) != bl:
                    raise core.Violation("transform: something else changed", where)
                for n, o0, n1, s in zip(nodes0, own0, nodes1, sel):
                    o1 = ref.own(n1)
                    want = (shift(o0[0], log, dots), o0[1] * (1 if isinstance(n, lily.Tempo) else scale)) if s else o0
                    if o1 != want:
                        raise core.Violation("transform: wrong duration", "{}: {} should be {}".format(where, o1, want))
                if dots >= 0:
                    # and back
                    def both(r):
                        rhythm.transform(r, log, dots, scale)
                        rhythm.transform(r, -log, -dots, 1 / F(scale))
                    d, _ = self.run(d0, i, j, both)
                    d1 = docs.parse(d.write())[1]
                    if [ref.own(n) for n in handlers(d1)] != own0 or blank(d1) != bl or scale == 1 and d.write() != written:
                        raise core.Violation("transforming and back is different", "{}: {!r}".format(where, d.write()))
                rec.outcome(result)
        rec.trace()
        rec.state((tuple(case[1]), len(own0)))


class Copy(Base):
    name = "copy"

    def cases(self, tier):
        return sources(tier)

    def check(self, case, rec):
        text, d0 = self.prepare(*case)
        written = d0.write()
        nodes0 = ref.durables(d0)
        own0 = [ref.own(n) for n in nodes0]
        eff0 = ref.effective(nodes0)
        bl = ref.blank(d0)
        for i, j in self.selections(d0):
            lo, hi = (0, len(nodes0) - 1) if i is None else (i, j)
            res = []
            for ex in (False, True):
                d, _ = self.run(d0, i, j, lambda r: res.append(rhythm.copy(r, ex)))
                want = (eff0 if ex else own0)[lo:hi+1]
                if [v and tuple(v) for v in res[-1]] != want:
                    raise core.Violation("copy: wrong durations", "{!r}, {}-{}, explicit={}: {} should be {}".format(text, lo, hi, ex, res[-1], want))
                if d.write() != written:
                    raise core.Violation("copy changes the music", "{!r} became {!r}".format(text, d.write()))
                d, _ = self.run(d0, i, j, lambda r: rhythm.paste(r, res[-1]))
                result = d.write()
                rec.step(2)
                where = "{!r}, copy and paste {}-{}, explicit={}: {!r}".format(text, lo, hi, ex, result)
                d1 = docs.parse(result)[1]
                nodes1 = ref.durables(d1)
                if ref.blank(d1) != bl or ref.effective(nodes1) != eff0:
                    raise core.Violation("pasting what was copied changes the music", where)
                if not ex and result != written:
                    raise core.Violation("pasting what was copied changes the text", where)
                rec.outcome(result)
        rec.trace()
        rec.state((case, tuple(eff0)))


DURS = [(F(1, 4), F(1)), (F(3, 16), F(1, 2)), (F(1, 2), 1), None]
TARGET = ["c", "d4", "e8*2", "<f a>2", "8", "\\skip 4", "{ d }", "c4-."]


class Paste(Base):
    name = "paste"

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        for w in core.words(TARGET, n, 1):
            yield ["music", w, 2 if len(w) > 2 else 3]
        for w in core.words(LYRIC, n - 1, 1):
            yield ["lyric", w, 3]
        for w in core.words(CHORD, n - 1, 1):
            yield ["chord", w, 3]

    def check(self, case, rec):
        mode, items, size = case
        text, d0 = self.prepare(mode, items)
        nodes0 = ref.durables(d0)
        own0 = [ref.own(n) for n in nodes0]
        bl = ref.blank(d0)
        for durs in core.words(list(range(4)), size, 1):
            durs = [DURS[k] for k in durs]
            for i, j in self.selections(d0):
                lo, hi = (0, len(nodes0) - 1) if i is None else (i, j)
                for cycle, k0 in (True, 0), (False, len(durs) % 2):
                    d, _ = self.run(d0, i, j, lambda r: rhythm.PasteRhythm(durs, cycle).edit(r) if k0 else rhythm.paste(r, durs) if cycle else rhythm.paste(r, durs, cycle=False))
                    result = d.write()
                    rec.step()
                    where = "{!r}, paste {} on {}-{}, cycle={}: {!r}".format(text, durs, lo, hi, cycle, result)
                    d1 = docs.parse(result)[1]
                    nodes1 = ref.durables(d1)
                    if ref.blank(d1) != bl or len(nodes1) != len(nodes0):
                        raise core.Violation("paste: something else changed", where)
                    prev = None
                    for k, (n, o0) in enumerate(zip(nodes0, own0)):
                        o1 = ref.own(nodes1[k])
                        if not lo <= k <= hi or not cycle and k - lo >= len(durs):
                            ok = o1 == o0
                        else:
                            v = durs[(k - lo) % len(durs)]
                            if v:
                                ok = o1 == v
                            elif ref.is_skip(n) or ref.bare(n):
                                ok = o1 == (prev or o0)
                            elif ref.follows_bare(nodes0, k):
                                ok = o1 in (None, prev or o0)
                            else:
                                ok = o1 is None
                            if v and not ref.is_skip(n):
                                prev = v
                        if not ok:
                            raise core.Violation("paste: wrong duration", "{}: durable {} had {} has {}".format(where, k, o0, o1))
                    rec.outcome(result)
        rec.trace()
        rec.state((tuple(items), len(own0)))


def families():
    return [Remove(), Transform(), Copy(), Paste()]
