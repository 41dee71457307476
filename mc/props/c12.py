"""C12: interval arithmetic of Transposer against an independent interval algebra."""

from fractions import Fraction as F

from mc import core
from quickly.pitch import Pitch
from quickly.transpose import Transposer

BOUNDS = {
    "quick": "all start and end pitches (7 steps x 5 alterations, octave differences -2..2, default and one other scale) x all pitches (7 steps x 9 quarter tone alterations x octaves -1..1); "
             "all pairs of intervals from 7 start pitches to 105 end pitches in 3 octaves, added and subtracted, on 14 pitches",
    "thorough": "as quick, with quarter tone alterations also in start and end pitches, pitches in octaves -3..3, all pairs of 735 intervals (both operands with any start step) on 35 pitches",
}
ASSUMPTIONS = ["the transposer's scale spans six whole tones, as in all LilyPond music"]

MAJOR = (0, 1, 2, 2.5, 3.5, 4.5, 5.5)
OTHER = (0, 1, 1.5, 3, 3.5, 4.5, 5)
HALVES = (-1, -0.5, 0, 0.5, 1)
QUARTERS = tuple(x / 4 for x in range(-4, 5))


def height(p, scale):
    return p[0] * 6 + scale[p[1]] + p[2]


def spell(step, h, scale):
    """The pitch on the staff step, sounding at h."""
    o, n = divmod(step, 7)
    return (o, n, h - o * 6 - scale[n])


def ref(frm, to, p, scale):
    """Return (pitch, respelled)."""
    h = height(p, scale) + height(to, scale) - height(frm, scale)
    step = p[0] * 7 + p[1] + to[0] * 7 + to[1] - frm[0] * 7 - frm[1]
    r = spell(step, h, scale)
    if -1 <= r[2] <= 1:
        return r, False
    direction = 1 if r[2] > 1 else -1
    while not (r[2] <= 1 if direction > 0 else r[2] >= -1):
        step += direction
        r = spell(step, h, scale)
    return r, True


def apply(t, p):
    q = Pitch(*p)
    t.transpose(q)
    return (q.octave, q.note, q.alter)


class Single(core.Family):
    name = "single"

    def cases(self, tier):
        alters = HALVES if tier == "quick" else QUARTERS
        for scale in (MAJOR, OTHER):
            for n in range(7):
                for a in alters:
                    for octave in (-1, 0):
                        yield [scale, [octave, n, a], tier]

    def check(self, case, rec):
        scale, frm, tier = case
        quick = tier == "quick"
        frm = tuple(frm)
        for o in range(frm[0] - 2, frm[0] + 3):
            for n in range(7):
                for a in HALVES if quick else QUARTERS:
                    to = (o, n, a)
                    args = (Pitch(*frm), Pitch(*to)) if scale == MAJOR else (Pitch(*frm), Pitch(*to), scale)
                    t = Transposer(*args)
                    back = Transposer(*((args[1], args[0]) + args[2:]))
                    if (args[0]._as_tuple(), args[1]._as_tuple()) != (frm, to):
                        raise core.Violation("transposer changes its pitches")
                    if apply(t, frm) != to:
                        raise core.Violation("start pitch is not mapped to end pitch", repr((frm, to, apply(t, frm))))
                    for po in range(-1, 2) if quick else range(-3, 4):
                        for pn in range(7):
                            for pa in QUARTERS:
                                p = (po, pn, pa)
                                want, respelled = ref(frm, to, p, scale)
                                got = apply(t, p)
                                rec.step()
                                if got != want:
                                    raise core.Violation("transposed pitch wrong", "{} -> {}: {} gives {}, expected {}".format(frm, to, p, got, want))
                                b = apply(back, got)
                                if height(b, scale) != height(p, scale) or (not respelled and b != p):
                                    raise core.Violation("reverse interval does not restore the pitch", "{} -> {}: {} gives {}, back {}".format(frm, to, p, got, b))
                    rec.state([frm, to, scale])
                    rec.outcome([t.octave, t.steps, t.alter])
        rec.trace()


class Algebra(core.Family):
    name = "algebra"

    def cases(self, tier):
        for n in range(7):
            for o in (-1, 0, 1):
                for m in range(7):
                    for a in HALVES:
                        yield [[0, n, 0], [o, m, a], tier]

    def check(self, case, rec):
        frm, to, tier = case
        frm, to = tuple(frm), tuple(to)
        quick = tier == "quick"
        t1 = Transposer(Pitch(*frm), Pitch(*to))
        pitches = [(o, n, a) for o in ((0,) if quick else (0,)) for n in range(7) for a in ((0, 0.5) if quick else HALVES)]
        for n2 in ((0, 5) if quick else range(7)):
            f2 = (0, n2, 0)
            for o in (-1, 0, 1):
                for m in range(7):
                    for a in HALVES:
                        to2 = (o, m, a)
                        t2 = Transposer(Pitch(*f2), Pitch(*to2))
                        add = t1 + t2
                        sub = t1 - t2
                        both = (t1 + t2) - t2
                        zero = t1 - t1
                        for p in pitches:
                            rec.step(4)
                            q, r1 = ref(frm, to, p, MAJOR)
                            for name, t, f, g in (("+", add, f2, to2), ("-", sub, to2, f2)):
                                want, r2 = ref(f, g, q, MAJOR)
                                got = apply(t, p)
                                if height(got, MAJOR) != height(want, MAJOR) or (not r1 and got != want):
                                    raise core.Violation("t1 {} t2 is not t1 followed by {}t2".format(name, "" if name == "+" else "reversed "),
                                                         "{}->{} {} {}->{}: {} gives {}, expected {}".format(frm, to, name, f2, to2, p, got, want))
                            if apply(both, p) != q:
                                raise core.Violation("(t1 + t2) - t2 is not t1", repr((frm, to, f2, to2, p)))
                            if apply(zero, p) != p:
                                raise core.Violation("t1 - t1 changes a pitch", repr((frm, to, p)))
        rec.trace()


class Fractions(core.Family):
    """Alterations given as fractions."""
    name = "fractions"

    def cases(self, tier):
        for d in (3, 4, 9):
            for n in range(7):
                for m in range(7):
                    yield [d, n, m]

    def check(self, case, rec):
        d, n, m = case
        scale = tuple(F(x) for x in MAJOR)
        for k in range(-d, d + 1):
            frm, to = (0, n, F(k, d)), (1, m, F(1, d))
            t = Transposer(Pitch(*frm), Pitch(*to), scale)
            for pn in range(7):
                p = (0, pn, F(k, d))
                rec.step()
                want = ref(frm, to, p, scale)[0]
                if apply(t, p) != want:
                    raise core.Violation("transposed pitch wrong", repr((frm, to, p, want)))
        rec.trace()


def families():
    return [Single(), Algebra(), Fractions()]
