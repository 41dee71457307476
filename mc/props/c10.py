"""C10: relative/absolute octaves and MIDI numbers."""

import itertools

from quickly.pitch import Pitch

from mc import core
from mc.core import Violation

S2 = [0, 2, 4, 5, 7, 9, 11]     # semitones
ALTERS = (-1, -0.75, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1)


class Relative(core.Family):
    """All pairs of (previous pitch, pitch), all octaves, all default octaves."""
    name = "relative"

    def cases(self, tier):
        o = range(-3, 4) if tier == "quick" else range(-6, 7)
        for po in o:
            for pn in range(7):
                yield [po, pn, [o.start, o.stop], len(ALTERS) if tier == "thorough" else 3]

    def check(self, case, rec):
        po, pn, (a, b), nalter = case
        alters = (0, -0.5, 1)[:nalter] if nalter == 3 else ALTERS
        for octave in range(a, b):
            for note in range(7):
                for alter, palter in itertools.product(alters, alters):
                    for default in (-1, 0, 1):
                        prev = Pitch(po, pn, palter)
                        rec.step()
                        # model: in staff steps, the unmarked note is the one at most a fourth away
                        prevstep = po * 7 + pn
                        near = next(o for o in range(-20, 21) if -3 <= o * 7 + note - prevstep <= 3)
                        # written relative with `marks` octave marks
                        marks = octave - default
                        p = Pitch(octave, note, alter)
                        p.make_absolute(prev, default)
                        want = (near + marks, note, alter)
                        if (p.octave, p.note, p.alter) != want:
                            raise Violation("make_absolute {} after {} default {}: {} != {}".format(
                                (octave, note, alter), (po, pn), default, p, want))
                        p.make_relative(prev, default)
                        if (p.octave, p.note, p.alter) != (octave, note, alter):
                            raise Violation("make_relative does not undo make_absolute: {} after {}".format(
                                (octave, note, alter), (po, pn)))
                        p = Pitch(octave, note, alter)
                        p.make_relative(prev, default)
                        if p.octave - default != octave - near:
                            raise Violation("make_relative {} after {} default {}: {}".format(
                                (octave, note, alter), (po, pn), default, p))
                        p.make_absolute(prev, default)
                        if (p.octave, p.note, p.alter) != (octave, note, alter):
                            raise Violation("make_absolute does not undo make_relative: {} after {}".format(
                                (octave, note, alter), (po, pn)))
                        if (prev.octave, prev.note, prev.alter) != (po, pn, palter):
                            raise Violation("previous pitch changed")
                        if rec.state((po, pn, octave, note, default)):
                            rec.trace()
                        rec.outcome(want)


class Chain(core.Family):
    """All melodies: making every note relative to the one before, and back."""
    name = "melody"

    def cases(self, tier):
        notes = [[-1, 0], [0, 3], [1, 6], [-2, 4], [0, 0]] if tier == "quick" else \
                [[-1, 0], [0, 3], [1, 6], [-2, 4], [0, 0], [2, 1], [-1, 5]]
        return core.words(notes, 5 if tier == "quick" else 6, 1)

    def check(self, case, rec):
        rec.state(case); rec.trace()
        mel = [Pitch(o, n, 0) for o, n in case]
        prev = Pitch(0, 0, 0)
        written = []
        for p in mel:
            q = p.copy()
            q.make_relative(prev)
            rec.step()
            written.append(q)
            prev = p
        prev = Pitch(0, 0, 0)
        for q, p in zip(written, mel):
            q = q.copy()
            q.make_absolute(prev)
            rec.step()
            if q != p:
                raise Violation("melody {} does not survive relative notation".format(case))
            prev = q
        rec.outcome([q.octave for q in written])


class Midi(core.Family):
    """All MIDI keys, all flats subsets; all pitches."""
    name = "midi"

    def cases(self, tier):
        black = [.5, 1.5, 3, 4, 5]
        for k in range(6):
            for f in itertools.combinations(black, k):
                yield ["flats", list(f), tier]
        yield ["pitches", None, tier]

    def check(self, case, rec):
        what, flats, tier = case
        rec.trace()
        if what == "flats":
            for key in range(-24, 150):
                p = Pitch.from_midi(key, None, tuple(flats))
                rec.step()
                rec.state((key, flats))
                h = (p.octave + 5) * 12 + S2[p.note] + p.alter * 2
                if h != key or p.to_midi() != key:
                    raise Violation("from_midi({}, flats={}) = {} which is key {}".format(key, flats, p, h))
                step = key % 12 / 2
                want = 0 if key % 12 in S2 else -0.5 if step in flats else 0.5
                if p.alter != want:
                    raise Violation("from_midi({}, flats={}) = {}, expected alteration {}".format(key, flats, p, want))
                d = Pitch.from_midi(key)
                dwant = 0 if key % 12 in S2 else -0.5 if step in (1.5, 5) else 0.5
                if d.to_midi() != key or d.alter != dwant:
                    raise Violation("from_midi({}) = {}".format(key, d))
                rec.outcome((p.octave, p.note, p.alter))
        else:
            for o in range(-5, 7):
                for n in range(7):
                    for a in (-1, -0.5, 0, 0.5, 1):
                        p = Pitch(o, n, a)
                        rec.step()
                        rec.state((o, n, a))
                        want = (o + 5) * 12 + S2[n] + int(a * 2)
                        if p.to_midi() != want:
                            raise Violation("to_midi {} = {}, expected {}".format((o, n, a), p.to_midi(), want))
                        q = Pitch.from_midi(p.to_midi())
                        if q.to_midi() != p.to_midi():
                            raise Violation("from_midi of to_midi {}".format((o, n, a)))
                        c = p.copy()
                        if c != p or c is p or not (c == p) or c < p or c > p or not (c <= p and c >= p):
                            raise Violation("copy/compare of {}".format((o, n, a)))
                        for q2 in (Pitch(o + 1, n, a), Pitch(o, n, a + 0.5)) + ((Pitch(o, n + 1, a),) if n < 6 else ()) + \
                                (Pitch(o + 1, 0, -1),):
                            if not (p < q2 and q2 > p and p <= q2 and q2 >= p and p != q2) or p == q2 or p > q2 or p >= q2 or q2 < p or q2 <= p:
                                raise Violation("ordering of {} and {}".format(p, q2))


def families():
    return [Relative(), Chain(), Midi()]


BOUNDS = {
    "quick": "octaves -3..3 squared, 7x7 steps, 3x3 alterations, 3 default octaves; all melodies up to 5 notes over 5 pitches; MIDI -24..149 with all 32 flat sets",
    "thorough": "octaves -6..6 squared, 9x9 alterations; all melodies up to 6 notes over 7 pitches",
}
ASSUMPTIONS = ["the default seven note scale"]
