"""C11: key signatures and scales spell pitches right."""

import itertools

from quickly import key as K
from quickly.pitch import Pitch, PitchProcessor

from mc import core
from mc.core import Violation

W = [0, 1, 2, 2.5, 3.5, 4.5, 5.5]
#: whole/half step patterns, written out by hand
STEPS = {
    "ionian": "wwhwwwh", "dorian": "whwwwhw", "phrygian": "hwwwhww", "lydian": "wwwhwwh",
    "mixolydian": "wwhwwhw", "aeolian": "whwwhww", "locrian": "hwwhwww",
    "major": "wwhwwwh", "minor": "whwwhww",
}
OFFSET = {"ionian": 0, "dorian": 1, "phrygian": 2, "lydian": 3, "mixolydian": 4, "aeolian": 5, "locrian": 6,
          "major": 0, "minor": 5}
CUSTOM = [[0, -0.5, 0, 0, 0, -0.5, -0.5], [0.5, 0, -0.5, 0.5, 0, 0, -0.5]]


def heights(mode):
    """Height above the tonic of the seven degrees."""
    if isinstance(mode, str):
        h = [0]
        for c in STEPS[mode][:-1]:
            h.append(h[-1] + (1 if c == "w" else 0.5))
        return h
    return [w + m for w, m in zip(W, mode)]


def signature(note, alter, mode):
    accs = [None] * 7
    for d, h in enumerate(heights(mode)):
        o, letter = divmod(note + d, 7)
        accs[letter] = W[note] + alter + h - (W[letter] + 6 * o)
    return accs


class Signatures(core.Family):
    """All tonics, alterations and modes; all MIDI keys; all sets of flats."""
    name = "signatures"

    def cases(self, tier):
        alters = (-0.5, 0, 0.5) if tier == "quick" else (-1, -0.5, 0, 0.5, 1)
        for note in range(7):
            for alter in alters:
                for mode in list(STEPS) + CUSTOM:
                    yield [note, alter, mode, tier]

    def check(self, case, rec):
        note, alter, mode, tier = case
        want = signature(note, alter, mode)
        m = K.alterations(OFFSET[mode]) if isinstance(mode, str) else mode
        rec.trace()
        rec.step()
        if isinstance(mode, str) and list(m) != [h - w for h, w in zip(heights(mode), W)]:
            raise Violation("alterations for {}: {}".format(mode, m))
        got = K.accidentals(note, alter, m)
        if list(got) != want:
            raise Violation("accidentals{} = {}, expected {}".format((note, alter, mode), got, want))
        sig = K.KeySignature(note, alter, mode)
        if list(sig.accidentals) != want:
            raise Violation("KeySignature{}.accidentals = {}, expected {}".format((note, alter, mode), sig.accidentals, want))
        repr(sig)
        rec.outcome(want)
        inscale = {}
        for letter, a in enumerate(want):
            inscale[int((W[letter] + a) * 2) % 12] = (letter, a)
        black = [.5, 1.5, 3, 4, 5]
        sets = [None] + [f for k in range(6) for f in itertools.combinations(black, k)]
        if tier == "quick":
            sets = [None, (), tuple(black), (1.5, 4, 5), [0.5]]
        for flats in sets:
            for midi in range(-13, 140) if flats is None else range(58, 74):
                p = sig.pitch(midi) if flats is None else sig.pitch(midi, flats)
                rec.step()
                rec.state((note, alter, mode, midi, flats))
                h = (p.octave + 5) * 12 + (W[p.note] + p.alter) * 2
                if h != midi or p.to_midi() != midi:
                    raise Violation("KeySignature{}.pitch({}, {}) = {} sounds as {}".format(
                        (note, alter, mode), midi, flats, p, h))
                if midi % 12 in inscale and len(inscale) == 7 and (p.note, p.alter) != inscale[midi % 12]:
                    raise Violation("KeySignature{}.pitch({}, {}) = {}, in the scale it is {}".format(
                        (note, alter, mode), midi, flats, p, inscale[midi % 12]))
        # the attribute is read if no argument is given
        for flats in sets[1:4]:
            sig2 = K.KeySignature(note, alter, mode)
            sig2.flats = flats
            for midi in range(60, 72):
                rec.step()
                if sig2.pitch(midi) != sig.pitch(midi, flats):
                    raise Violation("flats attribute not used", (case, flats, midi))


class Scales(core.Family):
    """chromatic_scale() for all keys, tonic() for all signatures."""
    name = "scales"

    def cases(self, tier):
        yield ["tonic"]
        for note in range(7):
            for alter in (-1, -0.5, 0, 0.5, 1):
                yield ["chromatic", note, alter]

    def check(self, case, rec):
        rec.trace()
        if case[0] == "tonic":
            for sf in range(-21, 22):
                note, alter = K.tonic(sf)
                rec.step(); rec.state(sf); rec.outcome((note, alter))
                # a fifth is four steps and 3.5 whole tones
                n = (4 * sf) % 7
                o = (4 * sf - n) // 7
                if (note, alter) != (n, 3.5 * sf - W[n] - 6 * o):
                    raise Violation("tonic({}) = {}".format(sf, (note, alter)))
                accs = signature(note, alter, "major")
                if sum(accs) * 2 != sf:
                    raise Violation("tonic({}) = {} has {} accidentals".format(sf, (note, alter), accs))
            return
        _, note, alter = case
        black = [.5, 1.5, 3, 4, 5]
        for flats in [None] + [f for k in range(6) for f in itertools.combinations(black, k)]:
            cs = K.chromatic_scale(note, alter, None, flats)
            rec.step(); rec.state((note, alter, flats)); rec.outcome(cs)
            if len(cs) != 12:
                raise Violation("chromatic_scale has {} steps".format(len(cs)))
            for i, (n, a) in enumerate(cs):
                if (W[n] + a) % 6 != i / 2:
                    raise Violation("chromatic_scale{}: step {} is {}".format((note, alter, flats), i, (n, a)))
            if (note, alter) not in cs:
                raise Violation("chromatic_scale{}: tonic is not in the scale".format((note, alter, flats)))
            major = {(l, a) for l, a in enumerate(signature(note, alter, "major"))}
            if not major <= set(cs):
                raise Violation("chromatic_scale{}: the major scale is not in it".format((note, alter, flats)))
            f = (1.5, 5) if flats is None else flats
            if (note, alter) == (0, 0):
                for i, (n, a) in enumerate(cs):
                    want = 0 if i / 2 in W else -0.5 if i / 2 in f else 0.5
                    if a != want:
                        raise Violation("chromatic_scale(flats={}) step {}: {}".format(flats, i, (n, a)))


class Music(core.Family):
    r"""All \key commands in music: the pitch and mode are read back."""
    name = "key command"

    def cases(self, tier):
        for t in ("c", "cis", "des", "d", "es", "e", "f", "fis", "g", "as", "a", "bes", "b", "ces"):
            for mode in STEPS:
                yield [t, mode]

    NAMES = dict(c=(0, 0), cis=(0, .5), des=(1, -.5), d=(1, 0), es=(2, -.5), e=(2, 0), f=(3, 0), fis=(3, .5),
                 g=(4, 0), **{"as": (5, -.5)}, a=(5, 0), bes=(6, -.5), b=(6, 0), ces=(0, -.5))

    def check(self, case, rec):
        from quickly.dom import read, lily
        t, mode = case
        doc = read.lily_document("{ \\key %s \\%s c }" % (t, mode))
        k = next(doc // lily.Key)
        sig = k.key_signature(PitchProcessor())
        rec.step(); rec.state(case); rec.trace(); rec.outcome(case)
        note, alter = self.NAMES[t]
        if (sig.note, sig.alter) != (note, alter) or list(sig.accidentals) != signature(note, alter, mode):
            raise Violation("key signature of {}: {}".format(case, (sig.note, sig.alter, sig.accidentals)))


class Defaults(core.Family):
    """Other scales than the default one; all offsets; omitted arguments."""
    name = "defaults"
    SCALES = [None, W, [0, 1, 2, 3, 3.5, 4.5, 5.5], [0, 1, 1.5, 2.5, 3.5, 4, 5], [0, .5, 1.5, 2.5, 3.5, 4, 5]]

    def cases(self, tier):
        yield from range(len(self.SCALES))

    def check(self, case, rec):
        scale = self.SCALES[case]
        sc = scale or W
        rec.trace()

        def same(what, got, want):
            rec.step(); rec.state((case, what)); rec.outcome((case, want))
            if list(got) != want:
                raise Violation("{} with scale {}: {}, expected {}".format(what, scale, got, want))

        def height(step):
            o, n = divmod(step, 7)
            return 6 * o + sc[n]

        def signature(note, alter, alters):
            accs = [None] * 7
            for d in range(7):
                accs[(note + d) % 7] = height(note) + alter + sc[d] + alters[d] - height(note + d)
            return accs

        for offset in range(-14, 22):
            mode = [height(offset + d) - height(offset) - sc[d] for d in range(7)]
            same("alterations({})".format(offset), K.alterations(offset, scale), mode)
            if scale is None:
                same("alterations({})".format(offset), K.alterations(offset), mode)
            for note in range(7):
                for alter in (-1, -.5, 0, .5, 1):
                    want = signature(note, alter, mode)
                    same("accidentals{}".format((note, alter, mode)), K.accidentals(note, alter, mode, scale), want)
                    same("KeySignature{}".format((note, alter, mode)), K.KeySignature(note, alter, mode, scale).accidentals, want)
        for note in range(7):
            for alter in (-1, -.5, 0, .5, 1):
                want = signature(note, alter, [0] * 7)
                same("accidentals({}, {})".format(note, alter), K.accidentals(note, alter, scale=scale), want)
                same("KeySignature({}, {})".format(note, alter), K.KeySignature(note, alter, scale=scale).accidentals, want)
                for name, offset in OFFSET.items():
                    mode = [height(offset + d) - height(offset) - sc[d] for d in range(7)]
                    same("KeySignature{}".format((note, alter, name)), K.KeySignature(note, alter, name, scale).accidentals, signature(note, alter, mode))
            want = signature(note, 0, [0] * 7)
            same("accidentals({})".format(note), K.accidentals(note, scale=scale), want)
            sig = K.KeySignature(note, scale=scale)
            same("KeySignature({})".format(note), sig.accidentals, want)
            if (sig.note, sig.alter, sig.mode, tuple(sig.flats)) != (note, 0, "major", (1.5, 5)):
                raise Violation("attributes of KeySignature({}): {}".format(note, vars(sig)))
            same("chromatic_scale({})".format(note), K.chromatic_scale(note, scale=scale), K.chromatic_scale(note, 0, scale, (1.5, 5)))
        same("chromatic_scale()", K.chromatic_scale(scale=scale), K.chromatic_scale(0, 0, scale, (1.5, 5)))
        for note in range(7):
            for alter in (-1, -.5, 0, .5, 1):
                cs = K.chromatic_scale(note, alter, scale)
                same("heights of chromatic_scale({}, {})".format(note, alter), [(sc[n] + a) % 6 for n, a in cs], [i / 2 for i in range(12)])


def families():
    return [Signatures(), Scales(), Defaults(), Music()]


BOUNDS = {
    "quick": "7 notes x 3 alterations x 9 named + 2 custom modes, MIDI -13..139, 5 flats sets; chromatic scales for 7 x 5 keys x 33 flats sets; -21..21 sharps; 5 scales x offsets -14..21 x 7 x 5 tonics, and all defaults of arguments",
    "thorough": "7 notes x 5 alterations x 11 modes, all 33 flats sets",
}
ASSUMPTIONS = ["pitches for MIDI keys only with the default scale"]
