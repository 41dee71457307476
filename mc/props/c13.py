r"""C13: transposing music, against a reference interpreter of sounding pitch."""

from mc import core, docs, music
from mc.props import c12
from quickly.dom import lily
from quickly.node import Range
from quickly.pitch import Pitch, PitchProcessor
from quickly.transpose import Transpose, Transposer

BOUNDS = {
    "quick": "all sequences up to length 3 of 16 music items (notes with octave marks and checks, chords, rests with pitch, nested lists, relative, absolute and fixed sections, octave check commands, keys, "
             "language changes), in 7 wrappers (absolute, relative with and without start pitch for old and new LilyPond versions, fixed, transposed, chord mode), transposed over 5 intervals; for sequences up to length 2 also every selection of notes "
             "(all pairs of first and last note)",
    "thorough": "as quick, sequences up to length 4 over 4 wrappers, 9 intervals up to length 3, every selection for sequences up to length 3",
}
ASSUMPTIONS = ["the reference interpreter (mc/music.py) follows the LilyPond notation manual; an \\octaveCheck in the explored music always passes"]

# "=@" is replaced by an octave check that passes, "@" by the last sounding pitch
ITEMS = ["c", "e'", "b,", "fis", "ces''", "<c g' e,>", "<>", "g=@", "\\octaveCheck @", "a\\rest", "{ g' }", "<< { e } { b' } >>",
         "\\relative { f c' }", "\\relative g' { b }", "\\key d \\major", "\\transposition f'", "<d=@ a'>8-.", "r4", "q", "\\transpose c es { b' }", "c4^\\markup \\score { { e' } }", "<c>2^\\markup \\score { { a } }", "r^\\markup \\score { { a } }"]
MODES = {
    "abs": "{ # }",
    "rel": "\\relative c' { # }",
    "rel-new": "\\version \"2.24.0\" \\relative { # }",
    "rel-old": "\\version \"2.12.0\" \\relative { # }",
    "rel-unknown": "\\relative { # }",
    "rel-high": "x = \\relative %{ c %} bes'' { # }",
    "fixed": "\\fixed b' { # }",
    "fixed-low": "\\fixed ees, { # }",
    "transpose": "\\transpose c ees, { # }",
    "mixed": "\\absolute { # } \\relative f' { # }",
    "english": "\\language \"english\" \\relative c' { # }",
}
ONLY_ABS = ("\\relative", "=@", "\\octaveCheck")
INTERVALS = [((0, 0, 0), (0, 1, 0)), ((0, 0, 0), (1, 0, 0)), ((0, 0, 0), (-1, 6, 0.5)), ((0, 0, 0), (-1, 4, 0)), ((0, 4, 0), (1, 2, -0.5)),
             ((0, 0, 0), (0, 0, 0.5)), ((0, 6, 0), (0, 0, 0)), ((0, 0, 0), (-2, 5, 0)), ((0, 3, 0.5), (0, 6, -0.5))]
ENGLISH = {"fis": "fs", "ces''": "cf''", "\\transpose c es { b' }": "\\transpose c ef { b' }"}


def render(mode, items):
    """Return the text for the items in the mode, or None if not applicable."""
    wrap = MODES[mode]
    if mode.startswith(("fixed", "abs", "transpose")):
        if any("@" in i for i in items):
            return None
    if mode == "mixed":
        if any("@" in i for i in items):
            return None
    if mode == "english":
        items = [ENGLISH.get(i, i) for i in items]
    out = []
    for i in items:
        if "@" in i:
            plain = i.replace("=@", "").replace("\\octaveCheck @", "")
            t = wrap.replace("#", " ".join(out + [plain]))
            entries = [e for e in music.sounding(docs.parse(t)[1]) if e.kind in ("note", "start", "control")]
            if i.startswith("\\octaveCheck"):
                outer = [e for e in entries]
                # relative to what is the next note? ask the interpreter
                t2 = wrap.replace("#", " ".join(out + ["c"]))
                c = music.sounding(docs.parse(t2)[1])[-1].pitch
                # the control pitch: the c that is nearest to the previous pitch; both ways to
                # understand \octaveCheck give the same result if the next note is not ambiguous
                i = "\\octaveCheck " + music.text(c, "english" if mode == "english" else "nederlands")
            else:
                chord = i.startswith("<")
                notes = [e for e in entries if e.kind == "note"]
                p = notes[-2 if chord else -1].pitch
                k = p[0] + 1
                i = i.replace("=@", "=" + ("'" * k if k > 0 else "," * -k))
        out.append(i)
    return wrap.replace("#", " ".join(out))


def transposer(interval):
    return Transposer(Pitch(*interval[0]), Pitch(*interval[1]))


def check_transposed(before, after, interval, selected, text, result):
    if [(e.kind) for e in before] != [(e.kind) for e in after]:
        raise core.Violation("transposing changes the structure of the music", "{!r} became {!r}".format(text, result))
    for i, (a, b) in enumerate(zip(before, after)):
        where = "{!r} over {} (selected: {}) became {!r}: {} {}".format(text, interval, selected, result, i, a.kind)
        sel = selected is None or selected[0] <= i <= selected[1]
        if not sel:
            if a.written != b.written or a.check != b.check:
                raise core.Violation("pitch outside the selection is changed", where)
            if i < selected[0] and a.pitch != b.pitch:
                raise core.Violation("note before the selection sounds differently", where)
            if not b.relative and not a.relative and a.kind == "note" and not any(x.kind in ("fixed", "interval") for x in before) and a.pitch != b.pitch:
                raise core.Violation("note outside the selection sounds differently", where)
            continue
        want, respelled = c12.ref(*interval, a.pitch, c12.MAJOR)
        if a.kind in ("note", "start", "control", "fixed"):
            if b.pitch != want:
                raise core.Violation("{} has the wrong pitch after transposing".format(a.kind), "{}: {} became {}, expected {}".format(where, a.pitch, b.pitch, want))
            if (a.check is None) != (b.check is None) or (b.relative and b.check is not None and b.check != b.pitch[0]):
                raise core.Violation("octave check wrong after transposing", where)
        elif a.kind in ("key", "inversion"):
            if b.pitch != (a.pitch[0], want[1], want[2]):
                raise core.Violation("{} wrong after transposing".format(a.kind), "{}: {} became {}, expected {}".format(where, a.pitch, b.pitch, want))
        elif a.kind in ("transposition", "tuning"):
            if a.pitch != b.pitch:
                raise core.Violation("{} changed by transposing".format(a.kind), where)
    ia = [e.pitch for e in before if e.kind == "interval"]
    ib = [e.pitch for e in after if e.kind == "interval"]
    for k in range(0, len(ia), 2):
        ha = c12.height(ia[k + 1], c12.MAJOR) - c12.height(ia[k], c12.MAJOR)
        hb = c12.height(ib[k + 1], c12.MAJOR) - c12.height(ib[k], c12.MAJOR)
        if selected is None and ha != hb:
            raise core.Violation("interval of \\transpose changed", "{!r} became {!r}".format(text, result))


class Whole(core.Family):
    name = "whole"

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        for k in range(1, n + 1):
            if k == 4:
                modes, items, intervals = ("rel", "abs", "fixed", "rel-new"), ITEMS[:12], INTERVALS[1:3]
            elif k == 3 and tier == "quick":
                modes, items, intervals = ("rel", "rel-new", "fixed"), ITEMS[:16], INTERVALS[1:4]
            else:
                modes, items, intervals = MODES, ITEMS, INTERVALS
            for mode in modes:
                for w in core.words(items, k, k):
                    yield [mode, w, intervals]

    def check(self, case, rec):
        mode, items, intervals = case
        text = render(mode, items)
        if text is None:
            return
        d0 = docs.parse(text)[1]
        before = music.sounding(d0)
        blank = music.blank_shape(d0)
        for interval in intervals:
            d = d0.copy()
            Transpose(transposer(interval)).edit_node(d)
            result = d.write()
            d1 = docs.parse(result)[1]
            rec.step()
            check_transposed(before, music.sounding(d1), interval, None, text, result)
            if music.blank_shape(d1) != blank:
                raise core.Violation("transposing changes something that is not a pitch", "{!r} became {!r}".format(text, result))
            rec.outcome(result)
        rec.trace(len(intervals))
        rec.state([e.pitch for e in before])


class Option(core.Family):
    r"""The relative_first_pitch_absolute option overrides the version."""
    name = "option"

    def cases(self, tier):
        for v in ("", "\\version \"2.12.0\" ", "\\version \"2.18.0\" "):
            for opt in (True, False, None):
                for w in core.words(ITEMS[:8], 2, 1):
                    yield [v, opt, w]

    def check(self, case, rec):
        v, opt, items = case
        if any("@" in i for i in items):
            return
        text = v + "\\relative { " + " ".join(items) + " }"
        d0 = docs.parse(text)[1]
        before = music.sounding(d0, opt)
        for interval in INTERVALS[:5]:
            d = d0.copy()
            Transpose(transposer(interval), relative_first_pitch_absolute=opt).edit_node(d)
            result = d.write()
            check_transposed(before, music.sounding(docs.parse(result)[1], opt), interval, None, text, result)
            rec.step()
        rec.trace()
        # a processor in another language
        d = docs.parse("{ " + " ".join(ENGLISH.get(i, i) for i in items) + " }")[1]
        before = music.sounding(d, opt, "english")
        Transpose(transposer(INTERVALS[0]), PitchProcessor("english")).edit_node(d)
        check_transposed(before, music.sounding(docs.parse(d.write())[1], opt, "english"), INTERVALS[0], None, text, d.write())


class Selection(core.Family):
    name = "selection"

    def cases(self, tier):
        for k in range(1, 3 if tier == "quick" else 4):
            for mode in ("abs", "rel", "rel-new", "fixed") if k < 3 else ("rel",):
                items = [i for i in ITEMS if k < 3 or i in ITEMS[:13]]
                for w in core.words(items, k, k):
                    yield [mode, w, INTERVALS[:3]]

    def check(self, case, rec):
        mode, items, intervals = case
        text = render(mode, items)
        if text is None:
            return
        d0 = docs.parse(text)[1]
        before = music.sounding(d0)
        blank = music.blank_shape(d0)
        for i in range(len(before)):
            for j in range(i, len(before)):
                for interval in intervals:
                    for from_root in (False, True):
                        d = d0.copy()
                        pitchables = [e.node for e in music.sounding(d)]
                        r = Range.from_nodes(pitchables[i], pitchables[j], from_root)
                        Transpose(transposer(interval)).edit_range(r)
                        result = d.write()
                        d1 = docs.parse(result)[1]
                        rec.step()
                        check_transposed(before, music.sounding(d1), interval, (i, j), text, result)
                        if music.blank_shape(d1) != blank:
                            raise core.Violation("transposing changes something that is not a pitch", "{!r} became {!r}".format(text, result))
        rec.trace()


def families():
    return [Whole(), Option(), Selection()]
