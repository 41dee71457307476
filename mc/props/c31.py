r"""C31: every construct is read as the element that represents it, wherever it is.

The table (mc/shapes.json) has the elements for every single construct, and for
every context a construct can be in. What any composition of them is read as,
follows from it.
"""

import itertools
import json
import os

from parce.action import Comment

from mc import core, docs
from mc.props import c01
from quickly.dom import base, element, htm, lily, scm, tex

BOUNDS = {
    "quick": "every construct of the table in every context of the table (music, toplevel, lyrics, chords, drums, figures, markup, all blocks, Scheme, HTML, LaTeX); all pairs (triples where there are at most 40) of constructs that don't attach to others in the first context of their mode; one or two comments of either kind before any tokens (after whitespace) of every LilyPond construct in the first context of its mode",
    "thorough": "the same; all pairs also in the other contexts (a tenth of them in every one of the music contexts); comments in every context",
}
ASSUMPTIONS = ["the table of single constructs was reviewed by hand; constructs that attach to other ones (like -.) are only composed by the other checks"]

MUSIC_WRAPPERS = [["lilypond", w] for w in c01.WRAPPERS if not w.startswith(("%", "#{"))]
MUSIC_MORE = c01.CORE2 + [
    "\\set Timing.beamExceptions = #'()", "\\tag #'(a b) c", "\\tag a.b c", "\\defineBarLine \"x\" #'(a b c)", "\\mark #1", "\\tempo 4.", "\\time #'(3 2) 5/8",
    "\\key d #'((0 . 0))", "\\key c \\x", "\\clef x", "\\new Voice = \"a\" \\with { } << c >>", "\\alterBroken #'x #'(1 2) Slur", "\\applyContext #x", "\\applyMusic #x { c }", "\\applyOutput Voice #x",
    "\\appoggiatura d8 c", "\\assertBeamQuant #'(0 . 0) #'(1 . 1)", "\\autoChange { c }", "\\autochange b { c }", "\\balloonGrobText NoteHead #'(1 . 2) \\markup x", "\\balloonText #'(1 . 2) \\markup x c",
    "\\barNumberCheck 3", "\\bendAfter 3", "\\chordRepeats { c }", "\\clef #'x", "\\compoundMeter #'(3 8)", "\\compressMMRests { R1 }", "\\crossStaff { c }",
    "\\cueClef \"bass\"", "\\cueClefUnset", "\\cueDuring \"x\" #UP { c }", "\\cueDuringWithClef \"x\" #UP \"bass\" { c }", "\\deadNote c", "\\displayLilyMusic { c }",
    "\\displayMusic { c }", "\\endSpanners c", "\\eventChords { c }", "\\featherDurations #(x) { c }", "\\footnote #'(1 . 2) NoteHead \\markup x c", "\\footnote \"x\" #'(1 . 2) \\markup x c",
    "\\grobdescriptions #'()", "\\harmonicByFret 1 c", "\\harmonicByRatio 1/2 c", "\\harmonicNote c", "\\hide Staff.Slur", "\\incipit { c }", "\\inherit-acceptability A B", "\\inStaffSegno",
    "\\instrumentSwitch \"x\"", "\\inversion c d { c }", "\\killCues { c }", "\\makeClusters { c }", "\\modalInversion c d { c d } { e }", "\\modalTranspose c d { c d } { e }",
    "\\musicMap #x { c }", "\\offset X-offset #1 NoteHead", "\\ottava #-1", "\\overrideProperty Staff.NoteHead.color #1", "\\overrideTimeSignatureSettings 4/4 1/4 #'() #'()",
    "\\palmMute c", "\\partCombine #'(1 . 2) { c } { d }", "\\parallelMusic voiceA,voiceB { c }", "\\phrasingSlurDashPattern 1 2", "\\pitchedTrill c \\startTrillSpan d", "\\pointAndClickOn",
    "\\propertyOverride x #1", "\\propertySet x #1", "\\quoteDuring #\"x\" { s }", "\\raiseNote 1 c", "\\reduceChords { c }", "\\removeWithTag #'(a b) { c }", "\\resetRelativeOctave c'",
    "\\retrograde { c }", "\\revertTimeSignatureSettings 4/4", "\\rightHandFinger #1 c", "\\scaleDurations #'(2 . 3) { c }", "\\settingsFrom #x", "\\shiftDurations #1 #0 { c }",
    "\\single \\hide c", "\\skip 1*3/4", "\\skip \\x", "\\slurDashPattern #1 #2", "\\stopGroup", "\\storePredefinedDiagram #x <c> #y \"z\"", "\\styledNoteHeads #'x NoteHead { c }", "\\tabChordRepeats { c }",
    "\\tieDashPattern 1 2", "\\time 2/4", "\\times #'(2 . 3) { c }", "\\transposedCueDuring \"x\" #UP c { d }", "\\transposition c,", "\\tuplet #'(3 . 2) { c }", "\\tupletSpan 4", "\\tupletSpan \\default",
    "\\tweak Slur.color #red c", "\\tweak Accidental.color #red c4", "\\undo \\hide Slur", "\\unfoldRepeats #'(volta) { c }", "\\void #x", "\\withMusicProperty #'x #1 c", "\\xNote c", "\\xNotesOn",
    "\\repeat tremolo 4 { c16 d }", "\\repeat percent 2 { c }", "\\repeat segno 2 { c }", "\\repeat volta 2 { c } \\alternative { \\volta 1 { d } \\volta 2 { e } }", "\\context Staff { c }", "\\accidentalStyle modern", "\\accidentalStyle Score.modern", "\\chords { c:m }", "\\drums { bd }", "\\figures { <6> }", "\\lyrics { a -- b }",
    "\\stringTuning <c e>", "\\unset x", "\\set x.y = #1", "\\once \\set x = 1", "\\override A.b.c = #1", "\\override A.b #'c = #1", "\\override A #'b = #1", "\\revert A #'b", "\\tweak #'color #red c",
    "c4( d)", "c\\( d\\)", "c4\\> d\\!", "c4\\p\\<", "c\\1", "c8\\2-3", "c4^\\p _\"x\"-.", "c4-+ d-> e-^ f-_ g-! a-- b-. c-0", "c\\=\"x\"( d\\=\"x\")", "<c e\\1>4.\\f", "<c=' e!>", "<c \\tweak color #red e>", "c\\trill", "c4\\startTrillSpan d\\stopTrillSpan",
    "c2.*2/3*3/4", "c\\breve", "c\\longa.", "R\\maxima", "c4.. d2.", "c4 ~ d", "r4\\rest", "s\\f", "c!4 d?8", "ces eeses fisih", "c4\\\"x y\"",
]
TOPLEVEL_MORE = [
    "\\include \"x\" \\version \"2\"", "x.y = 1", "x.1.y = 2", "x = ##t", "x = #'(a . b)", "x = -1", "x = \"a\" % c\n", "x = \\lyricmode { a }", "x = \\chordmode { c:7 }", "x = \\drummode { bd }",
    "x = \\figuremode { <6> }", "x = <c e>4", "x = \\new Staff { c }", "x = \\score { c }", "x = \\book { }", "x = \\bookpart { }", "x = \\header { a = b }", "x = \\paper { a = 1 }", "x = \\midi { }", "x = \\context { \\Staff }", "x = \\markuplist { a b }",
    "x = ^\"y\"", "x = \\tweak color #red c", "x = 3", "x = 4.", "x = \\breve", "x = $y", "x = #@y", "\\tocItem \\markup x", "\\header { a = b c = d }",
]

#: name, language, wrappers, placeholder, items
MODES = []
for w, items, n, t in c01.MODES:
    ph = {"\\header": "ph = ph", "\\paper": "ph = 17", "\\layout": "ph = 17", "\\midi": "ph = 17", "\\new Staff": "ph = 17", "\\figuremode { <": "19", "\\figuremode { @": "<19>",
          "\\drummode": "cb", "\\lyricmode": "ph", "\\new Lyrics": "ph", "\\markup": "ph", "\\layout { \\context": "ph = 17", "\\bookpart": "\\score { feses }"}
    key = max((k for k in ph if w.startswith(k)), key=len, default=None)
    MODES.append((w, "lilypond", [w], ph.get(key, "feses"), items))
MODES[0][2].extend(["\\new Lyrics \\lyricmode { @ }", "\\lyrics { @ }", "\\addlyrics { @ }"])
MODES[3][2].extend(["\\drums { @ }", "\\new DrumStaff \\drummode { @ }"])
MODES[2][2].extend(["\\chords { @ }", "\\new ChordNames \\chordmode { @ }"])
MODES[6][2].extend(["{ c^\\markup { @ } }", "x = \\markup { @ }", "\\header { a = \\markup { @ } }", "\\markup \\bold { @ }", "\\book { \\markup { @ } }"])
MODES += [
    ("scheme", "scheme", ["@", "(@)", "'(@)", "(a (b @))", "`(a ,(@))"], "ph", docs.SCHEME),
    ("html", "html", ["@", "<p>@</p>", "<b><i>@</i></b>"], "<!--ph-->", docs.HTML),
    ("latex", "latex", ["@", "{@}", "\\begin{x}@\\end{x}"], "%ph\n", docs.LATEX),
]


def name(cls):
    """The public name of an element class."""
    for m in (lily, scm, htm, tex, base):
        if getattr(m, cls.__name__, None) is cls:
            return "{}.{}".format(m.__name__.split(".")[-1], cls.__name__)
    return cls.__name__


def shape(node):
    """Public name, head and children."""
    return [name(type(node)),
            repr(node.head) if isinstance(node, element.TextElement) else "",
            [shape(c) for c in node]]


def read(lang, text):
    dom = docs.parse(text, lang)[1]
    return shape(dom) if dom is not None else ["", "", []]


def place(wrapper, found):
    """What is found at the place of the @ in the wrapper; None if anything
    else is different."""
    if wrapper[:2] != found[:2]:
        return
    w, f = wrapper[2], found[2]
    if "@" in w:
        i = w.index("@")
        after = len(w) - i - 1
        if len(f) < i + after or f[:i] != w[:i] or f[len(f) - after:] != w[i + 1:]:
            return
        return f[i:len(f) - after]
    if len(w) != len(f):
        return
    res = None
    for a, b in zip(w, f):
        if a != b:
            if res is not None:
                return
            res = place(a, b)
            if res is None:
                return
    # nothing at all
    return res


def join(items, lang):
    return ("" if lang in ("html", "latex") else " ").join(items)


def table():
    with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "shapes.json")) as f:
        return json.load(f)


class Shapes(core.Family):
    def __init__(self):
        self.table = table()

    def expect(self, lang, text, wrapper, want, rec):
        got = read(lang, text)
        rec.step()
        rec.trace()
        rec.state(got)
        rec.outcome(sorted({s[0] for s in want}))
        found = place(wrapper, got)
        if (found or []) != want:
            raise core.Violation("not read as the elements it represents", "{!r}: {}, should be {}".format(text, found if found is not None else got, want))


class Single(Shapes):
    """Every construct in every context."""
    name = "single"

    def cases(self, tier):
        for name, t in self.table.items():
            for w, (lang, text, wrapper, other) in enumerate(t["wrappers"]):
                for i in t["items"]:
                    if i not in other:
                        yield [name, w, i]

    def check(self, case, rec):
        name, w, i = case
        t = self.table[name]
        lang, text, wrapper, other = t["wrappers"][w]
        self.expect(lang, text.replace("@", i), wrapper, t["items"][i], rec)


class Words(Shapes):
    """Sequences of constructs that do not attach to others."""
    name = "words"

    def cases(self, tier):
        deep = tier == "thorough"
        for name, t in self.table.items():
            closed = t["closed"]
            n = 2 if len(closed) > 40 else 3
            for w in core.words(closed, n, 2):
                yield [name, 0, w]
            for k in range(1, len(t["wrappers"]) if deep else 0):
                other = t["wrappers"][k][3]
                for w in core.words([i for i in closed if i not in other], 2, 2):
                    if len(closed) <= 40 or closed.index(w[0]) % 10 == k % 10:
                        yield [name, k, w]

    def check(self, case, rec):
        name, k, w = case
        t = self.table[name]
        lang, text, wrapper, other = t["wrappers"][k]
        self.expect(lang, text.replace("@", join(w, lang)), wrapper, [s for i in w for s in t["items"][i]], rec)


def without_comments(s):
    return [s[0], s[1], [without_comments(c) for c in s[2] if not c[0].endswith("Comment")]]


class Comments(Shapes):
    """A comment before any token that follows whitespace, alone or in two
    places, makes no other difference."""
    name = "comments"
    comments = "%{ x %} ", "% x\n"

    def cases(self, tier):
        deep = tier == "thorough"
        for name, t in self.table.items():
            for w, (lang, text, wrapper, other) in enumerate(t["wrappers"]):
                if lang == "lilypond" and (deep or w == 0):
                    for i in t["items"]:
                        if i not in other:
                            yield [name, w, i]

    def tokens(self, lang, text):
        """The tokens that are not in a comment, with their lexicons."""
        return [(t.text, t.action, [c.lexicon for c in t.ancestors()]) for t in docs.parse(text, lang)[0].tokens()
                if t.action not in Comment and not t.text.isspace()]

    def check(self, case, rec):
        name, w, item = case
        t = self.table[name]
        lang, text, wrapper, other = t["wrappers"][w]
        full = text.replace("@", item)
        want = without_comments(["", "", t["items"][item]])[2]
        start = text.index("@")
        places = [x.pos for x in docs.parse(full, lang)[0].tokens()
                  if start < x.pos < start + len(item) and full[x.pos - 1].isspace() and x.action not in Comment]
        tokens = self.tokens(lang, full)
        for n in (1, 2):
            for p in itertools.combinations(places, n):
                for c in itertools.product(self.comments, repeat=n):
                    new = full
                    for pos, comment in sorted(zip(p, c), reverse=True):
                        new = new[:pos] + comment + new[pos:]
                    if self.tokens(lang, new) != tokens:
                        rec.count("the lexer sees other tokens")
                        continue
                    got = without_comments(read(lang, new))
                    rec.step()
                    rec.trace()
                    rec.state([new, got])
                    if (place(wrapper, got) or []) != want:
                        raise core.Violation("a comment makes a difference", "{!r}: {}, should be {}".format(new, got, want))
        rec.outcome(len(places))


def families():
    return [Single(), Words(), Comments()]
