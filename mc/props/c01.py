"""C01: LilyPond text -> DOM -> text round trip."""

import parce

from mc import core, docs

BOUNDS = {
    "quick": "every music fragment (about 160) alone with a comment or newline in every token gap, all ordered pairs of music "
             "fragments in { }, every fragment in every enclosing construct (about 45), all pairs of toplevel fragments, all triples over a core "
             "of 28 fragments, all words up to length 3 over the token alphabets of lyric, chord, drum, figure and markup mode, "
             "chord bodies and header/paper/layout blocks",
    "thorough": "as quick, with triples over a core of 70 fragments, nesting depth 2 of constructs around every fragment, two comments "
                "in all pairs of token gaps, and words up to length 4",
}
ASSUMPTIONS = [
    "the parce tokenizer is trusted: token text and action define the token sequence compared",
    "only fragments that are valid LilyPond on their own are composed",
]

WRAPPERS = [
    "{ @ }", "<< @ >>", "{ { @ } c }", "\\relative c' { @ }", "\\relative { @ }", "\\fixed c' { @ }", "\\absolute { @ }", "\\transpose c d { @ }",
    "\\new Staff { @ }", "\\new Staff = \"x\" << @ >>", "\\new Staff = x \\with { a = 1 } { @ }", "\\context Voice { @ }",
    "\\score { { @ } \\layout { } }", "\\book { \\score { { @ } } }", "\\bookpart { { @ } }", "x = { @ }", "x = \\relative { @ }", "\\tuplet 3/2 { @ }",
    "\\times 2/3 { @ }", "\\tuplet 3/2 8 { @ }", "\\scaleDurations 2/3 { @ }", "\\shiftDurations 1 0 { @ }", "\\grace { @ }", "\\afterGrace 3/4 c1 { @ }",
    "\\repeat volta 2 { @ }", "\\repeat unfold 2 { c } \\alternative { { @ } { e } }", "\\repeat unfold 2 { c } \\alternative { \\volta 1 { @ } }", "<< { @ } \\\\ { d } >>",
    "\\keepWithTag #'a { @ }", "\\tag #'a { @ }", "\\quoteDuring \"x\" { @ }", "\\xx { @ }", "#(f #{ @ #})", "#{ @ #}", "\\markup \\score { { @ } }",
    "\\new Voice { @ } \\addlyrics { a b }", "\\partCombine { @ } { d }", "\\notemode { @ }", "\\simultaneous { @ }", "\\sequential { @ }", "\\after 4 \\f { @ }",
    "\\unfoldRepeats { @ }", "\\once { @ }", "% a\n{ @ % b\n}", "x = #(f #{ { @ } #})", "\\volta 1 { @ }", "{ @\n}", "{\n@ }", "\n@\n",
]

CORE = ["c", "c'8.", "<c e>4", "<c\\f e'-1>-.", "q", "r4", "R1*3/4", "4.", "c4-.", "c4^\\markup { a }", "-.", "\\f", "(", "~", "c\\rest", "|",
        "\\tweak color #red -.", "\\tweak color #red c", "{ d }", "<< c d >>", "\\time 3/4", "\\key c \\major", "\\xx", "#x ", "\"s\"", "%{x%}", "% x\n",
        "\\tuplet 3/2 { e }"]

CORE2 = CORE + ["\\skip 4", "c=' 4", "d,!?", "c4\\=1(", "-\\tweak color #red", "\\tag #'a", "\\tag #'a c", "_\"x\"", "-1", "c:16", "\\noBeam", "\\\\",
                "\\relative { c }", "\\tuplet 3/2 8 { e }", "\\repeat volta 2 { c }", "\\alternative { { d } }", "\\grace c8", "\\afterGrace 3/4 c1 { d }",
                "\\partial 4", "\\key", "\\clef bass", "\\tempo 4 = 60", "\\tempo \"x\" 4. = 50-60", "\\mark \\default", "\\bar \"|.\"", "\\ottava 1",
                "\\set Staff.x = #1", "\\override NoteHead.color = #1", "\\once", "\\omit NoteHead.color", "\\new Staff { c }", "\\new Staff = x", "\\with { a = 1 }",
                "\\change Staff = \"y\"", "\\lyricmode { a -- b4 }", "\\chordmode { c:m7/e }", "\\figuremode { <6 5+>4 }", "\\markup \\bold a", "\\xx.1", "\\default",
                "$x"]

#: (wrapper, alphabet, quick length, thorough length)
MODES = [
    ("\\lyricmode { @ }", ["a", "b4", "--", "__", "_", "_8.", "a_b", "c~d4", "\"x y\"", "\\markup x", "4", "#x ", "\\xx", "|", "{ a }", "%{x%}", "% x\n", "\\set stanza = \"1\"", "\\skip 4"], 3, 4),
    ("\\new Lyrics \\lyricsto \"x\" { @ }", ["a", "b4", "--", "\"x\"", "8", "_", "<< a b >>", "\\markup { x }", "%{x%}"], 3, 4),
    ("\\chordmode { @ }", ["c", "d4", "e1:m", "b:7", "c:7 8", "f:maj7.9-", "g/e", "a:sus4^3.5+", "e/+b", "r4", "c-.", "|", "{ c:m }", "%{x%}", "% x\n", "c':dim", "s1", "\\xx"], 3, 4),
    ("\\drummode { @ }", ["bd", "sn4", "<bd hh>8", "hh-.", "r4", "~", "\\f", "| ", "{ bd }", "<< bd sn >>", "%{x%}", "% x\n", "s1", "\\xx", "\"x\""], 3, 4),
    ("\\figuremode { <@>4 <6> }", ["6", "5", "+", "-", "!", "\\+", "/", "_", "[6 4]", "[5]", "%{x%}", "% x\n", "\"x\"", "\\markup x", "#x "], 3, 4),
    ("\\figuremode { @ }", ["<6>", "<6 5>4", "<[6 4]>", "8", "<_>1*2", "-.", "s4", "r", "%{x%}", "% x\n", "<>"], 3, 4),
    ("\\markup { @ }", ["a", "\"b c\"", "\\bold", "\\column { a b }", "\\line { }", "{ c }", "\\with-color", "#red", "\\score { { c } }", "\\xx", "%{x%}", "% x\n", "$x", "\\raise #1", "\\markup z"], 3, 4),
    ("\\markuplist { @ }", ["a", "\\bold x", "{ b }", "\"c\"", "#x ", "% x\n"], 3, 4),
    ("{ <@>4 }", ["c", "e'", "g=,", "\\f", "-1", "^\\tweak color #red -.", "\\tweak color #red d", "-.", "\\single", "\\xx", "%{x%}", "% x\n", "\\rest", "~", "#x ", "a!?"], 3, 3),
    ("\\header { @ }", ["a = b", "c = \"d\"", "e-f = \\markup { g }", "h = #1", "%{x%}", "% x\n", "i.j = k", "\"l m\" = n", "o = ##f", "p = 3/4", "q = \\markup\\bold r", "s = \\xx", "\\include \"x\"", "\\language \"english\"", "\\xx"], 3, 3),
    ("\\paper { @ }", ["a = 1", "b = 2\\cm", "c.d = #'(a)", "#(define x 1)", "%{x%}", "% x\n", "e = \\markup f", "g = 1.5\\mm", "i = ##f", "j = \"k\"", "system-system-spacing.basic-distance = 8", "\\include \"x\"", "\\xx", "k = \\xx"], 3, 3),
    ("\\layout { @ }", ["a = 1", "\\context { \\Score a = 1 }", "\\override NoteHead.color = 1", "%{x%}", "% x\n", "indent = 2\\cm", "\\context { \\Staff \\consists \"X\" }", "\\set x = #1",
                        "#(define x 1)", "\\omit NoteHead.color", "ragged-right = ##t", "\\include \"x\"", "\\xx"], 3, 3),
    ("\\midi { @ }", ["\\tempo 4 = 60", "a = 1", "\\context { \\Score a = 1 }", "\\include \"x\"", "\\xx", "% x\n", "\\override NoteHead.color = 1"], 3, 3),
    ("\\score { @ }", ["{ c }", "\\xx", "\\header { a = b }", "\\layout { a = 1 }", "\\midi { }", "\\include \"x\"", "% x\n", "%{x%}", "#x", "\\new Staff { c }", "\\relative c' { c }", "<< c d >>", "\\addlyrics { a }"], 3, 3),
    ("\\book { @ }", ["{ c }", "\\xx", "\\header { a = b }", "\\layout { a = 1 }", "\\paper { a = 1 }", "\\include \"x\"", "% x\n", "%{x%}", "#(x)", "\\score { c }", "\\bookpart { { c } }", "\\markup x", "\\markuplist { x }", "\\pageBreak", "\\label #'x"], 2, 3),
    ("\\bookpart { @ }", ["{ c }", "\\xx", "\\header { a = b }", "\\paper { a = 1 }", "\\include \"x\"", "% x\n", "\\score { c }", "\\markup x", "\\tocItem \\markup x"], 2, 3),
    ("\\layout { \\context { @ } }", ["\\Staff", "\\consists X", "\\consists \"X\"", "\\remove \"Y\"", "a = 1", "\\override NoteHead.color = #red", "\\alias Z", "\\name W", "\\accepts V", "%{x%}",
                                      "% x\n", "foo.bar = ##t", "\\type \"T\"", "\\xx", "\\defaultchild D", "\\denies E"], 2, 3),
    ("\\new Staff \\with { @ } { c }", ["\\consists X", "\\remove \"Y\"", "a = 1", "\\override NoteHead.color = #red", "%{x%}", "% x\n", "foo.bar = ##t", "\\xx", "\\hide Slur"], 3, 4),
]


#: the tokenizer wants the brace directly after these
BLOCKS = ("\\header", "\\paper", "\\layout", "\\midi", "\\score", "\\book", "\\bookpart", "\\with", "\\context")


def gaps(text):
    """Positions between two tokens."""
    return [t.pos for t in parce.root(docs.ROOTS["lilypond"], text).tokens()][1:]


def ntoks(text):
    return [(t.text, t.action) for t in parce.root(docs.ROOTS["lilypond"], text).tokens() if not t.text.isspace()]


def is_comment(tok):
    return "Comment" in repr(tok[1])


def roundtrip(text, rec, lang="lilypond"):
    tree, d = docs.parse(text, lang)
    t = docs.toks(text, lang)
    w = d.write()
    rec.step()
    sh = docs.shape(d)
    rec.state(sh)
    rec.outcome(w)
    if docs.toks(w, lang) != t:
        raise core.Violation("tokens changed by reading and writing", "{!r} became {!r}".format(text, w))
    n = len(list(docs.origins(d)))
    m = sum(1 for x in tree.tokens() if not x.text.isspace())
    if n != m:
        raise core.Violation("{} tokens in {} in the DOM".format(m, n), repr(text))
    tree2, d2 = docs.parse(w, lang)
    rec.trace()
    if docs.shape(d2) != sh:
        raise core.Violation("reading the written text gives another structure", "{!r} became {!r}".format(text, w))
    w2 = d2.write()
    if w2 != w:
        raise core.Violation("writing is no fixpoint", "{!r} then {!r}".format(w, w2))
    wi = d.write_indented()
    if docs.toks(wi, lang) != t:
        raise core.Violation("tokens changed by writing indented", "{!r} became {!r}".format(text, wi))
    di = docs.parse(wi, lang)[1]
    if docs.shape(di) != sh:
        raise core.Violation("reading the indented text gives another structure", "{!r} became {!r}".format(text, wi))


class Text(core.Family):
    def check(self, case, rec):
        roundtrip(case, rec)


class Pairs(Text):
    name = "music-pairs"

    def cases(self, tier):
        for f in docs.MUSIC:
            yield "{ " + f + " }"
        for f in docs.MUSIC:
            for g in docs.MUSIC:
                yield "{ " + f + " " + g + " }"


class Top(Text):
    name = "toplevel-pairs"

    def cases(self, tier):
        yield ""
        for f in docs.TOPLEVEL:
            yield f
        for f in docs.TOPLEVEL:
            for g in docs.TOPLEVEL:
                yield f + "\n" + g


class Wrapped(Text):
    name = "wrapped"

    def cases(self, tier):
        for w in WRAPPERS:
            for f in docs.MUSIC:
                yield w.replace("@", f)
        if tier == "thorough":
            for v in WRAPPERS:
                for w in WRAPPERS:
                    for f in docs.MUSIC[::1]:
                        if "=" in w and not w.startswith("\\") and "{" not in v:
                            continue
                        if self.nestable(w):
                            yield v.replace("@", w.replace("@", f))

    @staticmethod
    def nestable(w):
        return not w.startswith(("x =", "\\score", "\\book", "#"))


class Triples(Text):
    name = "music-triples"

    def cases(self, tier):
        for a in core.words(CORE if tier == "quick" else CORE2, 3, 3):
            yield "{ " + " ".join(a) + " }"


class Modes(Text):
    name = "modes"

    def cases(self, tier):
        for wrap, alphabet, q, t in MODES:
            for a in core.words(alphabet, q if tier == "quick" else t):
                if any(x == y and x in "+-" for x, y in zip(a, a[1:])):
                    continue    # two accidentals on one bass figure make no sense
                yield wrap.replace("@", " ".join(a))


class Comments(Text):
    name = "comments"

    def cases(self, tier):
        def variants(text):
            base = [t for t in ntoks(text) if not is_comment(t)]
            g = gaps(text)
            for p in g:
                for c in (" %{x%} ", " % x\n", "\n", "\n\n %{x\ny%}\n"):
                    yield text[:p] + c + text[p:], base
            if tier == "thorough":
                for i, p in enumerate(g):
                    for q in g[i:]:
                        for c in (" %{x%} ", " % x\n"):
                            for e in (" %{y%} ", " % y\n"):
                                yield text[:p] + c + text[p:q] + e + text[q:], base
        for f in docs.MUSIC:
            yield from self.same("{ " + f + " }", variants)
        for f in docs.TOPLEVEL:
            yield from self.same(f, variants)
        for wrap, alphabet, q, t in MODES:
            for a in core.words(alphabet, 1, 1):
                yield from self.same(wrap.replace("@", a[0]), variants)

    @staticmethod
    def same(text, variants):
        r"""Only those the tokenizer still sees the same tokens in (e.g. not between \header and {)."""
        for v, base in variants(text):
            toks = ntoks(v)
            if [t for t in toks if not is_comment(t)] == base:
                if not any(a[0] in BLOCKS and is_comment(b) for a, b in zip(toks, toks[1:])):
                    yield v


def families():
    return [Pairs(), Top(), Wrapped(), Modes(), Triples(), Comments()]
