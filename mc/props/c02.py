"""C02: any text can be read, with right source positions."""

from mc import core, docs
from quickly.dom import base

BOUNDS = {
    "quick": "all words up to length 3 over a raw LilyPond token alphabet (about 80 tokens, also incomplete and misplaced ones) at toplevel, "
             "up to length 2 in 24 wrapper contexts; all words up to length 3 over raw Scheme (26), HTML (30) and LaTeX (28) alphabets; "
             "for documents composed of valid fragments (pairs): every token covered exactly once",
    "thorough": "as quick, with length 3 over the full LilyPond alphabet at toplevel and over a core of 42 tokens in every wrapper context, length 4 over a core of 20 in 4 contexts, "
                "length 4 for Scheme, HTML and LaTeX core alphabets",
}
ASSUMPTIONS = ["the parce tokenizer is trusted for the positions and texts of tokens"]

LILY = [
    "c", "d'", "4", "8.", "1*2/3", "3", "1.5", "3/4", "r", "R", "s", "q", "\\rest", "'", ",", "=", "!", "?", "=4", "<", ">", "<<", ">>", "{", "}", "(", ")", "[", "]", "~",
    "-", "^", "_", "-.", "-1", "\\f", "\\<", ":", ":16", ":m7", "|", "\\\\", "\\xx", "\\xx.", "\\skip", "\\after", "\\tweak", "\\tag", "\\shape", "\\noBeam",
    "\\time", "\\key", "\\major", "\\relative", "\\transpose", "\\tuplet", "\\repeat", "volta", "\\alternative", "\\new", "Staff", "\\with", "\\with {", "\\set", "\\override", "NoteHead.color",
    "\\partial", "\\afterGrace", "\\tempo", "\\ottava", "\\mark", "\\default", "\\clef", "bass", "x", "x.y", ".", "\"s\"", "\"s", "#", "#x ", "#(a", "#{", "#}", "$x ", "'",
    "\\markup", "\\bold", "\\column", "\\score", "\\score {", "\\header {", "\\layout {", "\\context {", "\\book {", "\\lyricmode", "\\lyricmode {", "\\addlyrics {", "--", "__", "\\chordmode {", "c:", "/e", "/+",
    "\\drummode {", "bd", "\\figuremode {", "<6 5+", "+", "\\+", "[6", "%{", "%}", "%{x%}", "% x\n", "\n", "\\language", "\\include", "\\version", "\\=", "\\=1", "\\etc", "\\once", "\\mm", "##t", "\\breve", "@", "\\", "&",
]
LILY = list(dict.fromkeys(LILY))

LILY_CORE = ["c", "'", "4", "8.", "1*2/3", "3/4", "r", "\\rest", "=", "<", ">", "{", "}", "(", "-", "-.", ":", ":m7", "\\xx", "\\skip", "\\tweak", "\\tag", "\\key", "\\relative",
             "\\tuplet", "\\new", "\\with {", "\\partial", "\\ottava", "x", ".", "\"s\"", "#x ", "\\markup", "\\bold", "\\score {", "\\lyricmode {", "/e", "6", "+", "%{x%}", "% x\n"]

LILY_TINY = ["c", "'", "4", ".", "=", "<", ">", "{", "}", "-", ":7", "\\rest", "\\tweak", "\\ottava", "x", "#x ", "\\markup", "\\tag", "/e", "%{x%}"]

WRAP = ["{ @ }", "<< @ >>", "<c @>", "{ <@ c>4 @ }", "\\relative { @ }", "\\tuplet 3/2 { @ }", "\\chordmode { @ }", "\\chordmode { c:@ }", "\\drummode { @ }", "\\figuremode { @ }", "\\figuremode { <@> }",
        "\\lyricmode { @ }", "\\markup { @ }", "\\markup @", "\\markuplist { @ }", "\\header { @ }", "\\paper { @ }", "\\layout { @ }", "\\layout { \\context { @ } }",
        "\\score { @ }", "\\new Staff \\with { @ } { c }", "#{ @ #}", "#(@)", "c4-@", "x = @", "{ c @", "\\figuremode { <[@]> }", "\\notemode { @ }"]

SCHEME = ["x", "1", "-", "+", "1/2", ".5", ".", "(", ")", "[", "]", "'", "`", ",", ",@", "#", "#(", "#t", "#true", "#f", "#\\a", "#\\", "\"s\"", "\"", "\\", ";c\n", ";", "#!", "!#", "#{", "#}", "#x1F", "#x", "#b2", "+inf.0", "+i", "1+2i", "1/0", "#e1.5", "|", "#d", "\n", "1+", "-x", "#:k", "|a b|", "{", "}", "#o-17", "#b", "1e", "1e5"]
SCHEME_CORE = ["x", "1", "-", ".", "(", ")", "'", "#", "#t", "\"s\"", "\"", ";c\n", "#{", "#}", "#x1F", "1/2", "+i", "#(", "#!", "!#"]

HTML = ["x", "<", ">", "<a", "<a>", "</a>", "</", "/>", "<br/>", "b=", "\"c\"", "'c'", "\"", "'", "=", "&amp;", "&", "<!--", "-->", "<!-- c -->", "<lilypond", "<lilypond>", "</lilypond>", "<lilypond:", ":", "{ c }", "fragment", "staffsize=12", "line-width=1\\cm", "<lilypondfile>", "</lilypondfile>", "<musicxmlfile",
        "<style>", "</style>", "<script", "<![CDATA[", "]]>", "<?php", "?>", "<!DOCTYPE", "style=\"a\"", "\n", "c4", "%", "\\cm", "</b", "{", "}"]
HTML_CORE = ["x", "<a", "<a>", "</a>", "/>", ">", "b=", "\"c\"", "\"", "<lilypond", "<lilypond>", "</lilypond>", ":", "{ c }", "fragment", "staffsize=12", "<!-- c -->", "<lilypondfile>", "&amp;", "<style>"]

LATEX = ["x", "\\a", "\\", "{", "}", "[", "]", "$", "$$", "\\(", "\\)", "\\[", "\\]", "^", "_", "&", "~", "%c\n", "%", "\\begin", "\\begin{a}", "\\end{a}", "\\end", "\\begin{lilypond}", "\\end{lilypond}", "\\begin[o]{lilypond}", "\\lilypond", "\\lilypond{", "\\lilypond[a]{", "[staffsize=12]",
         "{ c }", "c4", "\\lilypondfile", "\\lilypondfile[q]{f}", "\\musicxmlfile{", "\\begin{equation}", "\\end{equation}", "\\verb|", "\n", ",", "=", "\\begin{verbatim}", "\\end{verbatim}"]
LATEX_CORE = ["x", "\\a", "{", "}", "[", "]", "$", "\\(", "\\)", "%c\n", "\\begin{a}", "\\end{a}", "\\begin{lilypond}", "\\end{lilypond}", "\\lilypond", "\\lilypond[a]{", "c4", "\\begin{equation}", "\\end", "\\begin"]


def read(text, lang, rec, covered=False):
    tree, d = docs.parse(text, lang)
    rec.step()
    if not d.is_root() or type(d).__name__ != "Document":
        raise core.Violation("no document", repr(d))
    if not docs.links_ok(d):
        raise core.Violation("broken parent link", repr(text))
    pos = 0
    n = 0
    for t in docs.origins(d):
        if t.pos < pos:
            raise core.Violation("source positions not ascending", "{!r}: {!r} at {} after position {}".format(text, t.text, t.pos, pos))
        if text[t.pos:t.end] != t.text:
            raise core.Violation("source position wrong", "{!r}: {!r} at {}".format(text, t.text, t.pos))
        pos = t.end
        n += not t.text.isspace()
    rec.trace()
    # the elements in tree order start and end in order
    last = 0
    for node in d.descendants():
        p, e = node.pos, node.end
        if p is None:
            continue
        if p < last or e < p or e > len(text):
            raise core.Violation("element position wrong", "{!r}: {!r} {}-{}".format(text, node, p, e))
        last = p
    if covered:
        m = sum(1 for t in tree.tokens() if not t.text.isspace())
        if n != m:
            raise core.Violation("{} of {} tokens in the document".format(n, m), repr(text))
    if not any(d // base.Unknown):      # can't be written, by design
        rec.outcome(d.write())
        d.write_indented()
    return d


class Words(core.Family):
    def __init__(self, name, lang, plan):
        self.name = name
        self.lang = lang
        self.plan = plan        # plan(tier) yields (wrapper, alphabet, length)

    def cases(self, tier):
        for wrap, alphabet, n, sep in self.plan(tier):
            for w in core.words(alphabet, n, 0 if n < 4 else 4):
                yield wrap.replace("@", sep.join(w))

    def check(self, case, rec):
        read(case, self.lang, rec)


def lily_plan(tier):
    yield "@", LILY_CORE, 3, " "
    for w in WRAP:
        yield w, LILY, 2, " "
        yield w, LILY_CORE, 2, ""
    if tier == "thorough":
        yield "@", LILY, 3, " "
        yield "@", LILY_CORE, 3, ""
        for w in WRAP:
            yield w, LILY_CORE, 3, " "
        for w in ("{ @ }", "<c @>", "\\markup { @ }", "c4-@"):
            yield w, LILY_TINY, 4, " "


def scheme_plan(tier):
    yield "@", SCHEME, 3, " "
    yield "@", SCHEME_CORE, 3, ""
    if tier == "thorough":
        yield "@", SCHEME, 3, ""
        yield "(@)", SCHEME, 3, " "
        yield "@", SCHEME_CORE, 4, " "


def html_plan(tier):
    yield "@", HTML, 3, " "
    yield "@", HTML_CORE, 3, ""
    if tier == "thorough":
        yield "@", HTML, 3, ""
        yield "<lilypond @", HTML, 3, " "
        yield "<a @", HTML, 3, " "
        yield "@", HTML_CORE, 4, " "


def latex_plan(tier):
    yield "@", LATEX, 3, " "
    yield "@", LATEX_CORE, 3, ""
    if tier == "thorough":
        yield "@", LATEX, 3, ""
        yield "\\begin{a}@\\end{a}", LATEX, 3, ""
        yield "$@$", LATEX_CORE, 3, ""
        yield "@", LATEX_CORE, 4, ""


class Covered(core.Family):
    """Every token of a valid document is in the DOM exactly once."""
    name = "covered"

    def cases(self, tier):
        for lang, frags in (("scheme", docs.SCHEME), ("latex", docs.LATEX), ("html", docs.HTML)):
            n = 2 if tier == "quick" else 3
            if lang == "html":
                # comments, CDATA and processing instructions are skipped, see C04
                pass
            for w in core.words(frags, n):
                yield [lang, (" " if lang == "scheme" else "").join(w)]
        for f in docs.MUSIC:
            for g in docs.MUSIC:
                yield ["lilypond", "\\new Staff { " + f + "\n" + g + " }"]
        for f in docs.TOPLEVEL:
            for g in docs.TOPLEVEL:
                yield ["lilypond", f + " \n" + g]

    def check(self, case, rec):
        lang, text = case
        read(text, lang, rec, covered=True)


def families():
    return [Words("lilypond-words", "lilypond", lily_plan), Words("scheme-words", "scheme", scheme_plan),
            Words("html-words", "html", html_plan), Words("latex-words", "latex", latex_plan), Covered()]
