"""Reading documents with the real code, without background threads, and the
token alphabets documents are composed of."""

import parce
import parce.document
import parce.transform
import parce.treebuilder
import parce.work

import quickly
from quickly.dom import element
from quickly.lang import html, latex, lilypond, scheme

ROOTS = {
    "lilypond": lilypond.LilyPond.root,
    "scheme": scheme.Scheme.root,
    "html": html.Html.root,
    "latex": latex.Latex.root,
}


def parse(text, lang="lilypond"):
    """Return (token tree, DOM document with origins); exceptions propagate."""
    tree = parce.root(ROOTS[lang], text)
    return tree, parce.transform.Transformer().transform_tree(tree)


def document(text, lang="lilypond"):
    """A parce.Document with transformer, everything synchronous."""
    t = parce.transform.Transformer()
    worker = parce.work.Worker(parce.treebuilder.TreeBuilder(ROOTS[lang]), t)
    return parce.Document(ROOTS[lang], text, worker=worker)


def toks(text, lang="lilypond"):
    """The non-whitespace tokens (text, action) of a text."""
    return [(t.text, t.action) for t in parce.root(ROOTS[lang], text).tokens() if not t.text.isspace()]


def shape(node):
    """Structure of a DOM tree (types, heads)."""
    return (type(node).__name__, repr(node.head) if isinstance(node, element.TextElement) else None,
            tuple(shape(c) for c in node))


def origins(node):
    """All origin tokens in tree order."""
    yield from getattr(node, "head_origin", ())
    for c in node:
        yield from origins(c)
    yield from getattr(node, "tail_origin", ())


def links_ok(node):
    """True if all parent pointers in the tree are right."""
    return all(c.parent is node and links_ok(c) for c in node)


#: things that can be in a LilyPond music list, each valid on its own
MUSIC = [
    "c", "c4", "cis''8.", "c=' 4", "d,!?2", "<c e>", "<c\\f e'-1>4-.", "<>", "q", "q8", "r", "r2.", "R1*3/4", "s4*2",
    "c\\rest", "c'4\\rest-.", "\\skip 4", "8.", "\\breve", "| ", "\\\\",
    "c4-.", "c4^\"x\"", "c4_\\markup { a b }", "c4-\\tweak color #red -.", "c4\\tweak color #red -.",
    "c4~", "c4\\=1(", "c4)", "c4[", "c4]", "c4\\(", "c4\\<", "c4\\!", "c4\\f", "c4:16", "c4-1", "c4--", "c4\\fermata",
    "c4\\noBeam", "c4\\startTextSpan", "c4\\arpeggio", "c4-\\foo", "c4-#'(x)",
    "{ c }", "{ }", "<< c d >>", "<< { c } \\\\ { d } >>", "<c e g>1\\arpeggio",
    "\\tuplet 3/2 { c8 d e }", "\\tuplet 3/2 8 { c8 }", "\\times 2/3 { c8 }", "\\scaleDurations 2/3 { c }",
    "\\shiftDurations 1 0 { c }", "\\relative c' { c }", "\\relative { c }", "\\fixed c' { c }",
    "\\absolute { c }", "\\transpose c d { c }", "\\repeat volta 2 { c }",
    "\\repeat unfold 2 { c } \\alternative { { d } { e } }", "\\grace c8", "\\grace { c8 }", "\\acciaccatura d16",
    "\\afterGrace 3/4 c1 { d8 }", "\\afterGrace c1 d8", "\\partial 4", "\\time 3/4", "\\time 1,2 3/8",
    "\\key c \\major", "\\key fis \\minor", "\\clef bass", "\\clef \"treble_8\"", "\\tempo 4 = 60",
    "\\tempo \"x\" 4. = 50-60", "\\tempo \"x\"", "\\bar \"|.\"", "\\mark \\default", "\\mark 3", "\\mark \"x\"",
    "\\ottava #1", "\\ottava 1", "\\octaveCheck c'", "\\voiceOne", "\\break", "\\noBreak", "\\stemUp", "\\autoBeamOff",
    "\\set Staff.x = #1", "\\set x = \"y\"", "\\unset Staff.x", "\\override NoteHead.color = #1", "\\override NoteHead.color.c = 5",
    "\\override Staff.NoteHead.color = ##t", "\\revert NoteHead.color", "\\once \\override NoteHead.color = #1", "\\temporary \\override NoteHead.color = #1",
    "\\undo \\omit NoteHead", "\\omit NoteHead.color", "\\hide Slur", "\\tweak color #red c4", "\\tag #'a c4", "\\tag a { c }",
    "\\keepWithTag #'a { c }", "\\removeWithTag a { c }", "\\pushToTag #'a d { c }", "\\quoteDuring \"x\" { s1 }",
    "\\addQuote \"x\" { c }", "\\unfoldRepeats { c }", "\\new Staff { c }", "\\new Staff = \"x\" { c }",
    "\\new Staff = x \\with { a = 1 } { c }", "\\context Voice = x { c }", "\\change Staff = \"y\"",
    "\\new Lyrics \\lyricmode { a -- b __ c }", "\\new Voice { c } \\addlyrics { a8 -- b4. }",
    "\\lyricsto \"x\" { a _ b~c }", "\\lyricmode { \"a b\" 4 \\markup x 8 }", "\\chordmode { c:m7 d1:maj7.9-/e f/+g }",
    "\\chordmode { c4:sus4^3.5+ }", "\\drummode { bd4 hh8-. sn <bd sn>4 }", "\\figuremode { <6 5+>4 <_ 3-\\+>8 <[6 4]> }",
    "\\notemode { c }", "\\xx", "\\xx.1", "\\xx.yy.1", "\\\"a b\"", "\\xx -.", "\\xx { c }", "#(define x 1)", "#x", "$x", "#@x",
    "\\markup \\bold a", "\\markup { a \\bold { b } \\italic \"c d\" }", "\\markup \\column { \\line { a } b }",
    "\\markup \\score { c }", "\\markup \\with-color #red x", "\\markuplist { a b }", "\\label #'x",
    "\\shape #'((0 . 1)) Slur c", "\\grobdescriptions #x", "\\after 4 \\f c1", "\\partCombine { c } { d }",
    "\\transposition f'", "\\stringTuning <c' g'>", "\\cadenzaOn", "\\sustainOn", "\\parenthesize c4", "\\bassFigureExtendersOn",
    "%{ x %}", "% x\n", "#{ c #}", "\\language \"english\"", "\\pageBreak", "\\volta 2 { c }", "\\unfolded { c }", "\\slashedGrace c",
    "\\vshape #'((0 . 1)) Slur c", "\\inStaffSegno", "\\breathe", "\\grobOff", "\\default", "c4-\\=1(", "c\\tag #'a -.", "\\ac ", "c4-\\markup x",
]

#: things at toplevel of a LilyPond document
TOPLEVEL = [
    "\\version \"2.24.0\"", "\\include \"a.ly\"", "\\language \"deutsch\"", "x = { c }", "x = \"y\"", "x = 1", "x = #1",
    "x.y.1 = { c }", "\"a b\" = 4", "x = \\markup { a }", "x = \\y", "x = c4", "x = \\layout { a = 1 }", "x = 1.5", "x = 3/4",
    "x = 5\\mm", "\\header { }", "\\header { \\include \"a.ly\" a = 1 }", "\\paper { \\include \"a.ly\" \\language \"deutsch\" a = \\x }", "\\header { title = \"x\" a-b = \\markup b % c\n}", "\\paper { a = 1 b = 2\\cm c.d = #'(a) }",
    "\\layout { \\context { \\Staff \\consists \"X\" \\remove Y a = ##t } }", "\\layout { \\override NoteHead.color = 1 indent = 0 }",
    "\\midi { \\tempo 4 = 60 }", "\\score { { c } \\layout { } \\midi { } }", "\\score { c \\header { a = b } }",
    "\\book { \\score { c } \\markup x }", "\\bookpart { \\header { } { c } }", "{ c }", "<< { c } >>", "\\relative c' { c d }",
    "\\new Staff { c }", "\\markup x", "#(define a 1)", "\\x", "%{ a %}", "% b\n", "\\pageBreak", "\\paper { #(define x 1) }",
    "\\layout { \\context { \\name X \\type \"Y\" \\alias Z \\accepts A \\denies B \\defaultchild C } }",
    "\\addQuote \"x\" { c }", "\\defineX", "c", "c4", "\\key c \\major", "\\markuplist { a }", "x = -.", "y = \\etc", "z = \\fn c \\etc",
    "\\new Staff \\with { \\consists X a = 1 } { c }", "x = \\with { a = b }", "\\x { c }",
]

SCHEME = [
    "x", "a-b", "1", "-1.5", "1/2", "+1", "1e3", "#t", "#f", "#true", "\"s\"", "\"a\\\"b\\n\"", "#\\a", "#\\space", "#x1F", "#b101", "#o17", "#d10",
    "'x", "`x", ",x", ",@x", "'(a b)", "(a . b)", "()", "(a)", "(a (b c) \"d\")", "#(1 2)", "#'x", "; c\n", "#! c !#", "#{ c4 #}", "#{ #}",
    "(define (f x) (+ x 1))", "(let ((a 1)) a)", "#:key", "(quote x)", "'()", "+inf.0", "-inf.0", "+nan.0", "1+2i", "#e1.5", "...", "a.b",
    "[a b]", "|a b|", "+", "-", "1+", "-x", "#x-1F", "#xAB/C", "#b-1.1", "'#(1)", "\"\"", "\"a\nb\"", "\"\\\\\"",
]

HTML = [
    "x", "x y", "<p>", "</p>", "<p>a</p>", "<br/>", "<br />", "<a href=\"b\">", "<a href='b' c>", "<a b=c>", "&amp;", "&#10;", "<!-- c -->",
    "<lilypond>{ c }</lilypond>", "<lilypond staffsize=12>c</lilypond>", "<lilypond relative=1 fragment: c d/>", "<lilypond: c />",
    "<lilypond fragment quote staffsize=12 line-width=12\\cm: \\relative { c }/>", "<lilypondfile>a.ly</lilypondfile>",
    "<lilypondfile quote noindent>a.ly</lilypondfile>", "<musicxmlfile>a</musicxmlfile>", "<lilypond/>", "<lilypond fragment/>",
    "<lilypond line-width=\"3\\cm\">c</lilypond>", "<![CDATA[ a ]]>", "<?php a ?>", "<b><i>c</i></b>", "\n", "<lilypond> </lilypond>",
    "<lilypond>% c\n</lilypond>", "<lilypond verbatim>\\markup { a }</lilypond>", "<lilypond a=\"b\">c</lilypond>",
]
HTML_UNKNOWN = ["<style>a</style>", "<script>b</script>", "<p style=\"a\">c</p>", "<!DOCTYPE html>", "<!DOCTYPE a [ <!ENTITY b \"c\"> ]>",
                "<style type=\"a\">b{}</style>"]

LATEX = [
    "x", "x y", "\n\n", "\\cmd", "\\cmd{a}", "\\cmd[o]{a}", "\\cmd[o][p]{a}", "{a}", "{}", "[a]", "$x$", "$x^{2}$", "$$y$$", "\\(z\\)", "\\[z_{1}\\]",
    "%c\n", "\\%", "~", "&", "\\begin{a}b\\end{a}", "\\begin{a}[o]b\\end{a}", "\\begin[o]{a}b\\end{a}", "\\begin{equation}a\\end{equation}",
    "\\begin{equation}{a}\\end{equation}",
    "\\lilypond{c d}", "\\lilypond[staffsize=12]{c}", "\\lilypond[a,b=c]{ { c } }", "\\begin{lilypond}c\\end{lilypond}",
    "\\begin{lilypond}[fragment]c\\end{lilypond}", "\\begin[fragment]{lilypond}c\\end{lilypond}", "\\begin{lilypond} [a]{ c }\\end{lilypond}",
    "\\begin{a}\\begin{b}c\\end{b}\\end{a}", "\\lilypondfile{a.ly}", "\\lilypondfile[quote]{a.ly}", "\\musicxmlfile{a}", "\\frac{a}{b}", "\\verb|x|",
    "\\begin{lilypond}% c\n\\end{lilypond}", "\\begin{lilypond}\\score { c }\\end{lilypond}", "\\begin{verbatim}a\\end{verbatim}", "\\lilypond{}",
]
