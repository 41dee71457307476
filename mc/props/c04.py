r"""C04: Scheme, HTML and LaTeX text survives reading and writing."""

import html
import re

import parce
import parce.action as a
import parce.lang.scheme

from mc import core, docs
from quickly.dom import base, element, htm, scm, tex, util

BOUNDS = {
    "quick": "all words up to length 2 over the Scheme, HTML and LaTeX fragments (about 60 each), all words up to length 1 in every pair of nested containers (16 Scheme, 14 HTML, 14 LaTeX containers), "
             "all LilyPond music and toplevel fragments in 12 embeddings; all Scheme numbers of a number grammar (about 8000) and all strings up to length 3 over 14 characters and escapes (Scheme and LilyPond)",
    "thorough": "words up to length 3, pairs in nested containers, pairs of LilyPond fragments in every embedding, strings up to length 4",
}
ASSUMPTIONS = [
    "the parce tokenizer and its number parser are trusted; text parce drops or misreads (#:key, #true, |a b|, #\\x41, #| |#, #;) is not in the alphabet",
    "HTML text is compared with entities resolved; the amount of whitespace in LaTeX text is not compared, but paragraph breaks are",
    "style, script and doctype parts of HTML are kept via util.replace_unknown",
]

#: escapes in a Scheme string of which the backslash gets lost (known finding,
#: pinned by a test in tests/test_dom_util.py); only used in SchemeEscapes
LOST = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v"}

SCHEME = [re.sub(r"\\n", "", t) for t in docs.SCHEME if t not in ("#true", "#:key", "|a b|", "#b-1.1")] + [
    "1-", "#b1/10", "#i#x1/2", "+i", "1.5-2i", "#x1+2i", "+inf.0-nan.0i", "1/2+3/4i", "#e1.5", "#i1/2", "1##", "-0.0", "\"a\\\\\\\"b\"", "#\\(", "#\\A", "#\\newline",
    "set!", "a->b", "<=", "ly:music?", "x:y", "'a", "`(a ,b ,@c)", "''a", "#(a . b)", "(lambda args args)", "; c", "#{ c $x #}",
]
HTML = docs.HTML + [
    "it's", "\"q\" > ", "<?a b < c & \"d < e\" ?>", "<a b=\"c&amp;d's\"/>", "<a b='\"'>", "&lt;x", "&eacute;", "<lilypond line-width=12\\cm>c</lilypond>", "<lilypond staffsize=12.5: c/>",
    "<![CDATA[a & <b> ]]>", "<![CDATA[]]>", "<!-- a <b> & -->", "<!---->", "<A b>", "</A>", "<a b = \"c\" >", "<musicxmlfile quote a=\"b\">f</musicxmlfile>", " ", "<lilypond\nquote\n>c</lilypond>",
    "<lilypond relative=2 : \\relative { c } />", "<lilypondfile/>",
]
LATEX = docs.LATEX + [
    "\n", " ", "a\nb", "\\begin{lilypond}\nc\n\\end{lilypond}\n", "%c\nd", "\\begin{a}\nb\n\\end{a}\n\n", "\\cmd [a] {b}", "\\\\", "\\\\[a]", "\\{", "\\}", "#1", "--", "\\begin{a}%c\n\\end{a}",
    "\\[ a \\text{b} \\]", "$ {a} $", "\\lilypond [a] { c }", "\\begin{a}{b}\\end{a}", "\\item[a] b", "'", "``a''", "\\begin{align}a &= b\\\\ c\\end{align}", "\\begin{a}\\lilypond{c}\\end{a}",
]


def unescape(text, scheme):
    """The value of the contents of a string."""
    table = {"n": "\n", "t": "\t", '"': '"', "\\": "\\"}
    if scheme:
        table.update(LOST)
        table["|"] = "|"
    else:
        table["'"] = "'"
    out = []
    i = 0
    while i < len(text):
        c = text[i:i+2]
        if c[0] == "\\" and c[1:] in table and len(c) == 2:
            out.append(table[c[1]])
            i += 2
        else:
            out.append(c[0])
            i += 1
    return "".join(out)


def number(v):
    if isinstance(v, complex):
        return number(v.real), number(v.imag)
    return "nan" if v != v else v


def paragraph(text):
    """LaTeX text without whitespace, but with marked paragraphs."""
    return re.sub(r"\s+", "", re.sub(r"\s*\n[ \t]*\n\s*", "\N{PILCROW SIGN}", text))


def flat(tree):
    """The meaning of all tokens, independent of the DOM."""
    out = []

    def add(kind, value):
        if kind in ("html", "latex") and out and out[-1][0] == kind:
            out[-1] = kind, out[-1][1] + value
        else:
            out.append((kind, value))

    def walk(ctx):
        lang, name = ctx.lexicon.language.__name__, ctx.lexicon.name
        if lang == "Scheme" and name == "number":
            tokens = list(ctx)
            try:
                add("num", number(parce.lang.scheme.scheme_number(tokens)))
            except (ValueError, ZeroDivisionError):
                add("token", "".join(t.text for t in tokens))
            return
        if name == "string" and lang in ("Scheme", "LilyPond"):
            text = "".join(t.text for t in ctx)
            add("string", unescape(text[1:-1], lang == "Scheme"))
            return
        if lang == "Html" and name in ("comment", "cdata", "processing_instruction"):
            add(name, "".join(t.text for t in ctx.tokens()))
            return
        for t in ctx:
            if t.is_context:
                walk(t)
            elif lang == "Html" and (t.action in (a.Text, a.Whitespace, a.Escape, a.String.Escape) or name in ("dqstring", "sqstring") and t.action in (a.String.Double, a.String.Single)):
                add("html", html.unescape(t.text))
            elif lang == "Html" and t.action is a.Number:
                add("num", float(t.text))
            elif lang == "Html" and t.action is a.Name.Builtin.Unit:
                add("token", t.text.lstrip("\\"))
            elif lang == "Latex" and t.action not in (a.Name.Command, a.Name.Builtin, a.Name.Tag) and t.action not in a.Comment and t.action not in a.Delimiter:
                add("latex", t.text)
            else:
                text = re.sub(r"\s+", "", t.text) if "omment" not in repr(t.action) else t.text.strip()
                if text:
                    add("token", text)
    walk(tree)
    return [x for x in ((k, paragraph(v)) if k == "latex" else (k, v) for k, v in out) if x != ("latex", "")]


def norm(node):
    """The structure of a DOM, with text and entities resolved."""
    head = node.head if isinstance(node, element.TextElement) else None
    if isinstance(node, scm.Number):
        head = number(head)
    if isinstance(node, htm.CData):
        head = str(head)
    children = []
    for n in node:
        if isinstance(n, (htm.Text, htm.EntityRef)):
            text = html.unescape("&{};".format(n.head)) if isinstance(n, htm.EntityRef) else n.head
            if children and children[-1][0] == "text":
                text = children.pop()[1] + text
            children.append(("text", text))
        elif isinstance(n, tex.Text):
            text = n.head
            if children and children[-1][0] == "latex":
                text = children.pop()[1] + text
            children.append(("latex", text))
        else:
            children.append(norm(n))
    children = [(k[0], paragraph(k[1])) if k[0] == "latex" else k for k in children]
    return (type(node).__name__, head, tuple(k for k in children if k != ("latex", "")))


def roundtrip(text, lang, rec):
    tree, d = docs.parse(text, lang)
    util.replace_unknown(d, text)
    want = flat(tree)
    shape = norm(d)
    w = d.write()
    rec.step()
    rec.state((lang, shape))
    rec.outcome(w)
    tree2, d2 = docs.parse(w, lang)
    util.replace_unknown(d2, w)
    if flat(tree2) != want:
        raise core.Violation("meaning changed by reading and writing", "{}: {!r} became {!r}".format(lang, text, w))
    if norm(d2) != shape:
        raise core.Violation("reading the written text gives another structure", "{}: {!r} became {!r}: {} instead of {}".format(lang, text, w, norm(d2), shape))
    w2 = d2.write()
    if w2 != w:
        raise core.Violation("writing is no fixpoint", "{}: {!r} then {!r}".format(lang, w, w2))
    rec.trace()
    return d


class Text(core.Family):
    def check(self, case, rec):
        lang, text = case
        roundtrip(text, lang, rec)


class Words(Text):
    name = "words"

    def cases(self, tier):
        n = 2 if tier == "quick" else 3
        for lang, frags, sep in (("scheme", SCHEME, " "), ("html", HTML + docs.HTML_UNKNOWN, ""), ("latex", LATEX, "")):
            for w in core.words(frags, n if lang != "html" or n == 2 else 2):
                if "; c" in w[:-1]:
                    continue    # the rest is in the comment
                yield lang, join(w, sep)
        if tier != "quick":
            for w in core.words(HTML[::2], 3, 3):
                yield "html", join(w, "")


def join(words, sep):
    """Join fragments; a command name must not become longer."""
    out = ""
    for w in words:
        if re.search(r"\\[a-z]+$", out) and w[:1].isalpha():
            out += " "
        out += w + sep
    return out


CONTAINERS = {
    "scheme": ["(@)", "'(@)", "`(a ,(@) ,@(@))", "#(@)", "(a . (@))", "(define (f) @)", "(let ((a @)) a)", "#{ #(@) #}", "#{ $(@) c #}", "; c\n@", "(x @ \"y\")", "'@", "(#t @\n)", "#! @ !# x", "#{ { #@ } #}"],
    "html": ["<p>@</p>", "<a b=\"c\">@</a>", "<b><i>@</i></b>", "x @ y", "<p>\n@\n</p>\n", "<!-- a -->@", "<br/>@", "<P>@</P>", "@&amp;", "<table><tr><td>@</td></tr></table>", "<a href='b'>@</a>", "<lilypond>c</lilypond>@", "<p>@", "@</p>"],
    "latex": ["{@}", "\\cmd{@}", "\\cmd[o]{@}", "\\begin{a}@\\end{a}", "\\begin{a}[o]\n@\n\\end{a}\n", "a @ b", "\n@\n", "%c\n@", "\\begin{a}\\begin{b}@\\end{b}\\end{a}", "\\documentclass{x}\n\\begin{document}\n@\n\\end{document}\n", "{{@}}", "\\section{x}\n\n@", "$a$@", "\\lilypond{c}@"],
}


def ends_comment(t):
    """True if a closing delimiter may not follow directly."""
    return ";" in t or "%" in t


class Nested(Text):
    name = "nested"

    def cases(self, tier):
        for lang, frags in (("scheme", SCHEME), ("html", HTML), ("latex", LATEX)):
            outer = CONTAINERS[lang]
            for c in outer:
                for d in ["@"] + outer:
                    wrap = c.replace("@", d)
                    for f in frags:
                        if lang == "scheme" and f.startswith(";") and not f.endswith("\n"):
                            f += "\n"
                        if lang == "scheme" and (f.startswith(";") or f.startswith("#!")) and ("'@" in wrap or "#@" in wrap):
                            continue    # a comment is no datum
                        if lang == "scheme" and "#!" in wrap and "!#" in f:
                            continue    # comments don't nest
                        if lang == "latex" and f.startswith("%") and not f.endswith("\n") and "\n" not in f:
                            continue
                        if lang == "latex" and "[" in f and "\\cmd[" in wrap:
                            continue
                        text = wrap.replace("@", f)
                        if re.search(r"\{ #'*(;|\[|#'|#!)", text):
                            continue    # not a datum for the tokenizer
                        yield lang, text
            if tier != "quick":
                for c in outer:
                    if "#@" in c:
                        continue    # one datum only
                    for f in frags:
                        if lang == "scheme" and ("!" in f or ";" in f):
                            continue
                        if lang == "latex" and ("[" in f or f.startswith("%")):
                            continue
                        for g in frags[::2]:
                            if lang == "scheme" and ("!" in g or ";" in g):
                                continue
                            if lang == "latex" and ("[" in g or g.startswith("%")):
                                continue
                            yield lang, c.replace("@", join((f, g), " " if lang == "scheme" else ""))


EMBED = [
    ("scheme", "#{ @ #}"), ("scheme", "(f #{ @ #} 1)"), ("scheme", "'(#{ @ #} . #{ c #})"),
    ("html", "<lilypond>@</lilypond>"), ("html", "<p>x<lilypond quote a=\"b\">@</lilypond>y</p>"), ("html", "<lilypond>\n@\n</lilypond>"), ("html", "<lilypond relative=1: @ />"),
    ("latex", "\\begin{lilypond}@\\end{lilypond}"), ("latex", "x\n\\begin{lilypond}[quote,a=b]\n@\n\\end{lilypond}\ny"), ("latex", "\\lilypond{@ }"), ("latex", "\\lilypond[a]{ @ }z"),
    ("latex", "\\begin{a}\\begin{lilypond}@\\end{lilypond}\\end{a}"),
]


class Embedded(Text):
    name = "embedded"

    def cases(self, tier):
        music = ["{ %s }" % t for t in docs.MUSIC]
        for lang, wrap in EMBED:
            for f in docs.TOPLEVEL + music:
                if lang == "scheme" and "\\etc" in f:
                    continue
                if "%" in f and not f.endswith("\n"):
                    f += "\n"
                yield lang, wrap.replace("@", f)
            if tier != "quick":
                for w in core.words(docs.TOPLEVEL, 2, 2):
                    if lang == "scheme" and any("\\etc" in f for f in w):
                        continue
                    yield lang, wrap.replace("@", "\n".join(w) + "\n")


class Numbers(core.Family):
    """All numbers of a small grammar keep their value."""
    name = "numbers"

    def reals(self, radix):
        digits = {10: ["0", "1", "12", "007"], 16: ["0", "1f", "A0"], 8: ["0", "17"], 2: ["0", "101"]}[radix]
        unsigned = digits + [d + "/" + e for d in digits for e in digits if e != "0"] + ["inf.0", "nan.0"]
        if radix == 10:
            unsigned += [".5", "1.", "1.25", "1e3", "1.5e-7", "1e22", "1e400", "1#", "2#.", "123456789012345678901", "0.1"]
        for u in unsigned:
            for s in "+", "-", "":
                if s or u[0] not in "in":
                    yield s + u

    def cases(self, tier):
        for radix, prefixes in ((10, ("", "#d", "#e", "#i", "#e#d", "#i#d", "#d#i")), (16, ("#x", "#e#x", "#i#x", "#x#i", "#X")), (8, ("#o", "#i#o", "#o#e")), (2, ("#b", "#i#b", "#b#e"))):
            reals = list(self.reals(radix))
            for p in prefixes:
                for r in reals:
                    yield p + r
                if p in ("", "#x", "#i", "#b", "#i#x"):
                    for r in reals + [""]:
                        for i in reals + ["+", "-"]:
                            if i[0] in "+-":
                                yield p + r + i + "i"
            if radix == 10:
                for r in ("1", "0", "-1.5", "1/2"):
                    for i in ("1", "0", "-2", "1/2", "3.5"):
                        yield r + "@" + i

    def value(self, text):
        node = docs.parse(text, "scheme")[1]
        if len(node) != 1 or not isinstance(node[0], scm.Number):
            return node, None
        return node, node[0].head

    def check(self, case, rec):
        try:
            want = parce.lang.scheme.scheme_number_from_text(case)
        except (ValueError, ZeroDivisionError, OverflowError):
            rec.count("invalid")
            return
        rec.step()
        doc, got = self.value(case)
        if got is None or number(got) != number(want) or type(got) is not type(want):
            raise core.Violation("number has another value", "{!r} is read as {!r} instead of {!r}".format(case, got, want))
        w = doc.write()
        doc2, again = self.value(w)
        if again is None or number(again) != number(want):
            raise core.Violation("number changed by reading and writing", "{!r} ({!r}) is written as {!r} ({!r})".format(case, want, w, again))
        if type(doc2[0]) is not type(doc[0]) or not doc2.equals(doc):
            raise core.Violation("reading the written text gives another structure", "{!r} became {!r}".format(case, w))
        if doc2.write() != w:
            raise core.Violation("writing is no fixpoint", "{!r} then {!r}".format(w, doc2.write()))
        # inside LilyPond
        text = "{ #" + case + " }"
        d = docs.parse(text)[1]
        if d.write() != "{ #" + w + " }":
            raise core.Violation("other number in LilyPond", "{!r} became {!r}".format(text, d.write()))
        rec.state(w)
        rec.outcome(repr(want))
        rec.trace()


CHARS = ["a", " ", "'", "\\\\", "\\\"", "\\n", "\\t", "\n", "%", ";", "#", "\\z", "\u00e9", "{", "&"]
STRINGS = [("scheme", "@"), ("scheme", "(a @)"), ("lilypond", "{ #@ }"), ("lilypond", "x = @"), ("lilypond", "\\markup @"), ("lilypond", "{ c^@ }"), ("lilypond", "\\lyricmode { @ }"), ("lilypond", "\\header { title = @ }"),
           ("html", "<lilypond>\\markup @</lilypond>"), ("latex", "\\lilypond{\\markup @}")]


class Strings(core.Family):
    """All strings keep their value."""
    name = "strings"

    def cases(self, tier):
        for w in core.words(CHARS, 3 if tier == "quick" else 4):
            yield w

    def check(self, case, rec):
        string = '"' + "".join(case) + '"'
        for lang, wrap in STRINGS:
            text = wrap.replace("@", string)
            rec.step()
            d = docs.parse(text, lang)[1]
            nodes = list(d // base.String)
            scheme = lang == "scheme" or "#@" in wrap
            if scheme and ("\\n" in case or "\\t" in case):
                continue    # see SchemeEscapes
            want = unescape(string[1:-1], scheme)
            if len(nodes) != 1 or nodes[0].head != want:
                raise core.Violation("string has another value", "{!r} {!r}: {!r} instead of {!r}".format(lang, text, [n.head for n in nodes], want))
            for w in (d.write(), d.write_indented()):
                d2 = docs.parse(w, lang)[1]
                nodes = list(d2 // base.String)
                if len(nodes) != 1 or nodes[0].head != want:
                    raise core.Violation("string changed by reading and writing", "{} {!r} became {!r}: {!r} instead of {!r}".format(lang, text, w, [n.head for n in nodes], want))
            rec.state((wrap, want))
            rec.outcome(want)
        rec.trace()


class SchemeEscapes(core.Family):
    """The escapes for control characters in a Scheme string."""
    name = "scheme-escapes"

    def cases(self, tier):
        yield from sorted(LOST)

    def check(self, case, rec):
        want = "x" + LOST[case] + "y"
        for lang, wrap in (("scheme", "@"), ("scheme", "(a @)"), ("lilypond", "{ #@ }")):
            text = wrap.replace("@", '"x\\' + case + 'y"')
            rec.step()
            d = docs.parse(text, lang)[1]
            for d in d, docs.parse(d.write(), lang)[1]:
                heads = [n.head for n in d // base.String]
                if heads == ["x" + case + "y"]:
                    raise core.Violation("the Scheme string escape \\{0} is read as the letter {0}".format(case), repr(text))
                if heads != [want]:
                    raise core.Violation("string has another value", "{} {!r}: {!r} instead of {!r}".format(lang, text, heads, want))
            rec.outcome(want)
        rec.trace()


def families():
    return [Words(), Nested(), Embedded(), Numbers(), Strings(), SchemeEscapes()]
