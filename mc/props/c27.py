r"""C27: the DOM of a live document is the one of a fresh read."""

import parce

from mc import core, docs
from mc.props import c26
from quickly.dom import base, element, lily

BOUNDS = {
    "quick": "36 documents (LilyPond with all kinds of contexts, Scheme, HTML, LaTeX, missing delimiters); all single edits at every text position (18 inserted texts; deletion of 1 or 2 characters; and of every token), "
             "all pairs of edits at token boundaries (5 inserted texts, deletion and replacement of every token) on 9 documents, read in between or not; all pairs of an operation (14 operations of C26) and an edit, in both orders, on 16 documents",
    "thorough": "all pairs of edits on all documents, all triples on 3 short documents; operations also on all documents, and two operations",
}
ASSUMPTIONS = [
    "modifications of the DOM are written back to the document (parce caches the DOM of unchanged parts of the text)",
    "the parent links and positions of an earlier DOM are not kept, its contents are",
]

DOCS = [
    ("lilypond", t) for t in [
        "c", "{ }", "{ c4 d }", "{ <c e>4-. f }", "{ c4 { d8 } e }", "<< { c } \\\\ { d } >>", "\\relative c' { c4 d }", "x = { c }\ny = \\x",
        "\\header { a = \"b\" }\n{ c }", "{ c % x\n d }", "{ c %{ x %} d }", "\\markup { a \\bold b }", "#(f 'a (g 1))", "{ c4^\"x\" d\\f }",
        "\\lyricmode { a -- b4 }", "\\chordmode { c4:7 d }", "\\drummode { bd4 <hh>8 }", "\\new Staff \\with { a = 1 } { c }", "\\score { { c } \\layout { } }",
        "{ #(f #{ { c } #}) d }", "{ \\tuplet 3/2 { c8 } \\time 3/4 }", "{ \\override A.b = #'(c . d) e }", "\\figuremode { <6 4>2 }", "\\paper { a = 1\\cm }",
        "{ c4 d", "{ <c e", "\\version \"2.24\" { c\\<\\! }", "{ \\repeat volta 2 { c } \\alternative { { d } } }", "\\markup \\score { { c } }",
        "a.b = 1", "\\language \"english\" { cs }",
    ]
] + [
    ("scheme", "(f #{ { c } #} \"a\")"), ("scheme", "'(a . b) ; c\n#t"), ("html", "<p a=\"b\">x<lilypond>{ c }</lilypond></p>"),
    ("html", "<lilypond a>c</lilypond>"), ("latex", "x \\lilypond{ { c } } y"), ("latex", "\\begin{lilypond}\n{ c }\n\\end{lilypond}"),
]
TEXTS = [" ", "d", "4", "{", "}", "<", ">", "\"", "%", "\n", "\\", "#", "(", ")", "'", "=", "{ e }", "\\relative "]
SHORT = [" ", "d", "{", "}", "\""]
OPS = [o for o in c26.OPS if o not in ("copy", "copy explicit", "paste once", "abs2rel 2.18")]
FEW = slice(0, 16)
QUICK = ("c", "{ }", "{ c4 d }", "{ <c e>4-. f }", "{ c4 d", "a.b = 1", "\\paper { a = 1\\cm }", "'(a . b) ; c\n#t", "<lilypond a>c</lilypond>")


def dump(node):
    """Structure with heads and positions."""
    return (type(node).__name__, repr(node.head) if isinstance(node, element.TextElement) else None,
            [(t.pos, t.text) for t in getattr(node, "head_origin", ())], [(t.pos, t.text) for t in getattr(node, "tail_origin", ())],
            [dump(c) for c in node])


def contents(node):
    return docs.shape(node)


def token_edits(text, lang, texts, replace=True):
    """Yield all edits at token boundaries (pos, end, text)."""
    tokens = list(docs.parse(text, lang)[0].tokens()) if text else []
    places = sorted({0, len(text)} | {t.pos for t in tokens} | {t.end for t in tokens})
    for p in places:
        for t in texts:
            yield p, p, t
    for t in tokens:
        yield t.pos, t.end, ""
        if replace:
            yield t.pos, t.end, "d"


def char_edits(text):
    for p in range(len(text) + 1):
        for t in TEXTS:
            yield p, p, t
        for n in (1, 2):
            if p + n <= len(text):
                yield p, p + n, ""


def compare(doc, lang, where, rec, earlier):
    """Compare the DOM of doc with a fresh read; return it and its contents."""
    rec.step()
    text = doc.text()
    dom = doc.get_transform(True)
    fresh = docs.parse(text, lang)[1] if text else None
    if text:
        got, want = dump(dom), dump(fresh)
        if got != want:
            raise core.Violation("other DOM than read from scratch", "{}: {!r} is read as {} instead of {}".format(where, text, got, want))
        if not docs.links_ok(dom):
            raise core.Violation("wrong parent links", "{}: {!r}".format(where, text))
        if dom.write() != fresh.write():
            raise core.Violation("other text than when read from scratch", "{}: {!r} {!r}".format(where, dom.write(), fresh.write()))
    elif dom is not None and len(dom):
        raise core.Violation("elements in an empty document", "{}: {}".format(where, dump(dom)))
    for d, c in earlier:
        if contents(d) != c:
            raise core.Violation("an earlier DOM is changed", "{}: {} instead of {}".format(where, contents(d), c))
    if dom is not None:
        earlier.append((dom, contents(dom)))
    rec.outcome(text)
    rec.state((lang, text))
    return dom


def apply(doc, edit):
    pos, end, text = edit
    with doc:
        doc[pos:end] = text


class Single(core.Family):
    """All single edits at every text position; undone afterwards."""
    name = "single"

    def cases(self, tier):
        for lang, text in DOCS:
            for e in char_edits(text):
                yield lang, text, e

    def check(self, case, rec):
        lang, text, (pos, end, t) = case
        doc = docs.document(text, lang)
        earlier = []
        compare(doc, lang, case, rec, earlier)
        old = text[pos:end]
        apply(doc, (pos, end, t))
        compare(doc, lang, case, rec, earlier)
        apply(doc, (pos, pos + len(t), old))
        compare(doc, lang, "{} undone".format(case), rec, earlier)
        rec.trace()


class Pairs(core.Family):
    """All histories of edits at token boundaries."""
    name = "edits"

    def cases(self, tier):
        deep = tier != "quick"
        for i, (lang, text) in enumerate(DOCS):
            if deep or text in QUICK:
                depth = 3 if deep and i < 3 else 2
                for e in token_edits(text, lang, SHORT):
                    yield lang, text, [e], depth, SHORT
                    if depth == 3:
                        new = text[:e[0]] + e[2] + text[e[1]:]
                        for e2 in token_edits(new, lang, SHORT, False):
                            yield lang, text, [e, e2], depth, SHORT

    def check(self, case, rec):
        lang, text, edits, depth, texts = case
        # triples are split in smaller cases
        self.explore(lang, text, edits, 1 if len(edits) == 1 and depth == 3 else depth, texts, rec)

    def explore(self, lang, text, edits, depth, texts, rec):
        where = "{} {!r} {}".format(lang, text, edits)
        for between in (True, False):
            doc = docs.document(text, lang)
            earlier = []
            dom = doc.get_transform(True)
            earlier.append((dom, contents(dom)))
            for e in edits[:-1]:
                apply(doc, e)
                if between:
                    dom = doc.get_transform(True)
                    if dom is not None:
                        earlier.append((dom, contents(dom)))
            apply(doc, edits[-1])
            compare(doc, lang, where, rec, earlier)
            if len(edits) == 1:
                break
        rec.trace()
        if len(edits) < depth:
            for e in token_edits(doc.text(), lang, texts, len(edits) < 2):
                self.explore(lang, text, edits + [e], depth, texts, rec)


class Operations(core.Family):
    """Operations that are written back, and text edits."""
    name = "operations"

    def cases(self, tier):
        deep = tier != "quick"
        for lang, text in DOCS if deep else DOCS[FEW] + DOCS[-6:-4]:
            for op in OPS:
                yield lang, text, op, deep

    def check(self, case, rec):
        lang, text, op, deep = case
        earlier = []

        def fresh():
            doc = docs.document(text, lang)
            doc.get_transform(True)
            earlier.clear()
            return doc

        def operate(doc, op):
            if doc.text():
                try:
                    c26.OPS[op][0]().edit(doc)
                except KeyError:
                    return False    # a misspelled pitch name
                # the DOM was changed on purpose
                earlier.clear()
            return True

        for e in token_edits(text, lang, SHORT):
            where = "{} {!r} {}".format(lang, text, [e, op])
            doc = fresh()
            apply(doc, e)
            if operate(doc, op):
                compare(doc, lang, where, rec, earlier)
        doc = fresh()
        operate(doc, op)
        compare(doc, lang, "{} {!r} {}".format(lang, text, op), rec, earlier)
        result = doc.text()
        for e in token_edits(result, lang, SHORT):
            where = "{} {!r} {}".format(lang, text, [op, e])
            doc = fresh()
            operate(doc, op)
            compare(doc, lang, where, rec, earlier)
            apply(doc, e)
            compare(doc, lang, where, rec, earlier)
        for op2 in OPS if deep else ():
            doc = fresh()
            operate(doc, op)
            operate(doc, op2)
            compare(doc, lang, "{} {!r} {}".format(lang, text, [op, op2]), rec, earlier)
        rec.trace()


def families():
    return [Single(), Pairs(), Operations()]
