r"""C23: indented output differs in line indents only, which follow the nesting."""

import itertools

from mc import core, docs, indentref as ref
from quickly.dom import element, indent, util
from parce.lang.scheme import scheme_is_indenting_keyword

BOUNDS = {
    "quick": "28 LilyPond and 22 Scheme fragments in 6 resp. 5 surroundings, and sequences of 2 of them (the second, and except in one surrounding the first, of 15 and 12), with a line break at every subset of the possible places (up to 7 places, for sequences 5, else all subsets of up to 2 or 3), "
             "6 settings of indent_width, start_indent and max_align_indent; all layouts (space, newline, blank line at every gap) of texts of up to 8 words read with add_newlines and indented twice",
    "thorough": "all sequences of 2 of the fragments and of 3 of 14 fragments; all subsets of up to 10 places; layouts of texts of up to 10 words",
}
ASSUMPTIONS = ["whitespace at the end of lines is not compared", "a newline is always added at the end of the output"]

SETTINGS = [(2, 0, 16), (4, 0, 16), (2, 3, 16), (2, 0, 4), (3, 1, 0), (1, 0, 100)]

LILY = ["c4", "d8-.", "{ e4 f }", "<c' e>4", "<< g a >>", "{ }", "% x\n", "%%% y\n", "\\relative c' { d }", "\\tuplet 3/2 { c }",
        "\\repeat volta 2 { c }", "^\\markup { a b }", "c-\\markup \\bold { x }", "\\set a = #'(b c)", "%{ p\nq %}", "\\new Staff \\with { a = 1 } { c }",
        "#(f \"u\nv\" w)", "\\time 3/4", "<< { c } \\\\ { d } >>", "\\once \\override A.b = #(let ((x 1)) y z)", "r4 | s2", "<c-1\\f e>8~", "\\mark \"x y\"",
        "\\lyricmode { a -- b }", "#{ c d #}", "\\figuremode { <5 6>4 }", "\\score { { c } \\layout { } }", "#'(a #{ { c d } #} b)"]
LTEMPLATES = ["{ # }", "{ { # } c }", "<< { # } d >>", "x = { # }  y = 1", "\\score { { # } \\layout { a = 1 } }", "\\header { t = \\markup { a { b } } } { c4 #}"]
SCHEME = ["a", "(f x y)", "((f) x)", "(define (g a) b)", "(let ((p 1) (q 2)) r)", "'(a b)", "#(1 2)", "; c\n", ";;; d\n", "\"x\"", "\"x\ny\"", "()", "(1 2)",
          "(string-append \"p\" \"q\")", "(lambda (x) y)", "#t", "`(a ,b)", "(a . b)", "(cond (a b) (c d))", "(very-long-function-name y z)", "(1 (f x) z)", "#{ c { d } #}"]
STEMPLATES = ["#", "(#)", "(f # b)", "(define x # y)", "((x #) y)"]


#: used for everything
INDENTER = indent.Indenter()


def read(lang, text):
    return docs.parse(text, lang)[1]


def shape(node):
    """Structure without whitespace in heads."""
    return (type(node).__name__, " ".join(str(node.head).split()) if isinstance(node, element.TextElement) else None,
            tuple(map(shape, node)))


def verify(dom, setting, desc, rec, plain=None):
    """Compare the indented output with the reference. Return the output."""
    width, start, maxalign = setting
    out = dom.write_indented(*setting)
    rec.step()
    # the arguments, attributes and defaults are the same; and an Indenter can be used again
    INDENTER.indent_width, INDENTER.start_indent, INDENTER.max_align_indent = setting
    if INDENTER.write(dom) != out or indent.Indenter(*setting).write(dom) != out or setting == (2, 0, 16) and dom.write_indented() != out:
        raise core.Violation("other Indenter", "{} with {}: written differently by an Indenter that was used before, a new one, or with default arguments".format(desc, setting))
    parts, starts = ref.pieces(dom)
    desc = "{} with {}".format(desc, setting)
    if plain is None:
        plain = dom.write()
    loc, rest = ref.locate(out, parts)
    if loc is None:
        raise core.Violation("text changed", "{}: {!r} has other text than {!r}".format(desc, out, plain))
    if rest.strip(" \n") or not rest.endswith("\n"):
        if parts or rest:
            raise core.Violation("text added", "{}: {!r} instead of {!r}".format(desc, out, plain))
    base, _ = ref.locate(plain, parts)
    if base is None:
        raise core.Violation("text changed", "{}: write() returns {!r}".format(desc, plain))
    gaps = []
    for i, (g, b, p) in enumerate(zip(loc, base, parts)):
        gap = g[0]
        if i == 0:
            gap = ""
        elif "\n" in gap:
            gap = "\n" * gap.count("\n")
        if gap != (b[0] if "\n" not in b[0] else "\n" * b[0].count("\n")):
            raise core.Violation("whitespace changed", "{}: {!r} before {!r} instead of {!r} in {!r}".format(desc, gap, p.text, b[0], out))
        gaps.append(gap)
    cols = ref.columns(parts, starts, gaps, width, start, maxalign, scheme_is_indenting_keyword)
    for i, (g, c, p) in enumerate(zip(loc, cols, parts)):
        if g[2] != c:
            raise core.Violation("wrong indent", "{}: {!r} is at column {} instead of {} in\n{}".format(desc, p.text, g[2], c, out))
    return out


def places(dom):
    """The places a line break can be put: (node, attribute)."""
    parts, _ = ref.pieces(dom)
    loc, _ = ref.locate(dom.write(), parts)
    result = []
    for k in range(1, len(parts)):
        p, prev = parts[k], parts[k - 1]
        inside = (prev.node.indent_children() and not prev.tail) or (p.tail and p.node.indent_children())
        if "\n" in loc[k][0] or (loc[k][0] or inside):
            if "\n" not in loc[k][0]:
                result.append((p.node, "space_before_tail" if p.tail else "space_before"))
    return result


class Breaks(core.Family):
    name = "breaks"

    def cases(self, tier):
        deep = tier != "quick"
        for lang, items, templates in (("lilypond", LILY, LTEMPLATES), ("scheme", SCHEME, STEMPLATES)):
            for t in templates:
                for w in core.words(items, 2, 0):
                    if not deep and len(w) == 2 and (w[1] not in items[:15] or w[0] not in items[:12] and t != templates[0]):
                        continue
                    yield lang, t, w, 10 if deep else 7 if len(w) < 2 else 5
            if deep:
                for t in templates[:2]:
                    for w in core.words(items[:14], 3, 3):
                        yield lang, t, w, 6

    def check(self, case, rec):
        lang, template, items, limit = case
        text = template.replace("#", " ".join(items))
        dom = read(lang, text)
        if any(type(n).__name__ in ("Unknown", "Error") for n in dom.descendants()):
            rec.outcome("unreadable", None)
            return
        where = places(dom)
        n = len(where)
        orig = shape(dom)
        sizes = range(n + 1) if n <= limit else range(4 if limit > 6 and n <= 16 else 3)
        old = [getattr(node, attr) for node, attr in where]
        count = 0
        for size in sizes:
            for chosen in itertools.combinations(range(n), size):
                for k in chosen:
                    setattr(*where[k], "\n" if (k + size) % 5 else "\n\n")
                desc = "{!r} with line breaks before {}".format(text, chosen)
                plain = dom.write()
                for s in SETTINGS if len(items) < 2 or not count % 3 else SETTINGS[:1] + SETTINGS[3:4]:
                    out = verify(dom, s, desc, rec, plain)
                if size <= 1 or size == n:
                    res = shape(read(lang, out))
                    if res != orig:
                        raise core.Violation("other structure", "{}: {!r} reads as {}".format(desc, out, res))
                for k in chosen:
                    setattr(*where[k], old[k])
                count += 1
        rec.trace()
        rec.state((text, n))


WORDS = ["{ c d }", "{ { c } d8 }", "x = { c }", "<< { c } d >>", "% e\n { c }", "#(f 'a b)", "<c e>4 f", "%{ a\nb %} c", "\\markup { a { b } }",
         "\\header { a = \"x\ny\" b = 1 }", "{ c", "\\score { { c d", "#(f (g", "\\relative c' { c4 d }", "{ c4-. d^\\markup \\bold { x } }", "\\lyricmode { a -- b }",
         "\\tuplet 3/2 { c }", "{ \"x\" c }", "{ %{ %} c }", "#'(a . b)", "{ c %%% x\n d }", "\\score { \\new Staff { c } \\layout { } }", "\\set A.b = #(f x)",
         "{ c % x\n\n\n d }", "c4 \\markup { \"a b\" }"]
SWORDS = ["(f x y)", "(define (f x) y)", "((a) b)", "'(a b)", "\"x\ny\" b", "; a\n (b c)", "(a", "(let ((a 1)) b", "#(1 2) a", "#! x\ny !# (b)"]


class Layouts(core.Family):
    """Texts with line breaks, that are retained."""
    name = "layouts"

    def cases(self, tier):
        deep = tier != "quick"
        for lang, texts in (("lilypond", WORDS), ("scheme", SWORDS)):
            for t in texts:
                yield lang, t, 10 if deep else 8
            for a, b in itertools.product(texts, repeat=2):
                yield lang, a + " " + b, 10 if deep else 8

    def check(self, case, rec):
        lang, text, limit = case
        words = text.split(" ")
        if len(words) - 1 <= limit - 3:
            gaps = itertools.product((" ", "\n", "\n\n  "), repeat=len(words) - 1)
        elif len(words) - 1 <= limit:
            gaps = itertools.product((" ", "\n"), repeat=len(words) - 1)
        else:
            gaps = (tuple("\n" if i in c else " " for i in range(len(words) - 1))
                    for size in (0, 1, 2) for c in itertools.combinations(range(len(words) - 1), size))
        for g in gaps:
            source = words[0] + "".join(a + b for a, b in zip(g, words[1:]))
            self.one(lang, source, rec)
        rec.trace()

    def one(self, lang, source, rec):
        tree, dom = docs.parse(source, lang)
        desc = "{!r}".format(source)
        before = shape(dom)
        rec.state(source)
        if any(type(n).__name__ in ("Unknown", "Error") for n in dom.descendants()):
            rec.outcome("unreadable", None)
            return
        util.add_newlines(dom, source)
        out = verify(dom, SETTINGS[0], desc + " after add_newlines", rec)
        # the breaks of the source are there
        parts, _ = ref.pieces(dom)
        a, _ = ref.locate(out, parts)
        pos = {}
        for n in [dom, *dom.descendants()]:
            for attr, tail in (("head_origin", False), ("tail_origin", True)):
                o = getattr(n, attr, ())
                if o:
                    pos[id(n), tail] = o[0].pos, o[-1].end
        prev = None
        default = None
        for k, (p, loc) in enumerate(zip(parts, a)):
            r = pos.get((id(p.node), p.tail))
            if r and prev is not None:
                count = source.count("\n", prev, r[0])
                if loc[0].count("\n") != count and default is None:
                    default = default_breaks(dom)
                if loc[0].count("\n") != count and loc[0].count("\n") != max(count, default[k]):
                    raise core.Violation("line breaks changed", "{}: {} newlines before {!r} instead of {} in {!r}".format(
                        desc, loc[0].count("\n"), p.text, count, out))
            prev = r[1] if r else None
        # again
        if all(hasattr(n, "tail_origin") is False or n.tail_origin for n in dom.descendants()):
            tree2, again = docs.parse(out, lang)
            after = shape(again)
            if after != before:
                raise core.Violation("other structure", "{}: {!r} reads as {}".format(desc, out, after))
            util.add_newlines(again, out)
            res = again.write_indented()
            if res != out:
                raise core.Violation("indenting again changes", "{}: {!r} becomes {!r}".format(desc, out, res))


def default_breaks(dom):
    """The newlines before every piece when no layout is specified."""
    copy = dom.copy()
    parts, _ = ref.pieces(copy)
    for n in [copy, *copy.descendants()]:
        del n.space_before
        del n.space_before_tail
    loc, _ = ref.locate(copy.write(), parts)
    return [g[0].count("\n") for g in loc]


def families():
    return [Breaks(), Layouts()]
