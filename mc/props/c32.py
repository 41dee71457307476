r"""C32: markup made with the markup functions reads back as the same markup."""

import inspect
import itertools

from mc import core, docs
from quickly.dom import base, element, lily, markup, scm

BOUNDS = {
    "quick": "all markup functions with all combinations of up to 3 (but always one variable) markup arguments of 7 kinds and (where there are less than three) 3 values for each fixed argument; all pairs of a function in any argument of another; all triples of the first functions of every signature; all strings up to length 2 of 26 characters as argument, alone and next to others; 12 contexts",
    "thorough": "up to 4 markup arguments; all triples where the outer two are of the first two functions of every signature; strings up to length 3",
}
ASSUMPTIONS = ["fill_with_pattern is only written, not read (parce knows no markup command with five arguments)",
    "a string that has characters that can't be in a word is expected to be written as a quoted string"]

WORDS = ["x", "a b", ""]
#: values for the arguments that are not markup
NAMES = ["lab", "page-x", "header:title"]
NUMBERS = [1, -2, 0.5]
STRINGS = ["x y", "a\"b", "\\"]
def scheme():
    return lily.Scheme("#", scm.Quote("'", scm.List(scm.Identifier("a"), scm.Number(1))))
def duration():
    return lily.MarkupList(lily.MarkupWord("8"))
VALUES = {
    ("char", "n"): [10, 255, 0x1f3b5],
    ("note", "duration"): ["4..", duration], ("rest", "duration"): ["4..", duration],
    ("override", "prop"): NAMES[:2], ("override_lines", "prop"): NAMES[:2],
    ("override", "value"): [1, True, "x y"], ("override_lines", "value"): [-0.5, False, "z"],
    ("with_link", "label"): NAMES, ("page_ref", "label"): NAMES, ("page_ref", "gauge"): ["00", "a b", lambda: markup.bold("x")],
    ("fromproperty", "name"): NAMES, ("justify_field", "name"): NAMES, ("wordwrap_field", "name"): NAMES,
    ("woodwind_diagram", "instrument"): ["flute", "bass-clarinet"], ("woodwind_diagram", "scheme_commands"): [scheme],
    ("fret_diagram_verbose", "element"): [scheme], ("epsfile", "filename"): ["a.eps"], ("verbatim_file", "filename"): ["a b.txt", "x"],
    ("with_url", "url"): ["http://x.org", "http://x.org/#a%20b"], ("postscript", "s"): ["0 0 moveto", scheme],
    ("draw_squiggle_line", "eqend"): [True, False],
}
for f in "tied_lyric:text", "fret_diagram:s", "fret_diagram_terse:s", "harp_pedal:s", "justify_string:s", "lookup:s", "musicglyph:name", "wordwrap_string:s":
    VALUES[tuple(f.split(":"))] = STRINGS
#: the pairs that are made of the arguments
ORDER = {"filled_box": [0, 2, 1, 3, 4], "pad_to_box": [0, 2, 1, 3], "with_dimensions": [0, 2, 1, 3]}
SKIP = "is_markup", "markup", "markuplist", "fill_with_pattern", "main"
#: arguments that are markup
ARGS = [lambda: "x", lambda: "a b", lambda: "", lambda: 3, lambda: lily.MarkupCommand("bold", lily.MarkupWord("y")),
        lambda: lily.MarkupList(lily.MarkupWord("u"), lily.MarkupWord("v")), lambda: lily.Scheme("#", scm.Identifier("z"))]
CONTEXTS = [("\\markup @", lambda m: m), ("\\markup { a @ b }", None), ("\\markuplist { a @ }", None), ("{ c^\\markup @ d }", None), ("x = \\markup @ y = 1", None),
    ("\\header { title = \\markup @ }", None), ("\\lyricmode { \\markup @ 4 a }", None), ("{ \\mark \\markup @ c }", None), ("{ \\tempo \\markup @ 4 = 60 }", None),
    ("\\book { \\markup @ }", None), ("\\layout { instr = \\markup { a @ } }", None), ("\\markup \\bold \\italic @", None)]


def functions():
    return [name for name, f in sorted(vars(markup).items())
            if not name.startswith("_") and inspect.isfunction(f) and f.__module__ == markup.__name__ and name not in SKIP]


def params(name):
    """(fixed parameters, whether there are others)"""
    p = inspect.signature(getattr(markup, name)).parameters.values()
    return [x.name for x in p if x.kind is not x.VAR_POSITIONAL], any(x.kind is x.VAR_POSITIONAL for x in p)


def command(name):
    return {"if_": "if", "raise_": "raise"}.get(name, name.replace("_", "-"))


def values(name):
    """Values for the fixed parameters; None where it is markup."""
    res = []
    for p in params(name)[0]:
        v = VALUES.get((name, p))
        if v is None and "arg" not in p:
            v = NUMBERS
        res.append(v)
    return res


def leaves(x):
    """The values in an argument or an element, in order."""
    if isinstance(x, element.Element):
        if isinstance(x, lily.MarkupCommand):
            yield "\\" + x.head
        elif isinstance(x, (lily.MarkupWord, lily.String, scm.String)):
            yield x.head
        elif isinstance(x, (lily.MarkupScore, lily.MarkupScoreLines)):
            yield "\\score" + "-lines" * isinstance(x, lily.MarkupScoreLines)
        elif isinstance(x, (scm.Number, scm.Bool, scm.Identifier, lily.Note)):
            yield x.head
        for c in x:
            yield from leaves(c)
    else:
        yield x


class Markup(core.Family):
    def build(self, name, args):
        return getattr(markup, name)(*args)

    def verify(self, node, want, rec):
        """The markup has the values and is read back."""
        got = list(leaves(node))
        if got != want:
            raise core.Violation("wrong contents", "{!r}: {}, should be {}".format(node.write(), got, want))
        doc = lily.Document(lily.Markup("markup", node))
        text = doc.write()
        again = docs.parse(text)[1]
        rec.step()
        rec.trace()
        rec.state(text)
        if docs.shape(again) != docs.shape(doc):
            raise core.Violation("reads back different", "{!r}: {}".format(text, again.write()))
        if not links(doc):
            raise core.Violation("parent links", text)
        other = again.write()
        if other != text:
            raise core.Violation("is written different when read back", "{!r}: {!r}".format(text, other))
        ind = docs.parse(doc.write_indented())[1]
        if docs.shape(ind) != docs.shape(doc):
            raise core.Violation("reads back different, indented", repr(doc.write_indented()))


def links(node):
    return all(c.parent is node and links(c) for c in node)


def call(name, fixed, var):
    """(node, the expected leaves) of a call with arguments that make new nodes."""
    make = [v() if callable(v) else v for v in fixed]
    more = [v() if callable(v) else v for v in var]
    order = ORDER.get(name, range(len(make)))
    want = ["\\" + command(name)]
    for a in [make[i] for i in order] + more:
        want.extend(leaves(a))
    return getattr(markup, name)(*make, *more), want


class Calls(Markup):
    """Every function with all combinations of arguments."""
    name = "calls"

    def cases(self, tier):
        most = 4 if tier == "thorough" else 3
        for name in functions():
            fixed, var = params(name)
            vals = values(name)
            markups = vals.count(None)
            for n in range(max(1, most - markups) + 1) if var else (0,):
                for k in range(len(ARGS) if markups else 1):
                    yield [name, n, k]

    def check(self, case, rec):
        name, n, k = case
        vals = [ARGS if v is None else v for v in values(name)]
        if ARGS in vals:
            i = vals.index(ARGS)
            vals[i] = [ARGS[k]]
        if n > 2:
            vals = [v if v[0] in ARGS else v[:1] for v in vals]
        music = name.startswith("score")
        args = [lambda: lily.MusicList(lily.Note("c")), lambda: lily.Header(lily.Assignment(lily.Identifier(lily.Symbol("a")), lily.EqualSign(), lily.String("b")))] if music else ARGS
        for fixed in itertools.product(*vals):
            for var in itertools.product(args, repeat=n):
                if music:
                    node = getattr(markup, name)(*(v() for v in var))
                    want = ["\\" + command(name)] + [x for v in var for x in leaves(v())]
                else:
                    node, want = call(name, fixed, var)
                    count = len(fixed) - {"translate": 1, "translate_scaled": 1, "override": 1, "override_lines": 1, "draw_squiggle_line": 1, "filled_box": 2, "pad_to_box": 2, "with_dimensions": 2}.get(name, 0) + params(name)[1]
                    if len(node) != count:
                        raise core.Violation("wrong number of arguments", "{!r}: {}, should be {}".format(node.write(), len(node), count))
                self.verify(node, want, rec)
                rec.outcome(len(want))


class Nested(Markup):
    """Functions in the arguments of functions."""
    name = "nested"

    def cases(self, tier):
        names = [n for n in functions() if not n.startswith("score")]
        for a in names:
            for b in names:
                yield [a, b]
        reps = self.representatives(2 if tier == "thorough" else 1)
        for a in reps:
            for b in reps:
                for c in names if tier == "thorough" else reps:
                    yield [a, b, c]

    def representatives(self, n):
        """The first n functions of every signature that has markup arguments."""
        kinds = {}
        for name in functions():
            if not name.startswith("score"):
                kinds.setdefault((len(params(name)[0]), params(name)[1], name in ORDER), []).append(name)
        return [name for l in kinds.values() for name in l[:n]]

    def slots(self, name):
        """The indices of the arguments that can be markup."""
        fixed, var = params(name)
        slots = [i for i, v in enumerate(values(name)) if v is None]
        return slots + [len(fixed), len(fixed) + 1] if var else slots

    def make(self, names, slots):
        """Yield (node, want) with the second function in a slot of the first, etc."""
        name = names[0]
        fixed, var = params(name)
        vals = [(ARGS[0] if v is None else v[0]) for v in values(name)]
        more = [ARGS[0]] * 2 if var else []
        args = [v() if callable(v) else v for v in vals + more]
        wants = [list(leaves(a)) for a in args]
        if len(names) > 1:
            i = slots[0]
            args[i], wants[i] = self.make(names[1:], slots[1:])
        order = list(ORDER.get(name, range(len(fixed)))) + list(range(len(fixed), len(args)))
        return getattr(markup, name)(*args), ["\\" + command(name)] + [x for i in order for x in wants[i]]

    def check(self, case, rec):
        for slots in itertools.product(*map(self.slots, case[:-1])):
            self.verify(*self.make(case, slots), rec)
        rec.outcome(len(case))


CHARS = "ab-_0 \\\"{}#$%'<>=|~^:*/@é\n"


class Words(Markup):
    """Any string as argument."""
    name = "words"

    def cases(self, tier):
        for n in range(4 if tier == "thorough" else 3):
            for w in itertools.product(CHARS, repeat=n):
                yield ["".join(w)]

    def check(self, case, rec):
        s, = case
        for args in ([s], [s, s], ["x", s, "y"], [s, lily.MarkupCommand("italic", lily.MarkupWord("i"))]):
            want = ["\\bold"] + [x for a in args for x in leaves(a)]
            self.verify(markup.bold(*args), want, rec)
            d = lily.Document(markup.markup(*(a.copy() if isinstance(a, element.Element) else a for a in args)))
            again = docs.parse(d.write())[1]
            if docs.shape(again) != docs.shape(d) or list(leaves(d)) != want[1:]:
                raise core.Violation("reads back different", repr(d.write()))
            d = lily.Document(markup.markuplist(*(a.copy() if isinstance(a, element.Element) else a for a in args)))
            again = docs.parse(d.write())[1]
            if docs.shape(again) != docs.shape(d) or list(leaves(d)) != want[1:]:
                raise core.Violation("reads back different", repr(d.write()))
        # is_markup says what can be written without quotes
        if markup.is_markup(s):
            d = docs.parse("\\markup { " + s + " }")[1]
            if not (len(d) == 1 and len(d[0]) == 1 and len(d[0][0]) == 1 and isinstance(d[0][0][0], lily.MarkupWord) and d[0][0][0].head == s):
                raise core.Violation("is_markup() is wrong", repr(s))
        rec.outcome(markup.is_markup(s))


class Contexts(Markup):
    """Every function in every context."""
    name = "contexts"

    def cases(self, tier):
        for name in functions():
            for i in range(len(CONTEXTS)):
                yield [name, i]

    def check(self, case, rec):
        name, i = case
        music = name.startswith("score")
        vals = [(ARGS[0] if v is None else v[0]) for v in values(name)]
        for n in range(3) if params(name)[1] else (0,):
            def new():
                if music:
                    return getattr(markup, name)(*(lily.MusicList(lily.Note("c")) for _ in range(n)))
                return call(name, vals, ARGS[:n])[0]
            text = CONTEXTS[i][0]
            # the context with a placeholder, replaced with the markup
            dom = docs.parse(text.replace("@", "ph"))[1]
            hole = next(w for w in dom // lily.MarkupWord if w.head == "ph")
            hole.replace_with(new())
            out = dom.write()
            again = docs.parse(out)[1]
            rec.step()
            rec.trace()
            rec.state(out)
            if docs.shape(again) != docs.shape(dom):
                raise core.Violation("reads back different in context", "{!r}: {!r}".format(out, again.write()))
            rec.outcome(i)


def families():
    return [Calls(), Nested(), Words(), Contexts()]
