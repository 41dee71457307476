r"""C20: variables of documents and blocks behave like an ordered mapping."""

import itertools

from mc import core, docs
from quickly.dom import base, lily, scm

BOUNDS = {
    "quick": "document, header, paper, layout, midi, with and layout context blocks, with all sequences up to length 2 of 8 definitions (also of the same name, dotted and quoted names, with comments) and 2-4 other elements; "
             "all histories of 2 operations out of 16 (set 4 names to 3 kinds of values, delete), 3 operations for documents and headers with up to 1 definition; "
             "the header's attributes: all histories of 3 out of 9 operations; new blocks with keyword arguments",
    "thorough": "initial sequences up to length 3, histories of 3 operations for initial sequences up to length 2",
}
ASSUMPTIONS = ["negative numbers outside Scheme are not read by the tokenizer and are left out", "definitions in \\score, \\book and \\bookpart are not valid LilyPond and are left out"]

DEFS = ["foo = 1", "foo = \"a\"", "title = \"t\"", "\"x y\" = 2", "foo.bar = 3", "bar = %{ x %} \"v\"", "bar = ##t % c\n", "foo %{ y %} = \\markup { z }"]
CONTAINERS = {
    "Document": ("#", ["{ c }", "% c\n", "\\version \"2\"", "\\header { foo = 8 }"]),
    "Header": ("\\header { # }", ["% c\n", "#(x)"]),
    "Paper": ("\\paper { # }", ["% c\n", "#(x)"]),
    "Layout": ("\\layout { # }", ["% c\n", "\\context { \\Score foo = 9 }"]),
    "Midi": ("\\midi { # }", ["% c\n"]),
    "With": ("{ c } \\with { # }", ["% c\n", "\\consists \"X\""]),
    "LayoutContext": ("\\layout { \\context { # } }", ["\\Score", "% c\n"]),
}
NAMES = ["foo", "title", ("foo", "bar"), "x y"]
VALUES = [5, "s \"q\"", False, 1.5, (3, "cm")]
OPS = [("set", n, v) for n in NAMES for v in range(3)] + [("del", n) for n in NAMES]


def value_of(node):
    """Value of an element, independent of the library's conversion."""
    if isinstance(node, (lily.Int, lily.Float)):
        u = [n.head for n in node if isinstance(n, lily.Unit)]
        return (node.head, u[0]) if u else node.head
    if isinstance(node, lily.String):
        return node.head
    if isinstance(node, lily.Scheme) and isinstance(node[0], (scm.Bool, scm.Number, scm.String)):
        return node[0].head
    return ("element", docs.shape(node))


def definitions(container):
    """The list of (name, value) and the shapes of the other children."""
    defs, others = [], []
    for n in container:
        if isinstance(n, lily.Assignment):
            name = [c.head for c in n[0] if not isinstance(c, (lily.Separator, base.Comment))]
            value = [c for c in n[1:] if not isinstance(c, (lily.EqualSign, base.Comment))]
            if len(value) != 1:
                raise core.Violation("assignment has no single value", repr(container.write()))
            defs.append((name[0] if len(name) == 1 else tuple(name), value_of(value[0])))
        elif not isinstance(n, base.Comment):
            others.append(docs.shape(n))    # (comments may become part of the value before it)
    return defs, others


def same(a, b):
    return type(a) is type(b) and a == b


def verify(c, model, others, where, rec):
    """Compare the container with the model."""
    defs, oth = definitions(c)
    if len(defs) != len(model) or not all(same(a, b) for x, y in zip(defs, model) for a, b in zip(x, y)):
        raise core.Violation("wrong definitions", "{}: {} should be {}".format(where(), defs, model))
    if oth != others:
        raise core.Violation("another element changed", where())
    mapping = dict(model)     # keeps the first place and the last value
    if c.variables() != list(mapping):
        raise core.Violation("wrong list of variables", "{}: {} should be {}".format(where(), c.variables(), list(mapping)))
    for name in NAMES + ["bar", "none", "composer"]:
        got = c.get_variable(name)
        if isinstance(got, lily.element.Element):
            got = value_of(got)
        if not same(got, mapping.get(name)):
            raise core.Violation("wrong value", "{}: {} is {!r}, should be {!r}".format(where(), name, got, mapping.get(name)))
        asg = c.find_assignment(name)
        if (asg is not None) != (name in mapping) or asg is not None and (asg.get_name() != name or asg.parent is not c):
            raise core.Violation("find_assignment is wrong", "{}: {}".format(where(), name))
        if asg is not None:
            v = asg.get_value()
            if not same(value_of(v), mapping[name]):
                raise core.Violation("wrong value of assignment", "{}: {} {}".format(where(), name, v))
    if not docs.links_ok(c.root()):
        raise core.Violation("parent links wrong", where())
    rec.step()


def apply(c, model, op):
    """Apply an operation."""
    if op[0] == "set":
        _, name, value = op
        value = VALUES[value]
        c.set_variable(name, value)
        for i in reversed(range(len(model))):
            if model[i][0] == name:
                model[i] = (name, value)
                break
        else:
            model.append((name, value))
    else:
        c.unset_variable(op[1])
        model[:] = [m for m in model if m[0] != op[1]]


def find(root, name):
    cls = getattr(lily, name)
    return root if isinstance(root, cls) else next(root // cls)


class Histories(core.Family):
    name = "histories"

    def cases(self, tier):
        m = 2 if tier == "quick" else 3
        for c, (_, others) in CONTAINERS.items():
            for w in core.words(DEFS + others, m, 0):
                depth = 3 if c in ("Document", "Header") and len(w) < 2 or tier != "quick" and len(w) < 3 else 2
                if tier != "quick" and len(w) == 3:
                    depth = 1 if len(set(w)) == 3 else 2
                yield [c, w, depth]

    def check(self, case, rec):
        name, items, depth = case
        text = CONTAINERS[name][0].replace("#", " ".join(items))
        root = docs.parse(text)[1]      # keep a reference to the root
        c = find(root, name)
        model, others = definitions(c)
        verify(c, model, others, lambda: repr(text), rec)
        self.explore(name, text, c, model, others, (), depth, rec)
        rec.trace()

    def explore(self, name, text, c, model, others, history, depth, rec):
        for op in OPS:
            root = c.root().copy()
            c1 = find(root, name)
            m1 = list(model)
            h = history + (op,)

            def where():
                return "{!r} after {}: {!r}".format(text, h, root.write())
            apply(c1, m1, op)
            verify(c1, m1, others, where, rec)
            again = docs.parse(root.write())[1]
            verify(find(again, name), m1, others, lambda: "reading back " + where(), rec)
            rec.state((name, tuple(map(str, m1)), len(others)))
            if depth > 1:
                self.explore(name, text, c1, m1, others, h, depth - 1, rec)


class Attributes(core.Family):
    """The attributes of a header and keyword arguments."""
    name = "attributes"
    OPS = [("title", "T"), ("title", None), ("title", "del"), ("composer", "C d"), ("composer", 3), ("tagline", False), ("tagline", None), ("copyright", "x"), ("composer", "del")]

    def cases(self, tier):
        for text in ("\\header { }", "\\header { title = \"a\" composer = \\markup x title = \"b\" }", "\\header { % c\n tagline = ##f foo = 1 }", None):
            for first in range(len(self.OPS)):
                yield [text, first, 3 if tier == "quick" else 4]

    def check(self, case, rec):
        text, first, depth = case
        for n in range(depth):
            for seq in itertools.product(self.OPS, repeat=n):
                seq = (self.OPS[first],) + seq
                if text is None:
                    # new header with keyword argument(s)
                    kw = {k: v for k, v in seq if v != "del" and v is not None}
                    h = lily.Header(**kw)
                    root = lily.Document(h)
                    model, others = list(kw.items()), []
                else:
                    root = docs.parse(text)[1]
                    h = find(root, "Header")
                    model, others = definitions(h)
                    for k, v in seq:
                        if v == "del":
                            delattr(h, k)
                            model = [m for m in model if m[0] != k]
                        elif v is None:
                            setattr(h, k, None)
                            model = [m for m in model if m[0] != k]
                        else:
                            setattr(h, k, v)
                            for i in reversed(range(len(model))):
                                if model[i][0] == k:
                                    model[i] = k, v
                                    break
                            else:
                                model.append((k, v))
                        rec.step()

                def where():
                    return "{!r} after {}: {!r}".format(text, seq, root.write())
                for h1 in (h, find(docs.parse(root.write())[1], "Header")):
                    verify(h1, model, others, where, rec)
                    mapping = dict(model)
                    for k in ("title", "composer", "tagline", "copyright", "poet"):
                        got = getattr(h1, k)
                        if isinstance(got, lily.element.Element):
                            got = value_of(got)
                        if not same(got, mapping.get(k)):
                            raise core.Violation("attribute is wrong", "{}: {} {!r}".format(where(), k, got))
                rec.state(root.write())
        rec.trace()


class Values(core.Family):
    """All kinds of values, given to a new and an existing variable."""
    name = "values"
    ALL = [0, 5, "s", "", "a\"b\\", True, False, 1.5, 0.25, (3, "cm"), (1.5, "mm"), (2, "in"), (10, "pt")]

    def cases(self, tier):
        for c in CONTAINERS:
            for i in range(len(self.ALL)):
                yield [c, i]

    def check(self, case, rec):
        name, i = case
        for before in [""] + ["foo = " + t for t in ("1", "\"a\"", "##t", "2\\cm", "\\markup x", "%{ c %} \"d\"", "1.5 % x\n")]:
            for name2 in ("foo", "bar"):
                root = docs.parse(CONTAINERS[name][0].replace("#", before))[1]
                c = find(root, name)
                model, others = definitions(c)
                v = self.ALL[i]
                if "%{" in before and not isinstance(v, (str, bool)):
                    continue    # the tokenizer does not see a number after a comment
                c.set_variable(name2, v)
                model = [m for m in model if m[0] != name2] + [(name2, v)]
                for c1 in (c, find(docs.parse(root.write())[1], name)):
                    verify(c1, model, others, lambda: "{!r} {}={!r}: {!r}".format(before, name2, v, root.write()), rec)
                rec.state(root.write())
        rec.trace()


def families():
    return [Histories(), Attributes(), Values()]
