r"""C25: copying an element gives an equal, independent tree."""

import fractions
import math

from mc import core, docs
from quickly.dom import base, element, htm, lily, scm, tex

BOUNDS = {
    "quick": "all elements in the DOM of every fragment (LilyPond music, toplevel, Scheme, HTML, LaTeX) alone, and of all pairs of 40 fragments, each copied in 3 ways (plain, without children, with origin), also with every element given a changed head or whitespace before; "
             "all single modifications (head, 5 kinds of whitespace set and reset, removal, insertion, replacement, reversal and clearing of children) of every element of every fragment, on either side; "
             "all instances of every element class with all heads of its mapping (other classes: sample heads), 0-2 children and all subsets of whitespace attributes; equality of all pairs of those and of all elements of the fragments",
    "thorough": "all pairs of fragments, pairs of modifications (one on either side)",
}
ASSUMPTIONS = ["heads are compared by value (1 and 1.0 are equal numbers)"]

SPACES = ("space_before", "space_after_head", "space_between", "space_before_tail", "space_after")

ALL = [("lilypond", t) for t in docs.TOPLEVEL] + [("lilypond", "{ %s }" % t) for t in docs.MUSIC] + [("scheme", t) for t in docs.SCHEME] \
    + [("html", t) for t in docs.HTML] + [("latex", t) for t in docs.LATEX]


def nan(v):
    return v != v


def same_head(a, b):
    return a == b or (nan(a) and nan(b))


def head(node):
    return node.head if isinstance(node, element.TextElement) else None


def same(a, b):
    """Reference for Element.equals."""
    if type(a) is not type(b) or len(a) != len(b) or not same_head(head(a), head(b)):
        return False
    return all(same(m, n) for m, n in zip(list(a), list(b)))


def info(node, origin=True):
    """Everything that can be seen from the node."""
    h, t = node.head_point(), node.tail_point()
    return (type(node), repr(head(node)), tuple(getattr(node, s) for s in SPACES),
            tuple((p and ((p.pos, p.end, p.modified) if origin else None)) for p in (h, t)),
            tuple(info(n, origin) for n in node))


def nodes(node):
    yield node
    for n in list(node):
        yield from nodes(n)


def write(node):
    """The text, None if it can't be written (by design)."""
    if any(isinstance(n, base.Unknown) for n in nodes(node)):
        return None
    return node.write()


def check_copy(n, where, rec, full=True):
    """Check the three kinds of copies of node n."""
    before = info(n)
    parent = n.parent
    ids = {id(m) for m in nodes(n)}
    text = write(n)

    def basic(c, kind):
        rec.step()
        if type(c) is not type(n):
            raise core.Violation("copy has another type", "{} {}: {}".format(kind, where, type(c)))
        if c.parent is not None:
            raise core.Violation("copy has a parent", "{} {}".format(kind, where))
        if not docs.links_ok(c):
            raise core.Violation("wrong parent links in copy", "{} {}".format(kind, where))
        if any(id(m) in ids for m in nodes(c)):
            raise core.Violation("copy shares a node", "{} {}".format(kind, where))
        if info(n) != before or n.parent is not parent:
            raise core.Violation("copying changes the original", "{} {}".format(kind, where))

    for kind in ("copy", "copy_with_origin"):
        origin = kind == "copy_with_origin"
        c = getattr(n, kind)()
        basic(c, kind)
        if info(c, origin) != info(n, origin):
            raise core.Violation("copy is different", "{} {}: {} instead of {}".format(kind, where, info(c, origin), info(n, origin)))
        if not (c.equals(n) and n.equals(c)):
            raise core.Violation("copy is not equal", "{} {}: {!r}".format(kind, where, n))
        if not origin and any(m.pos is not None or m.end is not None or any(p and p.pos is not None for p in (m.head_point(), m.tail_point())) for m in nodes(c)):
            raise core.Violation("plain copy has a position", where)
        if text is not None:
            if c.write() != text:
                raise core.Violation("copy writes another text", "{} {}: {!r} instead of {!r}".format(kind, where, c.write(), text))
            if full and c.write_indented() != n.write_indented():
                raise core.Violation("copy writes another text", "{} {}: {!r} instead of {!r}".format(kind, where, c.write_indented(), n.write_indented()))
        c = getattr(n, kind)(with_children=False)
        basic(c, kind)
        if len(c):
            raise core.Violation("copy without children has children", "{} {}".format(kind, where))
        if info(c, origin)[:3] != before[:3]:
            raise core.Violation("copy without children is different", "{} {}: {} instead of {}".format(kind, where, info(c)[:3], before[:3]))
        if origin and (c.head_point() and c.head_point()[:2]) != (n.head_point() and n.head_point()[:2]):
            raise core.Violation("copy without children is at another position", "{}: {} instead of {}".format(where, c.head_point(), n.head_point()))
        if bool(len(n)) == c.equals(n):
            raise core.Violation("wrong equality with the copy without children", "{} {}".format(kind, where))


def other_head(node):
    """Another possible head value or None."""
    if not isinstance(node, element.TextElement):
        return None
    h = node.head
    if isinstance(node, element.MappingElement):
        for v in node.mapping.values():
            if not same_head(v, h):
                return v
        return None
    if isinstance(h, bool):
        return not h
    if isinstance(h, str):
        return h + "z"
    if nan(h):
        return 1
    if isinstance(h, fractions.Fraction):
        return h * 2 if h else fractions.Fraction(1)
    if isinstance(h, (int, float, complex)):
        return h + 1 if abs(h) < 1000 else 1
    return None


def modifications(root):
    """Yield (description, path, function) for all single modifications."""
    def walk(node, path):
        h = other_head(node)
        if h is not None:
            yield "head", path, lambda n: setattr(n, "head", h)
        for s in SPACES:
            old = getattr(node, s)
            yield s, path, lambda n: setattr(n, s, old + " ")
        yield "all spaces", path, lambda n: [setattr(n, s, "\t") for s in SPACES]

        def reset(n):
            for s in SPACES:
                setattr(n, s, "\t")
            for s in SPACES:
                delattr(n, s)
        yield "reset", path, reset
        yield "append", path, lambda n: n.append(base.Text("z"))
        yield "insert", path, lambda n: n.insert(0, scm.Dot())
        if len(node):
            yield "clear", path, lambda n: n.clear()
            yield "pop", path, lambda n: n.pop()
            yield "replace", path, lambda n: n[0].replace_with(base.Text("z"))
            yield "take", path, lambda n: n.take(0, 1)
            if len(node) > 1:
                yield "move", path, lambda n: n.insert(0, n.pop())
        for i, c in enumerate(list(node)):
            yield from walk(c, path + (i,))
    yield from walk(root, ())


def at(node, path):
    for i in path:
        node = node[i]
    return node


class Copies(core.Family):
    """Copies of all elements of a document."""
    name = "copies"

    def cases(self, tier):
        yield from ALL
        some = docs.MUSIC[::7] + docs.TOPLEVEL[::3] if tier == "quick" else docs.TOPLEVEL + docs.MUSIC
        for a, b in core.words(some, 2, 2):
            yield "lilypond", a + " " + b
        for lang, frags in (("scheme", docs.SCHEME), ("html", docs.HTML), ("latex", docs.LATEX)):
            for a, b in core.words(frags[::3] if tier == "quick" else frags, 2, 2):
                yield lang, a + " " + b

    def check(self, case, rec):
        lang, text = case
        tree, d = docs.parse(text, lang)
        for i, n in enumerate(nodes(d)):
            check_copy(n, "{} {!r} {!r}".format(lang, text, n), rec)
            rec.state((lang, text, i))
        # unmodified copies with origin are written back as nothing
        c = d.copy_with_origin()
        if list(c.edits(tree)) != list(d.edits(tree)):
            raise core.Violation("copy with origin gives other edits", repr(text))
        if not d.copy().equals(docs.parse(text, lang)[1]):
            raise core.Violation("copy is not equal to the element read again", repr(text))
        # everything with changed spacing or head
        for kind in ("head", *SPACES):
            tree, d = docs.parse(text, lang)
            for n in nodes(d):
                if kind == "head":
                    h = other_head(n)
                    if h is not None:
                        n.head = h
                else:
                    setattr(n, kind, "\n\n")
            check_copy(d, "{} {!r} with changed {}".format(lang, text, kind), rec, False)
            c = d.copy_with_origin()
            if write(d) is not None and list(c.edits(tree)) != list(d.edits(tree)):
                raise core.Violation("copy with origin gives other edits", "{!r} with changed {}".format(text, kind))
            rec.state((lang, text, kind))
        rec.outcome(text)
        rec.trace()


class Modify(core.Family):
    """One modification on either side."""
    name = "modify"

    def cases(self, tier):
        for lang, text in ALL:
            yield lang, text, tier != "quick"

    def check(self, case, rec):
        lang, text, deep = case
        tree, d = docs.parse(text, lang)
        original = d.copy_with_origin()
        before = info(original)
        mods = list(modifications(original))
        for kind in ("copy", "copy_with_origin"):
            for what, path, f in mods:
                for side in (0, 1):
                    a = d.copy_with_origin()
                    b = getattr(a, kind)()
                    pair = [a, b]
                    other = info(pair[1 - side])
                    f(at(pair[side], path))
                    rec.step()
                    where = "{} of {!r}: {} at {} of the {}".format(kind, text, what, path, ("original", "copy")[side])
                    if info(pair[1 - side]) != other:
                        raise core.Violation("change affects the other side", where)
                    want = same(a, b)
                    if a.equals(b) != want or b.equals(a) != want:
                        raise core.Violation("wrong equality after a change", "{}: {} instead of {}".format(where, a.equals(b), want))
                    rec.outcome((what, want))
                    if deep and len(mods) < 120:
                        for what2, path2, f2 in mods:
                            first = info(pair[side])
                            f2(at(pair[1 - side], path2))
                            rec.step()
                            if info(pair[side]) != first:
                                raise core.Violation("change affects the other side", "{}, then {} at {}".format(where, what2, path2))
                            want = same(a, b)
                            if a.equals(b) != want or b.equals(a) != want:
                                raise core.Violation("wrong equality after a change", "{}, then {} at {}".format(where, what2, path2))
                            # start again on that side
                            pair[1 - side] = d.copy_with_origin() if side else getattr(d.copy_with_origin(), kind)()
                            a, b = pair
                    rec.state((lang, text, kind, what, path, side))
        if info(original) != before or info(d) != before:
            raise core.Violation("change affects the original", repr(text))
        rec.trace()


HEADS = ["x", "", "a b", 1, 0, 2, True, 1.5, fractions.Fraction(1, 4), fractions.Fraction(3, 8), math.nan, math.inf, 1 + 2j]


def classes():
    """All element classes of the dom modules."""
    result = {}
    for mod in (base, lily, scm, htm, tex):
        for c in vars(mod).values():
            if isinstance(c, type) and issubclass(c, element.Element):
                result["{}.{}".format(c.__module__, c.__name__)] = c
    return [result[k] for k in sorted(result)]


def instances(cls):
    """Yield functions creating instances of an element class."""
    kids = [(), (lambda: lily.Note("c"),), (lambda: scm.Number(1), lambda: base.Text("x"))]

    def make(*args):
        def create(children=()):
            return cls(*args, *(k() for k in children))
        return create
    if issubclass(cls, element.MappingElement):
        heads = list(cls.mapping.values())
    elif issubclass(cls, element.TextElement):
        heads = [h for h in HEADS if isinstance(h, str) is not issubclass(cls, scm.Number)] if not issubclass(cls, (lily.Duration, lily.DurationScaling)) else [h for h in HEADS if isinstance(h, fractions.Fraction)]
    else:
        heads = None
    for h in heads if heads is not None else (None,):
        f = make(h) if heads is not None else make()
        try:
            f()
        except (TypeError, ValueError, OverflowError, AttributeError):
            continue    # not a possible head
        for k in kids:
            yield lambda f=f, k=k: f(k)


def writable(n):
    try:
        n.write()
    except Exception:
        return False
    return True


class Classes(core.Family):
    """Manually constructed instances of every element class."""
    name = "classes"

    def cases(self, tier):
        for i, c in enumerate(classes()):
            yield i

    def check(self, case, rec):
        cls = classes()[case]
        for k, create in enumerate(instances(cls)):
            for subset in range(32):
                n = create()
                for i, s in enumerate(SPACES):
                    if subset & 1 << i:
                        setattr(n, s, "\n" if getattr(n, s) == " " else " ")
                want = info(n)
                for kind in ("copy", "copy_with_origin"):
                    c = getattr(n, kind)()
                    rec.step()
                    where = "{} of {!r} (spacing {})".format(kind, n, subset)
                    if info(c) != want:
                        raise core.Violation("copy is different", "{}: {} instead of {}".format(where, info(c), want))
                    if not (c.equals(n) and n.equals(c)):
                        raise core.Violation("copy is not equal", where)
                    if any(id(m) in {id(x) for x in nodes(n)} for m in nodes(c)) or not docs.links_ok(c):
                        raise core.Violation("copy shares a node", where)
                    if writable(n) and (c.write() != n.write()):
                        raise core.Violation("copy writes another text", where)
                    # the whitespace is changed on one side
                    for s in SPACES:
                        for x, y in ((n, c), (c, n)):
                            old, other = getattr(x, s), getattr(y, s)
                            setattr(x, s, "\t")
                            if getattr(y, s) != other:
                                raise core.Violation("change affects the other side", "{}: {}".format(where, s))
                            setattr(x, s, old)
                            if getattr(x, s) != old or getattr(y, s) != other:
                                raise core.Violation("wrong whitespace", "{}: {}".format(where, s))
                    if info(n) != want or info(c) != want:
                        raise core.Violation("change affects the other side", where)
                rec.state((cls.__name__, k, subset))
            rec.outcome(repr(create()))
        rec.trace()


class Equality(core.Family):
    """Equality of all pairs of elements."""
    name = "equality"
    N = 64

    def cases(self, tier):
        for i in range(self.N):
            yield i, self.N

    _items = None

    def items(self):
        if Equality._items is None:
            result = []
            for c in classes():
                result.extend(f() for f in instances(c))
            seen = set()
            for lang, text in ALL:
                d = docs.parse(text, lang)[1]
                for n in nodes(d):
                    key = info(n, False)
                    if key not in seen:
                        seen.add(key)
                        result.append(n.copy())
            Equality._items = result
        return Equality._items

    def check(self, case, rec):
        i, count = case
        items = self.items()
        for k, a in enumerate(items[i::count]):
            rec.state((i, k))
            for b in items:
                rec.step()
                want = same(a, b)
                if a.equals(b) is not want:
                    raise core.Violation("wrong equality", "{!r} and {!r}: {} instead of {}".format(a, b, a.equals(b), want))
        rec.outcome(i)
        rec.trace()


def families():
    return [Copies(), Modify(), Classes(), Equality()]
