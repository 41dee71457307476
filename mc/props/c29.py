"""C29: the textual dumps of a tree show the tree."""

import fractions
import io
import math

from mc import core, docs
from quickly.dom import base, element, htm, lily, scm, tex
from quickly.node import DUMP_STYLES, Node

BOUNDS = {
    "quick": "every node of all documents of up to 2 of all LilyPond, Scheme, HTML and LaTeX items and of all tree shapes with up to 8 nodes, before and after every single removal or move of a child; all dump styles",
    "thorough": "as quick, up to 3 Scheme and HTML items and tree shapes with up to 10 nodes",
}
ASSUMPTIONS = ["the Python syntax dump does not show spaces that differ from the default"]

NAMES = dict(base=base, element=element, lily=lily, scm=scm, htm=htm, tex=tex, Fraction=fractions.Fraction, nan=math.nan, inf=math.inf)


def dump(node, **kw):
    f = io.StringIO()
    node.dump(f, **kw)
    return f.getvalue()


def look(root, rec, where, styles):
    """Check the dumps of every node."""
    def walk(n, depth):
        yield n, depth
        for c in n:
            yield from walk(c, depth + 1)
    nodes = [n for n, d in walk(root, 0)]
    for n in nodes:
        f = io.StringIO()
        n.py_dump(f)
        text = f.getvalue()
        try:
            again = eval(text, dict(NAMES))
        except Exception as e:
            raise core.Violation("the Python dump can't be evaluated", "{}: {!r} {!r}".format(where, text, e))
        rec.step()
        if not isinstance(again, Node) or docs.shape(again) != docs.shape(n):
            raise core.Violation("the Python dump makes another tree", "{}: {!r} becomes {!r}".format(where, n, again))
        rec.trace()
    tree(root, rec, where, styles)


def tree(root, rec, where, styles):
    """Check the graphical dumps."""
    def lines(n, style, prefix=""):
        vert, blank, tee, corner = style
        yield repr(n)
        for i, c in enumerate(list(n)):
            last = i == len(n) - 1
            for k, line in enumerate(lines(c, style)):
                yield (blank if last else vert) + line if k else (corner if last else tee) + line
    for s in styles:
        # as the table of characters is not the property, take the characters
        # from a small tree
        sample = Node(Node(Node()), Node(Node()))
        a = dump(sample, style=s).splitlines()
        r = repr(sample[0][0])
        tee, corner = a[1][:a[1].index("<")], a[3][:a[3].index("<")]
        vert, blank = a[2][:len(tee)], a[4][:len(tee)]
        if len({tee, corner, vert}) < 3 or blank.strip():
            raise core.Violation("dump style is ambiguous", "{} {}".format(s, a))
        for n in (root, *root.descendants()):
            want = list(lines(n, (vert, blank, tee, corner)))
            got = dump(n, style=s)
            rec.step()
            if got != "".join(w + "\n" for w in want):
                raise core.Violation("wrong dump", "{}: style {}:\n{}should be\n{}".format(where, s, got, "\n".join(want)))
            rec.trace()


class Documents(core.Family):
    """Documents read from text."""
    name = "documents"

    def cases(self, tier):
        deep = tier == "thorough"
        for lang, items, form in (("lilypond", docs.MUSIC, "{ %s }"), ("lilypond", docs.TOPLEVEL, "%s"), ("scheme", docs.SCHEME, "%s"),
                                  ("html", docs.HTML + docs.HTML_UNKNOWN, "%s"), ("latex", docs.LATEX, "%s")):
            for w in core.words(items, 3 if deep and lang in ("scheme", "html") else 2):
                yield lang, form % " ".join(w)

    def check(self, case, rec):
        lang, text = case
        root = docs.parse(text, lang)[1]
        if root is not None and rec.state(docs.shape(root)):
            look(root, rec, repr(text), [None])


class Shapes(core.Family):
    """All tree shapes, and histories of a modification."""
    name = "shapes"

    def cases(self, tier):
        def shapes(n):
            """All forests with n nodes."""
            if n == 0:
                yield []
            for k in range(1, n + 1):
                for first in shapes(k - 1):
                    for rest in shapes(n - k):
                        yield [first] + rest
        for n in range(10 if tier == "thorough" else 8):
            for s in shapes(n):
                yield s

    def check(self, case, rec):
        count = 0

        def build(s):
            nonlocal count
            count += 1
            if not s and count % 2:
                return lily.Note("abcdefg"[count % 7])
            return lily.MusicList(*map(build, s))

        def fresh():
            nonlocal count
            count = 0
            return build(case)
        root = fresh()
        look(root, rec, case, [None, *DUMP_STYLES])
        rec.state(docs.shape(root))
        for i in range(1, 1 + sum(1 for n in root.descendants())):
            root = fresh()
            n = [root, *root.descendants()][i]
            p = n.parent
            p.remove(n)
            look(root, rec, case, [None])
            root.insert(0, n)
            look(root, rec, case, [None])
            rec.state(docs.shape(root))
            # a part of a tree that is dumped on its own
            look(n, rec, case, [None])


def families():
    return [Documents(), Shapes()]
