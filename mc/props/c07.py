"""C07: positional lookup in a DOM against a linear scan."""

from mc import core, docs
from mc.props import c02
from quickly.dom import lily

BOUNDS = {
    "quick": "all single fragments and all pairs of about 168 music and 50 toplevel LilyPond fragments, all words of 1-2 fragments of Scheme, HTML and LaTeX, "
             "all words up to length 2 over the raw (also invalid) token alphabets; per document every position -1..length+1 and, in documents of at most 24 "
             "characters, every pair position <= end; on single-fragment documents every removal of a node and every insertion of an origin-less node, then every position",
    "thorough": "as quick, with all words of 3 fragments of Scheme, HTML and LaTeX, words of length 3 over a core LilyPond token alphabet, pairs of edits on single-fragment documents, "
                "and pairs of fragments in every wrapper context",
}
ASSUMPTIONS = ["the parce tokenizer is trusted for the positions of tokens"]


def extents(root):
    """Return {id(node): (pos, end)}, computed from the origin tokens alone,
    and the list of nodes having a position, in tree order."""
    ext = {}
    order = []

    def walk(node):
        n = len(order)
        order.append(node)
        ts = list(getattr(node, "head_origin", ()))
        for c in node:
            walk(c)
            if id(c) in ext:
                ts.append(c)
        ts.extend(getattr(node, "tail_origin", ()))
        if ts:
            first, last = ts[0], ts[-1]
            ext[id(node)] = (ext[id(first)][0] if id(first) in ext else first.pos,
                             ext[id(last)][1] if id(last) in ext else last.end)
    walk(root)
    return ext, [n for n in order if id(n) in ext]


def check_document(d, length, pairs, rec, text):
    ext, order = extents(d)

    def describe(node):
        return None if node is None else (repr(node), ext.get(id(node)))

    def expect(what, got, want, *args):
        if got is not want:
            raise core.Violation("{} wrong".format(what), "{!r}: {}{} gives {}, expected {}".format(
                text, what, args, describe(got), describe(want)))

    for n in order:
        if (n.pos, n.end) != ext[id(n)]:
            raise core.Violation("pos or end wrong", "{!r}: {!r} {} expected {}".format(text, n, (n.pos, n.end), ext[id(n)]))
    for n in d.descendants():
        if id(n) not in ext and (n.pos is not None or n.end is not None):
            raise core.Violation("position reported without origin", "{!r}: {!r}".format(text, n))

    def touching_child(node, p):
        found = None
        for c in node:
            if id(c) in ext:
                a, b = ext[id(c)]
                if a <= p <= b:
                    found = c       # the right one if two touch
        return found

    desc = order[1:] if order and order[0] is d else order
    for p in range(-1, length + 2):
        expect("find_child", d.find_child(p), touching_child(d, p), p)
        ends = range(p, length + 2) if pairs else (None,)
        for e in ends:
            want = []
            n = d
            e1 = p if e is None else e
            while True:
                n = touching_child(n, p)
                if n is None or not ext[id(n)][0] <= p <= e1 <= ext[id(n)][1]:
                    break
                want.append(n)
            args = (p,) if e is None else (p, e)
            got = list(d.find_descendants(*args))
            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                raise core.Violation("find_descendants wrong", "{!r}: {} gives {}, expected {}".format(
                    text, args, [describe(n) for n in got], [describe(n) for n in want]))
            expect("find_descendant", d.find_descendant(*args), want[-1] if want else None, *args)
        right = next((n for n in desc if ext[id(n)][0] >= p), None)
        expect("find_descendant_right", d.find_descendant_right(p), right, p)
        left = [n for n in desc if ext[id(n)][1] <= p]
        best = None
        for n in left:
            if best is None or ext[id(n)][1] > ext[id(best)][1]:
                best = n
        expect("find_descendant_left", d.find_descendant_left(p), best, p)
        rec.step(4)
    # every node inside, too
    for n in desc:
        if len(n) > 1:
            a, b = ext[id(n)]
            for p in range(a, b + 1):
                expect("find_child", n.find_child(p), touching_child(n, p), p)
    rec.trace()
    rec.outcome([ext[id(n)] for n in order])


class Documents(core.Family):
    name = "documents"

    def cases(self, tier):
        for f in docs.MUSIC:
            yield ["lilypond", "{ " + f + " }"]
        for f in docs.TOPLEVEL:
            yield ["lilypond", f]
        for f in docs.MUSIC:
            for g in docs.MUSIC:
                yield ["lilypond", "{" + f + " " + g + "}"]
        for f in docs.TOPLEVEL:
            for g in docs.TOPLEVEL:
                yield ["lilypond", f + " \n" + g]
        n = 2 if tier == "quick" else 3
        for lang, frags in (("scheme", docs.SCHEME), ("latex", docs.LATEX), ("html", docs.HTML + docs.HTML_UNKNOWN)):
            for w in core.words(frags, n):
                yield [lang, (" " if lang == "scheme" else "").join(w)]
        if tier == "thorough":
            for wrap in c02.WRAP:
                for w in core.words(c02.LILY_CORE, 2):
                    yield ["lilypond", wrap.replace("@", " ".join(w))]

    def check(self, case, rec):
        lang, text = case
        tree, d = docs.parse(text, lang)
        check_document(d, len(text), len(text) <= 24, rec, text)


class Raw(core.Family):
    """Incomplete and invalid documents."""
    name = "raw"

    def cases(self, tier):
        for lang, alphabet, sep in (("lilypond", c02.LILY, " "), ("scheme", c02.SCHEME, " "), ("html", c02.HTML, " "), ("latex", c02.LATEX, "")):
            for w in core.words(alphabet, 2, 1):
                yield [lang, sep.join(w)]
        if tier == "thorough":
            for w in core.words(c02.LILY_CORE, 3, 3):
                yield ["lilypond", " ".join(w)]

    def check(self, case, rec):
        lang, text = case
        tree, d = docs.parse(text, lang)
        check_document(d, len(text), len(text) <= 24, rec, text)


class Edited(core.Family):
    """Trees of which some nodes have been removed and some have no origin."""
    name = "edited"

    def cases(self, tier):
        depth = 1 if tier == "quick" else 2
        texts = [["lilypond", "{ " + f + " d }"] for f in docs.MUSIC] + [["lilypond", f] for f in docs.TOPLEVEL] + \
            [["html", f] for f in docs.HTML] + [["latex", f] for f in docs.LATEX] + [["scheme", f] for f in docs.SCHEME]
        for lang, text in texts:
            tree, d = docs.parse(text, lang)
            n = sum(1 for _ in d.descendants())
            ops = [[op, i] for i in range(n) for op in ("del", "before", "wrap", "child")]
            for k in range(1, depth + 1):
                if k == 2 and n > 9:
                    continue
                for w in core.words(ops, k, k):
                    yield [lang, text, w]

    def check(self, case, rec):
        lang, text, ops = case
        tree, d = docs.parse(text, lang)
        nodes = list(d.descendants())
        for op, i in ops:
            n = nodes[i]
            if n.parent is None:
                return
            rec.step()
            if op == "del":
                n.parent.remove(n)
            elif op == "before":
                n.parent.insert(n.parent.index(n), lily.Note("e"))
            elif op == "child":
                n.insert(0, lily.Articulation("."))
            else:
                p = n.parent
                p[p.index(n)] = w = lily.MusicList()
                w.append(n)
        check_document(d, len(text), False, rec, text)


def families():
    return [Documents(), Raw(), Edited()]
