"""Enumeration of small ordered trees, and a plain reference model of them."""

import functools


@functools.lru_cache(None)
def forests(n):
    """All ordered forests with n nodes, as nested tuples."""
    if n == 0:
        return ((),)
    result = []
    for first in range(1, n + 1):
        for children in forests(first - 1):
            for rest in forests(n - first):
                result.append((children,) + rest)
    return tuple(result)


def trees(n):
    """All ordered trees with n nodes; a tree is the tuple of its subtrees."""
    return forests(n - 1)


class M:
    """Reference model of a tree: preorder numbering, plain lists."""
    def __init__(self, shape):
        self.children = []
        self.parent = []
        self._build(shape, None)
        self.n = len(self.children)

    def _build(self, shape, parent):
        me = len(self.children)
        self.children.append([])
        self.parent.append(parent)
        for s in shape:
            self.children[me].append(self._build(s, me))
        return me

    def trail(self, i):
        t = []
        while self.parent[i] is not None:
            t.append(self.children[self.parent[i]].index(i))
            i = self.parent[i]
        return t[::-1]

    def ancestors(self, i):
        while self.parent[i] is not None:
            i = self.parent[i]
            yield i

    def subtree(self, i):
        """Preorder list of node and descendants."""
        r = [i]
        for c in self.children[i]:
            r.extend(self.subtree(c))
        return r

    def last(self, i):
        return self.subtree(i)[-1]

    def preorder(self, i, skip, reverse=False, out=None):
        """Descendants of i, not those of nodes in skip."""
        out = [] if out is None else out
        for c in (reversed(self.children[i]) if reverse else self.children[i]):
            out.append(c)
            if c not in skip:
                self.preorder(c, skip, reverse, out)
        return out

    def outward(self, i, skip, reverse, upto):
        """forward()/backward(): siblings on one side, then those of the parent, ..."""
        out = []
        while self.parent[i] is not None and i != upto:
            sib = self.children[self.parent[i]]
            k = sib.index(i)
            for s in (reversed(sib[:k]) if reverse else sib[k+1:]):
                out.append(s)
                if s not in skip:
                    self.preorder(s, skip, reverse, out)
            i = self.parent[i]
        return out


def build(shape, classes):
    """Build real nodes; classes is a callable number -> class. Returns preorder list."""
    nodes = []

    def make(shape):
        me = len(nodes)
        nodes.append(None)
        kids = [make(s) for s in shape]
        nodes[me] = classes(me)(*kids)
        return nodes[me]
    make(shape)
    return nodes


def drive(gen, skip, number):
    """Exhaust a generator, sending False after the nodes in skip."""
    out = []
    try:
        n = next(gen)
        while True:
            i = number(n)
            out.append(i)
            n = gen.send(False) if i in skip else next(gen)
    except StopIteration:
        pass
    return out


def subsets(items, maxsize=None):
    import itertools
    items = list(items)
    for k in range(0, (len(items) if maxsize is None else min(maxsize, len(items))) + 1):
        yield from itertools.combinations(items, k)
