"""C06: ranges select exactly the nodes between their boundaries."""

import itertools

from quickly.node import Node, Range

from mc import core
from mc.core import Violation
from . import trees


class RM:
    """Reference model of a range over trees.M: explicit sets of preorder numbers."""
    def __init__(self, m, a, s, e):
        self.m, self.a, self.s, self.e = m, a, s, e
        below = [x for x in m.subtree(a) if x != a]
        lo = s if s is not None else -1
        hi = e if e is not None else m.n
        #: nodes from start upto and including end, in document order
        self.v = [x for x in below if lo <= x <= hi]
        vs = self.vs = set(self.v)
        #: nodes that are (partly) in the range
        self.d = [x for x in below if vs & set(m.subtree(x))]
        self.ds = set(self.d)

    def kids(self, x):
        return [c for c in self.m.children[x] if c in self.ds]

    def full(self, x):
        """all descendants of x are selected"""
        return all(y in self.vs for y in self.m.subtree(x)[1:])

    def pre(self, x, skip=(), reverse=False, out=None):
        out = [] if out is None else out
        for c in (reversed(self.kids(x)) if reverse else self.kids(x)):
            out.append(c)
            if c not in skip:
                self.pre(c, skip, reverse, out)
        return out

    def outward(self, x, skip, reverse, upto=None):
        out = []
        while x != self.a and x != upto:
            p = self.m.parent[x]
            sib = self.m.children[p]
            k = sib.index(x)
            for s in (reversed(sib[:k]) if reverse else sib[k+1:]):
                if s in self.ds:
                    out.append(s)
                    if s not in skip:
                        self.pre(s, skip, reverse, out)
            x = p
        return out

    def ancestors(self, x):
        while x != self.a:
            x = self.m.parent[x]
            yield x

    def shape(self, x):
        return tuple(self.shape(c) for c in self.kids(x))


def shape_of(node):
    return tuple(shape_of(c) for c in node)


def specs(m):
    """All ways to get a range on a tree: [how, ancestor, start, end]."""
    ns = range(m.n)
    yield ["plain", None, None]
    for x in ns:
        yield ["ancestor", x, None]
        if x:
            yield ["start", x, None]
            yield ["end", None, x]
    for s in ns:
        for e in ns:
            if s and e:
                yield ["root", s, e]
            yield ["nodes", s, e]


def make(spec, m, nodes):
    """Return (real range, model range) or None if the spec says nothing."""
    how, s, e = spec
    if how == "plain":
        return Range(nodes[0]), RM(m, 0, None, None)
    if how == "ancestor":
        return Range(nodes[s]), RM(m, s, None, None)
    if how == "start":
        return Range.from_nodes(nodes[s]), RM(m, 0, s, None)
    if how == "end":
        return Range.from_nodes(None, nodes[e]), RM(m, 0, None, e)
    if how == "root":
        return nodes[s].range(nodes[e], True), RM(m, 0, s, e)
    if how == "nodes":
        if s == e == 0:
            return None
        sa = [s, *m.ancestors(s)]
        ea = [e, *m.ancestors(e)]
        common = next(x for x in sa if x in ea)
        if s == common and s:
            # the start node belongs to the range
            common = m.parent[s]
        return nodes[s].range(nodes[e]), RM(m, common, None if s == common else s, e if e != common else -1)


class Selection(core.Family):
    """All trees, all pairs of boundaries: what is selected, and every traversal."""
    name = "selection"

    def cases(self, tier):
        for n in range(1, (8 if tier == "quick" else 9)):
            for i in range(len(trees.trees(n))):
                for spec in specs(trees.M(trees.trees(n)[i])):
                    yield [n, i, spec]

    def check(self, case, rec):
        n, i, spec = case
        shape = trees.trees(n)[i]
        m = trees.M(shape)
        nodes = trees.build(shape, lambda k: Node)
        ids = {id(x): k for k, x in enumerate(nodes)}
        num = lambda x: ids[id(x)]
        lst = lambda g: [num(x) for x in g]
        made = make(spec, m, nodes)
        if made is None:
            return
        r, rm = made

        def eq(what, got, want):
            rec.step()
            if got != want:
                raise Violation("{}: got {}, expected {} (range {} of tree {})".format(
                    what, got, want, spec, shape))
        rec.state((shape, spec))
        rec.trace()
        rec.outcome((shape, rm.a, tuple(rm.v)))
        eq("ancestor", num(r.ancestor()), rm.a)
        # an empty range
        eq("bool", bool(r), bool(rm.v))
        eq("nodes", lst(r.nodes()), rm.v)
        eq("nodes again", lst(r.nodes()), rm.v)
        r.reset()
        eq("node after reset", num(r.node), rm.a)
        eq("is_full", r.is_full(), rm.full(rm.a))
        if not rm.v:
            # nothing selected; only emptiness is specified
            r.reset()
            eq("descendants of empty range", [x for x in lst(r.descendants()) if x in rm.v], [])
            return
        if rm.s is not None:
            eq("start_node", num(r.start_node()), rm.s)
        if rm.e is not None and rm.e != -1:
            eq("end_node", num(r.end_node()), rm.e)
        for x in range(m.n):
            node = nodes[x]
            eq("intersects {}".format(x), bool(r & node), x in rm.ds or x == rm.a)
            below = x in rm.m.subtree(rm.a)
            sub = set(m.subtree(x))
            if x == rm.a:
                eq("contains ancestor", node in r, rm.full(x))
            elif x not in rm.ds:
                eq("contains {}".format(x), node in r, False)
            else:
                # the children of the end node are not in the range
                below_end = m.subtree(rm.e)[1:] if rm.e is not None and rm.e != -1 else ()
                eq("contains {}".format(x), node in r, all(y in rm.v for y in sub if y not in below_end))
            eq("goto {}".format(x), r.goto(node), x in rm.ds or x == rm.a)
            if x not in rm.ds and x != rm.a:
                continue
            eq("node after goto", num(r.node), x)
            d = len(m.trail(rm.a))
            eq("trail", r.trail(), m.trail(x)[d:])
            eq("in_range", r.in_range(), rm.full(x) and (x == rm.a or x in rm.vs))
            if x != rm.a:
                eq("index", r.index, m.trail(x)[-1])
                eq("depth", r.depth(), len(m.trail(x)) - d - 1)
                eq("forward", lst(r.forward()), rm.outward(x, (), False))
                r.goto(node)
                eq("backward", lst(r.backward()), rm.outward(x, (), True))
                for u in rm.ancestors(x):
                    r.goto(node)
                    eq("forward upto {}".format(u), lst(r.forward(nodes[u])), rm.outward(x, (), False, u))
                    r.goto(node)
                    eq("backward upto {}".format(u), lst(r.backward(nodes[u])), rm.outward(x, (), True, u))
            r.goto(node)
            eq("ancestors", lst(r.ancestors()), list(rm.ancestors(x)))
            r.goto(node)
            eq("children", lst(r.children()), rm.kids(x))
            eq("node after children", num(r.node), x)
            eq("children reverse", lst(r.children(True)), rm.kids(x)[::-1])
            eq("node after children", num(r.node), x)
            eq("descendants", lst(r.descendants()), rm.pre(x))
            eq("node after descendants", num(r.node), x)
            eq("descendants reverse", lst(r.descendants(True)), rm.pre(x, (), True))
            eq("node after descendants", num(r.node), x)
            eq("operator /", lst(r / Node), rm.kids(x))
            eq("operator //", lst(r // Node), rm.pre(x))
            h = r.from_here()
            eq("from_here ancestor", num(h.ancestor()), x)
            eq("from_here", lst(h.descendants()), rm.pre(x))
            t = r.extract_tree()
            eq("extract_tree", shape_of(t), rm.shape(x))
            eq("extract_tree copies", any(a is b for a in [t, *t.descendants()] for b in nodes), False)
            for skip in trees.subsets(x for x in rm.d if m.children[x]):
                if len(skip) > 2:
                    break
                r.goto(node)
                eq("descendants skipping", trees.drive(r.descendants(), skip, num), rm.pre(x, skip))
                r.goto(node)
                eq("descendants reverse skipping", trees.drive(r.descendants(True), skip, num), rm.pre(x, skip, True))
                if x != rm.a:
                    r.goto(node)
                    eq("forward skipping", trees.drive(r.forward(), skip, num), rm.outward(x, skip, False))
                    r.goto(node)
                    eq("backward skipping", trees.drive(r.backward(), skip, num), rm.outward(x, skip, True))
        c = r.copy()
        eq("copy", lst(c.nodes()), rm.v)
        # the tree is untouched
        eq("tree", shape_of(nodes[0]), shape)
        outside = Node()
        eq("foreign node", (outside in r, r & outside, r.goto(outside)), (False, False, False))


class Cursor(core.Family):
    """Breadth first search over all iteration states (next/enter/leave/...)."""
    name = "iteration"

    def cases(self, tier):
        for n in range(2, (7 if tier == "quick" else 8)):
            for i in range(len(trees.trees(n))):
                for spec in specs(trees.M(trees.trees(n)[i])):
                    yield [n, i, spec]

    def check(self, case, rec):
        n, i, spec = case
        shape = trees.trees(n)[i]
        m = trees.M(shape)
        nodes = trees.build(shape, lambda k: Node)
        ids = {id(x): k for k, x in enumerate(nodes)}
        made = make(spec, m, nodes)
        if made is None or not made[1].v:
            return
        rm = made[1]
        # model state: tuple of (node, position in kids or -1)
        def op_next(st):
            node, k = st[-1]
            kids = rm.kids(node)
            if k + 1 < len(kids):
                return st[:-1] + ((node, k + 1),), kids[k + 1]
            return st, None
        def op_enter(st):
            node, k = st[-1]
            if k != -1:
                st = st + ((rm.kids(node)[k], -1),)
            return st, len(st) - 1
        def op_leave(st):
            if len(st) == 1:
                return ((st[0][0], -1),), 0
            return st[:-1], len(st) - 1
        def op_reset(st):
            return ((st[0][0], -1),), None
        model_ops = {"next": op_next, "enter": op_enter, "leave": op_leave, "reset": op_reset}
        def real(r, op):
            if op == "next":
                try:
                    return ids[id(next(r))]
                except StopIteration:
                    return None
            if op == "enter":
                return r.enter()
            if op == "leave":
                return r.leave()
            r.reset()
        def current(st):
            node, k = st[-1]
            return node if k == -1 else rm.kids(node)[k]
        start = ((rm.a, -1),)
        seen = {start}
        frontier = [(start, [])]
        while frontier:
            st, hist = frontier.pop(0)
            for op in model_ops:
                st2, want = model_ops[op](st)
                r, _ = make(spec, m, nodes)
                for o in hist:
                    real(r, o)
                got = real(r, op)
                rec.step()
                if got != want or ids[id(r.node)] != current(st2):
                    raise Violation("{} after {} on range {} of tree {}: got {}, node {}; expected {}, node {}".format(
                        op, hist, spec, shape, got, ids[id(r.node)], want, current(st2)))
                if st2 not in seen:
                    seen.add(st2)
                    rec.state((shape, spec, st2))
                    rec.trace()
                    rec.outcome((shape, spec, st2))
                    frontier.append((st2, hist + [op]))


class Editing(core.Family):
    """Modifying the tree through a range: what was selected stays selected."""
    name = "editing"

    def cases(self, tier):
        for n in range(2, (7 if tier == "quick" else 8)):
            for i in range(len(trees.trees(n))):
                for spec in specs(trees.M(trees.trees(n)[i])):
                    yield [n, i, spec]

    def check(self, case, rec):
        n, i, spec = case
        shape = trees.trees(n)[i]
        m = trees.M(shape)
        ids = {}
        made = make(spec, m, trees.build(shape, lambda k: Node))
        if made is None or not made[1].v:
            return
        rm = made[1]
        # edit the children of every node that can be entered
        for x in [rm.a] + rm.d:
            kids = m.children[x]
            sel = rm.kids(x)
            if not sel:
                continue
            lo, hi = kids.index(sel[0]), kids.index(sel[-1])
            for a in range(lo, hi + 1):
                for b in range(a, hi + 2):
                    for added in range(0, 3):
                        if a == b and not added:
                            continue
                        modes = ["slice"]
                        if b == a + 1 and added == 0:
                            modes.append("del")
                        if b == a + 1 and added == 1:
                            modes += ["item", "node"]
                        if added == 0 and b > a:
                            modes.append("delslice")
                        for mode in modes:
                            for at in ([-1] + list(range(lo, hi + 1)) if mode != "node" else [a]):
                                self.one(rec, shape, m, spec, rm, x, a, b, added, mode, at)

    def one(self, rec, shape, m, spec, rm, x, a, b, added, mode, at):
        nodes = trees.build(shape, lambda k: Node)
        r, _ = make(spec, m, nodes)
        kids = m.children[x]
        r.goto(nodes[x])
        if x != rm.a:
            r.enter()
        if at != -1:
            r.index = at
        new = [Node() for _ in range(added)]
        ctx = (shape, spec, x, a, b, added, mode, at)
        rec.step()
        if mode == "slice":
            r[a:b] = iter(new)
        elif mode == "del":
            del r[a]
        elif mode == "delslice":
            del r[a:b]
        elif mode == "item":
            r[a] = new[0]
        elif mode == "node":
            r.node = new[0]
        rec.state(ctx)
        rec.trace()
        # the tree itself
        want = [nodes[k] for k in kids[:a]] + new + [nodes[k] for k in kids[b:]]
        got = list(nodes[x])
        if len(got) != len(want) or any(p is not q for p, q in zip(got, want)):
            raise Violation("wrong children after edit {}".format(ctx))
        if any(c.parent is not nodes[x] for c in got):
            raise Violation("wrong parents after edit {}".format(ctx))
        # iteration continues with the first node after the current one that was not touched
        if at != -1 and mode != "node":
            hi = kids.index(rm.kids(x)[-1])
            if a <= at < b:
                rest = kids[b:hi + 1]
                exp = [nodes[k] for k in rest]
                got = list(r)
                if len(got) != len(exp) or any(p is not q for p, q in zip(got, exp)):
                    raise Violation("iteration is not continued right after edit {}: got {} nodes, expected {}".format(
                        ctx, len(got), len(exp)))
            elif b <= at or a > at:
                got = list(r)
                exp = [nodes[k] for k in kids[at+1:hi+1] if not a <= kids.index(k) < b]
                old = [g for g in got if not any(g is z for z in new)]
                if len(old) != len(exp) or any(p is not q for p, q in zip(old, exp)):
                    raise Violation("iteration is not continued right after edit {}".format(ctx))
        # survivors
        gone = set()
        for k in kids[a:b]:
            gone.update(m.subtree(k))
        left = [k for k in rm.v if k not in gone]
        list(r.nodes())
        if not left or all(kids.index(k) in range(a, b) for k in rm.kids(x)):
            # all selected children at this level are removed: the boundary is
            # gone, and it is not specified how it is reconstructed
            return
        for label, rr in (("", r), (" (copy)", r.copy())):
            got = [next((k for k, q in enumerate(nodes) if q is p), None) for p in rr.nodes()]
            olds = [k for k in got if k is not None]
            bad = [k for k in olds if k not in rm.ds or k in gone]
            missing = [k for k in left if k not in olds]
            if bad or missing:
                raise Violation("after edit {}{}: nodes {} came in range, nodes {} went out of range".format(
                    ctx, label, bad, missing))
        # new nodes strictly between nodes that are in range are in range
        sel = rm.kids(x)
        before = [k for k in kids[:a] if k in sel]
        after = [k for k in kids[b:] if k in sel]
        if before and after and new:
            vis = list(r.nodes())
            if any(not any(z is p for p in vis) for z in new):
                raise Violation("after edit {}: inserted nodes are not in range".format(ctx))
        rec.outcome((shape, spec, x, a, b, added, tuple(olds)))


class Loop(core.Family):
    """All ways to delete / replace / expand children in a loop over a range."""
    name = "editing-loop"

    def cases(self, tier):
        for n in range(1, (7 if tier == "quick" else 8)):
            for lo in range(n):
                for hi in range(lo, n):
                    for acts in itertools.product("kdrx", repeat=hi - lo + 1):
                        yield [n, lo, hi, "".join(acts)]

    def check(self, case, rec):
        n, lo, hi, acts = case
        root = Node(*[Node() for _ in range(n)])
        kids = list(root)
        r = kids[lo].range(kids[hi], True)
        seen = []
        want = list(kids[:lo])
        added = []
        for node in r:
            k = next((k for k, q in enumerate(kids) if q is node), None)
            seen.append(k)
            if k is None or not lo <= k <= hi:
                raise Violation("visited {} in {}".format(seen, case))
            act = acts[k - lo]
            rec.step()
            if act == "k":
                want.append(node)
            elif act == "d":
                del r[r.index]
            elif act == "r":
                w = Node(); added.append(w); want.append(w)
                r.node = w
            elif act == "x":
                w = Node(), Node(); added.extend(w); want.extend(w)
                r[r.index:r.index + 1] = w
        want += kids[hi + 1:]
        rec.state(case)
        rec.trace()
        rec.outcome(acts)
        if seen != list(range(lo, hi + 1)):
            raise Violation("loop visited {} in {}".format(seen, case))
        if len(root) != len(want) or any(a is not b for a, b in zip(root, want)):
            raise Violation("wrong result of loop {}".format(case))
        vis = list(r.nodes())
        for k in kids[:lo] + kids[hi+1:]:
            if any(v is k for v in vis):
                raise Violation("after loop {}: a node came in range".format(case))
        for k, act in zip(kids[lo:hi+1], acts):
            if act == "k" and not any(v is k for v in vis):
                raise Violation("after loop {}: a node went out of range".format(case))


def families():
    return [Selection(), Cursor(), Editing(), Loop()]


BOUNDS = {
    "quick": "all ordered trees up to 7 nodes x all start/end boundary pairs (6 nodes for iteration states and edits through the range), skip sets up to 2 nodes; all keep/delete/replace/expand loops over up to 6 children",
    "thorough": "all ordered trees up to 8 nodes x all boundary pairs (7 for iteration states and edits); loops up to 7 children",
}
ASSUMPTIONS = [
    "whether nodes inserted exactly at a boundary fall inside is left open",
]
