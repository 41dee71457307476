"""C05: node tree integrity and navigation."""

import collections
import itertools

from quickly.node import Node

from mc import core
from mc.core import Violation
from . import trees


class A(Node):
    __slots__ = ()

class B(Node):
    __slots__ = ()

class L(Node):
    """A node with a value."""
    __slots__ = ('value',)
    def __init__(self, value, *children):
        self.value = value
        super().__init__(*children)
    def body_equals(self, other):
        return self.value == other.value
    def copy(self, with_children=True):
        children = (n.copy() for n in self) if with_children else ()
        return type(self)(self.value, *children)


class Navigation(core.Family):
    """All trees up to n nodes, all nodes / node pairs, against index arithmetic."""
    name = "navigation"

    def cases(self, tier):
        for n in range(1, (9 if tier == "quick" else 10)):
            for i in range(len(trees.trees(n))):
                yield [n, i]

    def check(self, case, rec):
        n, i = case
        shape = trees.trees(n)[i]
        m = trees.M(shape)
        nodes = trees.build(shape, lambda k: Node)
        ids = {id(x): k for k, x in enumerate(nodes)}
        num = lambda x: None if x is None else ids[id(x)]
        lst = lambda g: [num(x) for x in g]
        def eq(what, got, want):
            rec.step()
            if got != want:
                raise Violation("{} on tree {}: got {}, expected {}".format(what, shape, got, want))
        rec.state(shape)
        rec.trace()
        height = max(len(m.trail(k)) for k in range(m.n))
        eq("height", nodes[0].height(), height)
        for k, node in enumerate(nodes):
            p = m.parent[k]
            sib = m.children[p] if p is not None else [k]
            at = sib.index(k)
            eq("parent", num(node.parent), p)
            eq("children", lst(node), m.children[k])
            eq("bool", bool(node), True)
            eq("root", num(node.root()), 0)
            eq("is_root", node.is_root(), k == 0)
            eq("depth", node.depth(), len(m.trail(k)))
            eq("trail", node.trail(), m.trail(k))
            eq("ancestors", lst(node.ancestors()), list(m.ancestors(k)))
            eq("ancestors_with_index", [(num(a), x) for a, x in node.ancestors_with_index()],
               list(zip(m.ancestors(k), reversed(m.trail(k)))))
            eq("descendants", lst(node.descendants()), m.preorder(k, ()))
            eq("descendants reverse", lst(node.descendants(True)), m.preorder(k, (), True))
            eq("height", node.height(), max(len(m.trail(x)) for x in m.subtree(k)) - len(m.trail(k)))
            eq("right_siblings", lst(node.right_siblings()), sib[at+1:])
            eq("left_siblings", lst(node.left_siblings()), sib[:at][::-1])
            eq("right_sibling", num(node.right_sibling()), (sib[at+1:] + [None])[0])
            eq("left_sibling", num(node.left_sibling()), (sib[:at][::-1] + [None])[0])
            if p is not None:
                eq("is_first", node.is_first(), at == 0)
                eq("is_last", node.is_last(), at == len(sib) - 1)
                eq("index", node.parent.index(node), at)
            eq("forward", lst(node.forward()), m.outward(k, (), False, None))
            eq("backward", lst(node.backward()), m.outward(k, (), True, None))
            # document order: everything before, ancestors, self, descendants, after
            before = lst(node.backward())
            allnodes = sorted(before + lst(node.ancestors()) + [k] + lst(node.descendants()) + lst(node.forward()))
            eq("partition", allnodes, list(range(m.n)))
            for u in list(m.ancestors(k)) + [k]:
                eq("forward upto", lst(node.forward(nodes[u])), m.outward(k, (), False, u))
                eq("backward upto", lst(node.backward(nodes[u])), m.outward(k, (), True, u))
            c = node.copy()
            eq("copy parent", c.parent, None)
            eq("copy equals", (c.equals(node), node.equals(c)), (True, True))
            eq("copy distinct", any(x is y for x in c.descendants() for y in nodes), False)
            eq("copy links", all(y.parent is x for x in [c, *c.descendants()] for y in x), True)
            eq("copy without children", len(node.copy(False)), 0)
        for j, k in itertools.product(range(m.n), repeat=2):
            a, b = nodes[j], nodes[k]
            aj = [j] + list(m.ancestors(j))
            ak = [k] + list(m.ancestors(k))
            common = next(x for x in aj if x in ak)
            eq("common_ancestor", num(a.common_ancestor(b)), common)
            d = len(m.trail(common))
            r = a.common_ancestor_with_trail(b)
            eq("common_ancestor_with_trail", (num(r[0]), r[1], r[2]),
               (common, m.trail(j)[d:], m.trail(k)[d:]))
            eq("trail order", a.trail() < b.trail(), j < k)
            eq("eq is identity", (a == b, a != b), (j == k, j != k))
            eq("equals", a.equals(b), _shape(m, j) == _shape(m, k))
        other = Node(Node(), Node(Node()))
        for a in nodes:
            for o in [other, *other.descendants()]:
                eq("no common ancestor", a.common_ancestor(o), None)
                eq("no common ancestor", a.common_ancestor_with_trail(o), (None, None, None))
        rec.outcome(shape)


def _shape(m, i):
    return tuple(_shape(m, c) for c in m.children[i])


class Skipping(core.Family):
    """All trees, all skip sets: generators accept send(False)."""
    name = "skip"

    def cases(self, tier):
        for n in range(2, (8 if tier == "quick" else 9)):
            for i in range(len(trees.trees(n))):
                yield [n, i]

    def check(self, case, rec):
        n, i = case
        shape = trees.trees(n)[i]
        m = trees.M(shape)
        nodes = trees.build(shape, lambda k: Node)
        ids = {id(x): k for k, x in enumerate(nodes)}
        num = lambda x: ids[id(x)]
        rec.trace()
        for skip in trees.subsets([k for k in range(1, m.n) if m.children[k]]):
            rec.state(("skip", shape, skip))
            for k, node in enumerate(nodes):
                for name, gen, want in (
                    ("descendants", node.descendants(), m.preorder(k, skip)),
                    ("descendants reverse", node.descendants(reverse=True), m.preorder(k, skip, True)),
                    ("forward", node.forward(), m.outward(k, skip, False, None)),
                    ("backward", node.backward(), m.outward(k, skip, True, None)),
                ):
                    rec.step()
                    got = trees.drive(gen, skip, num)
                    if got != want:
                        raise Violation("{} skipping {} from {} on {}: {} != {}".format(
                            name, skip, k, shape, got, want))
                # filter: predicate true = yield and skip descendants
                rec.step()
                got = [num(x) for x in node.filter(lambda x: num(x) in skip)]
                want = [x for x in m.preorder(k, skip) if x in skip]
                if got != want:
                    raise Violation("filter {} from {} on {}: {} != {}".format(skip, k, shape, got, want))
                rec.outcome((shape, skip, k, tuple(got)))


class Queries(core.Family):
    """All trees with all class labellings: query operators."""
    name = "queries"

    def cases(self, tier):
        for n in range(1, (7 if tier == "quick" else 8)):
            for i in range(len(trees.trees(n))):
                yield [n, i]

    def check(self, case, rec):
        n, i = case
        shape = trees.trees(n)[i]
        m = trees.M(shape)
        rec.trace()
        for labels in itertools.product("ABL", repeat=n):
            if labels.count("L") > 2:
                continue
            cls = {"A": A, "B": B, "L": None}
            val = {}
            def mk(k):
                if labels[k] == "L":
                    val[k] = labels[:k].count("L")
                    return lambda *ch: L(val[k], *ch)
                return cls[labels[k]]
            nodes = trees.build(shape, mk)
            ids = {id(x): k for k, x in enumerate(nodes)}
            rec.state(("q", shape, labels))
            for k, node in enumerate(nodes):
                sources = {
                    "<<": list(m.ancestors(k)), ">": m.outward(k, (), False, None),
                    "<": m.outward(k, (), True, None), "/": m.children[k],
                    "//": m.preorder(k, ()), "^": m.children[k],
                }
                for arg, pred in (
                    (A, lambda x: labels[x] == "A"),
                    ((A, B), lambda x: labels[x] in "AB"),
                    (Node, lambda x: True),
                    (L(0), lambda x: labels[x] == "L" and val[x] == 0),
                    (L(1, L(0)), lambda x: labels[x] == "L" and val[x] == 1),
                ):
                    for op, src in sources.items():
                        rec.step()
                        it = (node << arg if op == "<<" else node > arg if op == ">" else node < arg if op == "<"
                              else node / arg if op == "/" else node // arg if op == "//" else node ^ arg)
                        got = [ids[id(x)] for x in it]
                        want = [x for x in src if pred(x) is not (op == "^")]
                        if got != want:
                            raise Violation("operator {} from {} on {} {}: {} != {}".format(
                                op, k, shape, labels, got, want))
                got = [ids[id(x)] for x in node.instances_of(A)]
                want = [x for x in m.preorder(k, [y for y in range(n) if labels[y] == "A"]) if labels[x] == "A"]
                if got != want:
                    raise Violation("instances_of from {} on {} {}: {} != {}".format(k, shape, labels, got, want))
            # equality: same shape, other labels
            rec.outcome((shape, labels))


class Mutation(core.Family):
    """All histories of list operations, against a plain nested list."""
    name = "mutation"

    def cases(self, tier):
        for op in self.ops([[]]):
            yield [op, 6 if tier == "quick" else 8]

    # The model is a nested list structure of names; nodes are created fresh with
    # increasing names; model state: dict name -> list of child names, root 0
    @staticmethod
    def ops(model):
        """Operations enabled in the model: [op, node, args]."""
        for x, kids in enumerate(model):
            if kids is None:
                continue
            n = len(kids)
            yield ["append", x]
            yield ["extend", x]
            for i in range(n + 1):
                if i < n or n == 0:
                    yield ["insert", x, i]
            for i in range(n):
                yield ["set", x, i]
                yield ["setneg", x, i]
                yield ["replace", x, i]
                yield ["del", x, i]
                yield ["slice", x, i, i + 1]
                yield ["take", x, i, i + 1]
            if n:
                yield ["slice", x, 0, n]
                yield ["slice", x, n, n]
                yield ["slice", x, 0, 0]
                yield ["reorder", x]
                yield ["take", x, 0, None]
                yield ["take", x, 1, None]
                yield ["copyin", x]

    @staticmethod
    def apply(op, model, nodes):
        """Apply to the model (list of child lists) and to the real nodes."""
        def new():
            model.append([])
            nodes.append(Node())
            return len(nodes) - 1
        def drop(y):
            for c in model[y]:
                drop(c)
            model[y] = None
        name, x, *args = op
        node, kids = nodes[x], model[x]
        if name == "append":
            y = new(); node.append(nodes[y]); kids.append(y)
        elif name == "extend":
            y, z = new(), new(); node.extend(iter((nodes[y], nodes[z]))); kids += [y, z]
        elif name == "insert":
            y = new(); node.insert(args[0], nodes[y]); kids.insert(args[0], y)
        elif name == "set":
            y = new(); node[args[0]] = nodes[y]; drop(kids[args[0]]); kids[args[0]] = y
        elif name == "setneg":
            y = new(); i = args[0] - len(kids); node[i] = nodes[y]; drop(kids[i]); kids[i] = y
        elif name == "replace":
            y = new(); nodes[kids[args[0]]].replace_with(nodes[y]); drop(kids[args[0]]); kids[args[0]] = y
        elif name == "del":
            del node[args[0]]; drop(kids[args[0]]); del kids[args[0]]
        elif name == "slice":
            y, z = new(), new()
            node[args[0]:args[1]] = (nodes[i] for i in (y, z))
            for c in kids[args[0]:args[1]]:
                drop(c)
            kids[args[0]:args[1]] = [y, z]
        elif name == "reorder":
            node[:] = list(node)[::-1]
            kids.reverse()
        elif name == "take":
            got = node.take(*args)
            want = kids[args[0]:args[1]]
            if [id(g) for g in got] != [id(nodes[w]) for w in want]:
                raise Violation("take returned wrong nodes", op)
            for c in want:
                drop(c)
            del kids[args[0]:args[1]]
        elif name == "copyin":
            # append a deep copy of the first child
            c = nodes[kids[0]].copy()
            node.append(c)
            def clone(src, real):
                y = new()
                nodes[y] = real
                model[y] = [clone(s, r) for s, r in zip(model[src], real)]
                return y
            kids.append(clone(kids[0], c))

    @staticmethod
    def verify(hist, model, nodes):
        for x, kids in enumerate(model):
            if kids is None:
                continue
            node = nodes[x]
            if len(node) != len(kids) or any(a is not nodes[b] for a, b in zip(node, kids)):
                raise Violation("children differ after {}".format(hist))
            for c in kids:
                if nodes[c].parent is not node:
                    raise Violation("parent link broken after {}".format(hist))
        if nodes[0].parent is not None:
            raise Violation("root got a parent after {}".format(hist))
        order = []
        def pre(x):
            for c in model[x]:
                order.append(c)
                pre(c)
        pre(0)
        got = list(nodes[0].descendants())
        if len(got) != len(order) or any(a is not nodes[b] for a, b in zip(got, order)):
            raise Violation("document order broken after {}".format(hist))

    def build(self, hist):
        model, nodes = [[]], [Node()]
        for op in hist:
            self.apply(op, model, nodes)
        return model, nodes

    @staticmethod
    def canon(model):
        def c(x):
            return tuple(c(y) for y in model[x])
        return c(0)

    def check(self, case, rec):
        first, depth = case
        seen = set()
        hists = [[first]]
        for h in hists:
            model, nodes = self.build(h)
            self.verify(h, model, nodes)
        frontier = collections.deque(hists)
        while frontier:
            hist = frontier.popleft()
            model, _ = self.build(hist)
            for op in list(self.ops(model)):
                h = hist + [op]
                model2, nodes2 = self.build(h)
                rec.step()
                self.verify(h, model2, nodes2)
                if sum(k is not None for k in model2) > 8:
                    continue
                c = (len(h), self.canon(model2))
                if c not in seen:
                    seen.add(c)
                    rec.state(("mut", c))
                    rec.trace()
                    rec.outcome(c)
                    if len(h) < depth:
                        frontier.append(h)


class MutationStart(Mutation):
    """Histories from non-initial states: every tree up to 5 nodes, then 2 operations."""
    name = "mutation-from-any-tree"

    def cases(self, tier):
        for n in range(2, (6 if tier == "quick" else 7)):
            for i in range(len(trees.trees(n))):
                yield [n, i]

    def check(self, case, rec):
        n, i = case
        shape = trees.trees(n)[i]
        m = trees.M(shape)
        def start():
            return [list(k) for k in m.children], trees.build(shape, lambda k: Node)
        model, nodes = start()
        self.verify([], model, nodes)
        for op1 in list(self.ops(model)):
            model1, nodes1 = start()
            self.apply(op1, model1, nodes1)
            rec.step()
            self.verify([shape, op1], model1, nodes1)
            rec.state(("mfa", shape, op1))
            rec.trace()
            if n > 4:
                continue
            for op2 in list(self.ops(model1)):
                model2, nodes2 = start()
                self.apply(op1, model2, nodes2)
                self.apply(op2, model2, nodes2)
                rec.step()
                self.verify([shape, op1, op2], model2, nodes2)
                rec.trace()


def families():
    return [Navigation(), Skipping(), Queries(), Mutation(), MutationStart()]


BOUNDS = {
    "quick": "all ordered trees up to 6 nodes (navigation, skip sets), up to 5 nodes with all labellings; all operation histories up to depth 4 (trees up to 7 live nodes); one/two operations from every tree up to 5 nodes",
    "thorough": "all ordered trees up to 8 nodes (navigation), 7 (skip sets), 6 with all labellings; all operation histories up to depth 5; from every tree up to 6 nodes",
}
ASSUMPTIONS = ["nodes are only added when they are not part of another tree (documented user duty)"]
