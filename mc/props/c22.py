r"""C22: combining elements into a tree keeps all elements and follows the signatures."""

import itertools

from mc import core, docs
from quickly.dom import base, element, lily

BOUNDS = {
    "quick": "abstract: all 38 signatures of 1-3 arguments over 5 argument types (also a subtype, a tuple of types, and the commands themselves) with 8 signature sets of a second command and all streams up to length 5, "
             "all ordered pairs of signatures with 3 signature sets and all streams up to length 3, over 2 kinds of leaves, the 2 commands, comments and commands that already have children, with comments ignored and not; "
             "LilyPond: 97 commands with all their arguments, alone, in all pairs with a neutral follower or another command, with a comment before every argument, and cut off after every argument",
    "thorough": "streams up to length 6 for 1 signature, 4 for pairs, 3 for triples of signatures; LilyPond: all triples of commands",
}
ASSUMPTIONS = ["the reference takes the longest list of arguments that fits, left to right, as LilyPond does"]


class A(element.HeadElement):
    head = "a"


class B(A):
    head = "b"


class C(element.HeadElement):
    head = "%"


class F(element.HeadElement):
    head = "f"
    sigs = ()

    def signatures(self):
        return self.sigs


class G(F):
    head = "g"


class FGen(F):
    """Yields the signatures, like the LilyPond elements do."""
    def signatures(self):
        yield from self.sigs


ARGS = {"A": A, "B": B, "F": F, "G": G, "AG": (A, G)}


def reference(stream, ignore):
    """Yield the nodes as (node, [children]), in the slow and obvious way."""
    stream = list(stream)       # items are a node, or ("done", node, children)

    def item():
        """Take one complete item."""
        x = stream.pop(0)
        if isinstance(x, tuple):
            return x
        children = [("done", c, []) for c in x]
        sigs = list(x.signatures())
        given = [c for c in x if not isinstance(c, ignore)]
        open_ = [s[len(given):] for s in sigs
                 if len(s) > len(given) and all(isinstance(c, t) for c, t in zip(given, s))]
        while open_ and stream:
            y = item()
            if isinstance(y[1], ignore):
                children.append(y)
                continue
            fits = [s[1:] for s in open_ if isinstance(y[1], s[0])]
            if not fits:
                stream.insert(0, y)
                break
            children.append(y)
            open_ = [s for s in fits if s]
        return ("done", x, children)

    while stream:
        yield item()


def tree(x):
    return (x[1], [tree(c) for c in x[2]])


def same(node, ref):
    return node is ref[0] and len(node) == len(ref[1]) and all(same(c, r) for c, r in zip(node, ref[1]))


def flat(nodes):
    for n in nodes:
        yield n
        yield from flat(n)


def show(node):
    return node.head + ("(" + " ".join(map(show, node)) + ")" if len(node) else "")


SIGS1 = [s for n in (1, 2, 3) for s in itertools.product("A B F G AG".split(), repeat=n) if n < 3 or "F" not in s and "G" not in s and "AG" not in s]
GSIGS = [[], ["A"], ["A A", "A"], ["B A"], ["F"], ["A", "B B"], ["G A", "A A A"], ["F A", "A G"]]


class Abstract(core.Family):
    name = "abstract"

    def cases(self, tier):
        deep = tier != "quick"
        for i in range(len(SIGS1)):
            yield [i, 1, 6 if deep else 5, None]
            if deep:
                for g in range(len(GSIGS)):
                    yield [i, 2, 4, g]
                    yield [i, 3, 3, g]
            else:
                for g in (0, 2, 7):
                    yield [i, 2, 3, g]

    def check(self, case, rec):
        i, n, length, gi = case
        first = SIGS1[i]
        if n == 1:
            sets = [(first,)]
        elif n == 2:
            sets = [(first, s) for s in SIGS1 if s != first]
        else:
            some = SIGS1[::7]
            sets = [(first, s, t) for s in some for t in some if len({first, s, t}) == 3]
        for sigs in sets:
            sig = [tuple(ARGS[a] for a in s) for s in sigs]
            F.sigs = sig
            for g in GSIGS if gi is None else GSIGS[gi:gi + 1]:
                G.sigs = [tuple(ARGS[a] for a in s.split()) for s in g]
                for m in range(1, length + 1):
                    for w in itertools.product("abfgcxy" if m < 4 else "abfgc", repeat=m):
                        for ignore in ((C, None) if m < 4 else (C,)):
                            self.one(w, ignore, sigs, g, rec)
        rec.trace()

    def one(self, w, ignore, sigs, g, rec):
        make = {"a": A, "b": B, "f": F if "y" not in w else FGen, "g": G, "c": C, "x": lambda: F(A()), "y": lambda: F(A(), C(), B())}
        nodes = [make[c]() for c in w]
        order = list(flat(nodes))
        expect = [tree(x) for x in reference(nodes, ignore or ())]
        got = list(element.build_tree(iter(nodes), ignore_type=ignore))
        rec.step()
        where = "{} with f {} and g {}{}".format(" ".join(w), sigs, g, "" if ignore else ", comments not ignored")
        if [id(n) for n in flat(got)] != [id(n) for n in order]:
            raise core.Violation("elements lost or reordered", "{}: {}".format(where, " ".join(map(show, got))))
        if len(got) != len(expect) or not all(same(a, b) for a, b in zip(got, expect)):
            raise core.Violation("wrong arguments", "{}: {}".format(where, " ".join(map(show, got))))
        if not all(docs.links_ok(n) for n in got):
            raise core.Violation("parent links wrong", where)
        rec.outcome(" ".join(map(show, got)))


# LilyPond commands with their arguments; a nested list is an argument that is
# a command itself
N = "c'8"
M = "{ e }"
SC = "#'x"
COMMANDS = [
    ["\\new", "Staff", M], ["\\new", "Staff", "=", "\"x\"", M], ["\\new", "Staff", "\\with { a = 1 }", M], ["\\new", "Voice", "=", "x", "\\with { }", "<< e >>"],
    ["\\context", "Voice", "=", "x", M], ["\\change", "Staff", "=", "\"x\""], ["\\change", "Staff", "=", "x"],
    ["\\relative", "c'", M], ["\\relative", M], ["\\absolute", M], ["\\fixed", "c'", M], ["\\transpose", "c", "d'", M], ["\\transposition", "f'"],
    ["\\repeat", "volta", "2", M], ["\\repeat", "unfold", "2", M, ["\\alternative", "{ { f } { g } }"]], ["\\unfoldRepeats", M], ["\\unfolded", M], ["\\volta", "1", M], ["\\volta", "#'(1 2)", M],
    ["\\ottava", "1"], ["\\ottava", "#-1"], ["\\simultaneous", M], ["\\sequential", M],
    ["\\octaveCheck", "c'"], ["\\bar", "\"|.\""], ["\\label", SC], ["\\mark", "\\default"], ["\\mark", "3"], ["\\mark", "\"x\""],
    ["\\tempo", "\"x\""], ["\\tempo", "\"x\"", "4.", "=", "60"], ["\\tempo", "4", "=", "60"],
    ["\\key", "c", "\\major"], ["\\key", "fis", "\\minor"], ["\\key", "c", "\\foo"], ["\\clef", "bass"], ["\\clef", "\"treble_8\""], ["\\time", "3/4"], ["\\time", "1,2", "3/8"],
    ["\\partial", "4."], ["\\partial", "8*3"], ["\\times", "2/3", M], ["\\tuplet", "3/2", M], ["\\tuplet", "3/2", "4", M], ["\\tuplet", "3/2", "4.", M], ["\\scaleDurations", "2/3", M], ["\\scaleDurations", "2", M],
    ["\\shiftDurations", "1", "0", M], ["\\shiftDurations", "#-1", "#1", M],
    ["\\grace", N], ["\\grace", M], ["\\acciaccatura", N], ["\\appoggiatura", M], ["\\afterGrace", N, M], ["\\afterGrace", "3/4", N, "d16"],
    ["\\partcombine", M, "{ g }"], ["\\tag", SC, N], ["\\tag", SC, "\\foo"], ["\\relative", "c'", ["\\tag", "foo", "\\foo"]], ["\\tag", "foo", M], ["\\keepWithTag", SC, M], ["\\removeWithTag", "foo", M], ["\\pushToTag", SC, M], ["\\appendToTag", SC, M], ["\\tagGroup", SC],
    ["\\quoteDuring", "\"x\"", M], ["\\once", ["\\omit", "NoteHead.color"]], ["\\omit", "NoteHead"], ["\\hide", "Slur"], ["\\undo", ["\\hide", "Staff.Slur"]],
    ["\\override", "NoteHead.color", "=", "#red"], ["\\override", "Staff.NoteHead.x", "=", "5"], ["\\override", "NoteHead", "#'color", "=", "#red"],
    ["\\override", "NoteHead", "#'a", "#'b", "=", "\"s\""], ["\\once", ["\\override", "X.y", "=", "#1"]], ["\\temporary", ["\\override", "X.y", "=", "##t"]],
    ["\\revert", "NoteHead.color"], ["\\set", "Staff.x", "=", "#1"], ["\\set", "x", "=", "\"y\""], ["\\set", "x", "=", "\\markup { a }"], ["\\set", "x", "=", "2"], ["\\unset", "Staff.x"], ["\\once", ["\\set", "x", "=", "#1"]],
    ["\\skip", "4"], ["\\skip", "2.*2/3"], ["\\after", "4", "\\f"], ["\\language", "\"english\""], ["\\include", "\"x.ly\""], ["\\version", "\"2.24.0\""],
    ["\\shape", SC, "Slur"], ["\\stringTuning", "<c g>"], ["\\lyricmode", "{ a b }"], ["\\lyricsto", "\"x\"", "{ a b }"], ["\\addlyrics", "{ a b }"], ["\\drummode", "{ bd }"], ["\\chordmode", "{ c:m }"], ["\\figuremode", "{ <6> }"],
    ["\\notemode", M], ["\\repeat", "volta", "2", ["\\tuplet", "3/2", M]], ["\\new", "Staff", ["\\relative", "c'", M]], ["\\keepWithTag", SC, ["\\new", "Staff", M]], ["\\transpose", "c", "d", ["\\relative", ["\\repeat", "volta", "2", M]]],
    ["\\relative", "c'", ["\\tag", SC, M]], ["\\markup", "x"], ["\\markup", "{ a b }"],
]
FOLLOW = ["c'8", "\\break", "{ g }", "\\foo", "| "]

def join(cmd):
    """Text of a command, and its nested (start, [args]) positions."""
    out = []

    def put(c):
        if isinstance(c, str):
            start = sum(map(len, out))
            out.append(c + " ")
            return (start, None)
        start = sum(map(len, out))
        out.append(c[0] + " ")
        return (start, [put(a) for a in c[1:]])
    pos = put(cmd)
    return "".join(out), pos


def starts(node):
    """Children of a command, comments excluded."""
    return [n for n in node if not isinstance(n, base.Comment)]


def begin(node):
    """Start position of the text of a node."""
    return min([t.pos for t in docs.origins(node)])


def compare(node, pos, offset, where):
    """Compare the arguments of the command with the expected positions."""
    start, args = pos
    if begin(node) != offset + start:
        raise core.Violation("wrong element", "{}: {} does not start at {}".format(where, node, offset + start))
    if args is not None:
        kids = starts(node)
        if [begin(k) for k in kids] != [offset + a[0] for a in args]:
            raise core.Violation("wrong arguments", "{}: {} has arguments {}".format(where, node, kids))
        for k, a in zip(kids, args):
            compare(k, a, offset, where)


def length(c):
    return 1 if isinstance(c, str) else sum(map(length, c))


def cut(c, n):
    """The command with n words only."""
    out = []
    for x in c:
        if n <= 0:
            break
        if isinstance(x, str):
            out.append(x)
            n -= 1
        else:
            y = cut(x, n)
            out.append(y)
            n -= length(y)
    return out


class LilyPond(core.Family):
    name = "lilypond"

    def cases(self, tier):
        for c in COMMANDS:
            yield [[c]]
            for f in FOLLOW:
                yield [[c, [f]]]
                yield [[[f], c, [f]]]
            for d in COMMANDS:
                yield [[c, d, ["c'8"]]]
        if tier != "quick":
            for c in COMMANDS:
                yield [c, "triples"]

    def check(self, case, rec):
        if len(case) == 2:
            for d in COMMANDS:
                for e in COMMANDS:
                    self.one([case[0], d, e], rec)
        else:
            self.one(case[0], rec)
            self.comments(case[0], rec)

    def expected(self, items):
        """Text and expected positions; a standalone alternative joins a repeat."""
        text = "{ "
        pos = []
        for c in items:
            t, p = join(c)
            pos.append((len(text), p))
            text += t
        return text + "}", pos

    def one(self, items, rec):
        # these take more when followed by the right things
        for a, b in zip(items, items[1:]):
            if absorbs(a, b):
                return
        text, pos = self.expected(items)
        root = docs.parse(text)[1]
        self.verify(root, text, pos, items, rec)
        rec.trace()

    def verify(self, root, text, pos, items, rec):
        top = [n for n in starts(root[0])]
        rec.step()
        rec.outcome(text)
        if len(top) != len(pos):
            raise core.Violation("wrong number of elements", "{}: {}".format(text, top))
        for n, (offset, p) in zip(top, pos):
            compare(n, p if p[1] else (p[0], None), offset, text)

    def comments(self, items, rec):
        """The same with a comment between all arguments."""
        for a, b in zip(items, items[1:]):
            if absorbs(a, b):
                return
        text, pos = self.expected(items)
        words = []

        def walk(p, offset):
            for a in p[1] or ():
                words.append(offset + a[0])
                walk(a, offset)
        for offset, p in pos:
            walk(p, offset)
        for w in words:
            com = "%{x%} "

            def shift(x):
                return x + (len(com) if x >= w else 0)

            def moved(p, offset):
                return (shift(offset + p[0]), None if p[1] is None else [moved(a, offset) for a in p[1]])
            t = text[:w] + com + text[w:]
            root = docs.parse(t)[1]
            try:
                self.verify(root, t, [(0, moved(p, o)) for o, p in pos], items, rec)
            except core.Violation:
                if not tokens_same(text, t):
                    continue        # the comment changes how the text is tokenized
                raise


def tokens_same(a, b):
    def f(x):
        return [t for t in docs.toks(x) if not t[0] in ("%{", "x", "%}") or "Comment" not in str(t[1])]
    return f(a) == f(b)


def absorbs(a, b):
    """True if an item can get the next item as another argument."""
    last = a
    while not isinstance(last[-1], str):
        last = last[-1]
    if b[0] == "\\alternative":
        return True
    return False


class Cut(core.Family):
    """Commands without all their arguments."""
    name = "incomplete"

    def cases(self, tier):
        for c in COMMANDS:
            for n in range(1, length(c)):
                if c[0] != "\\markup":      # reads the rest of the line
                    yield cut(c, n)

    def check(self, case, rec):
        t, p = join(case)
        for follow in ("\\break ", "| "):
            text = "{ " + t + follow + "}"
            root = docs.parse(text)[1]
            top = starts(root[0])
            rec.step()
            rec.outcome(text)
            if begin(top[-1]) != 2 + len(t):
                raise core.Violation("wrong arguments", "{}: {}".format(text, top))
            compare(top[0], p if p[1] else (0, None), 2, text)
            if len(top) != 2:
                raise core.Violation("wrong number of elements", "{}: {}".format(text, top))
        rec.trace()


def families():
    return [Abstract(), LilyPond(), Cut()]
