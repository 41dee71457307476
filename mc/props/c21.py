r"""C21: include commands are followed, terminate and find the right files."""

import itertools
import os
import shutil
import tempfile

from mc import core, docs
from quickly.dom import base, lily
from quickly.dom.scope import Scope
from quickly.time import Time

BOUNDS = {
    "quick": "graphs: three files, the first with all sequences up to length 3 of 10 items, the second up to length 2 of 7 items, the third up to length 2 of 4 items "
             "(definitions, references, includes of each file and of a missing one, header blocks with their own definitions and includes), every reference in every file in every include chain, "
             "with and without waiting for unfinished documents; paths: 3 include chains, 6 file names, all subsets of the candidate files, empty or not, all include paths out of 2 directories, 4 kinds of root url; "
             "files: all histories of 4 writes and deletions of two real files",
    "thorough": "graphs: the second and the third file up to length 3 of 7 and 5 items (the first up to length 2), all length 4 sequences for the first file with the others up to length 1; files: histories of 5 operations",
}
ASSUMPTIONS = [
    "an include of a file that is being included already is skipped (LilyPond would not terminate)",
    "urls are absolute; file names with #, ? or % are left out, and mixing file:// urls with plain filenames in one include cycle",
    "the values are music or numbers, references evaluate where they stand",
]

# item name -> list of primitives; @ is replaced with a unique number
ITEMS = {
    "A": [("inc", "a.ly")],
    "B": [("inc", "b.ly")],
    "C": [("inc", "c.ly")],
    "M": [("inc", "missing.ly")],
    "f": [("def", "foo", ["@"])],
    "g": [("def", "foo", ["baz", "@"])],
    "b": [("def", "baz", ["foo"])],
    "n": [("def", "baz", ["foo", "@"])],
    "r": [("ref", "foo")],
    "s": [("ref", "baz")],
    "h": [("begin",), ("def", "foo", 5), ("ref", "foo"), ("end",)],
    "i": [("begin",), ("inc", "b.ly"), ("def", "baz", ["foo", "@"]), ("end",)],
}
FIRST = "BCAMfgbrhi"
SECOND = "ACMfnrs"
THIRD = "Abfr"


def program(word, base):
    """The primitives of a file, with numbers filled in."""
    prog = []
    for i, w in enumerate(word):
        for p in ITEMS[w]:
            if p[0] == "def" and isinstance(p[2], list):
                p = ("def", p[1], [base << (2 * i) if x == "@" else x for x in p[2]])
            prog.append(p)
    return prog


def text_of(prog):
    """The text of a program."""
    out = []
    depth = 0
    for p in prog:
        if p[0] == "inc":
            out.append('\\include "{}"'.format(p[1]))
        elif p[0] == "begin":
            depth = 1
            out.append("\\header {")
        elif p[0] == "end":
            depth = 0
            out.append("}")
        elif p[0] == "ref":
            out.append(("xyz = \\{}" if depth else "\\{}").format(p[1]))
        elif isinstance(p[2], list):
            v = ["\\" + x if isinstance(x, str) else "c1*{}".format(x) for x in p[2]]
            out.append("{} = {}".format(p[1], v[0] if len(v) == 1 and v[0][0] == "\\" else "{ " + " ".join(v) + " }"))
        else:
            out.append("{} = {}".format(p[1], p[2]))
    return "\n".join(out) + "\n"


def interpret(progs, name, hidden=()):
    """Run the programs as if all includes were textually replaced.

    Returns {(chain, n): value} for the n-th reference in the file reached by
    the chain of include ordinals; a value is (chain, assignment index, length)
    or None.  Files in hidden are not available.

    """
    refs = {}

    def run(fname, chain, names, env):
        nref = nass = ninc = 0
        saved = []
        for p in progs[fname]:
            if p[0] == "inc":
                if p[1] in progs and p[1] not in names and p[1] not in hidden:
                    run(p[1], chain + (ninc,), names | {p[1]}, env)
                ninc += 1
            elif p[0] == "begin":
                saved.append(dict(env))
            elif p[0] == "end":
                env.clear()
                env.update(saved.pop())
            elif p[0] == "ref":
                refs[chain, nref] = env.get(p[1])
                nref += 1
                if saved:
                    v = env.get(p[1])
                    env["xyz"] = (chain, nass, v[2] if v else 0)
                    nass += 1
            else:
                total = 0
                if isinstance(p[2], list):
                    for x in p[2]:
                        if isinstance(x, str):
                            v = env.get(x)
                            refs[chain, nref] = v
                            nref += 1
                            total += v[2] if v else 0
                        else:
                            total += x
                env[p[1]] = (chain, nass, total)
                nass += 1
    run(name, (), {name}, {})
    return refs


class Unfinished:
    """A document that has no transformed result yet."""
    def __init__(self, doc):
        self.doc = doc
        self.url = doc.url

    def get_transform(self, wait=False):
        return self.doc.get_transform(True) if wait else None

    def __bool__(self):
        return True


class File:
    """A document, with its interesting nodes, cached."""
    cache = {}

    def __new__(cls, url, prog):
        key = url, str(prog)
        try:
            return cls.cache[key]
        except KeyError:
            pass
        self = super().__new__(cls)
        self.text = text_of(prog)
        self.doc = docs.document(self.text)
        self.doc.url = url
        self.dom = self.doc.get_transform(True)
        self.refs = list(self.dom // lily.IdentifierRef)
        self.incs = list(self.dom // lily.Include)
        self.values = [n.get_value() for n in self.dom // lily.Assignment]
        cls.cache[key] = self
        return self


def chain_of(scope, files):
    """The ordinals of the include commands that lead to a scope."""
    out = []
    while scope.parent:
        inc = files[scope.parent.document().url].incs
        out.append(next(i for i, n in enumerate(inc) if n is scope.node))
        scope = scope.parent
    return tuple(reversed(out))


def compare(refs, scope, chain, files, wait, length, where, rec):
    """Compare the references in the scope and in those it includes."""
    f = files[scope.document().url]
    for n, ref in enumerate(f.refs):
        expect = refs[chain, n]
        got = ref.get_value_with_scope(scope, wait)
        rec.step()
        value = ref.get_value(scope, wait)
        if (got is None) != (value is None) or got is not None and value is not got[0]:
            raise core.Violation("get_value and get_value_with_scope disagree", where())
        if (got is None) != (expect is None):
            raise core.Violation("definition not found" if got is None else "definition found that is not there",
                                 "{}: {} in {} via {}: {} should be {}".format(where(), ref, f.doc.url, chain, got, expect))
        if got is not None:
            node, sc = got
            g = files[sc.document().url]
            at = next((i for i, v in enumerate(g.values) if v is node), None)
            if (chain_of(sc, files), at) != expect[:2]:
                raise core.Violation("wrong definition found", "{}: {} in {} via {}: {} in {} should be {}".format(
                    where(), ref, f.doc.url, chain, node, sc, expect))
        if length:
            got = Time(scope, wait).length(ref)
            if got != (expect[2] if expect else 0):
                raise core.Violation("wrong length of the referred music", "{}: {} in {} via {}: {} should be {}".format(
                    where(), ref, f.doc.url, chain, got, expect))
    for n, inc in enumerate(f.incs):
        s = scope.include_scope(inc.filename, inc)
        known = any(k[0][:len(chain) + 1] == chain + (n,) for k in refs)
        if s is None:
            if known:
                raise core.Violation("file not found", "{}: {} via {}".format(where(), inc.filename, chain))
        elif known:
            if s.node is not inc or s.parent is not scope or s.factory is not scope.factory:
                raise core.Violation("scope attributes are wrong", where())
            compare(refs, s, chain + (n,), files, wait, length, where, rec)


def run_graph(words, rec):
    """Check one include graph."""
    progs = {n + ".ly": program(w, 1 << (8 * i)) for i, (n, w) in enumerate(zip("abc", words))}
    files = {}
    for name, prog in progs.items():
        url = "/p/" + name
        files[url] = File(url, prog)

    def where():
        return " / ".join("{}: {!r}".format(u, f.text) for u, f in files.items())

    def factory(filename):
        try:
            return files[filename].doc
        except KeyError:
            raise FileNotFoundError(filename) from None

    refs = interpret(progs, "a.ly")
    root = files["/p/a.ly"]
    compare(refs, Scope(root.doc, factory=factory), (), files, True, True, where, rec)

    # without scope, only the document itself
    alone = interpret({"a.ly": progs["a.ly"]}, "a.ly")
    for n, ref in enumerate(root.refs):
        got = ref.get_value_with_scope(None)
        expect = alone[(), n]
        at = None if got is None else next((i for i, v in enumerate(root.values) if v is got[0]), None)
        if (got is None) != (expect is None) or got is not None and (at != expect[1] or got[1] is not None):
            raise core.Violation("wrong value without scope", "{}: {}: {}".format(where(), ref, got))

    # with an unfinished document
    if "B" in words[0] or "i" in words[0]:
        unfinished = Unfinished(files["/p/b.ly"].doc)

        def factory2(filename):
            return unfinished if filename == "/p/b.ly" else factory(filename)

        for wait in (False, True):
            r = refs if wait else interpret(progs, "a.ly", ("b.ly",))
            scope = Scope(root.doc, factory=factory2)
            compare({k: v for k, v in r.items() if k[0] == ()}, scope, (), files, wait, True, where, rec)
    rec.state("{} {}".format(words, sorted(refs.items(), key=str)))


def reaches(words, target):
    """True if the file is reachable from the first."""
    seen, todo = set(), ["a"]
    while todo:
        n = todo.pop()
        if n not in seen:
            seen.add(n)
            w = words["abc".index(n)]
            todo.extend({"A": "a", "B": "b", "C": "c", "i": "b"}[x] for x in w if x in "ABCi")
    return target in seen


class Graphs(core.Family):
    name = "graphs"

    def cases(self, tier):
        if tier == "quick":
            for w in core.words(FIRST, 3, 0):
                yield ["".join(w), SECOND, 2, THIRD, 2 if len(w) < 3 else 1]
        else:
            for w in core.words(FIRST, 3, 0):
                if len(w) < 3:
                    for x in SECOND:
                        for y in SECOND:
                            yield ["".join(w), SECOND, 3, THIRD, 3, x + y]
                else:
                    yield ["".join(w), SECOND, 2, THIRD, 2]
            for w in core.words(FIRST, 4, 4):
                yield ["".join(w), SECOND, 1, THIRD, 1]

    def check(self, case, rec):
        first, ab, lb, ac, lc, *prefix = case
        for b in core.words(ab, lb, 0):
            b = "".join(b)
            if prefix and b[:2] != prefix[0] and (prefix[0] != SECOND[:1] * 2 or len(b) > 1):
                continue
            if b and not reaches((first, b, "B"), "b"):
                continue
            for c in core.words(ac, lc, 0):
                c = "".join(c)
                if c and not reaches((first, b, c), "c"):
                    continue
                run_graph((first, b, c), rec)
                rec.trace()


class Paths(core.Family):
    name = "paths"

    # root url, then the include chain (name, url of the file)
    CHAINS = [[], [("../s/b.ly", "s/b.ly")], [("../s/b.ly", "s/b.ly"), ("t/c.ly", "s/t/c.ly")]]
    NAMES = ["x.ly", "sub/x.ly", "../x.ly", "/abs/x.ly", "./x.ly", "x y.ly"]

    def cases(self, tier):
        for ci in range(len(self.CHAINS)):
            for name in self.NAMES:
                for rooturl in ("/p/r/a.ly", "file:///p/r/a.ly", "", None):
                    if ci and not rooturl:
                        continue
                    yield [ci, name, rooturl]

    def check(self, case, rec):
        ci, name, rooturl = case
        chain = self.CHAINS[ci]
        prefix = (rooturl or "")[:-len("/p/r/a.ly")]
        dirs = ["/p/r"] + [os.path.dirname("/p/" + u) for _, u in chain]
        for path in [[], ["/i1"], ["/i2/"], ["/i1", "/i2/"], ["/i2/", "/i1"], [prefix + "/i1", prefix + "/i2/"]]:
            for relative in (True, False):
                # the directories searched, in order
                search = []
                if rooturl:
                    if relative:
                        search.append(dirs[-1])
                    search.append("/p/r")
                search.extend(p[len(prefix):].rstrip("/") if prefix and p.startswith(prefix) else p.rstrip("/") for p in path)
                cand = [os.path.normpath(os.path.join(d, name)) for d in search]
                cand = list(dict.fromkeys(cand))
                others = [os.path.normpath(os.path.join(d, name)) for d in dirs + ["/p", "/i1", "/i2", "/"]]
                every = list(dict.fromkeys(cand + others))
                for n in range(len(every) + 1):
                    for sub in itertools.combinations(every, n):
                        if n > 3 and n < len(every) - 1:
                            continue
                        for empty in ((), sub[:1], sub) if sub else ((),):
                            self.one(chain, name, rooturl, path, relative, cand, sub, empty, prefix, rec)
        rec.trace()

    def one(self, chain, name, rooturl, path, relative, cand, exist, empty, prefix, rec):
        calls = []

        def factory(filename):
            calls.append(filename)
            if filename in store:
                return store[filename]
            raise FileNotFoundError(filename)

        store = {f: get_doc(prefix + f, "" if f in empty else "foo = 1") for f in exist}
        for _, u in chain:
            store["/p/" + u] = get_doc(prefix + "/p/" + u, "qux = 1")
        scope = Scope(get_doc(rooturl, "baz = 1"), factory=factory)
        scope.include_path.extend(path)
        for inc, u in chain:
            # found relative to the including file
            scope.relative_include = True
            s = scope.include_scope(inc)
            if s is None or s.document() is not store["/p/" + u]:
                raise core.Violation("chain not followed", repr((chain, inc)))
            scope.relative_include = relative
            if s.include_path != path or s.root() is not scope.root() or list(s.ancestors()) != [scope] + list(scope.ancestors()):
                raise core.Violation("scope does not inherit its settings", repr((chain, inc)))
            s.relative_include = relative
            scope = s
        if not chain:
            scope.relative_include = relative
        got = scope.include_scope(name, self)
        rec.step()
        expect = next((store[c] for c in cand if c in exist), None)
        where = "{} from {} via {}, path {}, relative {}, existing {}, empty {}".format(name, rooturl, chain, path, relative, exist, empty)
        if (got is None) != (expect is None):
            raise core.Violation("file not found" if got is None else "file found outside the search path", where)
        if got is not None:
            if got.document() is not expect:
                raise core.Violation("wrong file found", "{}: {} should be {}".format(where, got.document().url, expect.url))
            if got.node is not self or got.parent is not scope or got.relative_include != relative or got.include_path != path:
                raise core.Violation("scope does not inherit its settings", where)
        rec.state(where)


_docs = {}


def get_doc(url, text):
    """Return a cached document."""
    try:
        return _docs[url, text]
    except KeyError:
        d = _docs[url, text] = docs.document(text)
        d.url = url
        return d


class Files(core.Family):
    """The default factory, with real files that change."""
    name = "files"

    OPS = [(d, t) for d in ("p", "q") for t in ("foo = 1", "foo = 2 % longer", "", None)]

    def cases(self, tier):
        n = 4 if tier == "quick" else 5
        for a in range(len(self.OPS)):
            for b in range(len(self.OPS)):
                yield [a, b, n - 2]

    def check(self, case, rec):
        import quickly
        scratch = tempfile.mkdtemp(prefix="c21-")
        try:
            a, b, n = case
            for rest in itertools.product(range(len(self.OPS)), repeat=n):
                self.run([a, b, *rest], scratch, rec)
                rec.trace()
        finally:
            shutil.rmtree(scratch, ignore_errors=True)

    def run(self, ops, scratch, rec):
        state = {}
        for d in ("p", "q"):
            os.makedirs(os.path.join(scratch, d), exist_ok=True)
            if os.path.exists(os.path.join(scratch, d, "x.ly")):
                os.unlink(os.path.join(scratch, d, "x.ly"))
        root = get_doc(os.path.join(scratch, "p", "a.ly"), '\\include "x.ly"\n\\foo')
        ref = next(root.get_transform(True) // lily.IdentifierRef)
        scope = Scope(root)
        scope.include_path.append(os.path.join(scratch, "q"))
        for i, op in enumerate(ops):
            d, text = self.OPS[op]
            name = os.path.join(scratch, d, "x.ly")
            if text is None:
                if os.path.exists(name):
                    os.unlink(name)
            else:
                with open(name, "w") as f:
                    f.write(text)
                os.utime(name, (1000000 + i, 1000000 + i))
            state[d] = text
            text = state.get("p") if state.get("p") is not None else state.get("q")
            expect = None if not text else int(text.split()[2])
            got = ref.get_value(scope, True)
            rec.step()
            if (got.head if got is not None else None) != expect:
                raise core.Violation("wrong value after files changed", "{}: {} should be {}".format(
                    [self.OPS[o] for o in ops[:i + 1]], got, expect))
            rec.state(str(sorted(state.items())))


def families():
    return [Graphs(), Paths(), Files()]
