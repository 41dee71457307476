"""C30: values and constructor functions."""

import html
import html.parser
import itertools
from fractions import Fraction

from mc import core, docs
from quickly.dom import base, element, htm, lily, markup, read, scm, tex

BOUNDS = {
    "quick": "Scheme: all values of 24 atoms, and lists and pairs of them to length 3 and nesting depth 2 (of 8 atoms), with every quote; LilyPond: 40 values with all units in 4 places; "
             "HTML: all elements with up to 2 of 8 attributes and up to 3 of 11 contents, nested to depth 2; LaTeX: environments with up to 3 of 6 contents; read functions: all LilyPond, Scheme, HTML and LaTeX items and pairs of them",
    "thorough": "Scheme nesting depth 3, HTML up to 3 attributes and 4 contents",
}
ASSUMPTIONS = [
    "negative numbers are only written in Scheme (parce does not read them elsewhere)",
    "strings in Scheme without control characters (see the known findings of C04)",
]

ATOMS = [True, False, 0, 1, -3, 100000000000000000000, 1.5, -0.25, 0.1, 1e30, 1e-9, float("inf"), float("-inf"), Fraction(1, 3), Fraction(-22, 7),
         "", "a", "a b", "a\"b", "a\\b", "é", "(", "#t", "1"]
FEW = [True, 2, -1.5, Fraction(2, 3), "a\"\\", "", [], 0]


def scheme_values(deep):
    for a in ATOMS:
        yield a
    level = FEW
    for depth in range(3 if deep else 2):
        new = []
        for w in core.words(level if depth == 0 else [*FEW[:3], *level[-5:], level[0:2], tuple(level[1:3])], 3):
            new.append(list(w))
            if len(w) > 1:
                new.append(tuple(w))
        yield from new
        level = new


def value(node):
    """The value of a Scheme node read from text, from the characters."""
    if isinstance(node, scm.List):
        items = list(node)
        if any(isinstance(n, scm.Dot) for n in items):
            if [isinstance(n, scm.Dot) for n in items].index(True) != len(items) - 2:
                return "misplaced dot"
            return tuple(value(n) for n in items if not isinstance(n, scm.Dot))
        return [value(n) for n in items]
    if isinstance(node, scm.Quote):
        return [node.head] + [value(n) for n in node]
    text = node.write()
    if text in ("#t", "#f"):
        return text == "#t"
    if isinstance(node, scm.String):
        out, chars = [], iter(text[1:-1])
        for c in chars:
            out.append(next(chars) if c == "\\" else c)
        return "".join(out)
    if text in ("+inf.0", "-inf.0"):
        return float(text[:4])
    if "/" in text:
        return Fraction(text)
    try:
        return int(text)
    except ValueError:
        return float(text)


def same(a, b):
    return type(a) is type(b) and (len(a) == len(b) and all(map(same, a, b)) if isinstance(a, (list, tuple)) else a == b)


class Scheme(core.Family):
    """Values in Scheme."""
    name = "scheme"

    def cases(self, tier):
        for i, v in enumerate(scheme_values(tier == "thorough")):
            yield [i, repr(v)]

    def check(self, case, rec):
        v = eval(case[1], {"Fraction": Fraction, "inf": float("inf")})
        for how, q in (("s", None), ("q", "'"), ("qq", "`"), ("uq", ",")):
            node = getattr(scm, how)(v)
            want = v if q is None else [q, v]
            self.compare(node, want, rec)
        if isinstance(v, tuple):
            self.compare(scm.p(*v), v, rec)
        node = scm.create_element_from_value(v)
        if scm.s(node) is not node:
            raise core.Violation("an element is not returned unchanged", repr(v))
        self.compare(node, v, rec)

    def compare(self, node, want, rec):
        rec.step()
        text = node.write()
        rec.state(text)
        for prefix, lang in (("", "scheme"), ("x = #", "lilypond")):
            dom = docs.parse(prefix + text, lang)[1]
            again = list(dom) if lang == "scheme" else list(next(dom // lily.Scheme))
            if len(again) != 1 or docs.shape(again[0]) != docs.shape(node):
                raise core.Violation("a Scheme value is read back different", "{!r} is written as {!r}, {}".format(want, text, again))
            got = value(again[0])
            if not same(got, want):
                raise core.Violation("wrong Scheme value", "{!r} is written as {!r}, which is {!r}".format(want, text, got))
            if lang == "lilypond":
                self.getters(next(dom // lily.Scheme), want)
            rec.trace()

    def getters(self, node, v):
        """The values of a Scheme expression; Python says a bool is an int."""
        simple = isinstance(v, (bool, int, float, str, Fraction))
        num = simple and not isinstance(v, (bool, str))
        whole = num and v not in (float("inf"), float("-inf")) and v == int(v) and not isinstance(v, Fraction)
        if isinstance(v, bool):
            num, whole = True, True
        for f, want in ((lily.create_value_from_element, v if simple else None), (lily.get_num_value, v if num else None),
                        (lily.get_int_value, int(v) if whole else None)):
            got = f(node)
            if not (got is None and want is None or (got == want if isinstance(v, bool) else same(got, want))):
                raise core.Violation("wrong value of a Scheme expression", "{}: {!r} gives {!r}, should be {!r}".format(f.__name__, node.write(), got, want))


class LilyPond(core.Family):
    """Values in LilyPond."""
    name = "lilypond"

    VALUES = [True, False, 0, 1, 2, 7, 12345678901234567890, 0.5, 1.0, 2.25, 100.0, 0.1, 1234567.125, "", "a", "a b", "a\"b", "a\\b", "é", "1", "#t", "\\x", "%"]
    PLACES = ["x = %s", "\\paper { indent = %s }", "\\layout { indent = %s }", "\\header { title = %s }"]

    def cases(self, tier):
        for v in self.VALUES:
            units = [None, "mm", "cm", "in", "pt"] if isinstance(v, (int, float)) and not isinstance(v, bool) else [None]
            for u in units:
                for p in range(len(self.PLACES)):
                    if not (p == 3 and u):
                        yield [repr(v), u, p]

    def check(self, case, rec):
        v, unit, place = eval(case[0]), case[1], self.PLACES[case[2]]
        v = (v, unit) if unit else v
        node = lily.create_element_from_value(v)
        if lily.create_element_from_value(node) is not node:
            raise core.Violation("an element is not returned unchanged", repr(v))
        text = place % node.write()
        dom = docs.parse(text)[1]
        again = next(dom // lily.Assignment)[-1]
        for n in node, again:
            got = lily.create_value_from_element(n)
            rec.step()
            if not same(got, v):
                raise core.Violation("a value does not come back", "{!r} in {!r} gives {!r}".format(v, text, got))
            number = v[0] if unit else v
            if isinstance(number, bool):
                continue
            num = not isinstance(number, str)
            for f, want in ((lily.get_num_value, number if num else None), (lily.get_int_value, int(number) if num and number == int(number) else None)):
                got = f(n)
                rec.step()
                if not (got is None and want is None or same(got, want)):
                    raise core.Violation("wrong number", "{} of {!r}: {!r}".format(f.__name__, text, got))
        if docs.shape(again) != docs.shape(node):
            raise core.Violation("an element is read back different", "{!r}: {!r}".format(v, text))
        rec.trace()
        rec.state(text)


class Refused(core.Family):
    """Values that have no element."""
    name = "refused"

    def cases(self, tier):
        for v in ["None", "b'a'", "object()", "(1, 'km')", "('a', 'mm')", "(1, 'mm', 2)", "{}", "[1]"]:
            yield [v]

    def check(self, case, rec):
        v = eval(case[0])
        rec.step()
        rec.trace()
        rec.outcome(case[0])
        try:
            node = lily.create_element_from_value(v)
        except ValueError:
            return
        raise core.Violation("no ValueError", "{}: {!r}".format(case[0], node))


class Events(html.parser.HTMLParser):
    """The meaning of HTML text, by the Python standard library."""
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.events = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        self.events.append(("start", tag, attrs))

    def handle_endtag(self, tag):
        self.events.append(("end", tag))

    def handle_startendtag(self, tag, attrs):
        self.events.append(("single", tag, attrs))

    def handle_data(self, data):
        if self.events and self.events[-1][0] == "data":
            data = self.events.pop()[1] + data
        self.events.append(("data", data))


class Html(core.Family):
    """Elements made with the htm.m constructor."""
    name = "html"

    ATTRS = [("id", "x"), ("title", "a b"), ("alt", ""), ("checked", None), ("x", "a\"b"), ("y", "it's"), ("z:z", "<&>"), ("href", "a?b=c&lt=1")]
    TEXTS = ["a", " b ", "<", "&", "&amp;", "\"'", "é", "a\nb"]
    SPECIAL = [["entity", "amp"], ["entity", "#65"], ["entity", "#x42"]]
    TAGS = ["p", "x:y"]

    def cases(self, tier):
        deep = tier == "thorough"
        leaves = self.TEXTS + self.SPECIAL
        inner = [["b", [], ["a"]], ["i", [0], []], ["b", [4], ["<"]], ["u", [], [["entity", "amp"], ["i", [], [["entity", "#65"], "x"]]]]]
        for attrs in itertools.chain.from_iterable(itertools.permutations(range(8), n) for n in range(4 if deep else 3)):
            for w in core.words(["a", "<", ["entity", "amp"], inner[0]], 1):
                for tag in self.TAGS:
                    yield [tag, attrs, w]
        for w in core.words(leaves + inner, 4 if deep else 3):
            yield ["p", [], w]
        for w in core.words(["a", "&", inner[1]], 2):
            for w2 in core.words(["a", ["entity", "#65"], ["u", [1], list(w)]], 3 if deep else 2):
                yield ["p", [3], w2]

    def build(self, spec):
        """The element, the expected events and plain text."""
        if isinstance(spec, str):
            return spec, [("data", spec)], spec
        if spec[0] == "entity":
            t = html.unescape("&{};".format(spec[1]))
            return htm.EntityRef(spec[1]), [("data", t)], t
        tag, attrs, contents = spec
        attrs = [self.ATTRS[i] for i in attrs]
        parts = [self.build(c) for c in contents]
        node = (getattr(htm.m, tag) if tag.isalpha() else (lambda *a, **k: htm.m(tag, *a, **k)))(*(p[0] for p in parts), **dict(attrs))
        if not contents:
            return node, [("single", tag, attrs)], ""
        events = [("start", tag, attrs)]
        for p in parts:
            for e in p[1]:
                if e[0] == "data" == events[-1][0]:
                    e = "data", events.pop()[1] + e[1]
                events.append(e)
        events.append(("end", tag))
        return node, events, "".join(p[2] for p in parts)

    def check(self, case, rec):
        node, events, plain = self.build(case)
        rec.step()
        text = node.write()
        rec.state(text)
        got = Events(text).events
        if got != events:
            raise core.Violation("wrong HTML", "{} is written as {!r}: {}, should be {}".format(case, text, got, events))
        rec.trace()
        dom = docs.parse(text, "html")[1]
        if len(dom) != 1:
            raise core.Violation("HTML is read back different", "{!r}: {}".format(text, list(dom)))
        for n in node, dom[0]:
            if n.to_plaintext() != plain:
                raise core.Violation("wrong plain text", "{!r}: {!r}, should be {!r}".format(text, n.to_plaintext(), plain))
        # only the entities that were given as such
        if Events(dom.write()).events != events:
            raise core.Violation("HTML written again is different", "{!r} {!r}".format(text, dom.write()))

        class Seen(list):
            def __call__(self, name):
                self.append(name)
                return {"amp": "[and]", "#65": htm.m.b("bold")}.get(name) or html.unescape("&{};".format(name))
        seen = Seen()
        result = node.to_plaintext(seen)

        def resolved(spec):
            if isinstance(spec, str):
                return spec
            if spec[0] == "entity":
                return {"amp": "[and]", "#65": "bold"}.get(spec[1]) or html.unescape("&{};".format(spec[1]))
            return "".join(map(resolved, spec[2]))
        if result != resolved(case):
            raise core.Violation("wrong plain text with a resolver", "{!r}: {!r}".format(text, result))
        rec.trace()


class Latex(core.Family):
    """Environments."""
    name = "latex"

    def cases(self, tier):
        for name in ("a", "lilypond", "verbatim*", "x1"):
            for w in core.words(["text", "two words", "$m$", "cmd", "env", "brace"], 3):
                yield [name, w]

    def check(self, case, rec):
        name, w = case

        def make(x):
            if x == "cmd":
                return tex.Command("foo", tex.Brace(tex.Text("q")))
            if x == "env":
                return tex.Environment.with_name("inner", tex.Text("z"))
            if x == "brace":
                return tex.Brace(tex.Text("b"))
            if x == "$m$":
                return tex.MathInlineDollar(tex.Text("m"))
            return tex.Text(x)
        if name in ("lilypond", "verbatim*") and w:
            w = ["text"]
        children = [make(x) for x in w]
        node = tex.Environment.with_name(name, *children)
        rec.step()
        text = node.write()
        rec.state(text)
        if not text.startswith("\\begin{%s}" % name) or not text.endswith("\\end{%s}" % name) or text.count("\\begin") != 1 + w.count("env"):
            raise core.Violation("wrong environment", "{}: {!r}".format(case, text))
        if any(a is not b for a, b in zip(list(node)[1:-1], children)) or len(node) != len(children) + 2:
            raise core.Violation("wrong contents", "{}: {}".format(case, list(node)))
        rec.trace()
        if name in ("lilypond", "verbatim*"):
            return
        dom = docs.parse(text, "latex")[1]
        if len(dom) != 1 or not isinstance(dom[0], tex.Environment):
            raise core.Violation("an environment is read back different", "{!r} {}".format(text, list(dom)))

        def plain(n):
            if isinstance(n, tex.Text):
                return [("text", n.head)] if n.head.strip() else []
            return [type(n).__name__, *itertools.chain.from_iterable(map(plain, n)), "end"]

        def merged(items):
            out = []
            for i in items:
                if isinstance(i, tuple):
                    t = "".join(i[1].split())
                    if out and isinstance(out[-1], tuple):
                        out[-1] = "text", out[-1][1] + t
                    else:
                        out.append(("text", t))
                else:
                    out.append(i)
            return out
        if merged(plain(node)) != merged(plain(dom[0])):
            raise core.Violation("an environment is read back different", "{!r} {} {}".format(text, merged(plain(node)), merged(plain(dom[0]))))
        rec.trace()


class Read(core.Family):
    """The read functions."""
    name = "read"

    def cases(self, tier):
        for lang, items, form in (("lilypond", docs.MUSIC, "{ %s }"), ("lilypond", docs.TOPLEVEL, "%s"), ("scheme", docs.SCHEME, "%s"),
                                  ("html", docs.HTML, "%s"), ("latex", docs.LATEX, "%s")):
            for w in core.words(items, 1 if lang == "lilypond" and tier != "thorough" else 2):
                yield lang, form % " ".join(w)

    FUNC = {
        "lilypond": (read.lily_document, read.lily), "scheme": (read.scm_document, read.scm),
        "html": (read.htm_document, read.htm), "latex": (read.tex_document, read.tex),
    }

    def check(self, case, rec):
        lang, text = case
        want = docs.parse(text, lang)[1]
        document, one = self.FUNC[lang]
        for origin in False, True, None:
            dom = document(text) if origin is None else document(text, origin)
            rec.step()
            if want is None or dom is None:
                if want is not dom:
                    raise core.Violation("read function reads something else", "{} {!r} {}".format(document.__name__, text, dom))
                continue
            if docs.shape(dom) != docs.shape(want):
                raise core.Violation("read function reads something else", "{} {!r}".format(document.__name__, text))
            if not docs.links_ok(dom):
                raise core.Violation("wrong parent", "{} {!r}".format(document.__name__, text))
            o = list(docs.origins(dom))
            if [(t.pos, t.text) for t in o] != ([(t.pos, t.text) for t in docs.origins(want)] if origin else []):
                raise core.Violation("wrong origin tokens", "{} {} {!r}".format(document.__name__, origin, text))
            first = one(text) if origin is None else one(text, origin)
            if (first is None) != (len(want) == 0) or first is not None and docs.shape(first) != docs.shape(want[0]):
                raise core.Violation("read function returns another element", "{} {!r} {}".format(one.__name__, text, first))
            if first is not None and bool(list(docs.origins(first))) != bool(origin and list(docs.origins(want[0]))):
                raise core.Violation("wrong origin tokens", "{} {} {!r}".format(one.__name__, origin, text))
            rec.trace()
        rec.state(docs.shape(want) if want is not None else None)


def families():
    return [Scheme(), LilyPond(), Refused(), Html(), Latex(), Read()]
