r"""C19: element properties: set, delete, read back, write, read again."""

import itertools
from fractions import Fraction as F

from mc import core, docs
from quickly.dom import base, element, lily, markup

BOUNDS = {
    "quick": "all sequences of 3 assignments/deletions out of 24 (pitch and duration properties) on notes and pitched rests with 12 initial texts, and out of 10 on 24 other elements with a duration; sequences of 2 on version, language, include and document version; "
             "all pairs of grob direction, style and toggle values in both orders; all constructor keyword combinations in every order; all pairs and triples of 10 name parts in every construct that has a name; all strings up to length 4 of 8 characters as string contents; all markup factories with several arguments",
    "thorough": "sequences of 4 (on every third note text, 3 on the others) resp. 4 and 3; strings up to length 5; quadruples of name parts",
}
ASSUMPTIONS = ["float values are compared after limiting the denominator, as documented"]


def frac(v):
    return None if v is None else F(v).limit_denominator()


# properties with their values; a missing value means: delete
D = object()
PITCH_OPS = [("octave", v) for v in (0, 2, -1, D)] + [("accidental", v) for v in (None, "cautionary", "forced", D)] \
    + [("oct_check", v) for v in (None, 0, -2, D)] + [("head", v) for v in ("d", "fis")]
DUR_OPS = [("duration", v) for v in (None, F(1, 4), 0.375, 2, D)] + [("scaling", v) for v in (None, 1, 2, 1/3, D)] \
    + [("duration_scaling", v) for v in ((F(1, 8), F(2, 3)), (F(1, 2), 1), None, D)]

NOTES = ["c", "c'", "c'!", "c?", "c=''", "c,,=4-.", "c4.*2", "c'8*1/3*2^\"x\"", "c%{x%}'4", "c\\rest", "c'4\\rest", "c4*2\\rest-."]
OTHERS = [
    ("{ # }", ["r", "r4*2", "R1", "s2", "<c e>", "<c e>4-.", "q8", "\\skip 4*2", "c4 8*2", "\\tempo \"x\" 4 = 60", "\\partial 4", "\\tuplet 3/2 { c }", "\\tuplet 3/2 8 { c }", "\\after 4 \\f c", "<>-.", "<c>4*1/2*3"]),
    ("\\lyricmode { # }", ["hoi", "hoi4", "\\markup x", "\\markup x 4*2", "\"wil\"2", "_", "_8"]),
    ("\\drummode { # }", ["bd", "sn4", "<bd sn>4"]),
    ("\\chordmode { # }", ["c:7", "c4:7", "e/g"]),
]


def target(root, index=0):
    """The element under test: the first one that has a duration."""
    todo = [n for n in root.descendants() if isinstance(n, lily.HandleDuration) and not isinstance(n.parent, lily.ChordBody)]
    return todo[index]


def props(node):
    """All the properties."""
    res = {"duration": node.duration, "scaling": node.scaling}
    if isinstance(node, lily.Pitchable):
        res.update(octave=node.octave, accidental=node.accidental, oct_check=node.oct_check, head=node.head)
    elif hasattr(node, "head"):
        res["head"] = node.head
    ds = node.duration_scaling
    want = None if res["duration"] is None else (res["duration"], res["scaling"])
    if (ds and tuple(ds)) != want:
        raise core.Violation("duration_scaling differs from duration and scaling", "{}: {} and {}".format(node, ds, want))
    return {k: frac(v) if k in ("duration", "scaling") else v for k, v in res.items()}


OWN = (lily.Octave, lily.Accidental, lily.OctCheck, lily.Duration)


def rest(node):
    """All other children."""
    return [docs.shape(n) for n in node if not isinstance(n, OWN) and not isinstance(n, base.Comment)]


def apply(node, model, name, value):
    """Perform the assignment and update the model."""
    if name == "scaling" and model["duration"] is None and value not in (None, 1, D):
        try:
            setattr(node, name, value)
        except ValueError:
            return False
        raise core.Violation("setting scaling without duration is not an error", repr(node))
    if value is D:
        delattr(node, name)
        value = 0 if name == "octave" else None
    else:
        setattr(node, name, value)
    if name == "duration":
        value = frac(value)
        if value is None:
            model["scaling"] = None
        elif model["duration"] is None:
            model["scaling"] = F(1)
        model["duration"] = value
    elif name == "scaling":
        if model["duration"] is not None:
            model["scaling"] = frac(1 if value is None else value)
    elif name == "duration_scaling":
        model["duration"], model["scaling"] = map(frac, value or (None, None))
    else:
        model[name] = value


def around(root, node):
    """Everything except the node."""
    def walk(n):
        if n is node:
            return "*"
        if isinstance(n, base.Comment):
            return ""    # may move when it is after the last child
        return (type(n).__name__, getattr(n, "head", None), tuple(filter(None, map(walk, n))))
    return walk(root)


class Histories(core.Family):
    """Assignments on elements in music, read back and after writing."""
    name = "histories"

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        ops = range(len(PITCH_OPS + DUR_OPS))
        for text in NOTES:
            for first in ops:
                yield ["{ # }", text, first, n if text in NOTES[::3] else 3]
        ops = range(len(PITCH_OPS), len(PITCH_OPS + DUR_OPS))
        for template, items in OTHERS:
            for text in items:
                for first in ops:
                        yield [template, text, first, n]

    def check(self, case, rec):
        template, text, first, depth = case
        text = template.replace("#", text)
        root0 = docs.parse(text)[1]
        index = 1 if "c4 8" in text else 0
        pitch = isinstance(target(root0, index), lily.Pitchable)
        ops = PITCH_OPS + DUR_OPS if pitch else DUR_OPS
        first -= 0 if pitch else len(PITCH_OPS)
        for n in range(depth):
            for seq in itertools.product(ops, repeat=n):
                self.run(text, root0, index, [ops[first] if pitch else DUR_OPS[first]] + list(seq), rec)
        rec.trace()

    def run(self, text, root0, index, seq, rec):
        root = root0.copy()
        node = target(root, index)
        model = props(node)
        other = rest(node)
        outside = around(root, node)
        required = node.duration_required
        def where():
            return "{!r} after {}: {!r}".format(text, [(a, "del" if b is D else b) for a, b in seq], root.write())
        for name, value in seq:
            if name not in model and name != "duration_scaling":
                return
            apply(node, model, name, value)
            rec.step()
        if props(node) != model:
            raise core.Violation("property does not read back", "{}: {} should be {}".format(where(), props(node), model))
        if model.get("octave") == 0 and any(node / lily.Octave):
            raise core.Violation("octave is not removed", where())
        if model.get("accidental", 1) is None and any(node / lily.Accidental):
            raise core.Violation("accidental is not removed", where())
        if rest(node) != other or around(root, node) != outside:
            raise core.Violation("something else changed", where())
        if model["duration"] is None and (required or "\\skip" in text or "c4 8" in text or "partial" in text or "after" in text or "_" in text):
            return    # not valid without duration
        if "tempo" in text and model["duration"] is None or "tempo" in text and model["scaling"] != 1:
            return
        if model["duration"] is not None and "tuplet" in text and model["scaling"] is None:
            return
        again = docs.parse(root.write())[1]
        node1 = target(again, index)
        if props(node1) != model:
            raise core.Violation("property is different after reading back", "{}: {} should be {}".format(where(), props(node1), model))
        if rest(node1) != other or around(again, node1) != outside:
            raise core.Violation("something else changed after reading back", where())
        rec.state((text, tuple(sorted((k, str(v)) for k, v in model.items()))))
        rec.outcome(root.write())


class Constructor(core.Family):
    """Keyword arguments to the constructor, in any order."""
    name = "constructor"

    def cases(self, tier):
        keys = {"octave": (0, 1, -2), "accidental": ("forced", None), "oct_check": (0, 2), "duration": (F(1, 4), 0.75)}
        for n in range(len(keys) + 1):
            for names in itertools.permutations(keys, n):
                for values in itertools.product(*(keys[k] for k in names)):
                    yield [list(names), [str(v) if isinstance(v, F) else v for v in values]]

    def check(self, case, rec):
        names, values = case
        kw = {k: F(v) if k == "duration" else v for k, v in zip(names, values)}
        for make in (lily.Note, lily.PitchedRest):
            n = make("g", **kw)
            p = props(n)
            model = {"octave": 0, "accidental": None, "oct_check": None, "duration": None, "head": "g"}
            model.update((k, frac(v) if k == "duration" else v) for k, v in kw.items())
            model["scaling"] = None if model["duration"] is None else 1
            if p != model:
                raise core.Violation("constructor argument does not read back", "{}: {}".format(kw, p))
            n1 = target(docs.parse("{ " + n.write() + " }")[1])
            # (\rest is an articulation that is not written automatically)
            if props(n1) != model:
                raise core.Violation("constructor argument is different after reading back", "{}: {!r}: {} {}".format(kw, n.write(), n1, props(n1)))
            rec.step()
        rec.trace()
        rec.state(n.write())


class Simple(core.Family):
    """Properties of other elements."""
    name = "simple"

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        strings = ["nederlands", "english.ly", "english", "a b.ily", "\"x\\y\"", ""]
        for text in ("\\version \"2.24.0\"", "\\version \"2.24\" %{ x %}", "%x\n\\version \"1.2.3\" { c }"):
            for seq in itertools.product([(2, 22, 1), (2, 25), (3,)], repeat=n - 1):
                yield ["version", text, [list(s) for s in seq]]
        for text in ("\\language \"english\"", "\\language %{x%} \"deutsch\" { c }"):
            for seq in itertools.product(strings, repeat=n - 1):
                yield ["language", text, list(seq)]
        for text in ("\\include \"english.ly\"", "\\include %{x%} \"x.ly\" { c }"):
            for seq in itertools.product([[a, s] for s in strings for a in ("filename", "language")], repeat=n - 1):
                yield ["include", text, [list(s) for s in seq]]
        for text in ("{ c }", "\\version \"2.0.0\" { c }", "\\score { \\version \"2.2.2\" c }", ""):
            for seq in itertools.product([(2, 22, 1), (2, 25)], repeat=n - 1):
                yield ["document", text, [list(s) for s in seq]]

    def check(self, case, rec):
        kind, text, seq = case
        root = docs.parse(text)[1]
        cls = {"version": lily.Version, "language": lily.Language, "include": lily.Include}.get(kind)

        def find(root):
            return root if cls is None else next(root // cls)
        def blank(root):
            return [(type(n).__name__, n.write() if not isinstance(n, (lily.String, lily.Version, lily.Language, lily.Include, lily.Document, lily.Score)) else "") for n in root.descendants()]
        old = blank(root)
        added = cls is None and not any(root // lily.Version)
        for value in seq:
            for d in (root, None):
                node = find(d) if d is not None else find(docs.parse(root.write())[1])
                if kind in ("version", "document"):
                    if d is not None:
                        node.version = tuple(value)
                    ok = node.version == tuple(value)
                elif kind == "language":
                    if d is not None:
                        node.language = value
                    ok = node.language == value
                else:
                    attr, v = value
                    if d is not None:
                        setattr(node, attr, v)
                    fn = v if attr == "filename" else v + ".ly"
                    lang = fn[:-3] if fn in ("nederlands.ly", "english.ly") else None
                    ok = node.filename == fn and node.language == lang
                rec.step()
                if not ok:
                    raise core.Violation("property does not read back", "{!r}: {} {!r}: {}".format(text, value, root.write(), node))
            new = blank(root)
            if added:
                new = new[2:]
            if new != old:
                raise core.Violation("something else changed", "{!r}: {} {!r}".format(text, value, root.write()))
        rec.trace()
        rec.state((kind, root.write()))


class Mapping(core.Family):
    """Grob direction, style and toggles: every value to every other."""
    name = "mapping"

    def cases(self, tier):
        for cls, attrs in (("GrobDirection", ("grob", "direction")), ("GrobStyle", ("grob", "style")), ("Toggle", ("prop", "value"))):
            for text in getattr(lily, cls).mapping:
                yield [cls, list(attrs), text]

    def check(self, case, rec):
        name, (a1, a2), text = case
        cls = getattr(lily, name)

        def known(text):
            """Some toggles are read as another element."""
            return any(docs.parse("{ " + text + " c }")[1] // cls)
        if cls.from_mapping(text).write() != text:
            raise core.Violation("from_mapping() writes something else", "{}: {!r}".format(text, cls.from_mapping(text).write()))
        if name != "Toggle":
            # the values that every grob supports
            want = {}
            for g, v in cls.mapping.values():
                want.setdefault(g, set()).add(v)
            if {g: set(v) for g, v in cls.grobs.items()} != want or any(len(v) != len(set(v)) for v in cls.grobs.values()):
                raise core.Violation("wrong supported values", "{}.grobs: {}".format(name, cls.grobs))
            for g, vals in cls.grobs.items():
                for v in vals:
                    node = cls((g, v))
                    if cls.mapping.get(node.write()) != (g, v):
                        raise core.Violation("supported value is not written", "{} {}: {!r}".format(g, v, node.write()))
        if not known(text):
            return
        for other in filter(known, cls.mapping):
            root = docs.parse("{ " + text + " c }")[1]
            node = next(root // cls)
            grob, value = cls.mapping[other]
            g0, v0 = cls.mapping[text]
            if (getattr(node, a1), getattr(node, a2)) != (g0, v0):
                raise core.Violation("property reads wrong", "{}: {}".format(text, node))
            # one property at a time if it exists, and then back
            for order in ((a1, a2), (a2, a1)):
                vals = {a1: grob, a2: value}
                mid = (grob, v0) if order[0] == a1 else (g0, value)
                if not any(v == mid and known(t) for t, v in cls.mapping.items()):
                    continue
                root = docs.parse("{ " + text + " c }")[1]
                node = next(root // cls)
                for k, attr in enumerate(order):
                    setattr(node, attr, vals[attr])
                    rec.step()
                    want = mid if k == 0 else (grob, value)
                    for n in (node, next(docs.parse(root.write())[1] // cls)):
                        if (getattr(n, a1), getattr(n, a2)) != want:
                            raise core.Violation("property does not read back", "{} to {}: {!r}".format(text, other, root.write()))
                if root.write() != "{ " + other + " c }":
                    raise core.Violation("wrong text", "{} to {}: {!r}".format(text, other, root.write()))
        rec.trace()
        rec.state(text)


PARTS = ["music", "my var", "cis", "violin-one", "x1", "a\"b", "back\\slash", "_x", "1abc", "naïve", "c", "", "x_y", "X", "a.b", "tab\tx"]
INTS = [1, 20]


class Names(core.Family):
    """Names of variables: identifiers, references and assignments."""
    name = "names"

    def cases(self, tier):
        for p in PARTS:
            yield [p]
        n = 3 if tier == "quick" else 4
        for k in range(1, n):
            for first in PARTS[:10]:
                for more in itertools.product(PARTS[:9] + INTS, repeat=k):
                    if any(isinstance(a, int) and isinstance(b, int) for a, b in zip(more, more[1:])):
                        continue    # 1.1 is a decimal number for the parser
                    if k < 3 or first == PARTS[0]:
                        yield [first] + list(more)

    def check(self, parts, rec):
        # one part is the same as the plain string
        for name in (parts[0],) if len(parts) == 1 else (tuple(parts),):
            want = name
            for how in ("with_name", "set_name", "set_name twice"):
                # reference
                if how == "with_name":
                    ref, ident = lily.IdentifierRef.with_name(name), lily.Identifier.with_name(name)
                else:
                    ref, ident = lily.IdentifierRef("yy"), lily.Identifier(lily.Symbol("yy"))
                    if how == "set_name twice":
                        ref.set_name(("a b", 2, "x")), ident.set_name(("a b", 2, "x"))
                    ref.set_name(name), ident.set_name(name)
                rec.step(2)
                asg = lily.Assignment(ident, lily.EqualSign(), lily.Int(3))
                doc = lily.Document(lily.Assignment.with_name(name, lily.Int(3)), asg, lily.MusicList(ref))
                where = "{} {!r}: {!r}".format(how, name, doc.write())
                if ref.get_name() != want or ident.get_name() != want or asg.get_name() != want or doc[0].get_name() != want:
                    raise core.Violation("name does not read back", "{}: {} {} {}".format(where, ref.get_name(), ident.get_name(), doc[0].get_name()))
                again = docs.parse(doc.write())[1]
                a = [n.get_name() for n in again / lily.Assignment]
                r = [n.get_name() for n in again // lily.IdentifierRef]
                if a != [want] * 2 or r != [want]:
                    raise core.Violation("name is different after reading back", "{}: {} {}".format(where, a, r))
        rec.trace()
        rec.state(tuple(parts))


class Strings(core.Family):
    """String contents."""
    name = "strings"
    CHARS = ["a", "\"", "\\", " ", "\n", "'", "é", "%"]

    def cases(self, tier):
        for w in core.words(self.CHARS, 4 if tier == "quick" else 5, 0):
            yield "".join(w)

    def check(self, s, rec):
        for template, find in (
                ("x = \"o\"", lambda d: next(d // lily.String)),
                ("{ c^\"o\" }", lambda d: next(d // lily.String)),
                ("\\markup { \"o\" }", lambda d: next(d // lily.String)),
                ("x = #\"o\"", lambda d: next(d // (docs_scm().String))),
                ):
            root = docs.parse(template)[1]
            node = find(root)
            node.head = s
            rec.step()
            again = docs.parse(root.write())[1]
            if node.head != s or find(again).head != s or len(list(again.descendants())) != len(list(root.descendants())):
                raise core.Violation("string does not read back", "{!r}: {!r}".format(s, root.write()))
        rec.trace()
        rec.state(s)


def docs_scm():
    from quickly.dom import scm
    return scm


VALUES = {
    "duration": ["4..", lambda: lily.MarkupList(lily.MarkupWord("8"))], "direction": [1, -1.5], "prop": ["font-size"], "value": [1, True, "x"],
    "label": ["lab"], "url": ["http://x.org"], "instrument": ["flute"], "scheme_commands": [lambda: lily.Scheme("#", docs_scm().Quote("'", docs_scm().List(docs_scm().Identifier("a"))))],
    "name": ["title"], "s": ["x y", "a\"b"], "filename": ["x.eps"], "text": ["x"], "n": [10, 255],
    "element": [lambda: lily.Scheme("#", docs_scm().Quote("'", docs_scm().List(docs_scm().Identifier("a"))))],
}
NUMBERS = [1, -2, 0.5]
STRINGS = ["x", "a b", "", "\\", "{", "4", "\"", "%", "é"]


class Factories(core.Family):
    """All the markup factory functions make the command with their name and arguments."""
    name = "markup"

    SKIP = ("main", "is_markup",
        "fill_with_pattern")        # can't be read back: parce has no command with five arguments

    def cases(self, tier):
        import inspect
        for name in sorted(vars(markup)):
            f = getattr(markup, name)
            if not name.startswith("_") and inspect.isfunction(f) and f.__module__ == markup.__name__ and name not in self.SKIP:
                for n in (1, 2, 3) if any(p.kind is p.VAR_POSITIONAL for p in inspect.signature(f).parameters.values()) else (1,):
                    for k in range(9):
                        yield [name, n, k]

    def check(self, case, rec):
        name, n, k = case
        import inspect
        f = getattr(markup, name)
        params = inspect.signature(f).parameters.values()
        args = []
        music = name.startswith("score")
        for m, p in enumerate(params):
            if p.kind is p.VAR_POSITIONAL:
                for j in range(n):
                    v = STRINGS[(k + j) % 9]
                    args.append(lily.MusicList(lily.Note("c")) if music else v if k < 7 else lily.MarkupCommand("bold", lily.MarkupWord("x")))
            else:
                v = VALUES.get(p.name, NUMBERS)
                v = v[(k + m) % len(v)]
                args.append(v() if callable(v) else v)
        node = f(*args)
        head = {"if_": "if", "raise_": "raise"}.get(name, name.replace("_", "-"))
        doc = lily.Document(node if name in ("markup", "markuplist") else lily.Markup("markup", node))
        text = doc.write()
        again = docs.parse(text)[1]
        if docs.shape(again) != docs.shape(doc):
            raise core.Violation("markup reads back different", "{}: {!r}".format(name, text))
        if name not in ("markup", "markuplist") and not " ".join(text.split()).startswith("\\markup \\" + head):
            raise core.Violation("wrong markup command", "{}: {!r}".format(name, text))
        # the arguments are all there, in order
        pos = 0
        for a in args:
            word = a if isinstance(a, str) else None
            if word and word.isalnum():
                pos = text.find(word, pos)
                if pos == -1:
                    raise core.Violation("argument missing", "{}: {!r} {}".format(name, text, args))
        rec.step()
        rec.trace()
        rec.state(text)


def families():
    return [Histories(), Constructor(), Simple(), Mapping(), Names(), Strings(), Factories()]
