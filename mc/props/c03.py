r"""C03: writing modifications back changes only what was modified."""

import fractions
import itertools

from mc import core, docs
from quickly.dom import base, element, lily, scm, htm, tex, util

BOUNDS = {
    "quick": "61 documents (LilyPond, Scheme, HTML, LaTeX; all kinds of elements, spaces, newlines, no spaces, comments, odd spellings, unknown parts, missing delimiters); "
             "all histories of up to 2 modifications (change, remove, insert, replace, swap, wrap, replacement by a copy with origin, at every node), written back once, and written back after each, read again after each",
    "thorough": "up to 3 modifications for the documents where less than 30 (if written back after each: 25) modifications are possible",
}
ASSUMPTIONS = [
    "only modifications that give a valid document: heads, and children of lists, chords, documents, blocks and articulations",
    "a list that became empty is not read back if it has no delimiters",
]

LILY = [
    "\n", "c", "{ }", "{c}", "{ c d e }", "{ c d\n  e\n}", "{ c4 d8. <e g>4 }", "{ c'4-.(  d) }", "<c e>", "{ <c\\f e'-1>4-. }",
    "{ c % x\n d }", "{ % x\n c }", "{ c d % x\n}", "% x\n{ c }", "{ c %{ x %} d }", "{ c }  { d }\n\n{ e }", "{{c}{d}}", "<< { c } \\\\ { d } >>",
    "\\relative c' { c d }", "\\relative c'{c d}", "x = { c }\n\ny = \\x", "x=1 y=\"z\"", "\\header { a = \"b\"\n c = \\markup { d e } }",
    "\\header{a=\"b\"}", "\\markup { a b }", "\\markup \\bold { a \\italic b }", "\\markup{a b}", "#(f 'a \"b\")", "#(f (g 1) #t)", "{ \\set a = #'(b c) d }",
    "{ \\tuplet 3/2 { c8 d e } f }", "{ c4^\"x\"_\\markup { y } d }", "\\score { { c } \\layout { } }", "\\version \"2.24.0\"\n\n\\score { { c d } }\n",
    "{ c d", "{ <c e", "<< { c", "#(f a", "\\lyricmode { a -- b4 __ }", "\\drummode { bd4 sn <hh bd> }", "\\chordmode { c:7 d }", "{ c | d |\n e }",
    "{ #(f a) c #(g #{ { d e } #}) }", "{ \\time 3/4 \\key c \\major \\clef bass c }", "\\new Staff = \"x\" \\with { a = 1 } { c }", "\\times 2/3 { c d } % x",
    "  { c }  ", "\t{\tc\td\t}\n", "%{ x %}", "\\paper { #(f a)\n b = 1 }", "{ c\\< d\\! e\\f }", "{ \\repeat volta 2 { c } \\alternative { { d } { e } } }",
]
SCHEME = ["(f a b)", "(f\n a\n  (b 'c))", "; x\n(a)", "(a . b) #(1 2)", "(a \"b\" ; c\n d)", "a b", "(f #{ c d #})"]
HTML = ["<p style=\"a\">x<lilypond> { c d } </lilypond>y</p>", "<lilypond>{c}</lilypond><lilypond>{d}</lilypond>", "<lilypond fragment relative=\"2\">c d</lilypond>"]
LATEX = ["x \\lilypond{ { c d } } y", "\\begin{lilypond}\n{ c }\n\\end{lilypond}\n% x\n\\a{b}"]

LISTS = (lily.MusicList, lily.ChordBody, lily.MarkupList, scm.List, scm.Vector, lily.Articulations, lily.Block, scm.LilyPond)


def is_list(n):
    return isinstance(n, LISTS) or isinstance(n, (lily.Document, scm.Document))


def fresh(n, mode):
    """A new node that can be in the list node n."""
    if isinstance(n, (scm.List, scm.Vector, scm.Document)):
        return scm.List(scm.Identifier("zz")) if mode else scm.Identifier("zz")
    if isinstance(n, lily.MarkupList):
        return lily.MarkupList(lily.MarkupWord("zz")) if mode else lily.MarkupWord("zz")
    if isinstance(n, lily.Articulations):
        return lily.Dynamic("ff")
    if isinstance(n, lily.ChordBody):
        return lily.Note("b", octave=1) if mode else lily.Note("b")
    if isinstance(n, lily.Score):
        return lily.MusicList(lily.Note("b"))
    if isinstance(n, (lily.Block, lily.Document)):
        # not after something that could take it as an argument
        return lily.Assignment.with_name("zz", lily.Int(7)) if not mode else lily.SinglelineComment(" zz")
    if isinstance(n, scm.LilyPond):
        return lily.Note("b")
    if any(isinstance(p, (lily.LyricMode,)) for p in [n, *n.ancestors()]):
        return lily.MusicList(lily.LyricText("zz")) if mode else lily.LyricText("zz")
    if any(isinstance(p, (lily.DrumMode,)) for p in [n, *n.ancestors()]):
        return lily.MusicList(lily.Drum("cymc")) if mode and not isinstance(n, lily.ChordBody) else lily.Drum("cymc")
    return lily.MusicList(lily.Note("b")) if mode else lily.Note("b")


CHANGE = {
    lily.Note: ["fis", "a"], lily.Octave: [2], lily.String: ["y", "z \"q\""], lily.Symbol: ["zz"], lily.MarkupWord: ["zz"], scm.Identifier: ["zz"],
    scm.String: ["zz"], lily.Int: [12], lily.Drum: ["cymc"], lily.LyricText: ["zz"], lily.SinglelineComment: [" y"], lily.MultilineComment: [" y "],
    lily.Dynamic: ["pp"], lily.Duration: [1, 1.5], lily.Articulation: [">"], scm.Number: [7], htm.Text: ["zz"], tex.Text: ["zz"],
    lily.MarkupCommand: ["zz"], scm.Bool: [False],
}


def moves(dom):
    """All modifications: (kind, index of node in tree order, argument)."""
    nodes = [dom, *dom.descendants()]
    for i, n in enumerate(nodes):
        if i:
            yield "copy", i, 0
        for k, head in enumerate(CHANGE.get(type(n), ())):
            if type(n.parent).__name__ == "Repeat" or isinstance(n.head, str) and n.head.isspace():
                continue    # would not be valid, or combine with other text
            if head != n.head:
                yield "change", i, k
        if isinstance(n, scm.List) and any(isinstance(c, scm.Dot) for c in n):
            for j in range(len(n)):
                if not isinstance(n[j], scm.Dot):
                    yield "replace", i, j
        elif is_list(n):
            for j in range(len(n)):
                yield "remove", i, j
                if isinstance(n, (lily.Document, lily.Block)) and not isinstance(n[j], base.Comment):
                    yield "replace", i, j
                elif not isinstance(n, (lily.Document, lily.Block)):
                    yield "replace", i, j
                    if isinstance(n, lily.MusicList):
                        yield "wrap", i, j
                if j and swappable(n[j - 1]) and swappable(n[j]):
                    yield "swap", i, j
            for j in range(len(n) + 1):
                if isinstance(n, (lily.Document, lily.Block)):
                    yield "insert", i, (j, 1)
                    if j == 0 or j == len(n):
                        yield "insert", i, (j, 0)
                else:
                    yield "insert", i, (j, j % 2)


def swappable(n):
    return not isinstance(n, (base.Unknown,)) and not (isinstance(n, lily.SpannerId))


def apply(dom, move, changed, moved):
    """Perform the modification; collect the changed and moved nodes."""
    kind, i, arg = move
    n = next(itertools.islice(itertools.chain((dom,), dom.descendants()), i, None))
    if kind == "change":
        n.head = CHANGE[type(n)][arg]
        changed.append(n)
    elif kind == "copy":
        # with origin; so the document does not change
        new = n.copy_with_origin()
        n.replace_with(new)
        same = list(zip((n, *n.descendants()), (new, *new.descendants())))
        for nodes in changed, moved:
            nodes[:] = [next((b for a, b in same if a is m), m) for m in nodes]
    elif kind == "remove":
        n.pop(arg)
    elif kind == "replace":
        n[arg] = fresh(n, 0)
    elif kind == "wrap":
        old = n[arg]
        n[arg] = fresh(n, 1)
        n[arg][:] = [old]
    elif kind == "swap":
        m = n.pop(arg)
        n.insert(arg - 1, m)
        moved += m, n[arg]
    elif kind == "insert":
        n.insert(arg[0], fresh(n, arg[1]))


def pieces(node, text, touched, result, moved=()):
    """The text pieces: (text, pos, end); pos and end None if not at an original place."""
    changed = any(t is node for t in touched)
    if any(m is node for m in moved):
        moved = [node, *node.descendants()]
        gone = True
    else:
        gone = any(m is node for m in moved)
    for tail in (False, True):
        origin = getattr(node, "tail_origin" if tail else "head_origin", ())
        if origin:
            pos, end = origin[0].pos, origin[-1].end
            t = text[pos:end]
            if changed and not tail:
                t = node.write_head()
            result.append((t, None, None) if gone else (t, pos, end))
        else:
            t = node.write_tail() if tail else node.write_head()
            if t:
                result.append((t, None, None))
        if not tail:
            for c in node:
                pieces(c, text, touched, result, moved)
    return result


def shape(node):
    """Structure; comments (see nospace), and lists without text and children are not compared."""
    children = tuple(s for s in map(shape, util.skip_comments(node)) if s is not None)
    if not children and not isinstance(node, element.HeadElement) and not node.is_root():
        return None
    head = node.head if isinstance(node, element.TextElement) else None
    head = head if isinstance(head, (int, float, fractions.Fraction)) else repr(head)
    return (type(node).__name__, head, children)


def nospace(text):
    return "".join(text.split())


def spots(text, parts, desc):
    """The position of the first and after the last visible character of every piece."""
    at = 0
    result = []
    for p in parts:
        first = None
        for c in nospace(p):
            while at < len(text) and text[at].isspace():
                at += 1
            if text[at:at + 1] != c:
                raise core.Violation("wrong text", "{}: it should have {!r}".format(desc, p))
            first = at if first is None else first
            at += 1
        result.append((at if first is None else first, at))
    if text[at:].strip():
        raise core.Violation("wrong text", "{}: {!r} is too much".format(desc, text[at:]))
    return result


def write_back(doc, dom, before, changed, moved, desc, rec):
    """Write back and compare everything; before are the original pieces."""
    text = doc.text()
    want = pieces(dom, text, changed, [], moved)
    mine = shape(dom)
    n = dom.edit(doc)
    rec.step()
    new = doc.text()
    desc = "{}: {!r} becomes {!r}".format(desc, text, new)
    before = [p for p in before if p[1] is not None]    # missing delimiters may be added
    there = spots(new, [p[0] for p in want], desc)
    here = spots(text, [p[0] for p in before], desc)
    if want == before and not changed and (n or new != text):
        raise core.Violation("change without modification", desc)
    if n == 0 and new != text:
        raise core.Violation("wrong number of changes", desc)
    # the whitespace between pieces that still are neighbours
    index = {p[1:]: k for k, p in enumerate(before)}
    for k in range(len(want) + 1):
        a = index.get(want[k - 1][1:]) if k else -1
        b = index.get(want[k][1:]) if k < len(want) else len(before)
        if a is not None and b is not None and b == a + 1 and before:
            old_gap = text[here[a][1] if a >= 0 else 0:here[b][0] if b < len(before) else len(text)]
            new_gap = new[there[k - 1][1] if k else 0:there[k][0] if k < len(want) else len(new)]
            if any(is_changed(want[x], before[y]) and (spaced(want[x]) or spaced(before[y])) for x, y in ((k - 1, a), (k, b)) if 0 <= x < len(want) and 0 <= y < len(before)):
                continue    # text with whitespace
            if old_gap != new_gap and (old_gap or not k or k == len(want) or not (is_changed(want[k - 1], before[a]) or is_changed(want[k], before[b]))):
                raise core.Violation("whitespace changed", "{}: {!r} instead of {!r} at {}".format(desc, new_gap, old_gap, k))
    again = doc.get_transform(True)
    res = shape(again)
    if res != mine:
        raise core.Violation("other structure", "{}: reads as {} instead of {}".format(desc, res, mine))
    rec.state((new, n))
    return again


def is_changed(new, old):
    """True if the text was changed."""
    return new[0] != old[0]


def spaced(piece):
    """True if there is whitespace around the text inside the piece."""
    return piece[0] != piece[0].strip()


class Histories(core.Family):
    """Several modifications, written back at once."""
    name = "histories"
    stepwise = False
    limit = 30

    def cases(self, tier):
        deep = tier != "quick"
        for lang, texts in (("lilypond", LILY), ("scheme", SCHEME), ("html", HTML), ("latex", LATEX)):
            for t in texts:
                yield lang, t, [], 0
                dom = docs.parse(t, lang)[1]
                todo = list(moves(dom))
                for m in todo:
                    yield lang, t, [m], 2 if deep and sum(m[0] != "copy" for m in todo) < self.limit else 1

    def check(self, case, rec):
        lang, text, history, depth = case
        self.explore(lang, text, [tuple(m[:2]) + (tuple(m[2]) if isinstance(m[2], list) else m[2],) for m in history], depth, rec)

    def explore(self, lang, text, history, depth, rec):
        doc = docs.document(text, lang)
        dom = doc.get_transform(True)
        before = pieces(dom, text, [], [])
        changed, moved = [], []
        for m in history:
            if self.stepwise and m is history[-1] and len(history) > 1:
                dom = write_back(doc, dom, before, changed, moved, "{} {}".format(lang, history), rec)
                before = pieces(dom, doc.text(), [], [])
                changed, moved = [], []
            apply(dom, m, changed, moved)
        more = list(moves(dom)) if depth else []
        write_back(doc, dom, before, changed, moved, "{} {}".format(lang, history), rec)
        if depth and self.stepwise:
            more = list(moves(doc.get_transform(True)))
        # unmodified, nothing is changed
        t = doc.text()
        doc2 = docs.document(t, lang)
        dom2 = doc2.get_transform(True)
        if dom2 is not None and all(getattr(n, "tail_origin", True) for n in dom2.descendants()):
            dom2.edit(doc2)
            if doc2.text() != t:
                raise core.Violation("second write-back changes", "{} {} {!r}: {!r} becomes {!r}".format(lang, text, history, t, doc2.text()))
        rec.trace()
        for m in more:
            self.explore(lang, text, history + [m], depth - 1, rec)


class Stepwise(Histories):
    """Written back after each modification."""
    name = "stepwise"
    stepwise = True
    limit = 25

    def cases(self, tier):
        for case in super().cases(tier):
            if case[2]:
                yield case


def families():
    return [Histories(), Stepwise()]
