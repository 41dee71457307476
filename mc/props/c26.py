r"""C26: the same result through every entry point; selections."""

import parce

from mc import core, docs
from quickly import relative, rhythm, transpose
from quickly.dom import base, lily, util
from quickly.duration import Transform
from quickly.node import Range
from quickly.pitch import Pitch

BOUNDS = {
    "quick": "35 documents (all kinds of music, nested, relative, with comments, blocks, odd whitespace, an empty one, one without music, Scheme, HTML and LaTeX documents), 18 operations, 13 entry points; "
             "every selection (all pairs of text positions) of 10 documents and all pairs of token boundaries of all documents, for all operations",
    "thorough": "every selection (all pairs of text positions) of all documents",
}
ASSUMPTIONS = [
    "a \\relative command or music list that itself is the edited element can't be replaced in its parent",
    "a chord of which everything but the closing > is selected, counts as selected",
    "only documents without missing delimiters",
]

DOCS = [
    ("lilypond", t) for t in [
        "", "\n", "% x", "c", "{ }", "{ c4 d }", "{ c4 d8 e }", "{c4*2 d8. e}", "{ <c e>4*1/3 q q8 }", "{ c4 { d8 e } f }",
        "<< { c4 d } { e8 f } >>", "\\relative c' { c4 d }", "\\relative { c4 d g }", "\\relative c' { c g' <c e> d, }",
        "\\relative c'' { c4 { g8 c } \\grace d f }", "{ c4 \\relative c { d g } e }", "\\fixed c' { c4 d }", "{ c4 d }\n\n{ e8 f }",
        "x = { c4 d }\ny = \\relative c' { e4 g }", "{ c4 % x\n d4 }", "{\n  c4 d\n  e4 f8 f\n}\n", "{ \\tuplet 3/2 4 { c8 d e } \\tempo 4 = 60 f8 }",
        "{ c4 \\skip 4 8 r8 }", "\\score { { c4 d } \\layout { } }", "\\header { a = \\markup { b } }\n{ c4 }", "\\lyricmode { a4 -- b4 }",
        "\\chordmode { c4:7 d4 }", "\\drummode { bd4 <hh>4 }", "{ \\key c \\major c'4 \\transpose c d { e4 } }", "\\language \"english\" { cs4 d }",
        "{ c4-.\\f( d4) }", "  {c4  d4 }  ", "{ c4 #(f #{ { d4 e } #}) f }", "{ c,4 d'4 } \\relative c' { e4 g } { c4 }",
    ]
] + [
    ("scheme", "(f #{ { c4 d4 } #})"), ("html", "<p>x<lilypond>{ c4 d4 }</lilypond></p>"), ("latex", "x \\lilypond{ { c4 d4 } } y"),
]
FULL = ["{ c4 d8 e }", "{c4*2 d8. e}", "{ c4 { d8 e } f }", "{ c4 d }\n\n{ e8 f }", "\\relative { c4 d g }", "{ c4 \\relative c { d g } e }",
        "\\relative c' { c4 d }", "{ c4 % x\n d4 }", "  {c4  d4 }  ", "<< { c4 d } { e8 f } >>"]

TR = lambda: transpose.Transposer(Pitch(0, 0, 0), Pitch(0, 1, 0))
UP = lambda: transpose.Transposer(Pitch(0, 0, 0), Pitch(1, 3, 0))
DURS = [(0.5, 1), None, (0.125, 2)]
#: name: (edit class, function, is local)
OPS = {
    "explicit": (rhythm.RhythmExplicit, rhythm.explicit, True),
    "implicit": (rhythm.RhythmImplicit, rhythm.implicit, False),
    "per line": (rhythm.RhythmImplicitPerLine, lambda m: rhythm.implicit(m, True), False),
    "remove": (rhythm.Remove, rhythm.remove, False),
    "remove scaling": (rhythm.RemoveScaling, rhythm.remove_scaling, True),
    "remove fraction scaling": (rhythm.RemoveFractionScaling, rhythm.remove_fraction_scaling, True),
    "halve": (lambda: rhythm.RhythmTransform(Transform(1, 0, 1)), lambda m: rhythm.transform(m, 1), True),
    "dot": (lambda: rhythm.RhythmTransform(Transform(0, 1, 1)), lambda m: rhythm.transform(m, 0, 1), True),
    "scale": (lambda: rhythm.RhythmTransform(Transform(0, 0, 3)), lambda m: rhythm.transform(m, scale=3), True),
    "copy": (rhythm.CopyRhythm, rhythm.copy, True),
    "copy explicit": (lambda: rhythm.CopyRhythm(True), lambda m: rhythm.copy(m, True), True),
    "paste": (lambda: rhythm.PasteRhythm(DURS), lambda m: rhythm.paste(m, DURS), False),
    "paste once": (lambda: rhythm.PasteRhythm(DURS, False), lambda m: rhythm.paste(m, DURS, False), False),
    "transpose": (lambda: transpose.Transpose(TR()), lambda m: transpose.transpose(m, TR()), True),
    "transpose up": (lambda: transpose.Transpose(UP()), lambda m: transpose.transpose(m, UP()), True),
    "rel2abs": (relative.Rel2abs, relative.rel2abs, False),
    "abs2rel": (relative.Abs2rel, relative.abs2rel, False),
    "abs2rel 2.18": (lambda: relative.Abs2rel(start_pitch=False, first_pitch_absolute=True), None, False),
}
#: those which add or remove elements
STRUCTURE = "rel2abs", "abs2rel", "abs2rel 2.18"
#: those which leave music alone that is split over the elements of a document
NOT_SPLIT = ("paste", "paste once", "copy", "copy explicit")


def music(text, lang):
    """The structure of the text."""
    if not text:
        return []
    return [docs.shape(n) for n in docs.parse(text, lang)[1]]


def musicals(dom):
    """All elements with a pitch or a duration, in tree order."""
    return [n for n in dom.descendants() if isinstance(n, (lily.Durable, lily.Pitchable))] if dom is not None else []


def own(n):
    """What is said about the element itself: head and duration (or pitch)."""
    if isinstance(n, lily.Durable):
        return type(n), n.duration_scaling, repr(n.head) if hasattr(n, "head") else None, repr(n.octave) if isinstance(n, lily.Note) else None
    return type(n), repr(n.head), repr(n.octave)


class Entry(core.Family):
    name = "entry"

    def cases(self, tier):
        for lang, text in DOCS:
            for op in OPS:
                yield lang, text, op

    def check(self, case, rec):
        lang, text, op = case
        cls, func, local = OPS[op]

        def fresh():
            doc = docs.document(text, lang)
            return doc, doc.get_transform(True)

        doc, dom = fresh()
        e = cls()
        result = e.edit(doc)
        want = doc.text()
        changes = e.changes()
        if e.readonly and want != text:
            raise core.Violation("read only operation changes the text", repr((text, want)))
        if not changes and want != text:
            raise core.Violation("number of changes", repr((text, want)))
        where = "{} {!r} {}".format(lang, text, op)

        def same(name, doc, res, exact=True):
            rec.step()
            new = doc if isinstance(doc, str) else doc.text()
            if exact and new != want or not exact and music(new, lang) != music(want, lang):
                raise core.Violation("{} gives another result than the document".format(name), "{}: {!r} instead of {!r}".format(where, new, want))
            if res != result:
                raise core.Violation("{} returns another value than for the document".format(name), "{}: {!r} instead of {!r}".format(where, res, result))
            rec.outcome((name, new))

        doc, dom = fresh()
        same("edit_document", doc, cls().edit_document(doc))
        for pos in (0, len(text) // 2, len(text)):
            doc, dom = fresh()
            e = cls()
            same("cursor", doc, e.edit(parce.Cursor(doc, pos)))
            if e.changes() != changes:
                raise core.Violation("number of changes of a cursor", where)
        if func:
            doc, dom = fresh()
            same("function", doc, func(doc))
        if text:
            for whole in (False, True):
                doc, dom = fresh()
                c = parce.Cursor(doc)
                c.select_all()
                e = cls()
                e.range_from_root = whole
                same("select all", doc, e.edit(c))
        doc, dom = fresh()
        e = cls()
        e.range_from_cursor = True
        same("range from cursor at 0", doc, e.edit(parce.Cursor(doc, 0)))
        doc, dom = fresh()
        e = cls()
        e.readonly = True
        res = e.edit(doc)
        if doc.text() != text or e.changes():
            raise core.Violation("read only edit changes the text", "{}: {!r}".format(where, doc.text()))
        if dom is not None:
            dom.edit(doc)
            same("read only edit, then written back", doc, res)
        if dom is None or op == "per line":
            rec.trace()
            return
        # the DOM
        for name, edit in (
            ("edit", lambda d: cls().edit(d)),
            ("edit_node", lambda d: cls().edit_node(d)),
            ("range", lambda d: cls().edit(Range(d))),
            ("range with nodes", lambda d: cls().edit(Range.from_nodes(d[0], None))),
            ("range up to the last node", lambda d: cls().edit(Range.from_nodes(None, last(d)))),
            ("function", func or (lambda d: cls().edit(d))),
        ):
            if name.startswith("range ") and not len(dom):
                continue
            doc, dom = fresh()
            res = edit(dom)
            dom.edit(doc)
            same("{} (element)".format(name), doc, res)
            # without text
            doc, dom = fresh()
            d = dom.copy()
            res = edit(d)
            if lang in ("lilypond", "scheme"):
                same("{} (element without document)".format(name), d.write(), res, False)
            # the other one did not change
            if dom.edit(doc):
                raise core.Violation("another DOM was changed", where)
        # the elements one by one
        if op not in NOT_SPLIT:
            for topdown in (False, True):
                doc, dom = fresh()
                if op in STRUCTURE and (lang != "lilypond" or any(isinstance(n, (lily.Relative, lily.MusicList, lily.ChordMode)) for n in dom)):
                    break
                nodes = list(dom)
                for n in nodes if topdown else reversed(nodes):
                    cls().edit(n)
                dom.edit(doc)
                if op == "implicit" and len(nodes) > 1:
                    break
                same("elements", doc, result)
        rec.trace()


def last(dom):
    while len(dom):
        dom = dom[-1]
    return dom


class Selection(core.Family):
    """Every selection of a document."""
    name = "selection"

    def cases(self, tier):
        for lang, text in DOCS:
            if text:
                for op in OPS:
                    if tier != "quick" or text in FULL:
                        places = list(range(len(text) + 1))
                    else:
                        places = {0, len(text)}
                        for t in docs.parse(text, lang)[0].tokens():
                            places |= {t.pos, t.end}
                        places = sorted(places)
                    yield lang, text, op, places

    def check(self, case, rec):
        lang, text, op, places = case
        cls, func, local = OPS[op]
        # the whole document
        doc = docs.document(text, lang)
        dom = doc.get_transform(True)
        index = [(n.pos, n.end) for n in musicals(dom)]
        # a chord counts as selected if everything inside it is
        complete = [(n.pos, max(c.end for b in n for c in (b if len(b) and b is n[-1] else [b])), n.end) for n in dom // lily.Chord]
        everything = cls().edit(doc)
        if local:
            new = docs.parse(doc.text(), lang)[1]
            whole = [own(n) for n in musicals(new)]
        local = local and "relative" not in text and "fixed" not in text
        visible = [i for i, c in enumerate(text) if not c.isspace()]
        for pos in places:
            for end in places:
                if pos < end:
                    self.select(lang, text, op, pos, end, index, complete, whole if local else None, everything, rec)
        rec.trace()

    def select(self, lang, text, op, pos, end, index, complete, whole, everything, rec):
        cls, func, local = OPS[op]
        where = "{} {!r} {} {}-{}".format(lang, text, op, pos, end)
        doc = docs.document(text, lang)
        e = cls()
        res = e.edit(parce.Cursor(doc, pos, end))
        new = doc.text()
        where += " becomes {!r}".format(new)
        rec.step()
        rec.state((text, pos, end))
        rec.outcome(new)
        before, after = text[:pos], text[max([end] + [q for p, e, q in complete if pos <= p and e <= end]):]
        if op in STRUCTURE:
            # a space next to an added or removed \relative may change
            before, after = before.rstrip(), after.lstrip()
        if not new.startswith(before) or not new.endswith(after) or len(new) < len(before + after):
            raise core.Violation("text outside the selection is changed", where)
        if not e.changes() and new != text:
            raise core.Violation("number of changes of a selection", where)
        # the other direction, from root, via a function
        doc = docs.document(text, lang)
        e = cls()
        e.range_from_root = True
        if op not in STRUCTURE:
            if e.edit(parce.Cursor(doc, pos, end)) != res or doc.text() != new:
                raise core.Violation("another result if the range starts from the root", "{} and {!r}".format(where, doc.text()))
        # a range of the elements in the selection
        doc = docs.document(text, lang)
        dom = doc.get_transform(True)
        nodes = [n for n in dom.descendants() if pos <= n.pos and n.end <= end]
        if nodes and op != "per line":
            res2 = cls().edit(Range.from_nodes(nodes[0], last(nodes[-1])))
            dom.edit(doc)
            if res2 != res or (doc.text().split() != new.split() if op in STRUCTURE else doc.text() != new):
                raise core.Violation("another result for the range of elements in a selection", "{} and {!r}".format(where, doc.text()))
        elif not nodes and new != text:
            raise core.Violation("nothing is selected, but the text is changed", where)
        # a local operation does the same to a part
        sel = [pos <= p and q <= end for p, q in index]
        if whole is not None:
            new_dom = docs.parse(new, lang)[1]
            old_dom = docs.parse(text, lang)[1]
            old = [own(n) for n in musicals(old_dom)]
            now = [own(n) for n in musicals(new_dom)]
            for i, (p, q) in enumerate(index):
                if q <= pos or p >= end:
                    if now[i] != old[i]:
                        raise core.Violation("element outside the selection is changed", "{}: {}".format(where, now[i]))
                elif pos <= p and q <= end:
                    if now[i] != whole[i]:
                        raise core.Violation("element in the selection is not changed like in the whole document", "{}: {} instead of {}".format(where, now[i], whole[i]))


def families():
    return [Entry(), Selection()]
