r"""C33: operations on one live document compose, and each is one step to undo.

Every sequence of operations, typing, undo and redo on a live document, against
a model: a list of texts with a current position. What an operation does to a
text does not depend on how the document got that text; what it does to the
music follows from what it is.
"""

from fractions import Fraction as F

import parce

from mc import core, docs, music, rhythmref, timeref
from quickly import relative, rhythm, transpose
from quickly.dom import lily
from quickly.duration import Transform
from quickly.pitch import Pitch

BOUNDS = {
    "quick": "14 documents; all sequences of length 3 of 17 actions (11 operations on the whole document, 2 on its first half, typing, deleting, undo, redo)",
    "thorough": "all sequences of length 4",
}
ASSUMPTIONS = ["the music in the documents has no more than double accidentals after transposing"]

DOCS = [
    "{ c4 d }", "{ c4 d8 e\n  f4 g4\n}\n", "\\relative c' { c4 g' <c e>8 d, }", "\\relative { c'4 d8 { e f } g }",
    "{ c'4 { d8 e } f' }", "<< { c4 d } { e8 f } >>", "x = { c4*2/3 d e }\ny = \\relative c' { e4 g }\n", "{ c4 % x\n d4 r8. s }",
    "\\score { { c4 \\tuplet 3/2 4 { c8 d e } \\key d \\major f8 } \\layout { } }", "\\language \"english\" { cs4 df'8 <e g>2 }",
    "\\fixed c' { c4 d } { e8 \\skip 8 f }", "{ c4~ c8 <d f>4.. q \\grace e16 g4\\f-. }", "\\relative c'' { a4 b c=''8 }", "\\version \"2.24.0\"\n\\relative { c''4 b8 a } { c1 }",
]
TR = {"up": ((0, 0, 0), (0, 1, 0)), "down": ((0, 1, 0), (0, 0, 0)), "third": ((0, 0, 0), (0, 2, F(-1, 2)))}


def tr(name):
    a, b = TR[name]
    return transpose.Transposer(Pitch(*a), Pitch(*b))


OPS = {
    "explicit": rhythm.RhythmExplicit,
    "implicit": rhythm.RhythmImplicit,
    "per line": rhythm.RhythmImplicitPerLine,
    "halve": lambda: rhythm.RhythmTransform(Transform(1, 0, 1)),
    "double": lambda: rhythm.RhythmTransform(Transform(-1, 0, 1)),
    "remove": rhythm.Remove,
    "up": lambda: transpose.Transpose(tr("up")),
    "down": lambda: transpose.Transpose(tr("down")),
    "third": lambda: transpose.Transpose(tr("third")),
    "rel2abs": relative.Rel2abs,
    "abs2rel": relative.Abs2rel,
}
HALF = ["up", "halve"]   # on a selection: everything up to the middle
ACTIONS = [[n] for n in OPS] + [[n, "half"] for n in HALF] + [["type"], ["delete"], ["undo"], ["redo"]]


def half(text):
    """The end of the selection: after the word in the middle."""
    m = len(text) // 2
    while m < len(text) and not text[m].isspace():
        m += 1
    return m


def apply(doc, action):
    text = doc.text()
    op = OPS[action[0]]()
    if len(action) > 1:
        op.edit(parce.Cursor(doc, 0, half(text)))
    else:
        op.edit(doc)


def pitches(dom):
    return [(e.kind, e.pitch) for e in music.sounding(dom) if e.kind == "note"]


SCALE = [0, 2, 4, 5, 7, 9, 11]


def measure(p):
    return p[0] * 7 + p[1], p[0] * 12 + SCALE[p[1]] + 2 * p[2]


def typed(text):
    """Where a user types something, and what."""
    i = text.rindex("}")
    return i, i, "g8 "


def deleted(text):
    """The part that a user deletes: the last note before the last brace, or nothing."""
    i = text.rindex("}")
    j = text.rfind(" ", 0, len(text[:i].rstrip()))
    part = text[max(j, 0):i]
    return (j, i, " ") if j > 0 and not set(part) & set("{}<>%\"\n\\") else None


class Live(core.Family):
    name = "live"

    def __init__(self):
        self.memo = {}

    def cases(self, tier):
        n = 4 if tier == "thorough" else 3
        for d in range(len(DOCS)):
            for a in ACTIONS:
                for b in ACTIONS if n > 3 else [None]:
                    yield [d, n, a, b]

    def check(self, case, rec):
        d, n, *first = case
        first = [a for a in first if a]
        for w in core.words(ACTIONS, n - len(first), n - len(first)):
            self.run(DOCS[d], first + list(w), rec)

    def fresh(self, text, action):
        """The text after the operation on a new document."""
        key = text, tuple(action)
        if key not in self.memo:
            if len(self.memo) > 20000:
                self.memo.clear()
            doc = docs.document(text)
            apply(doc, action)
            new = doc.text()
            if len(action) == 1:
                self.relation(text, action[0], new)
            self.memo[key] = new
        return self.memo[key]

    def relation(self, text, op, new):
        """What the operation does to the music."""
        d0, d1 = docs.parse(text)[1], docs.parse(new)[1]
        p0, p1 = pitches(d0), pitches(d1)
        n0, n1 = rhythmref.durables(d0), rhythmref.durables(d1)
        where = "{} of {!r}: {!r}".format(op, text, new)
        if len(p0) != len(p1) or len(n0) != len(n1):
            raise core.Violation("other notes", where)
        if op in TR:
            a, b = map(measure, TR[op])
            p0 = [(measure(p)[0] + b[0] - a[0], measure(p)[1] + b[1] - a[1]) for k, p in p0]
            p1 = [measure(p) for k, p in p1]
        if p0 != p1:
            raise core.Violation("other pitches", "{}, {} instead of {}".format(where, p1, p0))
        if op in ("halve", "double"):
            log = 1 if op == "halve" else -1
            want = [o and (timeref.shifted(o[0], log, 0), o[1]) for o in map(rhythmref.own, n0)]
            if [rhythmref.own(n) for n in n1] != want:
                raise core.Violation("other durations", where)
        elif op == "remove":
            if any(rhythmref.own(n) and not rhythmref.is_skip(n) for n in n1):
                raise core.Violation("durations not removed", where)
        elif rhythmref.effective(n0) != rhythmref.effective(n1):
            raise core.Violation("other durations", where)
        if op == "explicit" and not all(map(rhythmref.own, n1)):
            raise core.Violation("not explicit", where)
        if op == "rel2abs" and any(True for _ in d1 // lily.Relative):
            raise core.Violation("not absolute", where)

    def run(self, text, word, rec):
        doc = docs.document(text)
        doc.get_transform(True)
        history, index = [text], 0
        for i, action in enumerate(word):
            where = "{!r} {}".format(text, word[:i + 1])
            old = history[index]
            a = action[0]
            if a in ("undo", "redo"):
                index = max(0, index - 1) if a == "undo" else min(len(history) - 1, index + 1)
                getattr(doc, a)()
                new = history[index]
            else:
                if a in ("type", "delete"):
                    change = typed(old) if a == "type" else deleted(old)
                    new = old
                    if change:
                        pos, end, s = change
                        doc[pos:end] = s
                        new = old[:pos] + s + old[end:]
                else:
                    new = self.fresh(old, action)
                    apply(doc, action)
                if new != old:
                    del history[index + 1:]
                    history.append(new)
                    index += 1
            rec.step()
            if doc.text() != new:
                what = "{} restores another text".format(a) if a in ("undo", "redo") else "another result than on a new document"
                raise core.Violation(what, "{}: {!r} instead of {!r}".format(where, doc.text(), new))
            if doc.can_undo() != (index > 0) or doc.can_redo() != (index < len(history) - 1):
                raise core.Violation("not one step to undo", "{}: {!r}".format(where, new))
        # the DOM of the document
        rec.state(new)
        rec.outcome(len(history))
        rec.trace()
        key = new, None
        if key not in self.memo:
            dom = docs.parse(new)[1]
            self.memo[key] = docs.shape(dom), [(n.pos, n.end) for n in dom.descendants()]
        dom = doc.get_transform(True)
        if (docs.shape(dom), [(n.pos, n.end) for n in dom.descendants()]) != self.memo[key]:
            raise core.Violation("the DOM is not that of the text", where)


def families():
    return [Live()]
