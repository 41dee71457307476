"""C28: a spanner finds its other end."""

import itertools
import re

from mc import core, docs
from quickly.dom import lily

BOUNDS = {
    "quick": "all sequences up to length 3 of 23 notes with events (slurs, phrasing slurs, beams and other spanners, with and without spanner ids and directions) and up to length 5 of 6 notes with slurs, "
             "all pairs and triples of 7 notes in the places of 12 documents with nested and adjacent contexts, assignments and scores; every spanner asked, with every limit; all histories of up to 2 removals of a spanner",
    "thorough": "as quick, sequences up to length 4 of 23 and length 6 of 6 notes, up to 4 notes in the 12 documents, histories of up to 3 removals",
}
ASSUMPTIONS = ["two spanner ids are the same if they are written the same way (\\=a and \\=\"a\" are not)"]

#: event text -> list of (class, head, id)
EVENTS = {
    "": [],
    "(": [("Slur", "start", None)], ")": [("Slur", "stop", None)], ")(": [("Slur", "stop", None), ("Slur", "start", None)],
    "\\=1(": [("Slur", "start", "1")], "\\=1)": [("Slur", "stop", "1")],
    "\\=2(": [("Slur", "start", "2")], "\\=2)": [("Slur", "stop", "2")],
    "^(": [("Slur", "start", None)], "-)": [("Slur", "stop", None)],
    "\\=1^(": [("Slur", "start", "1")], "_\\=1(": [("Slur", "start", "1")], "\\=1-)": [("Slur", "stop", "1")],
    "\\(": [("PhrasingSlur", "start", None)], "\\)": [("PhrasingSlur", "stop", None)],
    "\\=1\\(": [("PhrasingSlur", "start", "1")], "\\=1_\\)": [("PhrasingSlur", "stop", "1")],
    "\\=a(": [("Slur", "start", "a")], "\\=a)": [("Slur", "stop", "a")],
    "[": [("Beam", "start", None)], "]": [("Beam", "stop", None)],
    "\\=\"b\"(": [("Slur", "start", '"b"')], "-.\\=\"b\")->": [("Slur", "stop", '"b"')],
}
OTHER = {
    "\\[": "Ligature", "\\]": "Ligature", "\\startTextSpan": "TextSpanner", "\\stopTextSpan": "TextSpanner",
    "\\startTrillSpan": "TrillSpanner", "\\stopTrillSpan": "TrillSpanner", "\\melisma": "Melisma", "\\melismaEnd": "Melisma",
    "\\=1-\\tweak color #red (": "Slur", "\\=1 %{ x %} )": "Slur", "-\\tweak color #red (": "Slur", ")": "Slur",
}
for i, (k, v) in enumerate(OTHER.items()):
    EVENTS.setdefault(k, [(v, "stop" if i % 2 else "start", "1" if "=1" in k else None)])
SLURS = ["(", ")", "\\=1(", "\\=1)", "\\=2(", ")("]
SEVEN = ["(", ")", "\\=1(", "\\=1)", "\\(", "\\)", ""]
#: «» is the extent of a New, Assignment or Score
PLACES = [
    "{ # } { # }", "«x = { # }» «y = { # }» { # }", "«\\new Voice { # }» { # }", "{ # «\\new Voice { # }» # }", "«\\score { { # } }» { # }",
    "<< { # } \\\\ { # } >>", "«\\new Staff << «\\new Voice { # }» «\\new Voice { # }» >>»", "\\book { { # } «\\score { { # } \\layout { } }» }",
    "«x = «\\new Voice { # }»» «\\score { «\\new Staff { # { # } }» }»", "<c # e # >4 #", "\\relative c' { # \\tuplet 3/2 { # } } #",
    "«\\new Voice \\with { \\consists \"A\" } { # }» «\\new Lyrics \\lyricsto \"a\" { x }» { # }",
]


def build(place, events):
    """The text, and a list of (class, head, id, scopes); scopes is a list of
    numbers of the enclosing scopes."""
    out, spanners, scopes = [], [], [0]
    it, count = iter(events), 0
    for c in place:
        if c == "#":
            for e in next(it, None) or ():
                out.append("c" + e + " ")
                for s in EVENTS[e]:
                    spanners.append(s + (tuple(scopes),))
        elif c == "«":
            count += 1
            scopes.append(count)
        elif c == "»":
            scopes.pop()
        else:
            out.append(c)
    return "".join(out), spanners


def partner(spanners, i):
    cls, head, ident, scopes = spanners[i]
    for j in range(i + 1, len(spanners)) if head == "start" else range(i - 1, -1, -1):
        c, h, d, s = spanners[j]
        if s[:len(scopes)] == scopes and c == cls and h != head and d == ident:
            return j


class Base(core.Family):
    limits = True

    def look(self, text, nodes, spanners, size, rec):
        index = {id(n): i for i, n in enumerate(nodes)}
        for i, n in enumerate(nodes):
            want = partner(spanners, i)
            got = n.find_parallel()
            got = None if got is None else index.get(id(got), "unknown")
            rec.step()
            if got != want:
                raise core.Violation("wrong other end", "{!r}: spanner {} {} finds {}, should be {}".format(text, i, spanners[i][:3], got, want))
            if got is not None and self.limits:
                found = [k for k in range(1, size + 2) if n.find_parallel(k) is not None]
                rec.step(size)
                if not found or found != list(range(found[0], size + 2)) or any(n.find_parallel(k) is not nodes[want] for k in found[:1]):
                    raise core.Violation("wrong other end with a limit", "{!r}: spanner {} found with limits {}".format(text, i, found))
                if found[0] < abs(want - i):
                    raise core.Violation("limit is not respected", "{!r}: spanner {} found with limit {}".format(text, i, found[0]))

    def check(self, case, rec):
        place, events, removals = case
        text, spanners = build(place, events)

        def play(removed):
            dom = docs.parse(text)[1]
            nodes = [n for n in dom.descendants() if isinstance(n, lily.Spanner)]
            if [(type(n).__name__, n.head) for n in nodes] != [s[:2] for s in spanners]:
                raise core.Violation("spanners are read wrong", "{!r}: {}".format(text, nodes))
            left = list(spanners)
            for r in removed:
                # with the id or direction around it
                n = nodes[r]
                while not isinstance(n.parent, lily.Articulations):
                    n = n.parent
                n.parent.remove(n)
                del nodes[r], left[r]
            rec.trace()
            if rec.state((docs.shape(dom))):
                size = 1 + sum(1 for n in dom.descendants())
                self.look(text, nodes, left, size, rec)
            rec.outcome(tuple(partner(left, i) for i in range(len(left))))

        def histories(left, depth):
            yield []
            if depth:
                for i in range(left):
                    for h in histories(left - 1, depth - 1):
                        yield [i, *h]
        for h in histories(len(spanners), removals):
            play(h)


class Sequences(Base):
    """Sequences of events in one music list."""
    name = "sequences"
    limits = False

    def cases(self, tier):
        deep = tier == "thorough"
        for w in core.words(list(EVENTS), 4 if deep else 3, 0):
            if len(w) < 3 or sum(1 for e in w if e in OTHER) < 2:
                yield ["{ # }", [w], 0]
        for w in core.words(SLURS, 6 if deep else 5, 4):
            yield ["{ # }", [w], 0]


class Removals(Base):
    """Histories of removals."""
    name = "removals"

    def cases(self, tier):
        for w in core.words(SLURS, 4, 2):
            yield ["{ # }", [w], 3 if tier == "thorough" else 2]
        for a, b in itertools.product(core.words(SEVEN, 2, 1), repeat=2):
            yield ["{ # } { # }", [a, b], 0]


class Places(Base):
    """Events in nested contexts."""
    name = "places"

    def cases(self, tier):
        deep = tier == "thorough"
        for p in PLACES:
            k = p.count("#")
            for n in range(2, 5 if deep else 4):
                # distribute n notes over the k places
                for split in itertools.combinations_with_replacement(range(k), n):
                    for w in itertools.product(SEVEN if n < 4 else SEVEN[:5], repeat=n):
                        yield [p, [[w[i] for i in range(n) if split[i] == j] for j in range(k)], 0]


def families():
    return [Sequences(), Removals(), Places()]
