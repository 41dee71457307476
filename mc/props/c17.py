r"""C17: musical length, time position and duration, compared with an interpreter."""

import parce

from mc import core, docs, timeref
from quickly import time
from quickly.dom import lily

BOUNDS = {
    "quick": "all sequences of 1-3 of 17 items (notes, chords, rests, skips, scaled durations, variables, empty chords, commands); all 47 kinds of nesting (sequential, simultaneous, tuplets, scaling, shifting, grace, repeats with alternatives, contexts, modes) around all sequences of 1-2 of 7 items between two notes; all pairs of 30 nestings around 1 sequence, for 8 outer nestings 3 sequences; "
             "for every node the length and position, for every pair of nodes the duration, with one Time for all and with a new Time for every query; for every position in the text and every pair of note boundaries the cursor queries",
    "thorough": "sequences up to 4; nestings around sequences up to 3 and of 12 items; all pairs around 18 sequences; triples of 12 nestings",
}
ASSUMPTIONS = [
    "repeated music counts once, as written (the library does not interpret repeat counts)",
    "the position of the grace notes in \\afterGrace and of notes inside a chord is not specified",
    "figured bass has no length in the library, and is left out",
]

LEAF = ["c", "d4.", "<e g>8", "r2*4/3*1/2", "\\skip 8", "\\foo", "c8-.", "8", "<>", "\\bar", "\\nope", "\\key c \\major", "R1*2", "%{ x %}", "\\skip { c16 d }", "q", "\\tempo 4 = 60", "\\octaveCheck c'", "c4:16"]
SMALL = ["c", "d4.", "<e g>8", "\\foo", "\\skip 8", "r2*4/3*1/2", "8"]
NEST = [
    "{ @ }", "<< @ >>", "\\tuplet 3/2 { @ }", "\\tuplet 3/2 4 { @ }", "\\times 2/3 { @ }", "\\scaleDurations 3/2 { @ }", "\\scaleDurations #2/3 { @ }",
    "\\shiftDurations 1 0 { @ }", "\\shiftDurations #-1 #1 { @ }", "\\grace { @ }", "\\acciaccatura { @ }", "\\relative c' { @ }", "\\transpose c d { @ }",
    "\\new Staff { @ }", "\\new Voice \\with { \\consists \"x\" } << @ >>", "\\context Voice = \"v\" { @ }", "\\repeat volta 2 { @ }",
    "\\repeat volta 2 { @ } \\alternative { { f4 } { g8 a } }", "\\simultaneous { @ }", "\\sequential { @ }", "\\afterGrace { @ } { e16 f }",
    "\\afterGrace 3/4 { @ } e16", "\\after 4 \\f { @ }", "\\partcombine { @ } { f1 }", "\\skip { @ }", "<< { @ } \\\\ { f1 } >>", "\\fixed c' { @ }",
    "\\absolute { @ }", "\\unfoldRepeats { @ }", "\\keepWithTag #'a { @ }",
]
#: not nested in others
MORE = [
    "\\removeWithTag #'a { @ }", "\\tag #'a { @ }", "\\tag a << @ >>", "\\quoteDuring \"x\" { @ }", "\\unfolded { @ }", "\\volta 1 { @ }", "\\appoggiatura { @ }",
    "\\slashedGrace { @ }", "\\once { @ }", "\\notemode { @ }", "\\repeat unfold 2 { f } \\alternative { \\volta 1 { @ } \\volta 2 { g } }", "\\tag #'a \\relative c' { @ }",
    "\\new Staff \\tag #'a { @ }", "\\repeat volta 2 \\tag #'a { @ }", "\\undo { @ }", "\\temporary { @ }", "\\shiftDurations 0 0 { @ }",
]
HEAD = "bar = { e8 f } baz = \\bar foo = { \\tuplet 3/2 { \\bar g } \\baz } "
INNER = [["c"], ["d4.", "8"], ["\\foo", "<e g>8"]]


def texts(tier):
    deep = tier != "quick"
    for w in core.words(LEAF, 4 if deep else 3, 1):
        yield "{ " + " ".join(w) + " }"
    for nest in NEST + MORE:
        for w in core.words(LEAF[:12] if deep else SMALL, 3 if deep else 2, 1):
            yield "{ a4 " + nest.replace("@", " ".join(w)) + " b }"
            if len(w) < 3:
                yield "<< a4 " + nest.replace("@", " ".join(w)) + " >>"
            if len(w) < 3:
                yield nest.replace("@", " ".join(w)) + " { a } xx = " + nest.replace("@", " ".join(w)) + " { \\xx c }"
    for n1 in NEST:
        for n2 in NEST:
            for w in list(core.words(SMALL[:4], 2, 1))[:18] if deep else INNER if n1 in NEST[:8] else INNER[:1]:
                yield "{ " + n1.replace("@", "a8 " + n2.replace("@", " ".join(w)) + " b") + " c' }"
    if deep:
        for n1 in NEST[:12]:
            for n2 in NEST[:12]:
                for n3 in NEST[:12]:
                    for w in INNER[:2]:
                        yield "{ " + n1.replace("@", "a8 " + n2.replace("@", n3.replace("@", " ".join(w)) + " g") + " b") + " c' }"
    for m in ("\\lyricmode { @ }", "\\drummode { @ }", "\\chordmode { @ }", "\\lyricsto \"x\" { @ }", "\\addlyrics { @ }", "\\drums { @ }"):
        a = {"l": ["hoi", "hoi4.", "--", "_8", "\\markup x 2", "8", "\\skip 2", "\\foo"], "a": ["hoi", "hoi4", "__"], "d": ["bd", "sn4.", "<bd sn>8", "r2", "8", "\\foo"], "c": ["c", "d4.:7", "e8/g", "r2", "s1*2", "\\foo"]}[m[1]]
        for w in core.words(a, 3, 1):
            yield m.replace("@", " ".join(w))


class Nodes(core.Family):
    name = "nodes"

    def cases(self, tier):
        for t in texts(tier):
            yield t

    def check(self, text, rec):
        root = docs.parse(HEAD + text)[1]
        player = timeref.play_all(root)
        shared = time.Time()
        nodes = [n for n in root.descendants() if id(n) in player.start]
        if not nodes:
            raise core.Violation("nothing to check", text)
        for n in nodes:
            start, end = player.start[id(n)], player.end[id(n)]
            music = isinstance(n, (lily.Music, lily.Reference))
            for t in (shared, time.Time()):
                res = t.position(n)
                rec.step()
                if res.node is not player.top[id(n)] or res.time != start:
                    raise core.Violation("wrong position", "{!r}: position of {} ({!r}) is {} in {}, should be {}".format(text, n, n.write(), res.time, res.node, start))
                if music:
                    length = t.length(n)
                    rec.step()
                    if length != end - start:
                        raise core.Violation("wrong length", "{!r}: length of {} ({!r}) is {}, should be {}".format(text, n, n.write(), length, end - start))
                    res = t.position(n, True)
                    if res.time != end:
                        raise core.Violation("wrong position with length included", "{!r}: {} is {}, should be {}".format(text, n, res.time, end))
        t = time.Time()
        # the variables that are always there are not combined with everything
        own = [n for n in nodes if n.pos is not None and n.pos >= len(HEAD)]
        full = len(text) < 16
        for a in nodes if full else own + nodes[:1]:
            for b in nodes if full else own + nodes[:1]:
                res = t.duration(a, b)
                rec.step()
                if player.top[id(a)] is not player.top[id(b)]:
                    if res is not None:
                        raise core.Violation("duration between different expressions", "{!r}: {} to {} is {}".format(text, a, b, res))
                    continue
                want = player.end[id(b)] - player.start[id(a)]
                if res is None or res.node is not player.top[id(a)] or res.time != want:
                    raise core.Violation("wrong duration", "{!r}: {} ({!r}) to {} ({!r}) is {}, should be {}".format(text, a, a.write(), b, b.write(), res, want))
        rec.trace()
        rec.state(tuple(sorted(player.start.values())))
        rec.outcome(tuple(player.end[id(n)] for n in nodes))


class Cursor(core.Family):
    name = "cursor"

    def cases(self, tier):
        for t in texts("quick"):
            if tier != "quick" or len(t) < 24 or t.startswith("\\") or t.count("{") > 2 and len(t) % 3 == 0:
                yield t

    def check(self, text, rec):
        doc = docs.document(HEAD + text)
        root = doc.get_transform(True)
        player = timeref.play_all(root)
        nodes = [n for n in root.descendants() if id(n) in player.start and id(n) in player.durations]
        t = time.Time()

        def place(n):
            """Text range of the node with descendants."""
            o = [(p.pos, p.end) for p in n.points() if p.pos is not None]
            return min(p for p, e in o), max(e for p, e in o)

        spots = [(n,) + place(n) for n in nodes if all(type(p).__name__ != "Chord" for p in n.ancestors())]
        for n, pos, end in spots:
            res = t.cursor_position(parce.Cursor(doc, pos))
            rec.step()
            if res is None or res.node is not player.top[id(n)] or res.time != player.start[id(n)]:
                raise core.Violation("wrong cursor position", "{!r}: at {} ({!r}): {}, should be {}".format(text, pos, n.write(), res, player.start[id(n)]))
        for n, pos, _ in spots:
            for m, _, end in spots:
                if end <= pos:
                    continue
                res = t.cursor_duration(parce.Cursor(doc, pos, end))
                rec.step()
                if player.top[id(n)] is not player.top[id(m)]:
                    if res is not None:
                        raise core.Violation("cursor duration between different expressions", "{!r}: {}-{} is {}".format(text, pos, end, res))
                    continue
                want = player.end[id(m)] - player.start[id(n)]
                if want < 0:
                    ok = res is None
                else:
                    ok = res is not None and res.node is player.top[id(n)] and res.time == want
                if not ok:
                    raise core.Violation("wrong cursor duration", "{!r}: {!r} is {}, should be {}".format(text, doc[pos:end], res, want))
        # all other positions do not fail
        for pos in range(len(doc.text()) + 1):
            t.cursor_position(parce.Cursor(doc, pos))
            rec.step()
        rec.trace()
        rec.state(tuple(player.start[id(n)] for n in nodes))


def families():
    return [Nodes(), Cursor()]
