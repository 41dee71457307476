r"""C18: duration_getter and previous_duration, all query histories."""

import itertools

from mc import core, docs
from mc import rhythmref as ref
from quickly.dom import lily

BOUNDS = {
    "quick": "all sequences up to length 4 of 11 items and up to length 3 of 26 items (durables of all kinds, chords, skips, nested lists, markup scores, comments, two expressions), lyric, drum and chord mode; "
             "with one getter all sequences of 3 queries, and all orders of querying all the durables (up to 5), and querying all in both directions twice; previous_duration for every node",
    "thorough": "sequences up to length 5 of 11 items, length 4 of 15 items and 3 of 26 items; all sequences of 4 queries; all orders up to 6 durables",
}
ASSUMPTIONS = ["the duration of single notes inside a chord is not specified"]

SMALL = ["c", "d8", "e2.", "\\skip 16", "<f a>", "{ c }", "{ c8*2 d }", "r", "} {", "s1", "c-."]
MORE = SMALL + ["<f a>8", "8", "q", "\\skip { c16 }", "\\grace c16", "\\tuplet 3/2 8 { c }", "R1*3", "%{ x %}", "\\tempo 2 = 60", "<< { c16 } { d } >>",
                "c^\\markup \\score { { e'32 } }", "c2^\\markup \\score { { e' } }", "} \\layout { } x = {", "a\\rest", "\\breve", "c4*1/3"]
LYRIC = ["hoi", "doe8", "2", "--", "\\skip 4", "_", "\\markup x", "\\markup x 16", "\"wil\""]
DRUM = ["bd", "sn8", "<bd hh>", "<bd hh>2", "16"]
CHORD = ["c", "d8:7", "e/g", "r2", "s"]


class Histories(core.Family):
    name = "histories"

    def cases(self, tier):
        deep = tier != "quick"
        for w in core.words(SMALL, 5 if deep else 4, 1):
            yield "{ # }", w
        for w in core.words(MORE, 4 if deep else 3, 1):
            if len(w) < 4 or all(i in MORE[:15] for i in w):
                yield "{ # }", w
        for w in core.words(SMALL[:4], 3, 0):
            yield "{ d16 \\skip 2 }  y = { # } \\score { { # c } }", w
        for mode, items in (("lyric", LYRIC), ("drum", DRUM), ("chord", CHORD)):
            for w in core.words(items, 4 if deep else 3, 1):
                yield "\\%smode { # }" % mode, w

    def check(self, case, rec):
        template, items = case
        text = template.replace("#", " ".join(items))
        root = docs.parse(text)[1]
        nodes = ref.durables(root)
        eff = dict(zip(map(id, nodes), ref.effective(nodes)))
        n = len(nodes)

        def run(history):
            get = lily.duration_getter()
            for k, node in enumerate(history):
                res = get(node)
                rec.step()
                if tuple(res) != eff[id(node)]:
                    raise core.Violation("wrong duration", "{!r}: {} as query {} of {}: {} should be {}".format(
                        text, node, k + 1, [nodes.index(h) for h in history], res, eff[id(node)]))
        for history in itertools.product(nodes, repeat=3 if n > 3 else 4):
            run(history)
        if n <= 5:
            for history in itertools.permutations(nodes):
                run(history)
        run(nodes + nodes[::-1] + nodes)
        run(nodes[::-1] + nodes)
        # any node
        cur = None

        def walk(node):
            nonlocal cur
            for m in node:
                name = type(m).__name__
                if not isinstance(m, (lily.Duration, lily.ChordBody)):
                    res = lily.previous_duration(m)
                    rec.step()
                    if tuple(res) != (cur or (0.25, 1)):
                        raise core.Violation("wrong previous duration", "{!r}: {} has {} should be {}".format(text, m, res, cur))
                if name in ref.NAMES and not ref.is_skip(m) and ref.own(m):
                    cur = ref.own(m)
                if name != "ChordBody":
                    walk(m)
        walk(root)
        rec.trace()
        rec.state(tuple(eff.values()))
        rec.outcome(cur)


def families():
    return [Histories()]
