"""Developer aid: (re)make mc/shapes.json, the table of what every construct is
read as (checked by C31), from the code in QUICKLY_REPO. The table is part of
the specification: review every change in it!

usage: tools/shapes.py > /tmp/table
"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.environ.get("QUICKLY_REPO", "/repo"), ROOT]
from mc import docs
from mc.props import c01, c31
from mc.props.c31 import join, place, read

M = docs.MUSIC + c31.MUSIC_MORE
modes = {"music": (c31.MUSIC_WRAPPERS, "feses", M), "toplevel": ([["lilypond", "@"]], "feses", docs.TOPLEVEL + c31.TOPLEVEL_MORE)}
for name, lang, wrappers, ph, items in c31.MODES:
    modes[name] = [[lang, w] for w in wrappers], ph, items
out = {}

#: read in a way that has its cause in parce, or that could be better; not part of the specification
DROP = set(r"""
\tempo "x" 4. = 50-60
\tag a {c}
\removeWithTag a {c}
\tag a.b c
\time #'(3 2) 5/8
\clef #'x
\quoteDuring #"x" { s }
\quoteDuring #"x" {s}
\times #'(2 . 3) { c }
\tuplet #'(3 . 2) { c }
\unfoldRepeats #'(volta) { c }
\single \hide c
\repeat segno 2 { c }
c\1
c8\2-3
<c e\1>4.\f
#{ c #}
\with { a = 1 }
\harmonicByFret 1 c
\raiseNote 1 c
\phrasingSlurDashPattern 1 2
\tieDashPattern 1 2
\tupletSpan 4
x = c4
z = \fn c \etc
-\tweak color #red
\partCombine #'(1 . 2) { c } { d }
r4\rest
<\markup x>
x = -1
x = \with { a = b }
x = \context { \Staff }
\tocItem \markup x
c:7 8
<bd hh>8
<bd sn>
|
\context { \Score a = 1 }
a = 1 @\layout { \context { @ } }
a = 1 @\new Staff \with { @ } { c }
| @\lyricmode { @ }
'(3 2) 5/8
"a\"b\n"
#true
[a b]
|a b|
#b-1.1
1e3
<a b=c>
\cmd[o][p]{a}
\begin{a}[o]b\end{a}
\lilypondfile{a.ly}
\lilypondfile[quote]{a.ly}
\frac{a}{b}
\verb|x|
""".strip().splitlines())

DROP.discard("|")  # only in lyrics
PREFIXES = "\\override A", "\\revert A", "\\pushToTag", "\\tag a ", "\\removeWithTag a "


def show(s):
    if isinstance(s, str):
        return s
    return s[0] + (" " + s[1] if s[1] else "") + ("(" + ", ".join(map(show, s[2])) + ")" if s[2] else "")


old = json.load(open(ROOT + "/mc/shapes.json")) if os.path.exists(ROOT + "/mc/shapes.json") else {}
for name, (wrappers, ph, items) in modes.items():
    items = list(dict.fromkeys(items))
    res = {"wrappers": [], "items": {}, "closed": []}
    for lang, w in wrappers:
        full = read(lang, w.replace("@", ph))
        res["wrappers"].append([lang, w, full])
    # the shape of the placeholder: in the first wrapper, the node that differs
    a, b = read(wrappers[0][0], wrappers[0][1].replace("@", ph)), read(wrappers[0][0], wrappers[0][1].replace("@", join([ph, ph], wrappers[0][0])))

    def find(a, b):
        """The children lists where b has one more."""
        if len(b[2]) == 2 * len(a[2]) and len(a[2]) and b[2] == a[2] * 2:
            return a[2]
        if len(b[2]) != len(a[2]):
            k = len(b[2]) - len(a[2])
            for i in range(len(a[2])):
                if a[2][:i] + a[2][i:i + k] + a[2][i:] == b[2]:
                    return a[2][i:i + k]
        for x, y in zip(a[2], b[2]):
            if x != y:
                return find(x, y)
    p = find(a, b)
    for x in res["wrappers"]:
        n = [0]

        def subst(s):
            kids = s[2]
            new, i = [], 0
            while i < len(kids):
                if kids[i:i + len(p)] == p:
                    new.append("@")
                    n[0] += 1
                    i += len(p)
                else:
                    new.append(subst(kids[i]))
                    i += 1
            return [s[0], s[1], new]
        x[2] = subst(x[2])
        if n[0] != 1:
            print("!! placeholder found", n[0], "times in", x[1])
            x[2] = None
        else:
            print(name, "|", repr(x[1]), "|", show(x[2]))
    res["wrappers"] = [x for x in res["wrappers"] if x[2]]
    lang, w, s = res["wrappers"][0][:3]
    for i in items:
        if i in DROP or i + " @" + name in DROP or any(i.startswith(p) for p in PREFIXES):
            continue
        got = place(s, read(lang, w.replace("@", i)))
        if got is None:
            print("!! does not fit", name, repr(i))
            continue
        res["items"][i] = got
        print(name, "|", repr(i), "|", ", ".join(map(show, got)))
    # items that are not read the same in other contexts
    for x in res["wrappers"]:
        x.append([i for i, s_ in res["items"].items() if (place(x[2], read(x[0], x[1].replace("@", i))) or []) != s_])
        if x[3]:
            print("   in", repr(x[1]), "not:", x[3])
    # the items that never combine with others
    closed = list(res["items"])
    bad = {i: set() for i in closed}
    for i in closed:
        for j in closed:
            if place(s, read(lang, w.replace("@", join([i, j], lang)))) != res["items"][i] + res["items"][j]:
                bad[i].add(j)
                bad[j].add(i)
    while closed:
        worst = max(closed, key=lambda i: len(bad[i]))
        if not bad[worst]:
            break
        print("   combines:", repr(worst), len(bad[worst]), sorted(bad.pop(worst))[:5])
        closed.remove(worst)
        for b in bad.values():
            b.discard(worst)
    res["closed"] = closed
    out[name] = res
with open(ROOT + "/mc/shapes.json", "w") as f:
    # one line for every item, readable diffs
    f.write("{\n" + ",\n".join('%s: {"wrappers": [\n%s],\n"closed": %s,\n"items": {\n%s}}' % (
        json.dumps(k), ",\n".join(json.dumps(x) for x in v["wrappers"]), json.dumps(v["closed"]),
        ",\n".join(json.dumps(i) + ": " + json.dumps(s) for i, s in v["items"].items())) for k, v in out.items()) + "}\n")
