r"""C14: relative <-> absolute, against a reference interpreter of sounding pitch."""

from mc import core, docs, music
from mc.props import c13
from quickly.dom import base, element, lily
from quickly.node import Range
from quickly.pitch import PitchProcessor
from quickly.relative import Abs2rel, Rel2abs

BOUNDS = {
    "quick": "relative to absolute: all sequences up to length 3 of 18 music items (notes with octave marks and passing octave checks, chords, pitched rests, nested lists, relative/absolute/fixed/transposed sections, octave check commands, keys, "
             "comments) in 3 wrappers, up to length 2 of 24 items in 12 wrappers; absolute to relative: the same for 8 wrappers, 5 option combinations, and back again; every selection of nodes (all pairs of nodes) for sequences of length 1",
    "thorough": "as quick, sequences up to length 3 in 7 (5) wrappers, up to length 4 of 12 (11) items in two (one) wrappers, selections for sequences up to length 2",
}
ASSUMPTIONS = ["the reference interpreter (mc/music.py) follows the LilyPond notation manual, except that \\chordmode is affected by \\relative, as the test suite prescribes; an \\octaveCheck in the explored music always passes",
               "\\relative and \\absolute music inside \\fixed is not affected by \\fixed; music in \\fixed needs not become relative"]

ITEMS = ["c", "e'", "b,", "fis", "<c g' e,>", "g=@", "\\octaveCheck @", "a\\rest", "{ g' }", "<< { e } { b' } >>",
         "\\relative { f c' }", "\\relative g' { b }", "\\absolute { a' }", "\\fixed f, { d' }", "<>", "<d=@ a'>8-.", "q", "\\relative c { \\relative e' { g b } d }"]
MORE = ["\\key d \\major", "\\transposition f'", "r4", "%{ x %}", "\\transpose c es { b' }", "ces''", "c4^\\markup \\score { { e' } }", "\\repeat unfold 2 { a b' }", "\\relative %{ y %} a' d", "\\chordmode { g/b }", "\\absolute { \\relative c' { f a } }"]
REL = {
    "rel": "\\relative c' { # }",
    "rel-new": "\\version \"2.24.0\" \\relative { # }",
    "rel-high": "x = \\relative %{ c %} bes'' { # }",
    "rel-old": "\\version \"2.12.0\" \\relative { # }",
    "rel-unknown": "\\relative { # }",
    "english": "\\language \"english\" \\relative c' { # }",
    "two": "\\relative c' { # } \\relative f { # }",
    "chordmode": "\\relative c'' \\chordmode { # }",
    "simul": "\\relative f <<\n{ # }\n\\\\\n{ # }\n>>",
    "inner": "{ c \\relative b { # } d' }",
    "voice": "\\score { \\new Staff \\relative a { # } }",
    "lang-rel": "\\relative c' { a \\language \"english\" # } \\relative { bf }",
    "fixed-rel": "\\fixed c'' { \\relative d' { # } c }",
    "lang-inside": "\\relative c' { # \\language \"english\" } { \\language \"nederlands\" }",
}
ABS = {
    "abs": "{ # }",
    "after": "{ d'' # }",
    "new": "\\version \"2.24.0\" { # }",
    "english": "\\language \"english\" { # }",
    "list": "{ { # } { # } }",
    "simul": "<<\n{ # }\n\\\\\n{ # }\n>>",
    "score": "\\score { \\new Staff << \\new Voice { # } >> }",
    "absolute": "\\absolute { # }",
    "chordmode": "\\chordmode { # }",
    "transpose": "\\transpose c d { # }",
    "fixed": "\\fixed c'' { # }",
    "lang": "{ a \\language \"english\" # } { bf }",
}
ENGLISH = {"fis": "fs", "ces''": "cf''", "\\transpose c es { b' }": "\\transpose c ef { b' }"}


def render(wrap, items, absolute):
    """Text for the items; "=@" becomes a check that passes, "@" the pitch in front."""
    if "english" in wrap and "nederlands" not in wrap:
        items = [ENGLISH.get(i, i) for i in items]
    if "chordmode" in wrap and any("<" in i or "rest" in i or "fixed" in i or "relative" in i or "absolute" in i or "transpose" in i for i in items):
        return None
    if wrap.count("#") > 1 and any("@" in i for i in items):
        return None
    if absolute and any("@" in i and i.startswith("\\") for i in items):
        return None
    out = []
    for i in items:
        if i.startswith("\\octaveCheck"):
            # the control pitch equals the previous note: relative to that, or to the
            # control pitch, is the same
            e = [e for e in music.sounding(docs.parse(wrap.replace("#", " ".join(out)))[1]) if e.kind in ("note", "start", "control")]
            t2 = wrap.replace("#", " ".join(out + ["c"]))
            c = music.sounding(docs.parse(t2)[1])[-1].pitch
            i = "\\octaveCheck " + music.text(c, "english" if "english" in wrap and "nederlands" not in wrap else "nederlands")
        elif "=@" in i:
            t = wrap.replace("#", " ".join(out + [i.replace("=@", "")]))
            e = [e for e in music.sounding(docs.parse(t)[1]) if e.kind == "note"]
            n = 2 if i.startswith("<") else 1
            if "inner" in wrap or "d' }" in wrap:
                n += 1
            p = e[-n].pitch
            k = p[0] + 1
            i = i.replace("=@", "=" + ("'" * k if k > 0 else "," * -k))
        out.append(i)
    return wrap.replace("#", " ".join(out))


def blank(node):
    r"""The structure without pitches, \relative commands, and octave checks."""
    if isinstance(node, (lily.Octave, lily.OctCheck, lily.OctaveCheck, base.Comment)):
        return []
    if isinstance(node, lily.Document):
        # where a comment is in the tree, depends on what is next to it
        return [[n.write() for n in node // base.Comment], [s for n in node for s in blank(n)]]
    if isinstance(node, lily.Relative):
        args = [n for n in node if not isinstance(n, base.Comment)]
        start = args[0] if len(args) > 1 and isinstance(args[0], lily.Pitchable) else None
        return [s for n in node if n is not start for s in blank(n)]
    if isinstance(node, lily.Absolute) and any(isinstance(a, lily.Fixed) for a in node.ancestors()):
        # the way to write absolute music there
        return [s for n in node for s in blank(n)]
    head = repr(node.head) if isinstance(node, element.TextElement) else None
    return [(type(node).__name__, head, tuple(s for n in node for s in blank(n)))]


def notes(root, first=None, language="nederlands"):
    return [e for e in music.sounding(root, first, language) if e.kind not in ("start", "control")]


def same(what, before, after, text, result):
    """Every note sounds the same."""
    a = [(e.kind, e.pitch) for e in before]
    b = [(e.kind, e.pitch) for e in after]
    if a != b:
        raise core.Violation("{}: a pitch sounds differently".format(what), "{!r} became {!r}: {} became {}".format(text, result, a, b))


def has_notes(mlist):
    return any(isinstance(n, lily.Pitchable) or
        isinstance(n, lily.Chord) and any(isinstance(m, lily.Pitchable) for b in n if isinstance(b, lily.ChordBody) for m in b) for n in mlist)


def check_relative_notation(root, text, result):
    """After Abs2rel every list with notes is relative."""
    for n in root // lily.MusicList:
        if has_notes(n) and not any(isinstance(a, (lily.Relative, lily.Absolute, lily.Fixed, lily.Transpose, lily.Markup)) for a in n.ancestors()):
            raise core.Violation("music is not relative after converting", "{!r} became {!r}".format(text, result))


class ToAbsolute(core.Family):
    name = "to-absolute"

    def cases(self, tier):
        deep = tier != "quick"
        for mode in REL:
            for w in core.words(ITEMS + MORE, 2, 0):
                yield [mode, w]
        for mode in ("rel", "rel-new", "rel-high") if not deep else ("rel", "rel-new", "rel-high", "rel-old", "simul", "inner", "english"):
            for w in core.words(ITEMS, 3, 3):
                yield [mode, w]
        if deep:
            for mode in ("rel", "rel-new"):
                for w in core.words(ITEMS[:12], 4, 4):
                    yield [mode, w]

    def check(self, case, rec):
        mode, items = case
        text = render(REL[mode], items, False)
        if text is None:
            return
        options = [(None, None)]
        if mode in ("rel-new", "rel-unknown"):
            options += [(True, True), (False, False)]
        for opt, first in options:
            if opt is not None and any("@" in i for i in items):
                continue
            d = docs.parse(text)[1]
            before = notes(d, first)
            bl = blank(d)
            Rel2abs(first_pitch_absolute=opt).edit_node(d)
            result = d.write()
            d1 = docs.parse(result)[1]
            rec.step()
            if any(d1 // lily.Relative):
                raise core.Violation("\\relative left after converting to absolute", "{!r} became {!r}".format(text, result))
            same("to absolute", before, notes(d1, first), text, result)
            if blank(d1) != bl:
                raise core.Violation("converting to absolute changes something else", "{!r} became {!r}".format(text, result))
            Rel2abs(first_pitch_absolute=opt).edit_node(d)
            if d.write() != result:
                raise core.Violation("converting to absolute twice differs", "{!r}: {!r} became {!r}".format(text, result, d.write()))
            rec.outcome(result)
        rec.trace(len(options))
        rec.state([e.pitch for e in before])


OPTIONS = [(True, None), (False, None), (False, True), (False, False), (True, True)]


class ToRelative(core.Family):
    name = "to-relative"

    def cases(self, tier):
        deep = tier != "quick"
        for mode in ABS:
            for w in core.words(ITEMS + MORE, 2, 0):
                yield [mode, w]
        for mode in ("abs",) if not deep else ("abs", "after", "new", "simul", "list"):
            for w in core.words(ITEMS, 3, 3):
                yield [mode, w]
        if deep:
            for w in core.words(ITEMS[:11], 4, 4):
                yield ["abs", w]

    def check(self, case, rec):
        mode, items = case
        text = render(ABS[mode], items, True)
        if text is None:
            return
        for start, opt in OPTIONS if len(items) < 3 else OPTIONS[:3]:
            d = docs.parse(text)[1]
            before = notes(d, opt)
            bl = blank(d)
            Abs2rel(start_pitch=start, first_pitch_absolute=opt).edit_node(d)
            result = d.write()
            d1 = docs.parse(result)[1]
            rec.step()
            same("to relative", before, notes(d1, opt), text, result)
            if blank(d1) != bl:
                raise core.Violation("converting to relative changes something else", "{!r} became {!r}".format(text, result))
            check_relative_notation(d1, text, result)
            old = len(list(docs.parse(text)[1] // lily.Relative))
            started = sum(e.kind == "start" for e in music.sounding(d1, opt))
            before_started = sum(e.kind == "start" for e in music.sounding(docs.parse(text)[1], opt))
            new = len(list(d1 // lily.Relative)) - old
            if started - before_started != (new if start and any(e.kind == "note" for e in before) else 0):
                # a list with only an empty chord has no start pitch
                raise core.Violation("start pitch of \\relative not as specified", "{!r} start_pitch={} became {!r}".format(text, start, result))
            Abs2rel(start_pitch=start, first_pitch_absolute=opt).edit_node(d)
            if d.write() != result:
                raise core.Violation("converting to relative twice differs", "{!r}: {!r} became {!r}".format(text, result, d.write()))
            # and back
            Rel2abs(first_pitch_absolute=opt).edit_node(d)
            back = d.write()
            d2 = docs.parse(back)[1]
            same("to relative and back", before, notes(d2, opt), text, back)
            if any(d2 // lily.Relative):
                raise core.Violation("\\relative left after converting to absolute", "{!r} became {!r}".format(text, back))
            if not any("relative" in i for i in items) and back != docs.parse(text)[1].write():
                raise core.Violation("converting to relative and back gives another text", "{!r} became {!r}".format(text, back))
            rec.outcome(result)
        rec.trace(len(OPTIONS))
        rec.state([e.pitch for e in before])


class Make(core.Family):
    """Abs2rel.make_relative() and a pitch processor in another language."""
    name = "make"

    def cases(self, tier):
        for w in core.words([i for i in ITEMS if "@" not in i], 2 if tier == "quick" else 3, 0):
            yield w

    def check(self, items, rec):
        text = "{ " + " ".join(items) + " }"
        for start, opt in OPTIONS:
            d = docs.parse("\\language \"nederlands\" " + text)[1]
            before = notes(d, opt)
            n = next(d / lily.MusicList)
            rel = Abs2rel(PitchProcessor("english"), start, opt).make_relative(n)
            if not isinstance(rel, lily.Relative) or rel[-1] is not n:
                raise core.Violation("make_relative does not return a Relative node with the music", text)
            result = rel.write()
            same("make_relative", before, notes(docs.parse(result)[1], opt), text, result)
            # english names
            text1 = "{ " + " ".join(ENGLISH.get(i, i) for i in items) + " }"
            for edit in (Abs2rel(PitchProcessor("english"), start, opt), Rel2abs(PitchProcessor("english"), opt)):
                d = docs.parse(text1)[1]
                before1 = notes(d, opt, "english")
                edit.edit_node(d)
                same("with a processor", before1, notes(docs.parse(d.write())[1], opt, "english"), text1, d.write())
            rec.step(3)
        rec.trace()
        rec.outcome(result)


SEL = {
    "rel": "{ e' \\relative c' { # } f } \\relative f { d } g",
    "abs": "{ e' # f } { d' { c' } }",
    "english": "\\language \"english\" { ef' \\relative c' { # } } { fs' g }",
}


class Selection(core.Family):
    name = "selection"

    def cases(self, tier):
        for mode in SEL:
            for w in core.words([i for i in ITEMS if "@" not in i] + MORE[4:], 1 if tier == "quick" else 2, 1):
                yield [mode, w]

    def check(self, case, rec):
        mode, items = case
        text = render(SEL[mode], items, mode == "abs")
        d0 = docs.parse(text)[1]
        before = notes(d0)
        bl = blank(d0)
        count = len(list(d0.descendants()))
        for i in range(count):
            for j in range(i, count):
                if len(list(d0.descendants())[j]):
                    continue    # let the selection end with a complete node
                for from_root in (False, True):
                    for edit in (Rel2abs(), Abs2rel(), Abs2rel(start_pitch=False)):
                        d = d0.copy()
                        nodes = list(d.descendants())
                        texts = [n.write() for n in nodes]
                        r = Range.from_nodes(nodes[i], nodes[j], from_root)
                        # nodes without anything of the selection in them
                        outside = [k for k, n in enumerate(nodes) if not any(x in r for x in [n, *n.descendants()])]
                        full = [n for n in nodes if isinstance(n, (lily.Relative if isinstance(edit, Rel2abs) else lily.MusicList))
                                and n is not r.ancestor() and n in r and not any(isinstance(a, (lily.Relative, lily.Transpose, lily.Absolute, lily.Fixed, lily.Markup, lily.ChordMode)) for a in n.ancestors())]
                        edit.edit_range(r)
                        result = d.write()
                        d1 = docs.parse(result)[1]
                        rec.step()
                        where = "{!r}, {} to {} became {!r}".format(text, nodes[i], nodes[j], result)
                        same("selection", before, notes(d1), where, result)
                        if blank(d1) != bl:
                            raise core.Violation("converting a selection changes something else", where)
                        for k in outside:
                            if nodes[k].write() != texts[k]:
                                raise core.Violation("text outside the selection is changed", where)
                        for n in full:
                            if isinstance(edit, Rel2abs):
                                if any(n is x for x in d.descendants()):
                                    raise core.Violation("selected \\relative music is not converted", where)
                            elif has_notes(n) and not any(isinstance(a, lily.Relative) for a in n.ancestors()):
                                raise core.Violation("selected music is not converted to relative", where)
                        rec.outcome(result)
        rec.trace()


def families():
    return [ToAbsolute(), ToRelative(), Make(), Selection()]
