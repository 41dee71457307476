r"""A reference interpreter of sounding pitches, for DOM trees just read from text.

It interprets ``\relative``, ``\fixed``, ``\absolute``, ``\transpose``, chords,
octave checks and language commands, straight from the definition in the
LilyPond manual, and does not use quickly.pitch, quickly.transpose or
quickly.relative.
"""

import collections

from parce.lang.lilypond_words import pitch_names as TABLE
from quickly.dom import base, lily
from mc import rhythmref

#: kind: note, start (of \relative), fixed, control (of \octaveCheck), key,
#: inversion, transposition, tuning, interval (\transpose argument)
#: pitch: the sounding pitch (octave, note, alter), for arguments the pitch as
#: written; check: the octave of the octave check or None
Entry = collections.namedtuple("Entry", "kind node pitch written check relative")


def ref_language(node):
    for n in node:
        if isinstance(n, lily.String):
            name = n.head
            if isinstance(node, lily.Include):
                name = name[:-3] if name.endswith(".ly") else None
            return name if name in TABLE else None


def marks_of(node):
    """The octave of an Octave or OctCheck node."""
    text = rhythmref.source(node)
    return node.head if text is None else text.count("'") - text.count(",")


class Interpreter:
    def __init__(self, first_absolute=None, language="nederlands"):
        self.first_absolute = first_absolute
        self.language = language
        self.entries = []

    def run(self, root):
        if self.first_absolute is None:
            self.first_absolute = False
            for v in root // lily.Version:
                self.first_absolute = tuple(v.version) >= (2, 18)
                break
        self.walk(root, None, 0)
        return self.entries

    def written(self, node):
        o, n, a = TABLE[self.language][node.head]
        marks = check = 0
        default = o
        for c in node:
            if isinstance(c, lily.Octave):
                marks += marks_of(c)
        check = None
        for c in node:
            if isinstance(c, lily.OctCheck):
                check = default + marks_of(c)
        return (o + marks, n, a), marks, check

    @staticmethod
    def resolve(last, note, alter, marks):
        """The pitch for a relative note: nearest to last, then the octave marks."""
        step = last[0] * 7 + last[1]
        for s in range(step - 3, step + 4):
            if s % 7 == note:
                return (s // 7 + marks, note, alter)

    def add(self, kind, node, pitch, check=None, relative=False):
        self.entries.append(Entry(kind, node, pitch, self.written(node)[0], check, relative))

    def pitches(self, node, kind):
        """All pitches in node, as written."""
        for n in node:
            if isinstance(n, lily.Pitchable):
                self.add(kind, n, self.written(n)[0])
            else:
                self.pitches(n, kind)

    def note(self, n, rel, offset):
        """Handle a note; rel is a one-item list with the last pitch, or None."""
        w, marks, check = self.written(n)
        if rel is None:
            p = (w[0] + offset, w[1], w[2])
        else:
            # a name that itself has another octave than -1 does not exist in the languages used
            p = self.resolve(rel[0], w[1], w[2], marks)
            p = (p[0], p[1], p[2])
            rel[0] = p
            p = (p[0] + offset, p[1], p[2])
        self.add("note", n, p, check, rel is not None)
        # e.g. inversions, music in markup
        self.walk(n, None, 0)

    def walk(self, node, rel, offset):
        for n in node:
            if isinstance(n, (lily.Language, lily.Include)):
                self.language = ref_language(n) or self.language
            elif isinstance(n, lily.Pitchable):
                self.note(n, rel, offset)
            elif isinstance(n, lily.Chord):
                if rel is None:
                    self.walk(n, None, offset)
                    continue
                first = None
                inner = [rel[0]]
                for body in n:
                    if isinstance(body, lily.ChordBody):
                        for m in body:
                            if isinstance(m, lily.Pitchable):
                                self.note(m, inner, offset)
                                if first is None:
                                    first = inner[0]
                    else:
                        self.walk(body, None, 0)
                if first is not None:
                    rel[0] = first
            elif isinstance(n, (lily.Key,)):
                self.pitches(n, "key")
            elif isinstance(n, lily.Inversion):
                self.pitches(n, "inversion")
            elif isinstance(n, lily.Transposition):
                self.pitches(n, "transposition")
            elif isinstance(n, lily.StringTuning):
                self.pitches(n, "tuning")
            elif isinstance(n, lily.OctaveCheck):
                self.pitches(n, "control")
                if rel is not None:
                    # the following is relative to the control pitch
                    rel[0] = self.entries[-1].pitch
            elif isinstance(n, lily.Markup):
                self.walk(n, None, 0)
            elif isinstance(n, lily.Absolute):
                self.walk(n, None, 0)
            elif isinstance(n, lily.Relative):
                args = [c for c in n if not isinstance(c, base.Comment)]
                if len(args) > 1 and isinstance(args[0], lily.Pitchable):
                    self.add("start", args[0], self.written(args[0])[0])
                    last = self.entries[-1].pitch
                    args = args[1:]
                else:
                    last = (-1, 3, 0) if self.first_absolute else (0, 0, 0)
                self.walk(args, [last], 0)   # not affected by \fixed
            elif isinstance(n, lily.Fixed):
                args = [c for c in n if not isinstance(c, base.Comment)]
                self.add("fixed", args[0], self.written(args[0])[0])
                o = self.entries[-1].pitch[0] + 1
                self.walk(args[1:], None, o)
            elif isinstance(n, lily.Transpose):
                args = [c for c in n if not isinstance(c, base.Comment)]
                for a in args[:2]:
                    self.add("interval", a, self.written(a)[0])
                self.walk(args[2:], None, offset)
            else:
                self.walk(n, rel, offset)


def sounding(root, first_absolute=None, language="nederlands"):
    return Interpreter(first_absolute, language).run(root)


NAMES = {}
for _lang, _d in TABLE.items():
    for _name, (_o, _n, _a) in _d.items():
        NAMES.setdefault((_lang, _n, _a), (_name, _o))


def text(pitch, language="nederlands"):
    """A text for the pitch in absolute notation."""
    name, o = NAMES[language, pitch[1], pitch[2]]
    k = pitch[0] - o
    return name + ("'" * k if k > 0 else "," * -k)


def blank_shape(node):
    """Structure of a tree, without the pitches."""
    if isinstance(node, (lily.Octave, lily.OctCheck)):
        return None
    from quickly.dom import element
    return (type(node).__name__, repr(node.head) if isinstance(node, element.TextElement) and not isinstance(node, lily.Pitchable) else None,
            tuple(s for s in map(blank_shape, node) if s is not None))
