r"""A reference interpreter of effective durations, for DOM trees read from text.

From the definition in the LilyPond manual: a note, rest, chord etc. without
duration has the duration of the one before it in the text, \skip does not
count, the default is 4. Does not use quickly.rhythm or quickly.duration.
"""

from fractions import Fraction

from quickly.dom import base, element, lily

NAMES = ("Note", "Chord", "Unpitched", "Rest", "MultiMeasureRest", "PitchedRest", "Space", "Skip", "Q", "Drum",
         "LyricItem", "LyricText", "LyricSkip")


def durables(root):
    """All nodes that have a duration, in text order."""
    res = []

    def walk(node):
        for n in node:
            name = type(n).__name__
            if name in NAMES and not (name == "Skip" and own(n) is None):
                res.append(n)
            if name != "ChordBody":
                walk(n)
    walk(root)
    return res


LONG = {"\\breve": 2, "\\longa": 4, "\\maxima": 8}


def source(node):
    """The original text of the head of a node that is not modified, else None."""
    if getattr(node, "head_origin", None) and not node.head_point().modified:
        return "".join(t.text for t in node.head_origin)


def duration_value(node):
    text = source(node)
    if text is None:
        return Fraction(node.head)
    base = text.rstrip(". ")
    value = add = Fraction(LONG[base]) if base in LONG else Fraction(1, int(base))
    for dot in text[len(base):].replace(" ", ""):
        add /= 2
        value += add
    return value


def scaling_value(node):
    text = source(node)
    if text is None:
        return Fraction(node.head)
    value = Fraction(1)
    for factor in text.replace("*", " ").split():
        value *= Fraction(factor)
    return value


def own(node):
    """The (duration, scaling) in the text."""
    for d in node:
        if type(d).__name__ == "Duration":
            s = Fraction(1)
            for c in d:
                if type(c).__name__ == "DurationScaling":
                    s *= scaling_value(c)
            return duration_value(d), s


def is_skip(node):
    return type(node).__name__ == "Skip"


def effective(nodes, start=(Fraction(1, 4), Fraction(1))):
    """The list of effective durations."""
    cur = start
    res = []
    for n in nodes:
        d = own(n)
        res.append(d or cur)
        if d and not is_skip(n):
            cur = d
    return res


def bare(node):
    """True if only the duration of the node is visible in the text."""
    name = type(node).__name__
    return name == "Unpitched" or name == "LyricItem" and all(type(n).__name__ in ("Duration", "Comment") or isinstance(n, base.Comment) for n in node)


def blank(node):
    """Structure without the durations of the durables."""
    out = []
    for n in node:
        if type(n).__name__ == "Duration" and type(node).__name__ in NAMES:
            continue
        out.append(blank(n))
    return (type(node).__name__, repr(node.head) if isinstance(node, element.TextElement) else None, tuple(out))


def follows_bare(nodes, i):
    """True if the next durable has only a duration."""
    return i + 1 < len(nodes) and bare(nodes[i + 1])
