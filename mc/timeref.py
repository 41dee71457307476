r"""A reference interpreter of musical time, for DOM trees read from text.

Plays the music from the beginning with a clock: sequential music advances the
clock, in simultaneous music every part starts at the same time, grace notes
take no time, tuplets etc. change the length of the notes in them; a repeat is
played once, as written; a variable is looked up before it is used, and played
in place. Effective durations are determined by one pass over the text (see
rhythmref). Does not use quickly.time, quickly.duration or any of the methods of
the nodes.
"""

from fractions import Fraction as F

from mc import rhythmref

SEQUENTIAL = ("MusicList", "Repeat")
IDENTITY = (0, 0, F(1))


def shifted(dur, log, dots):
    """Shift the duration, the slow way."""
    for b in range(4, -20, -1):
        base = F(2) ** b
        for n in range(16):
            if dur == base * (2 - F(1, 2 ** n)):
                return base / F(2) ** log * (2 - F(1, 2 ** max(0, n + dots)))
    raise ValueError(dur)


def number(node):
    """Numeric value of an Int, Fraction, Unpitched or Scheme node."""
    parts = [rhythmref.source(n) for n in (node, *node.descendants())]
    text = node.write() if None in parts else "".join(parts)
    return F(text.strip().lstrip("#$").strip())


class Player:
    def __init__(self, root, resolve=None):
        """Root is the Document; resolve a function(reference) -> node, Player."""
        self.root = root
        self.resolve = resolve or self.lookup
        nodes = rhythmref.durables(root)
        self.durations = {id(n): d for n, d in zip(nodes, rhythmref.effective(nodes))}
        self.start = {}     # start time for every node
        self.end = {}       # end time for every node
        self.top = {}       # toplevel music expression of every node
        self.keep = nodes

    def lookup(self, node):
        """Find the last definition before the node."""
        name = node.head
        while node.parent is not None:
            parent = node.parent
            i = [id(n) for n in parent].index(id(node))
            if type(parent).__name__ in ("Document", "Header"):
                for n in reversed(parent[:i]):
                    if type(n).__name__ == "Assignment":
                        ident = n[0].write().strip()
                        if ident == name or ident == '"' + name + '"':
                            return n[-1], self
            node = parent
        return None

    def play(self, node, t=F(0), tr=IDENTITY, top=None, record=True):
        """Play the node, return the time it ends."""
        name = type(node).__name__
        top = top or node
        if record:
            self.start[id(node)] = t
            self.top[id(node)] = top
            self.keep.append(node)
        end = t
        if name == "IdentifierRef":
            seen = self.resolve(node)
            if seen:
                value, player = seen
                if is_music(value) or type(value).__name__ == "IdentifierRef":
                    end = player.play(value, t, tr, None, False)
        elif name == "Skip" and rhythmref.own(node) is None:
            for n in node:
                end = max(end, self.play(n, t, tr, top, record))
        elif id(node) in self.durations:
            if not (name == "Chord" and not any(type(n).__name__ == "Note" for n in node[0])):
                dur, scale = self.durations[id(node)]
                end = t + shifted(dur, tr[0], tr[1]) * scale * tr[2]
            for n in node:
                self.mark(n, t, top, record)
        elif is_music(node):
            inner = tr
            nums = [n for n in node if type(n).__name__ in ("Fraction", "Int", "Scheme", "Unpitched")]
            if name == "Tuplet":
                inner = tr[0], tr[1], tr[2] / number(nums[0])
            elif name in ("Times", "ScaleDurations"):
                inner = tr[0], tr[1], tr[2] * number(nums[0])
            elif name == "ShiftDurations":
                inner = tr[0] + int(number(nums[0])), tr[1] + int(number(nums[1])), tr[2]
            elif name in ("Grace", "Acciaccatura", "Appoggiatura", "Slashedgrace", "SlashedGrace"):
                inner = tr[0], tr[1], F(0)
            sequential = name in SEQUENTIAL and not type(node.parent).__name__ == "Simultaneous"
            clock = t
            first = True
            for n in node:
                if name == "AfterGrace" and is_music(n):
                    if first:
                        end = max(end, self.play(n, clock, inner, top, record))
                        first = False
                    continue    # position of the grace notes is unspecified
                e = self.play(n, clock, inner, top, record)
                end = max(end, e)
                if sequential:
                    clock = e
        if record:
            self.end[id(node)] = end
        return end

    def mark(self, node, t, top, record):
        """Children of a durable have the same position."""
        if record:
            self.start[id(node)] = self.end[id(node)] = t
            self.top[id(node)] = top
            self.keep.append(node)


MUSIC = set("""Note Chord Unpitched Rest MultiMeasureRest PitchedRest Space Skip Q Drum LyricItem LyricText LyricSkip
    Pitch MusicFunction Context New Change QuoteDuring Relative Absolute Fixed Transpose Repeat Alternative UnfoldRepeats Unfolded
    Volta Transposition Ottava MusicList SimultaneousMusicList Sequential Simultaneous InputMode NoteMode DrumMode LyricMode ChordMode FigureMode
    After Bar Breathe Mark Tempo Key Clef Time Partial Times Tuplet ScaleDurations ShiftDurations Grace Acciaccatura Appoggiatura
    SlashedGrace Slashedgrace AfterGrace PartCombine Figure Omit Hide Undo Once Temporary Override Revert Set Unset Tag KeepWithTag RemoveWithTag""".split())


def is_music(node):
    return type(node).__name__ in MUSIC


def play_all(root, resolve=None):
    """Play all the music in the document; return the Player."""
    p = Player(root, resolve)

    def walk(node):
        for n in node:
            if is_music(n):
                p.play(n)
            elif type(n).__name__ not in ("Markup",):
                walk(n)
    walk(root)
    return p
