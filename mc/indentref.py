"""A reference for indented output.

The text pieces of a DOM tree are listed in order, with the blocks that are
open around them; from the pieces that start a line the column of every line
is computed by the documented rules.  The output of the library is only split
in the same pieces, and compared."""

from quickly.dom import element


class Piece:
    """One head or tail text."""
    def __init__(self, text, node, tail, stack):
        self.text = text
        self.node = node
        self.tail = tail
        self.stack = stack      # the indenting blocks around it, outermost first


def pieces(node):
    """All pieces in order, and per indenting block the index of the first
    piece of every child."""
    result = []
    starts = {}

    def visit(node, stack):
        head = node.write_head()
        if head:
            result.append(Piece(head, node, False, stack))
        inner = stack + (node,) if node.indent_children() else stack
        for i, child in enumerate(node):
            n = len(result)
            visit(child, inner)
            if inner is not stack and len(result) > n:
                starts[id(node), i] = n
        tail = node.write_tail()
        if tail:
            result.append(Piece(tail, node, True, stack))
    visit(node, ())
    return result, starts


def locate(text, parts):
    """Find the pieces in the text; return a list of (whitespace before, line
    number, column, column of the start of the line's text), or None if the
    text is something else than the pieces with whitespace between them; and
    the rest."""
    result = []
    pos = 0
    for p in parts:
        start = pos
        while pos < len(text) and text[pos] in " \n" and not (text.startswith(p.text, pos) and p.text[0] in " \n"):
            pos += 1
        if not text.startswith(p.text, pos):
            return None, text[start:]
        line = text.count("\n", 0, pos)
        bol = text.rfind("\n", 0, pos) + 1
        result.append((text[start:pos], line, pos - bol))
        pos += len(p.text)
    return result, text[pos:]


def columns(parts, starts, gaps, width, start_indent, max_align, keyword):
    """The column of every piece; gaps[i] is the whitespace before piece i
    (newlines or spaces, without indent)."""
    levels = {}             # id(block) -> column, for blocks open at a line start
    cols = []
    bases = []              # where the line of every piece starts
    indent = 0              # where the text of the current line starts
    line_first = 0          # index of first piece in the current line
    col = 0
    for i, p in enumerate(parts):
        if i == 0 or "\n" in gaps[i]:
            # which blocks are open here: they got their level from the line
            # they were opened on
            level = start_indent
            if i:
                for block in p.stack + ((p.node,) if p.tail and p.node.indent_children() else ()):
                    if id(block) not in levels:
                        new = level + width
                        for index in align(block, keyword):
                            k = starts.get((id(block), index))
                            if k is not None and line_first <= k < i:
                                if cols[k] - bases[k] <= max_align:
                                    new = cols[k]
                                break
                        levels[id(block)] = new
                    level = levels[id(block)]
            # closing delimiters that start the line are at the outer level
            col = level
            if p.tail:
                k = i
                while k + 1 < len(parts) and parts[k + 1].tail and "\n" not in gaps[k + 1]:
                    k += 1
                # all leading closers of indenting blocks
                blocks = [q for q in parts[i:k + 1] if q.node.indent_children()]
                if blocks:
                    outer = blocks[-1].stack
                    col = levels[id(outer[-1])] if outer else start_indent
            elif override(p):
                col = 0
            indent = col
            line_first = i
        else:
            col += len(gaps[i])
        cols.append(col)
        bases.append(indent)
        if "\n" in p.text:
            col = len(p.text) - p.text.rfind("\n") - 1
            indent = 0
        else:
            col += len(p.text)
    return cols


def align(block, keyword):
    """Indices of the children following lines may be aligned with."""
    name = type(block).__module__.rsplit(".", 1)[-1] + "." + type(block).__name__
    if name in ("lily.MusicList", "lily.SimultaneousMusicList", "lily.ChordBody", "lily.MarkupList"):
        return (0,)
    if name == "scm.List":
        if len(block) and type(block[0]).__name__ == "Identifier":
            return () if keyword(block[0].head) else (1, 0)
        return (0,)
    return ()


def override(p):
    """True if a comment with three comment characters."""
    return type(p.node).__name__ == "SinglelineComment" and p.text[:3] in ("%%%", ";;;")
