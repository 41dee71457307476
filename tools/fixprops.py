# which properties were broken, for every fix: commit in /repo (by subject)
PROPS.update({
    'Range with the end before the start is empty, a Range of a single node contains it': 'C06',
    'keep the boundaries and the iteration of a Range right when nodes are deleted or replaced': 'C06',
    'raise ValueError for a duration string that is not a power of two': 'C08',
    'rotate the chromatic scale correctly for keys raised above b': 'C11',
    'KeySignature: repr(), flats given as a list, and named modes in another scale': 'C11',
    'read the mode of a \\key command from a variable': 'C11',
    "TimeContext.remote_length() returns 0 if a variable can't be found": 'C17',
    'keep per-instance whitespace settings when copying an element': 'C25',
    'keep the origin of the closing brace of a \\score block': 'C02 C07',
    'transform LilyPond music in Html of which the tag is not closed': 'C02',
    'transform Latex documents with braces inside math': 'C02',
    'transform a Latex lilypond environment with options after whitespace, or only options': 'C02',
    'transform a chord modifier that does not follow a note': 'C02',
    "don't append a duration twice to a chord when a document is updated": 'C27',
    'keep nodes in document order when comments, durations or \\rest appear at odd places': 'C02 C03',
    "keep articulations, directions and \\rest that don't follow a note": 'C02 C03',
    "don't lose the contents of a \\markup that starts with a comment": 'C01 C02',
    'keep comments in place in figures, after a lyric word and after articulations of a pitched rest': 'C01',
    'natural accidental in figures, whitespace in LilyPond blocks in Scheme, comments after lyric skips and hyphens': 'C01 C02',
    "don't lose dots, scaling or articulations when a duration is used as a number argument": 'C01 C02',
    'keep html comments, latex unterminated options and chord modifiers not following a note': 'C02',
    "unknown \\language names and \\include without filename don't raise when following the language": 'C09',
    'pitch name preferences in english, norsk and català': 'C09',
    'read a LaTeX environment name that consists of a brace': 'C02',
    'adding and subtracting Transposers': 'C12',
    'a range from a node to one of its descendants includes the start node': 'C06',
    "edit the nodes that fall within the cursor's selection": 'C26',
    'transposing a selection in relative music, \\fixed octaves, relative start pitch': 'C13',
    'a node with descendants after the range end is not completely in the range': 'C06',
    '\\transpose and markup scores are not affected by \\relative when transposing': 'C13',
    'relative/absolute conversion: chords, nested sections, octave checks, comments, selections': 'C14',
    'explicit/implicit durations: notes in chords, \\skip, unpitched notes, selections': 'C15 C16',
    'write back DOM changes without touching unrelated text and whitespace': 'C03 C26',
    'setting scaling removes all other scalings of a duration': 'C19',
    'keep adjacent steps in a chord modifier apart': 'C01 C15',
    'pasting an absent duration on a note without duration leaves it alone': 'C16',
    'previous duration is that of the closest preceding durable in the text': 'C18 C16',
    'duration between nodes applied a transform twice; cursor position after the last node': 'C17',
    'the alternatives of a repeat come after the repeated music': 'C17',
    'comments after the value of \\version, \\language and variables are no part of the value': 'C19',
    'undefined names in markup factory functions, with_link used with-color': 'C19',
    'adding a child at its place when there are comments in between': 'C19',
    'octave 0 removes the Octave, Duration of After before the event, IdentifierRef.with_name()': 'C19',
    'the last definition of a variable is the one that counts': 'C20 C21',
    'value of an assignment with a comment, and of a reference that waits': 'C20 C21',
    'Scheme value of a variable or property can be read': 'C20',
    'commands like \\include in header and paper blocks are not lost': 'C01 C21',
    'empty included documents are found too': 'C21',
    '\\tag, \\keepWithTag and \\removeWithTag are music, so the music in them has a length': 'C17 C22',
    '\\volta takes a plain number': 'C17 C22',
    'comments are no arguments of \\tag, \\tweak or \\shape, and a complete \\tag or \\shape before a music variable or markup is not an articulation': 'C22',
    'new lines align with a child of the block, not with a deeper descendant': 'C23',
    'alignment after a block that was closed on the same line': 'C23',
    'alignment after text with newlines': 'C23',
    'alignment on the first line, when whitespace is left out': 'C23',
    'add_newlines() with a missing closing delimiter': 'C23',
    'add_newlines() ignores the newlines inside a multiline text': 'C23',
    'a multiline Scheme comment ends with !#': 'C04 C23',
    'a node is not in a range if only its children are': 'C06 C26',
    'editing an empty document': 'C26',
    'editing a selection up to the end of the document (Cursor.end is None)': 'C26',
    "don't change the duration after the end of the selected range": 'C26',
    'editing a single note as element also edits the note itself': 'C26',
    "don't modify the cached value of a list context": 'C27',
    "escapes like \\n in LilyPond strings keep their meaning": 'C01 C04',
    "a Scheme number that is NaN equals its copy": 'C25',
    "writing of complex and inexact Scheme numbers": 'C04',
    "Scheme symbols that look like a number, e.g. 1+, are not lost": 'C04',
    "don't repeat CDATA[ in the contents of a CDATA section": 'C04',
    "don't escape code in a processing instruction": 'C04',
    "don't lose the backslash in line-width=10\\cm": 'C04',
    "don't add newlines that create new paragraphs in LaTeX": 'C04',
    'find the other end of a spanner that has an id and a direction or tweak': 'C28',
    'write no comma after a node that is dumped alone in Python syntax': 'C29',
    'find an assignment after a string or name that is not assigned to': 'C31',
    'resolve entities in nested HTML elements with the specified resolver': 'C30',
    'keep the duration of a lyric item when a comment comes in between': 'C31',
    'follow language changes inside the music that is made relative': 'C14',
    "don't change the octave when converting music inside \\fixed": 'C14 C33',
    'follow language changes inside the music that is made absolute': 'C14',
})
