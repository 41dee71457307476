INTRO = r"""# Model checking frescobaldi/quickly

(Written by `tools/design.py`; the bounds below are those of the check modules.)

## Approach

quickly is a library of deterministic, single threaded tree, text and music
operations: a token tree becomes a DOM, the DOM is navigated, changed, written
back, and music theory is computed on it. Its guarantees are about *every*
input text, *every* tree, *every* history of operations and *every* selection.
The deciding technique for all properties is the same: **explicit bounded
exhaustive exploration of the real code**. Each check enumerates a stated space
completely (all trees up to a size, all words over an alphabet of document
fragments, all operation sequences up to a depth, all selections, all query
orders), executes the real implementation on every element of it in lock step
with an independent reference model, and compares after every step. Nothing is
sampled; `VERIF_SEED` has no influence. Because the explored transitions are
executions of the implementation itself there is no separate model that could
drift: the reference models (below) are only compared with, so a mismatch
between the model and the code *is* the alarm, and every explored trace
validates the model against the code.

Why that reaches what tests cannot: the 13 tests of the repository are a few
fixed inputs per module. The defects found here (more than forty, all repaired)
needed combinations: a comment between two particular tokens, a selection that
starts in a nested list, an empty chord after a note in relative music, a range
whose end is an ancestor of its start, two queries in a particular order. Small
scope enumeration covers all combinations up to the bound.

## Machinery

- `check PROP [--tier quick|thorough] [--replay FILE] [--family NAME]` runs
  `mc/main.py`, which loads `mc/props/<prop>.py`. It imports quickly from
  `/repo` (no build step: pure Python, bytecode is never read or written).
- `mc/core.py`: a *family* enumerates cases; cases are spread over 8 forked
  worker processes; each case checks one (often large) subtree of the space and
  counts states, transitions, traces and distinct outcomes. A mismatch, an
  unexpected exception or a case running over 30 s is a violation, written with
  its case to `replays/`; `--replay` re-executes exactly that case. `complete`
  in the evidence tells whether the enumeration ran to its end within the time
  budget; it does for all quick tiers and the thorough tiers as configured.
- `mc/docs.py`: parsing helpers and the alphabets of document fragments.
- reference models: `mc/music.py` (interpreter of sounding pitch: absolute,
  relative, fixed, transposed, octave checks, chords, language changes),
  `mc/rhythmref.py` (effective durations), `mc/timeref.py` (interpreter of
  musical time), and brute force models inside the property modules.
- `known_findings.json`: findings that are listed by exact family and case, and
  the repaired defects.
- The parce tokenizer is an installed dependency and trusted: it defines what
  the tokens of a text are. Texts it misreads are noted per property.

No hooks were needed in /repo: everything is observed through public API.

## Properties

"""
ORACLE = {
"C01": "Tokens of the input and the written text (by parce, whitespace left out) are equal; the DOM of the written text has the same shape (type, head, children) as the first DOM; writing that again gives the same text; `write_indented()` has the same tokens.",
"C02": "No exception; every child's parent is its parent; positions (head before children before tail) strictly ascend in tree order; for valid compositions a count per token of the origins that refer to it: exactly one.",
"C03": "The expected list of text pieces is computed from the modified tree: the original text of every untouched head and tail, the own text of every changed or new one. The new document must consist of just these pieces; between pieces that were neighbours before, the whitespace must be exactly the same; reading the new document again must give the structure of the modified tree, and writing that back again changes nothing.",
"C04": "The list of all tokens with their meaning, computed from the token tree and not from the DOM (numbers by parce's Scheme number parser, strings by an own unescape function, HTML entities resolved, LaTeX text without whitespace but with marked paragraph breaks), must be equal before and after; the DOM of the written text has the same structure; the second writing is a fixpoint. Numbers: the value and the type. Strings: the value, in ten places where a string can be.",
"C05": "A plain nested Python list per tree, with an own implementation of every operation and every navigation query by index arithmetic.",
"C06": "The set of nodes between two boundaries is computed by comparing trails of all nodes of the tree; iteration states are compared in a breadth first search over all states of the range's cursor.",
"C07": "Linear scan over the list of all elements with their positions.",
"C08": "Fractions computed from first principles (sum of halves); a table of all valid texts.",
"C09": "The name tables themselves: (note, alteration, octave) of every name of every language.",
"C10": "Staff position arithmetic (octave * 7 + step, nearest within three steps) and semitone arithmetic.",
"C11": "Circle of fifths arithmetic and rotation of the scale by explicit whole/half steps.",
"C12": "An interval is a pair (staff steps, semitones); pitches are mapped by adding both and choosing the octave and alteration; algebra by pairs.",
"C13": "`mc/music.py` lists all sounding pitches before and after; expected = the transposed ones; blank shape (everything that is no pitch) unchanged; for selections, unselected notes keep their sound and text (the first unselected note after a selected one in relative music may be respelled).",
"C14": "`mc/music.py`: equal sounding pitches before and after; no Relative node left, or all topmost lists are Relative; conversion options.",
"C15": "`mc/rhythmref.py`: effective durations before and after are equal; explicit: none missing; idempotent; shape without durations equal.",
"C16": "`mc/rhythmref.py` plus a slow implementation of log/dot shifting; per selected note the specified result, all others unchanged, in effective and written durations.",
"C17": "`mc/timeref.py` plays the music from the beginning and records start and end of every node.",
"C18": "Nearest preceding durable by scanning the linearised document; answers must not depend on the order of the queries.",
"C19": "A dictionary per element: the assignments executed on it; compared with the element, and with the element found in the re-read text.",
"C20": "A Python list of (name, value) definitions; mapping semantics computed from it after every operation; the written text is re-read and compared.",
"C21": "An own resolver over an in-memory file system model of all include graphs; left to right interpretation of definitions.",
"C22": "A reference matcher of signatures working on the flat list; flattening the result gives the input back.",
"C23": "The text pieces of the tree are listed with the blocks around them; own computation of the column of every line from the documented rules; the output is split in the same pieces and compared with write(); second run is a no-op.",
"C24": "Own implementation of roman, letter and English number notation; injectivity over the whole range.",
"C25": "Structural comparison by an own walker; identity sets of nodes; every single modification of the copy, and of the original, is compared with the other side.",
"C26": "The text that results from editing the document as a whole is the reference for every other entry point (cursors, functions, elements, ranges, elements without a document, read only edits that are written back afterwards). For selections: the text before and after the selection is literally the same; a range of just the elements inside the selection (found by a linear scan) gives the same; for operations that work on every element for itself, every element inside the selection becomes what it becomes when the whole document is edited, and every other is unchanged.",
"C27": "The text of the live document read from scratch (types, heads, positions of all origin tokens, parent links, written text) after every edit of the history; the contents of every DOM obtained earlier in the history are compared with a dump made when it was obtained.",
"C28": "Search in the list of events the text was generated from: class, head, id and surrounding scopes are known by construction.",
"C29": "eval() of the dumped code, compared with types, heads and children of the tree; the graphical dump is compared with a recursive definition of it.",
"C30": "The value itself, an independent reader of Scheme values, Python's html.parser and html.unescape; the tree and origin positions of a full transformation for the read functions.",
"C31": "A reviewed table (mc/shapes.json, made with tools/shapes.py) that has the elements for every construct on its own, and one shape for every context; what a composition is read as follows from the table: the shapes of the items in order at the place of the hole in the shape of the context; comments are left out of the comparison where they are inserted.",
"C32": "The values of the arguments in the order LilyPond wants them (pairs of x and y dimensions), listed from the arguments themselves, and the number of arguments of the command; the elements read back from the text must be the same.",
"C33": "A model that is a list of texts with a current position; the text of every operation on a new document; the reference interpreters of pitch and rhythm (mc/music.py, mc/rhythmref.py) for what an operation does to the music; a fresh read for the DOM.",
}
MIDDLE = r"""
## Genuine defects found and repaired

Each was found by the check of the property named, and is a separate `fix:`
commit in /repo.

"""
END = r"""
## Decisions on false alarms

- C17: repeats. The statement speaks of music "each played once, as written":
  the library does not interpret repeat counts (nor does it claim to).
- C14: `\chordmode` is affected by `\relative`, as the repository's test suite
  prescribes, although LilyPond does not do that; the reference follows the tests.
- C19: comments between a note and its duration move behind the note when the
  duration is deleted; comparisons leave the place of comments out.
- C19: names with two successive numbers in a reference (`\x.1.1`) are read as a
  decimal number by the tokenizer (also by LilyPond); left out.
- C04: `util.replace_unknown()` is applied before writing HTML with style, script
  or doctype parts, as the documentation of that function prescribes.
- C04: Scheme text with `; comment` directly after a quote, and commands that
  get another name when text is put against them, are left out: not valid.
- C25: heads are compared by value (1 and 1.0 are equal); NaN equals itself.
- C27: the parent links of an earlier DOM are not kept when parce reuses parts of
  it in a later one; the contents must be.
- C01/C02: `chordmode` modifiers followed by an unpitched duration and
  `<hh sn>` outside drum mode are read differently by the tokenizer; left out.
"""
