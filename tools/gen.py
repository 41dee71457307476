"""Single source of properties.jsonl and MANIFEST.json: run to regenerate both.

Only properties for which mc/props/<id>.py exists are claimed.
"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=files, mech=mech, technique=technique, note=note))

EXH = "bounded exhaustive exploration of the real code against a reference model"
NOTE = ("Every case within the stated bounds is executed on the real code of /repo, in lock step with an independent "
        "reference model; nothing is sampled. Says nothing beyond the bounds; trusts the parce tokenizer and CPython. ")

prop("C01", "LilyPond text read into a DOM and written back keeps its tokens and structure",
     "For any valid LilyPond fragment, reading it into a DOM and writing the DOM out again yields text with exactly the same non-whitespace tokens in the same order, and reading that text again gives a structurally equal DOM, so that writing is a fixpoint. The indented way of writing yields the same tokens as well.",
     ["inputs"], "all sequences of valid music, toplevel, header, layout, markup, lyrics, chord, drum and figure fragments, in every enclosing construct, up to a length",
     "A test reads a handful of hand written snippets; the guarantee is about every combination and nesting of LilyPond constructs, each of which is read by a different method and written by a different class.",
     ["quickly/lang/lilypond.py", "quickly/dom/lily.py", "quickly/dom/markup.py", "quickly/dom/element.py", "quickly/dom/read.py"],
     [("token tree to DOM", "quickly/lang/lilypond.py: LilyPondTransform"), ("writing and whitespace", "quickly/dom/element.py: Element.write, concat")],
     "bounded exhaustive enumeration of documents over a fragment alphabet, round trip oracle on token streams and DOM shapes", NOTE)

prop("C02", "Any text at all can be read into a DOM with correct source positions",
     "For any text in any of the supported languages, valid or not, reading never fails and yields a document whose parent links are correct and whose source positions occur in strictly ascending order when the tree is traversed. For every text made of valid fragments every non-whitespace token of the text is accounted for by exactly one element.",
     ["inputs"], "all token sequences over the raw token alphabet of LilyPond, Scheme, HTML and LaTeX up to a length, within every wrapper context",
     "The input space is all texts a user may have half typed in an editor; the tests read a few valid documents, and failures depend on combinations of tokens in unusual places.",
     ["quickly/lang/lilypond.py", "quickly/lang/scheme.py", "quickly/lang/html.py", "quickly/lang/latex.py", "quickly/dom/element.py"],
     [("transforms", "quickly/lang: LilyPondTransform, SchemeTransform, HtmlTransform, LatexTransform"), ("origins", "quickly/dom/element.py: head_origin, tail_origin")],
     "bounded exhaustive enumeration of token words, structural oracle", NOTE)

prop("C03", "Writing modifications back to a document changes only what was modified",
     "When a document's DOM is modified by any series of head changes, removals, insertions and replacements and then written back to the document, the document afterwards has exactly the tokens that the modified DOM writes, every part of the text that was not touched is left as it was apart from whitespace, and reading the document again gives a structurally equal DOM. Writing back an unmodified DOM of a complete document changes nothing.",
     ["histories", "inputs"], "all histories of tree modifications up to a depth, on documents with every kind of element, each written back and read again",
     "Tests perform one or two modifications on one document; minimal edit computation must be right for every history, including adjacent removals, insertions at edges, and comments between tokens.",
     ["quickly/dom/element.py", "quickly/dom/edit.py", "quickly/dom/util.py"],
     [("edit computation", "quickly/dom/element.py: Element.edits, Element.edit"), ("head changes", "quickly/dom/element.py: TextElement, _head_modified")],
     "explicit-state search over modification histories on the real code, oracle: token comparison after write-back", NOTE)

prop("C04", "Scheme, HTML and LaTeX text read into a DOM and written back is preserved",
     "Reading a valid Scheme, HTML or LaTeX fragment, including embedded LilyPond, into a DOM and writing it out again yields text with the same meaning: the same tokens, with numbers and strings (also LilyPond strings) keeping their value, and reading it again gives a structurally equal DOM. (HTML text may be written with other entities for the same characters; the amount of whitespace in LaTeX text may change, but not its paragraph breaks.)",
     ["inputs"], "all sequences and nestings of Scheme, HTML and LaTeX fragments with embedded LilyPond, up to a length",
     "Tests sample few documents; the three languages embed each other, and every token kind in every nesting has its own reading and writing code.",
     ["quickly/lang/scheme.py", "quickly/lang/html.py", "quickly/lang/latex.py", "quickly/dom/scm.py", "quickly/dom/htm.py", "quickly/dom/tex.py"],
     [("transforms", "quickly/lang"), ("heads", "quickly/dom/scm.py, htm.py, tex.py: read_head, write_head")],
     "bounded exhaustive enumeration of documents over fragment alphabets, round trip oracle", NOTE)

prop("C05", "Node tree operations behave like a list with correct parent links",
     "After any sequence of tree operations (appending, inserting, extending, replacing, slicing, removing, moving, copying, taking and unnesting) the children are those a plain list would have, every child's parent is its containing node, no node is in two places, and all navigation queries (siblings, ancestors, descendants, common ancestor, paths, sorting order) agree with a brute force computation on the tree.",
     ["histories", "inputs"], "all trees up to a size and all operation sequences up to a depth",
     "The tests call each method once on one tree; consistency must hold for every tree shape and every order of operations.",
     ["quickly/node.py"], [("tree and navigation", "quickly/node.py: Node")],
     "explicit-state search over tree operation histories, reference model in lock step", NOTE)

prop("C06", "A tree range selects the same nodes for every query and survives editing",
     "A range of a tree denotes exactly the nodes from its start up to its end in document order; membership, child iteration, depth-first iteration and instance search all agree on that set for every choice of boundaries. While iterating, the visited nodes may be removed or replaced without skipping, repeating or ever leaving the range.",
     ["histories", "inputs", "schedules"], "all trees up to a size, all pairs of boundaries, all interleavings of iteration with removal and replacement",
     "Tests use a few boundaries on one tree and do not edit during iteration.",
     ["quickly/node.py"], [("ranges", "quickly/node.py: Range")],
     "exhaustive enumeration of trees, boundaries and iteration/edit interleavings against a reference model", NOTE)

prop("C07", "Positional lookup in a DOM finds the elements at the given text position",
     "For every position in a document, looking up the child or descendant that starts at, ends at, or contains that position, or the nearest one to the left or right, gives exactly the element a linear scan over all elements would give. Every element's reported start and end correspond to its text in the document.",
     ["inputs"], "all documents over a fragment alphabet up to a length, every position",
     "Lookups are binary searches over positions of heads and tails; off-by-one errors show up only at particular boundaries the tests do not probe.",
     ["quickly/dom/element.py"], [("positions and lookup", "quickly/dom/element.py: Element.pos, end, find_child, find_descendant, find_descendants")],
     "exhaustive enumeration of documents and positions against brute force lookup", NOTE)

prop("C08", "Durations survive conversion to text and back",
     "Every representable duration (a power of two note length with dots, and a scaling) converts to its LilyPond text and back to the same value, arithmetic on it is exact, and a text or value that is no duration is rejected with a ValueError instead of being silently misread.",
     ["inputs"], "all note lengths, dot counts and scalings in a range, and all short strings over the duration alphabet",
     "Tests check a few conversions.", ["quickly/duration.py"], [("conversions", "quickly/duration.py")],
     "exhaustive enumeration of a bounded value domain against reference arithmetic", NOTE)

prop("C09", "Pitch names convert to pitches and back in every language and preference",
     "In each supported pitch name language and with every combination of spelling preferences, naming a pitch and reading that name back gives the same pitch; names that are not valid in the language give no pitch. Preferences detected from a text, used for writing, reproduce the names of that text, and every name in one language can be translated to another and back.",
     ["inputs", "configurations"], "all note/alteration pairs, all names, all languages, all preference combinations, all pairs of languages",
     "The tests check some names in some languages; preferences interact in combination.",
     ["quickly/pitch.py", "quickly/dom/lily.py"], [("names", "quickly/pitch.py: PitchProcessor, Pitch")],
     "exhaustive enumeration of the configuration space (languages x preferences x names)", NOTE)

prop("C10", "Relative, absolute and MIDI pitch conversions are exact inverses",
     "For every two pitches, making a pitch relative to the other and making it absolute again gives the original pitch, choosing the octave by staff distance of at most a fourth. Octave marks, MIDI numbers and pitch comparison agree with a plain arithmetic computation.",
     ["inputs"], "all pairs of pitches within a span of octaves and alterations",
     "Tests check some pairs.", ["quickly/pitch.py"], [("octave arithmetic", "quickly/pitch.py: Pitch")],
     "exhaustive enumeration of pitch pairs against reference arithmetic", NOTE)

prop("C11", "Key signatures and accidentals follow music theory for every key and mode",
     "For every tonic and every mode, also given in the music itself or by name, the computed accidentals are those of the rotated scale, and the accidental to display for every pitch after every sequence of notes is the one defined by the selected accidental rule.",
     ["inputs", "histories", "configurations"], "all tonics, alterations, modes, and all note sequences up to a length",
     "Tests check a few major keys.", ["quickly/key.py"], [("keys", "quickly/key.py: KeySignature, Accidentals")],
     "exhaustive enumeration of keys and note histories against a reference model", NOTE)

prop("C12", "Transposing a pitch shifts it by a constant interval, and intervals compose",
     "A transposition from one pitch to another moves every pitch by the same number of staff steps and by the same chromatic distance, keeping alterations within a double sharp or flat when simplification is needed; the transposition's start pitch maps to its end pitch. Transposition by the reverse interval restores a pitch, and adding or subtracting transpositions equals applying them one after another.",
     ["inputs"], "all start/end pitch pairs, all pitches within a span, all pairs of intervals",
     "Tests transpose no more than a few pitches.", ["quickly/transpose.py"], [("interval arithmetic", "quickly/transpose.py: Transposer")],
     "exhaustive enumeration of intervals and pitches against interval algebra", NOTE)

prop("C13", "Transposing music transposes every sounding note and nothing else",
     "After transposing a piece of music, in absolute, relative or fixed pitch entry and with chords, octave checks, key signatures and nested relative sections, every note sounds exactly the transposed pitch of what it sounded before, and everything that is not a pitch stays the same. When only a selection is transposed, the selected notes sound transposed and the text of everything outside the selection is unchanged.",
     ["inputs", "programs"], "all sequences of notes, chords, octave checks and relative/fixed sections up to a length, all selections, several intervals",
     "In relative music each written octave depends on the whole history before it; tests transpose one or no example.",
     ["quickly/transpose.py", "quickly/dom/lily.py"], [("walk", "quickly/transpose.py: Transpose")],
     "exhaustive enumeration of music programs against a reference interpreter of sounding pitch", NOTE)

prop("C14", "Converting music between relative and absolute keeps every sounding pitch",
     "Converting music from relative to absolute notation or back changes only how pitches are written: every note and chord note sounds the same pitch before and after, for each conversion option, and the result is in the requested notation.",
     ["inputs", "programs", "configurations"], "all sequences of notes, chords, octave checks, repeated chords and nested relative sections up to a length, all options",
     "Each octave mark depends on all notes before it, so tests with a single phrase say nothing about other phrases.",
     ["quickly/relative.py"], [("conversion", "quickly/relative.py: Rel2abs, Abs2rel")],
     "exhaustive enumeration of music programs against a reference interpreter of sounding pitch", NOTE)

prop("C15", "Making durations implicit or explicit keeps the effective duration of every note",
     "Making durations explicit, implicit or implicit per line only changes how durations are written: every note, rest and chord has the same effective duration before and after, in a whole document or in any selection, explicit leaves no note without duration, and each operation applied twice changes nothing the second time.",
     ["inputs", "programs"], "all sequences of durables with and without duration up to a length over line breaks, all selections",
     "Implicit durations depend on the preceding note across nesting, skips and unpitched notes; tests check single phrases.",
     ["quickly/rhythm.py", "quickly/duration.py"], [("rhythm operations", "quickly/rhythm.py: Explicit, Implicit, ImplicitPerLine")],
     "exhaustive enumeration of music programs and selections against a reference interpreter of effective duration", NOTE)

prop("C16", "Rhythm removal, scaling, copying and pasting affect exactly the selected notes",
     "Removing durations or their scaling, doubling, halving, dotting and undotting, and copying and pasting a rhythm change the durations of exactly the selected notes as specified and leave all other text unchanged. Pasting a copied rhythm on the music it was copied from changes no effective duration, and doubling and then halving, or dotting and then undotting, restores the durations.",
     ["inputs", "programs"], "all sequences of durables up to a length, all selections, all rhythm operations",
     "Tests check single examples.", ["quickly/rhythm.py"], [("rhythm operations", "quickly/rhythm.py")],
     "exhaustive enumeration of music programs and selections against a reference model", NOTE)

prop("C17", "Musical length, time position and duration equal those of an interpreter",
     "The musical length of any expression, the time position of any node within its music, and the duration between two nodes are those obtained by interpreting the music from the beginning, for sequential and simultaneous music, tuplets and scaling, grace notes, repeats with alternatives (each played once, as written), skips, multiplied durations and music in variables.",
     ["inputs", "programs"], "all music expressions up to a size, every node and every pair of nodes",
     "Length computation composes over arbitrary nesting; tests check a few fixed expressions.",
     ["quickly/time.py", "quickly/duration.py", "quickly/dom/lily.py"], [("time computation", "quickly/time.py: Time, TimeContext"), ("node properties", "quickly/dom/base.py, lily.py: Durable, Music properties")],
     "exhaustive enumeration of music expressions against a reference interpreter", NOTE)

prop("C18", "The duration lookup is independent of the order of queries",
     "The effective duration reported for a note without an explicit duration is that of the nearest preceding note that has one, or the default, whatever other notes were looked up before with the same helper.",
     ["histories", "inputs"], "all sequences of durables up to a length, all orders of queries",
     "The lookup caches intermediate results; a stale or misassigned cache entry only shows for particular query orders.",
     ["quickly/dom/lily.py"], [("cached lookup", "quickly/dom/lily.py: duration_getter, previous_duration")],
     "exhaustive enumeration of music and query histories against a reference interpreter", NOTE)

prop("C19", "Element properties read back what was set and write valid text",
     "Setting the pitch, octave, octave check, duration, scaling, text or other properties of an element, in any order and any number of times, makes them read back as set; the element always writes text that reads back into an element with the same properties, and other properties and children keep their value and place.",
     ["histories", "inputs"], "all sequences of property assignments and deletions up to a depth on every kind of element that has them",
     "Tests set some properties once; properties are stored as child elements whose order matters for the text.",
     ["quickly/dom/lily.py", "quickly/dom/element.py", "quickly/dom/base.py"], [("properties as children", "quickly/dom/lily.py: Pitchable, HandleDuration, ...")],
     "explicit-state search over assignment histories, reference model in lock step plus round trip", NOTE)

prop("C20", "Variables in documents and blocks behave like an ordered mapping",
     "Setting, getting, deleting and iterating variables of a document or of a header, paper, layout or midi block behaves like an ordered mapping from names to values after any history of operations; the last definition of a name counts, other definitions and their order are unaffected, and the text written reads back as the same mapping.",
     ["histories", "inputs"], "all sequences of mapping operations up to a depth from documents with zero or more (also repeated) definitions",
     "Tests exercise single operations.", ["quickly/dom/lily.py"], [("variables", "quickly/dom/lily.py: Variables, VariablesHandler")],
     "explicit-state search over mapping operations, reference model in lock step", NOTE)

prop("C21", "Following include commands terminates and finds the right files",
     "Resolving include commands finds each included file relative to the including file or else in the include path, follows every include graph, also with cycles, repeated and missing files, without recursing endlessly, and the variables found through includes are those a left-to-right interpretation of the files would see.",
     ["inputs", "configurations"], "all include graphs over a few files and directories, with cycles and missing files",
     "Tests have at most one include; cycles and diamond shapes arise in real scores.",
     ["quickly/dom/scope.py"], [("include resolution", "quickly/dom/scope.py: Scope")],
     "exhaustive enumeration of include graphs against a reference resolver", NOTE)

prop("C22", "Combining read elements into a tree loses no element and keeps the order",
     "Combining a flat sequence of elements (signatures with any mix of required and optional arguments, articulations, comments and others) into a tree keeps every element exactly once, in the original order, and the arguments each command takes are the ones its signature allows.",
     ["inputs"], "all signature combinations and all sequences of elements up to a length",
     "Tests use a few commands; argument matching depends on which arguments fit which signatures in any order.",
     ["quickly/dom/element.py", "quickly/dom/lily.py"], [("tree building", "quickly/dom/element.py: build_tree; signatures()")],
     "exhaustive enumeration of signatures and element sequences against a reference matcher", NOTE)

prop("C23", "Indented output changes only whitespace and its indentation follows the nesting",
     "Writing a DOM with indentation (write_indented) gives the same text as writing it without, apart from the indent at the start of lines and a newline at the end, so reading it gives a structurally equal DOM; the indent of every line follows the blocks that are open at its start: each block opened on an earlier line adds indent_width, or, if its first item (the first argument in a Scheme list, unless its keyword indents its body) is on the line where the block was opened and not farther than max_align_indent from the start of that line's text, aligns with that item; a line that starts with closing delimiters is at the level of the outermost block they close; start_indent is added to all lines; single-line comments starting with three comment characters are at column 0. add_newlines() retains the line breaks of the original text, and reading the result, taking over its line breaks and indenting again changes nothing.",
     ["inputs", "configurations"], "all documents over fragment alphabets up to a length, line breaks at all subsets of places, indent settings, all layouts of texts",
     "Tests indent five documents with one or two line breaks.", ["quickly/dom/indent.py", "quickly/dom/util.py", "quickly/dom/element.py", "quickly/dom/scm.py", "quickly/dom/lily.py"],
     [("indenter", "quickly/dom/indent.py: Indenter; Element.write_indented, indent_children, indent_align_indices, indent_override"), ("line breaks", "quickly/dom/util.py: add_newlines, collapse_whitespace")],
     "exhaustive enumeration of documents, line breaks and settings against a reference indenter", NOTE)

prop("C24", "Number notations are exact inverse conversions",
     "Converting a number to roman numerals, letters or English words and back gives the same number, different numbers give different texts, and invalid texts and numbers out of range are handled as documented.",
     ["inputs"], "all numbers in a range and all short strings over the notation's alphabet",
     "Tests check a few numbers.", ["quickly/numbering.py"], [("conversions", "quickly/numbering.py")],
     "exhaustive enumeration of a bounded value domain against a reference implementation", NOTE)

prop("C25", "Copying an element gives an equal, independent tree",
     "A copy of any element, with or without its children and its source positions, is structurally equal to the original, writes the same text, and shares no node with it, so changing one never affects the other; equality compares type, contents and all children.",
     ["inputs", "histories"], "all elements read from every fragment, all single modifications on either side",
     "Tests copy few elements.", ["quickly/dom/element.py", "quickly/node.py"], [("copy", "quickly/dom/element.py: Element.copy, equals")],
     "exhaustive enumeration of elements and modifications", NOTE)

prop("C26", "An operation gives the same result through every entry point",
     "An editing operation applied to a text document, to a text selection, to an element or to a range of elements gives the same music; with a selection everything outside the selection is left as it was (an element counts as selected when its whole contents are selected; whitespace next to the selection may change when \\relative is added or removed).",
     ["inputs", "configurations"], "all short documents, all selections, every operation, each entry point",
     "Tests call one entry point on whole documents; selections cut through nested music at arbitrary points.",
     ["quickly/dom/edit.py", "quickly/rhythm.py", "quickly/transpose.py", "quickly/relative.py"], [("entry points", "quickly/dom/edit.py: Edit.edit, edit_cursor, edit_element, edit_range, ...")],
     "exhaustive enumeration of documents, selections, operations and entry points, differential oracle", NOTE)

prop("C27", "Incrementally updated documents have the DOM of a fresh read",
     "After any sequence of text edits to a live document, the DOM obtained for it is structurally equal to the DOM of the same text read from scratch, with source positions that match the current text, and reading a DOM again never changes one obtained earlier in the process.",
     ["histories", "inputs"], "all sequences of insertions, deletions and replacements up to a depth at all token boundaries of all short documents",
     "Partial results are cached per context and reused after an edit; corruption needs a particular edit at a particular place, which tests do not do.",
     ["quickly/lang/lilypond.py", "quickly/lang/scheme.py", "quickly/lang/html.py", "quickly/lang/latex.py", "quickly/dom/element.py"],
     [("reuse of cached transformed parts", "quickly/lang: transforms via parce.transform.Transformer cache")],
     "explicit-state search over text edit histories, differential oracle against a fresh read", NOTE)

prop("C28", "A spanner finds its other end",
     "For every start or end of a slur, beam or other spanner, the other end that is found is the nearest one in text order of the same kind and with the same spanner id (or also without one), within the innermost surrounding \\new expression, assignment, \\score or document, and nothing is found if there is none there; directions, tweaks and comments make no difference, and a search limit can only make that nothing is found.",
     ["inputs", "histories"], "all sequences of spanner events up to a length, in all places of nested contexts, after all short histories of removals",
     "Wrong pairs only show up with particular combinations of ids, directions and nesting.",
     ["quickly/dom/lily.py"], [("find_parallel", "quickly/dom/lily.py: Spanner.find_parallel")],
     "exhaustive enumeration of event sequences and removals in lockstep with a reference model", NOTE)

prop("C29", "The textual dumps of a tree show the tree",
     "For every element in every tree, the Python code that is dumped for it can be executed and makes a structurally equal tree, and the graphical dump has, in every style, exactly one line for each node, in order, with lines that show which node is the parent of which; also after the tree has been modified.",
     ["inputs", "histories"], "all elements in all documents of up to two items of every language, all tree shapes up to a size after every single modification",
     "Depends on the type and position of every node in a tree.",
     ["quickly/dom/element.py", "quickly/node.py"], [("py_dump", "quickly/dom/element.py: Element.py_dump"), ("dump", "quickly/node.py: Node.dump")],
     "exhaustive enumeration of trees, executing the dump", NOTE)

prop("C30", "Values and constructor functions make the elements that reading their text gives",
     "Elements made from Python values (Scheme values, lists, pairs and quotes; LilyPond numbers, numbers with a unit, booleans and strings), HTML elements and LaTeX environments made with the constructor functions write text that reads back into equal elements, or for HTML into the same tags, attributes and text, and the values can be got back from them unchanged; values without an element are refused. The read functions return the same tree as a full transformation, with origin tokens only if wanted.",
     ["inputs"], "all values up to a nesting depth, all combinations of attributes and contents, all items of every language",
     "Quoting, escaping and number formats must be right for all values and places.",
     ["quickly/dom/scm.py", "quickly/dom/htm.py", "quickly/dom/tex.py", "quickly/dom/lily.py", "quickly/dom/read.py"],
     [("values", "quickly/dom/scm.py: create_element_from_value; quickly/dom/lily.py: create_element_from_value, create_value_from_element"), ("constructors", "quickly/dom/htm.py: m; quickly/dom/tex.py: Environment.with_name"), ("reading", "quickly/dom/read.py")],
     "exhaustive enumeration of values and constructor arguments, read back by the code and by an independent reader", NOTE)

prop("C31", "Every construct is read as the element that represents it, wherever it is",
     "Every music expression, articulation, command with its arguments, assignment, block, markup, lyric, chord, drum and figure of the LilyPond language, and every Scheme, HTML and LaTeX construct, is read as the same element with the same head and the same child elements in every context where it is allowed (sequential and simultaneous music, commands, blocks, assignments, other input modes, embedded in Scheme, HTML or LaTeX) and after and before every other construct it does not attach to; in blocks with assignments, every name followed by an equal sign and a value is an assignment; comments between the parts of a LilyPond construct make no other difference.",
     ["inputs"], "all constructs in all contexts, all pairs (in small modes triples) of constructs",
     "Arguments, modifiers and assignments are collected from the tokens that follow, so what is read depends on every combination of neighbours and surroundings.",
     ["quickly/lang/lilypond.py", "quickly/lang/scheme.py", "quickly/lang/html.py", "quickly/lang/latex.py", "quickly/dom/lily.py", "quickly/dom/element.py"],
     [("transform", "quickly/lang/lilypond.py: LilyPondTransform"), ("assignments", "quickly/lang/lilypond.py: handle_assignments"), ("arguments", "quickly/dom/element.py: build_tree; signatures() and add_argument() in quickly/dom/lily.py")],
     "exhaustive enumeration of constructs, contexts and compositions against a table of single constructs", NOTE)

prop("C32", "Markup made with the markup functions reads back as the same markup",
     "Every markup function (quickly.dom.markup), called with any valid combination of words, texts with any characters, numbers, booleans and other markup, nested in any way, makes the markup command of that name with those arguments in order, in the number the command has, and writes text, also indented and in every context where markup can be, that reads back into exactly the same elements; a text is written without quotes only if it reads back as that one word.",
     ["inputs"], "all functions with all combinations of up to 3 (thorough 4) markup arguments; all pairs and triples of nested functions; all strings up to length 2 (3) as argument",
     "How many arguments a command takes is decided by tables when reading and by signatures when writing; every nesting of commands depends on both to agree, and every text has to be quoted exactly when needed.",
     ["quickly/dom/markup.py", "quickly/dom/lily.py", "quickly/lang/lilypond.py"],
     [("functions", "quickly/dom/markup.py"), ("arguments", "quickly/lang/lilypond.py: read_markup_arguments, create_markup"), ("writing", "quickly/dom/lily.py: Markup, MarkupCommand, MarkupList, MarkupWord, MarkupScore")],
     "exhaustive enumeration of calls, nestings, argument strings and contexts", NOTE)

prop("C33", "Operations on a live document compose, and each is undone in one step",
     "After any sequence of operations (explicit, implicit and removed durations, halving, doubling, transposing, converting to absolute or relative), also on a selection, mixed with typing, undo and redo, on one live document, every operation gives exactly the text it gives on a new document with the same text, the music (sounding pitches and durations) is that of the operations one after another, each operation that changes the text is undone and redone in one step, one that changes nothing is no step, and the document's DOM is that of its text.",
     ["histories"], "all sequences of 3 (thorough 4) of 17 actions on 14 documents",
     "What an operation does could depend on the state that earlier operations, undo and redo leave behind in the document, its tokens and its cached DOM; only histories show that.",
     ["quickly/dom/edit.py", "quickly/dom/element.py", "quickly/rhythm.py", "quickly/transpose.py", "quickly/relative.py"],
     [("edit", "quickly/dom/edit.py: Edit"), ("write back", "quickly/dom/element.py: edits, edit"), ("operations", "quickly/rhythm.py, quickly/transpose.py, quickly/relative.py")],
     "exhaustive exploration of action sequences on live documents against a history model", NOTE)


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(ROOT, "mc", "props", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check {} --tier quick".format(p["id"]),
                           "thorough_cmd": "./check {} --tier thorough".format(p["id"]),
                           "technique": p["technique"], "level": "model_checking", "level_note": p["note"].strip()})
        else:
            na.append({"property": p["id"], "reason": "no check built yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "./check --version", "checks": checks, "not_applicable": na,
                   "notes": "Checks import the code from /repo directly (no build step, no bytecode cache); no hooks."}, f, indent=1)
        f.write("\n")

main()
