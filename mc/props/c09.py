"""C09: pitch names in every language and with every preference."""

import itertools

from mc import core, docs
from parce.lang.lilypond_words import pitch_names as TABLE
from quickly import pitch as P
from quickly.dom import lily

BOUNDS = {
    "quick": "all languages x all 64 preference combinations x every (note, alteration) of the language (and of all others) x octaves -3..3; "
             "all ordered pairs of languages and names; all sequences of 1-2 names of a language from all 64 initial preferences (distillation, 1 name) or the default ones (2 names); "
             "all sequences up to length 4 of language commands and notes",
    "thorough": "as quick, octaves -8..8, distillation for all sequences of 2 names from all 64 initial preferences and of 3 names of (note, alteration)s with several spellings, "
                "all sequences up to length 5 of language commands and notes",
}
ASSUMPTIONS = ["the tables of pitch names per language in parce.lang.lilypond_words are trusted"]

PREFS = ("prefer_long", "prefer_accented", "prefer_x", "prefer_double_s", "prefer_classic", "prefer_deprecated")
COMBOS = list(itertools.product((False, True), repeat=len(PREFS)))
LANGS = sorted(TABLE)
DEPRECATED = {"deutsch": {"eeh", "ases", "aseh", "aeh"}, "suomi": {"ases", "bb", "heses"}}

BY_PITCH = {}   # language -> (note, alter) -> [(octave, name)]
for _l, _d in TABLE.items():
    for _n, (_o, _step, _alt) in _d.items():
        BY_PITCH.setdefault(_l, {}).setdefault((_step, _alt), []).append((_o, _n))


def processor(lang, combo):
    p = P.PitchProcessor(lang)
    for name, value in zip(PREFS, combo):
        setattr(p, name, value)
    return p


def acceptable(lang, combo, names):
    """The spellings in names (all for the same pitch) that satisfy the preferences.

    Every preference is a filter that applies if it does not filter out all.
    """
    prefs = dict(zip(PREFS, combo))

    def filt(names, want, pred):
        keep = [n for n in names if pred(n) == want]
        return keep or names

    if lang == "english":
        names = filt(names, prefs["prefer_long"], lambda n: "-" in n)
    if lang == "français":
        names = filt(names, prefs["prefer_accented"], lambda n: "é" in n)
    if lang in ("english", "français", "espanol", "español"):
        names = filt(names, prefs["prefer_x"], lambda n: n.endswith("x"))
    if lang == "norsk":
        names = filt(names, prefs["prefer_double_s"], lambda n: "ss" in n)
    if lang in ("nederlands", "norsk"):
        names = filt(names, prefs["prefer_classic"], lambda n: n[:2] in ("es", "as"))
    if lang in DEPRECATED:
        names = filt(names, prefs["prefer_deprecated"], lambda n: n in DEPRECATED[lang])
    if lang in ("catalan", "català"):
        names = filt(names, prefs["prefer_deprecated"], lambda n: n.endswith("s"))
    return names


class Names(core.Family):
    name = "names"

    def cases(self, tier):
        for lang in LANGS:
            for combo in COMBOS:
                yield [lang, combo, 3 if tier == "quick" else 8]

    def check(self, case, rec):
        lang, combo, span = case
        p = processor(lang, combo)
        everywhere = sorted({k for d in BY_PITCH.values() for k in d})
        for note, alter in everywhere:
            spellings = BY_PITCH[lang].get((note, alter))
            for octave in range(-span, span + 1):
                rec.step()
                pitch = P.Pitch(octave, note, alter)
                try:
                    text = p.to_string(pitch)
                except KeyError:
                    if spellings:
                        raise core.Violation("pitch has a name but is not written", repr((lang, note, alter)))
                    continue
                if not spellings:
                    raise core.Violation("pitch without a name is written", repr((lang, note, alter, text)))
                name = text.rstrip("',")
                marks = text[len(name):]
                if set(marks) == set("',") or name not in TABLE[lang]:
                    raise core.Violation("invalid pitch name written", repr((lang, note, alter, text)))
                o, n, a = TABLE[lang][name]
                o += marks.count("'") - marks.count(",")
                if (o, n, a) != (octave, note, alter):
                    raise core.Violation("name denotes another pitch", repr((lang, combo, octave, note, alter, text)))
                # the name as the code reads it
                q = p.pitch(name)
                q.octave += P.octave_from_string(marks)
                if not (q == pitch) or p.name_octave(pitch) != (name, P.octave_from_string(marks)):
                    raise core.Violation("name reads as another pitch", repr((lang, octave, note, alter, text)))
                if pitch != P.Pitch(octave, note, alter):
                    raise core.Violation("pitch changed by writing it", repr((lang, octave, note, alter)))
                # with the fewest octave marks
                if len(marks) != min(abs(octave - o) for o, _ in spellings):
                    raise core.Violation("more octave marks than needed", repr((lang, octave, note, alter, text)))
                best = [n for o, n in spellings if o == TABLE[lang][name][0]]
                want = acceptable(lang, combo, best)
                if name not in want:
                    raise core.Violation("name does not follow the preferences", "{} {}: {} instead of {}".format(
                        lang, dict(zip(PREFS, combo)), name, want))
                # through nodes
                node = p.pitchable(pitch)
                if type(node) is not lily.Note or node.write() != text or p.read_node(node) != pitch:
                    raise core.Violation("pitchable() wrong", repr((lang, text, node.write())))
                node = p.pitchable(pitch, lily.Pitch)
                if type(node) is not lily.Pitch or node.write() != text:
                    raise core.Violation("pitchable() wrong", repr((lang, text, node.write())))
        rec.trace()
        rec.state([lang, combo])


class Nodes(core.Family):
    """Reading and writing pitches of nodes, and translating between languages."""
    name = "nodes"

    def cases(self, tier):
        for lang in LANGS:
            for other in LANGS:
                yield [lang, other]

    def check(self, case, rec):
        lang, other = case
        p, q = P.PitchProcessor(lang), P.PitchProcessor(other)
        if p.language != lang:
            raise core.Violation("language not set")
        for name in TABLE[other]:
            if name in TABLE[lang]:
                continue
            try:
                p.pitch(name)
            except KeyError:
                continue
            raise core.Violation("name that is not in the language is read", repr((lang, name)))
        for name, (o, n, a) in TABLE[lang].items():
            pitch = p.pitch(name)
            if (pitch.octave, pitch.note, pitch.alter) != (o, n, a):
                raise core.Violation("name denotes another pitch", repr((lang, name)))
            rec.step()
            for mark in (-2, 0, 1):
                node = lily.Note(name, octave=mark)
                pitch = p.read_node(node)
                if pitch != P.Pitch(o + mark, n, a):
                    raise core.Violation("read_node wrong", repr((lang, name, mark, pitch)))
                text = node.write()
                p.write_node(node, pitch)
                if node.write() != text:
                    raise core.Violation("writing the same pitch changes the node", repr((lang, text, node.write())))
                # another octave only: name kept
                with p.process(node) as r:
                    r.octave += 2
                if node.head != name or node.octave != mark + 2:
                    raise core.Violation("changing the octave does not keep the name", repr((lang, text, node.write())))
                with p.process(node, write=False) as r:
                    r.octave += 2
                if node.octave != mark + 2:
                    raise core.Violation("process(write=False) writes", repr((lang, text, node.write())))
                node.octave = mark
                # translate and back
                if (n, a) in BY_PITCH[other]:
                    t = q.pitchable(p.read_node(node))
                    back = p.pitchable(q.read_node(t))
                    if p.read_node(back) != pitch or q.read_node(t) != pitch:
                        raise core.Violation("translation changes the pitch", repr((lang, other, text, t.write(), back.write())))
                    rec.outcome([lang, other, text, t.write()])
                # another pitch
                for (n2, a2) in list(BY_PITCH[lang])[::5]:
                    node = lily.Note(name, octave=mark)
                    new = P.Pitch(mark, n2, a2)
                    p.write_node(node, new)
                    if p.read_node(node) != new:
                        raise core.Violation("write_node wrong", repr((lang, text, node.write(), new)))
        rec.trace()


class Distill(core.Family):
    name = "distill"

    def cases(self, tier):
        for lang in LANGS:
            names = list(TABLE[lang])
            for n in names:
                for i in range(len(COMBOS)):
                    yield [lang, i, [n]]
            default = next(i for i, c in enumerate(COMBOS) if c == (False, False, False, False, True, False))
            starts = [default] if tier == "quick" else range(len(COMBOS))
            for i in starts:
                for n, m in itertools.permutations(names, 2):
                    yield [lang, i, [n, m]]
            if tier == "thorough":
                amb = [n for v in BY_PITCH[lang].values() if len(v) > 1 for o, n in v]
                for w in itertools.permutations(amb, 3):
                    yield [lang, default, list(w)]

    def check(self, case, rec):
        lang, start, names = case
        # can the names be written at all with some preferences?
        consistent = False
        for combo in COMBOS:
            if all(acceptable(lang, combo, [n2 for o2, n2 in BY_PITCH[lang][TABLE[lang][n][1:]] if o2 == TABLE[lang][n][0]]) == [n] for n in names):
                consistent = True
                break
        if not consistent:
            return
        p = processor(lang, COMBOS[start])
        p.distill_preferences(names)
        rec.step()
        if p.language != lang:
            raise core.Violation("distill_preferences changes the language")
        if len(names) == 1 and len(BY_PITCH[lang][TABLE[lang][names[0]][1:]]) == 1 and names[0][:2] not in ("ae", "ee"):
            # there is only one name, so it tells nothing
            now = tuple(getattr(p, a) for a in PREFS)
            if now != tuple(COMBOS[start]):
                raise core.Violation("preferences changed by a name without alternative", "{} {}: {} instead of {}".format(lang, names, now, COMBOS[start]))
        default = COMBOS[start] == (False, False, False, False, True, False)
        for n in names:
            o, step, alter = TABLE[lang][n]
            if lang == "english" and alter == 0 and not default:
                continue    # "c" tells nothing about the preferred style
            text, octave = p.name_octave(P.Pitch(o, step, alter))
            if text != n:
                raise core.Violation("detected preferences do not reproduce the names", "{} {} (initially {}): {} becomes {}; now {}".format(
                    lang, names, COMBOS[start], n, text, [getattr(p, a) for a in PREFS]))
        rec.trace()
        rec.outcome([lang, names])


class Follow(core.Family):
    """Language commands in documents."""
    name = "follow"
    ITEMS = ['\\language "nederlands"', '\\language "english"', '\\include "deutsch.ly"', '\\language "nope"', '\\include "other.ily"',
             "\\include", "{ es }", "x = { <as es'> }"]

    def cases(self, tier):
        yield from core.words(self.ITEMS, 4 if tier == "quick" else 5, 1)

    def check(self, case, rec):
        tree, d = docs.parse("\n".join(case))
        want = []
        lang = "nederlands"
        for item in case:
            if item.startswith(("\\lang", "\\incl")):
                name = item.partition('"')[2].rstrip('"').replace(".ly", "")
                if name in TABLE:
                    lang = name
            else:
                want += [lang] * (1 if item.startswith("{") else 2)
        p = P.PitchProcessor()
        got = [p.language for n in p.follow_language(d.descendants()) if isinstance(n, lily.Note)]
        if got != want:
            raise core.Violation("follow_language wrong", "{}: {} instead of {}".format(case, got, want))
        got = []
        for n in d // lily.Note:
            p = P.PitchProcessor()
            p.find_language(n)
            got.append(p.language)
        if got != want:
            raise core.Violation("find_language wrong", "{}: {} instead of {}".format(case, got, want))
        for n in d // (lily.Language, lily.Include):
            if n.language is not None and n.language in TABLE:
                n.language = "français"
                if n.write().split('"')[1].replace(".ly", "") != "français" or n.language != "français":
                    raise core.Violation("setting the language of a command", n.write())
        rec.step(len(want))
        rec.trace()


class Determine(core.Family):
    name = "determine"

    def cases(self, tier):
        allnames = sorted({n for d in TABLE.values() for n in d})
        for n in allnames:
            yield [n]
        for i, n in enumerate(allnames):
            # one case per first name, all second names inside
            yield [n, None]

    def check(self, case, rec):
        allnames = sorted({n for d in TABLE.values() for n in d})
        sets = [case] if case[-1] is not None else [[case[0], m] for m in allnames if m > case[0]]
        for names in sets:
            got = list(P.determine_language(names + ["r", "s", "q", "R"]))
            valid = {l for l in TABLE if all(n in TABLE[l] for n in names if n not in "rRsq")}
            if not set(got) <= valid:
                raise core.Violation("determine_language yields a language without the name", repr((names, got)))
            for l in valid:
                k = sum(1 for g in got if TABLE[g] == TABLE[l])
                if k != len({id(TABLE[v]) for v in valid if TABLE[v] == TABLE[l]}) or len(got) != len(set(got)):
                    raise core.Violation("determine_language misses or repeats a language", repr((names, got, l)))
            rec.step()
        rec.trace()


class Setting(core.Family):
    name = "setting"

    def cases(self, tier):
        yield from core.words(LANGS + ["nope", "", None], 2, 1)

    def check(self, case, rec):
        p = P.PitchProcessor()
        cur = "nederlands"
        for lang in case:
            if lang is None:
                del p.language
                cur = "nederlands"
            else:
                try:
                    p.language = lang
                    ok = True
                except KeyError:
                    ok = False
                if ok != (lang in TABLE):
                    raise core.Violation("unknown language accepted or known one rejected", repr(lang))
                if ok:
                    cur = lang
            if p.language != cur:
                raise core.Violation("language wrong", repr(case))
            rec.step()


def families():
    return [Names(), Nodes(), Distill(), Follow(), Determine(), Setting()]
