"""C07: mappings are exact, ordered, complete character spans.

Every sequence of fragments and short strings up to a bound is normalized with
mappings on the six real pipelines, and each result is compared with the token
stream: one mapping per token, its source the token's written fields, its
output what the verbalizer gives for that token alone, nothing lost between.
"""

import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import wire  # noqa: E402
from fragments import FRAGMENTS  # noqa: E402

PIPES = {}
# characters of one to four UTF-8 bytes, blanks, wire specials, a digit, a unit
ALPHABET = {
    "zh_tn": ["1", "中", "é", "😀", " ", "\t", "%", "\"", "\\", "啊", "\u00a0"],
    "ja_tn": ["1", "あ", "é", "😀", " ", "　", "%", "\"", "\\", "本"],
    "en_tn": ["1", "a", "é", "😀", " ", "\t", "%", "\"", "\\", ".", "中", "\u00a0"],
    "zh_itn": ["一", "百", "点", "é", "😀", " ", "a", "\"", "\\"],
    "ja_itn": ["一", "百", "点", "あ", "é", "😀", " ", "\"", "\\"],
    "en_itn": ["one", " ", "é", "😀", "a", "\"", "\\", "point", "中", "\u2003"],
}
CONFIGS = {
    "zh_tn": [{}, dict(remove_erhua=True, remove_puncts=True, tag_oov=True, full_to_half=False, traditional_to_simple=False)],
    "ja_tn": [{}, dict(transliterate=True, remove_puncts=True, tag_oov=True)],
    "en_tn": [{}],
    "zh_itn": [{}, dict(enable_0_to_9=True, enable_standalone_number=False)],
    "ja_itn": [{}, dict(enable_0_to_9=True)],
    "en_itn": [{}],
}
# every blank character of Unicode
BLANKS = [chr(c) for c in range(0x110000) if chr(c).isspace()]
MARKS = {"preserve_order", "kind", "style"}
NAMES = {}


def squeeze(text):
    return "".join(text.split())


def subsequence(short, long):
    it = iter(long)
    return all(c in it for c in short)


def dropped(short, long):
    """long minus the greedy embedding of short."""
    out, i = [], 0
    for c in long:
        if i < len(short) and c == short[i]:
            i += 1
        else:
            out.append(c)
    return "".join(out)


def check_result(pipe, text, result, tokens, tagged, label, spoken):
    if result.input_text != text:
        return "{}: input_text is {!r}".format(label, result.input_text)
    maps = result.mappings
    if [m.token_type for m in maps] != [t[0] for t in tokens]:
        return "{}: tokens {} but mappings {}".format(label, [t[0] for t in tokens], [m.token_type for m in maps])
    out = result.output_text
    pi = po = 0
    for m, (name, fields, start, end) in zip(maps, tokens):
        if not (pi <= m.input_start < m.input_end <= len(text) and po <= m.output_start <= m.output_end <= len(out)):
            return "{}: spans out of order or bounds: {}".format(label, m)
        if m.input_text != text[m.input_start:m.input_end] or m.output_text != out[m.output_start:m.output_end]:
            return "{}: texts are not those of the spans: {}".format(label, m)
        kind = "equal" if m.input_text == m.output_text else "delete" if not m.output_text else "replace"
        if m.kind != kind:
            return "{}: kind should be {}: {}".format(label, kind, m)
        if text[pi:m.input_start].strip() or out[po:m.output_start].strip():
            return "{}: text between tokens belongs to none: {!r} / {!r}".format(
                label, text[pi:m.input_start], out[po:m.output_start])
        source = squeeze("".join(v for k, v in fields if k not in MARKS))
        mine = squeeze(m.input_text)
        if source != mine:
            if not subsequence(source, mine):
                return "{}: token source {!r} is not in its span {!r}".format(label, source, m.input_text)
            lost = dropped(source, mine)
            if any(c.isalnum() for c in lost):
                return "{}: span {!r} has {!r} beyond token source {!r}".format(label, m.input_text, lost, source)
        raw = "".join(v for k, v in fields if k not in MARKS)
        if mine and m.input_text[0].isspace() and not raw[0].isspace():
            return "{}: span {!r} starts with blanks beyond token source {!r}".format(label, m.input_text, raw)
        one = tagged[start:end]
        if one not in spoken:
            spoken[one] = pipe.verbalize(one)
        if spoken[one].strip() != m.output_text.strip():
            return "{}: token {} alone gives {!r}, its mapping {!r}".format(label, one, spoken[one], m.output_text)
        pi, po = m.input_end, m.output_end
    if text[pi:].strip() or out[po:].strip():
        return "{}: trailing text belongs to no token: {!r} / {!r}".format(label, text[pi:], out[po:])
    return None


def job(item):
    key, texts, deep = item
    pipe = PIPES[key]
    spoken, bad, evals, mappings = {}, [], 0, 0
    for text in texts:
        label = "{} {!r}".format(key, text)
        try:
            full = pipe.normalize_with_mapping(text, include_identity=True)
            evals += 1
            tagged = pipe.tag(text)
            tokens = wire.parse(tagged)
            message = check_result(pipe, text, full, tokens, tagged, label, spoken)
            if message is None and full.output_text != pipe.normalize(text):
                message = "{}: output {!r} but normalize gives {!r}".format(label, full.output_text, pipe.normalize(text))
            mappings += len(full.mappings)
            if message is None:
                short = pipe.normalize_with_mapping(text)
                evals += 1
                if (short.mappings != tuple(m for m in full.mappings if m.kind != "equal")
                        or (short.input_text, short.output_text) != (full.input_text, full.output_text)):
                    message = "{}: without identities {}, with them {}".format(label, short, full)
            if message is None and deep:
                outs = pipe.normalize(text, nbest=3)
                many = pipe.normalize_with_mapping(text, nbest=3, include_identity=True)
                evals += 1
                if [r.output_text for r in many] != outs or many[0] != full:
                    message = "{}: nbest mappings are for {} but nbest outputs are {}".format(
                        label, [r.output_text for r in many], outs)
                for r in many:
                    pi = po = 0
                    for m in r.mappings:
                        if (not (pi <= m.input_start < m.input_end <= len(text)
                                 and po <= m.output_start <= m.output_end <= len(r.output_text))
                                or m.input_text != text[m.input_start:m.input_end]
                                or m.output_text != r.output_text[m.output_start:m.output_end]
                                or text[pi:m.input_start].strip() or r.output_text[po:m.output_start].strip()):
                            message = "{}: nbest mapping {}".format(label, m)
                        pi, po = m.input_end, m.output_end
                    if text[pi:].strip() or r.output_text[po:].strip():
                        message = "{}: nbest trailing text belongs to no token".format(label)
        except Exception as error:
            if not common.in_repo(error):
                raise
            message = "{}: {}: {}".format(label, type(error).__name__, error)
        if message:
            bad.append(message)
            if len(bad) >= 10:
                break
    return bad, evals, mappings


def texts_of(name, index, thorough):
    frags = FRAGMENTS[name]
    seen = {}

    def add(text, deep=False):
        if text:
            seen[text] = seen.get(text, False) or deep

    for i, a in enumerate(frags):
        for blank in BLANKS if thorough else (BLANKS[i % len(BLANKS)],):
            for text in (blank + a, a + blank, blank + a + blank, a + blank + a, a + " " + blank + a):
                add(text)
        for text in (a, " " + a, a + "  ", "\t" + a + "\n"):
            add(text, True)
    joiners = ("", " ") if index == 0 else ("",)
    few = frags if thorough else frags[::2] if index == 0 else frags[1::4]
    for a, b in itertools.product(few, frags if index == 0 else few):
        for j in joiners:
            add(a + j + b)
    alphabet = ALPHABET[name]
    depth = 4 if thorough and index == 0 else 3 if index == 0 else 2
    for length in range(1, depth + 1):
        for chars in itertools.product(alphabet, repeat=length):
            add("".join(chars))
    if index == 0:
        core = frags[::6]
        for seq in itertools.product(core, repeat=3):
            add(" ".join(seq) if len(seq[0]) % 2 else "".join(seq))
    return list(seen.items())


def body(report):
    specs = [("{}{}".format(n, i or ""), n, flags) for n in FRAGMENTS for i, flags in enumerate(CONFIGS[n])]
    PIPES.update(common.build_many(specs))
    jobs = []
    for key, name, _ in specs:
        items = texts_of(name, int(key[len(name):] or 0), report.thorough)
        report.count("texts", len(items))
        for deep in (False, True):
            for chunk in common.chunks([t for t, d in items if d == deep], 60):
                jobs.append((key, chunk, deep))
    for item, (bad, evals, mappings) in zip(jobs, common.run_jobs(jobs, job)):
        report.count("evaluations", evals)
        report.count("distinct_nontrivial", len(item[1]))
        report.count("mappings", mappings)
        report.sample({"pipeline": item[0], "text": item[1][0]})
        for message in bad:
            report.violation("map:" + message[:300], message)
    report.set("exhaustive", True)
    report.set("rule", "all fragment texts with blank edges (also for the 3 best readings), all ordered fragment pairs with "
               "and without a blank, fragment triples, all strings up to the length bound over one- to four-byte "
               "characters; every text is distinct and non-empty")
    report.assumptions.append("a token's verbalization alone, edges stripped, is the token's output in context")


common.main("C07", "exploration", body)
