"""C17: each option changes exactly what it documents.

Character options: every option combination x every character of the frozen
character tables (and of the whole Basic Multilingual Plane) goes through the
real pipeline and is compared with a character model built from those tables;
texts with tokens of every kind must differ from the all-off pipeline by that
model and by nothing else.  Number options: every combination x a bounded
space of spoken numbers in every context, against the rule the options state.
"""

import itertools
import json
import os
import re
import string
import sys
import unicodedata

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import readings as R  # noqa: E402
from fragments import FRAGMENTS  # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "..", "spec", "lexicons.json"), encoding="utf-8") as handle:
    LEX = json.load(handle)
PUNCT = set(string.punctuation)
ZH = ("remove_interjections", "remove_erhua", "traditional_to_simple", "remove_puncts", "full_to_half", "tag_oov")
JA = ("transliterate", "remove_interjections", "remove_puncts", "full_to_half", "tag_oov")
NUMBERS = ("enable_standalone_number", "enable_0_to_9", "enable_million")
OPTIONS = {"zh_tn": ZH, "ja_tn": JA, "zh_itn": ("remove_interjections",) + NUMBERS, "ja_itn": ("full_to_half",) + NUMBERS}
NEUTRAL = {"zh_tn": "甲", "ja_tn": "木", "zh_itn": "甲", "ja_itn": "木"}
PIPES = {}
FACTS = {}


def chars(*names):
    return {row[0] for name in names for row in LEX[name]}


def pairs(name):
    return {row[0]: row[1] for row in LEX[name]}


WIDTH = {"zh_tn": pairs("zh_tn/char/fullwidth_to_halfwidth"), "ja_tn": pairs("ja_tn/char/fullwidth_to_halfwidth"),
         "ja_itn": pairs("ja_tn/char/fullwidth_to_halfwidth")}
SIMPLE = pairs("zh_tn/char/traditional_to_simple")
MARKS = {"zh_tn": chars("zh_tn/char/punctuations_zh") | PUNCT, "ja_tn": chars("ja_tn/char/punctuations_ja") | PUNCT}
PLAIN = set(string.ascii_letters + string.digits + " \t\n\r\v\f\u00a0")
CHARSET = {"zh_tn": chars("zh_tn/char/charset_national_standard_2013_8105", "zh_tn/char/charset_extension") | MARKS["zh_tn"] | PLAIN,
           "ja_tn": chars("ja_tn/char/hiragana_and_katakana", "ja_tn/char/common_chinese_char") | MARKS["ja_tn"] | PLAIN}
INTERJECTIONS = {"zh_tn": chars("zh_tn/default/blacklist"), "zh_itn": chars("zh_itn/default/blacklist"), "ja_tn": set(), "ja_itn": set()}


def model(name, flags, text):
    """The text after the character options, character by character."""
    out = []
    for c in text:
        if name == "ja_tn" and flags["full_to_half"]:
            c = WIDTH[name].get(c, c)
        if flags.get("traditional_to_simple"):
            c = SIMPLE.get(c, c)
        if flags.get("remove_interjections") and c in INTERJECTIONS[name]:
            continue
        if flags.get("remove_puncts") and c in MARKS[name]:
            continue
        if name != "ja_tn" and flags.get("full_to_half"):
            c = WIDTH[name].get(c, c)
        if flags.get("tag_oov") and c not in CHARSET[name]:
            c = "<oov>" + c + "</oov>"
        out.append(c)
    return "".join(out)


def settings(name, keys=None):
    """Every combination of the options."""
    keys = keys or OPTIONS[name]
    for values in itertools.product((False, True), repeat=len(keys)):
        yield dict(zip(keys, values))


def alphabet(name, reach):
    """Characters by reach: 0 a cut through the tables, 1 all of the tables, 2 the whole plane."""
    if reach == 2:
        thin = os.environ.get("VERIF_TIER") != "thorough"     # Hangul and private use: one in sixteen
        pool = [chr(c) for c in itertools.chain(range(0x21, 0xD800), range(0xE000, 0x10000),
                                                (0x10000, 0x1F600, 0x20000, 0x20BB7, 0x2CE93, 0x10FFFD))
                if not (thin and (0xAC00 <= c < 0xD7A4 or 0xE000 <= c < 0xF900) and c % 16)]
    else:
        pool = set(SIMPLE) | set(SIMPLE.values()) | set().union(*WIDTH.values()) | set(WIDTH["zh_tn"].values())
        pool |= set().union(*MARKS.values()) | set().union(*CHARSET.values()) | set().union(*INTERJECTIONS.values())
        pool = sorted(c for c in pool if len(c) == 1)
        if reach == 0:
            few = set().union(*WIDTH.values()) | set(WIDTH["zh_tn"].values()) | set().union(*MARKS.values()) | set().union(*INTERJECTIONS.values())
            pool = [c for i, c in enumerate(pool) if c in few or i % 20 == 0]
        pool += ["é", "ß", "я", "א", "한", "鬱", "龘", "𠮷", "😀", "€", "ﾊ", "ﬁ", "\u200b", "丂", "ゔ"]
    out = []
    for c in pool:
        if c.isspace() or unicodedata.category(c) == "Cc" or c in '"\\':
            continue
        if unicodedata.normalize("NFKC", c).isdigit() or c == "儿":
            continue
        if name.endswith("itn") and (unicodedata.numeric(c, None) is not None or c in "两両兩幺点點拐洞勾"):
            continue
        if c in FACTS[name]:
            continue      # an operator or listed word on its own
        out.append(c)
    return out


def claimed(name):
    """Characters some rule other than the fallback claims even between letters."""
    out = set()
    if name == "zh_tn":
        out |= chars("zh_tn/math/operator") | chars("zh_tn/math/operator_unambiguous")
    if name == "ja_tn":
        out |= chars("ja_tn/math/operator") | chars("ja_tn/default/whitelist") | chars("ja_tn/pyopenjtalk/transliteration")
        out |= {k for k, v in WIDTH["ja_tn"].items() if v in out}
    if name == "zh_itn":
        for table, rows in LEX.items():
            if table.startswith("zh_itn/"):
                out |= {c for row in rows for c in row}
        out -= INTERJECTIONS[name]
    if name == "ja_itn":
        for table, rows in LEX.items():
            if table.startswith("ja_itn/"):
                out |= {c for row in rows for c in row}
    return out


def char_rows(name, reach):
    """Texts that hold each character between neutral ones, and next to itself."""
    spacer = NEUTRAL[name]
    for chunk in common.chunks(alphabet(name, reach), 60):
        yield spacer + spacer.join(chunk) + spacer


def token_rows(name):
    texts = [t for t in FRAGMENTS[name] if t not in ('"q"', "\\")]
    if name == "zh_tn":
        texts += ["語言2025年", "３月5日", "《學》10:30", "呃5kg啊", "啊啊呃", "100km/h！", "比分3:2，", "“漢”1/3”", "GDP增長3.5%", "囍3-5岁"]
    if name == "ja_tn":
        texts += ["語言2025年", "「學」10:30", "100km/h！", "1/3”", "３月5日", "１００円", "囍3~5歳", "5ｋｇ", "１０：３０"]
    return texts


def erhua_rows():
    words = sorted(chars("zh_tn/erhua/whitelist"))
    for word in words:
        yield word, word
        yield "这是" + word + "的", "这是" + word + "的"
        yield word + "、" + word, word + "、" + word
    for before in "花这那哪点玩小一事头味劲圈馅":
        if before + "儿" not in words:
            yield before + "儿", before
            yield "去" + before + "儿吧", "去" + before + "吧"
            yield before + "儿、" + before + "儿", before + "、" + before
    yield "5块儿", "五块"
    yield "一会儿儿童", "一会儿童"
    yield "女儿的花儿", "女儿的花"


def judge_chars(job):
    name, flags, reach = job
    pipe = common.build(name, **flags)
    bad = []
    done = 0
    for text in char_rows(name, reach):
        want = model(name, flags, text)
        got = pipe.normalize(text)
        done += len(text) // 2
        if got != want:
            for c in text:     # name the characters
                if c == NEUTRAL[name]:
                    continue
                one = NEUTRAL[name] + c + NEUTRAL[name]
                got, want = pipe.normalize(one), model(name, flags, one)
                if got != want:
                    bad.append(("char", one, got, want))
            if not bad:
                bad.append(("chars", text, pipe.normalize(text), model(name, flags, text)))
    results = {t: pipe.normalize(t) for t in token_rows(name)}
    done += len(results)
    if name == "zh_tn":
        for text, bare in erhua_rows():
            want = model(name, flags, bare if flags["remove_erhua"] else text.replace("5块", "五块"))
            got = pipe.normalize(text)
            done += 1
            if got != want:
                bad.append(("erhua", text, got, want))
    if name == "ja_tn":
        for written, spoken in transliterations(reach == 2):
            for left, right in (("", ""), ("「", "」"), ("木", "木")):
                got = pipe.normalize(left + written + right)
                want = model(name, flags, left + (spoken if flags["transliterate"] else written) + right)
                done += 1
                if got != want:
                    bad.append(("transliterate", left + written + right, got, want))
    return bad, results, done


def transliterations(wide):
    """Rows of plain words, which nothing else claims."""
    rows = [r for r in LEX["ja_tn/pyopenjtalk/transliteration"]
            if re.fullmatch("[A-Za-z]{2,}", r[0]) and not UNITS.fullmatch(r[0])]
    return rows if wide else rows[::40]


UNITS = re.compile("|".join(sorted((re.escape(u) for u in chars("ja_tn/measure/units_en")), key=lambda u: -len(u))))


def judge_tokens(name, results, report):
    """Token texts: the options act on the reading of the all-off pipeline, and on nothing else."""
    keys = OPTIONS[name]
    for text in token_rows(name):
        for key, answers in results.items():
            flags = dict(zip(keys, key))
            base = dict.fromkeys(keys, False)
            if name == "ja_tn":      # the width option also lets the rules read full-width text
                base["full_to_half"] = flags["full_to_half"]
                base["transliterate"] = flags["transliterate"]
            if name == "zh_tn":      # 儿 stands in no text but 一儿 here
                base["remove_erhua"] = flags["remove_erhua"]
            plain = results[tuple(base[k] for k in keys)][text]
            want = model(name, flags, plain)
            report.count("token_evaluations")
            if answers[text] != want:
                on = "+".join(k for k in keys if flags[k])
                report.violation("{}:token:{}:{}".format(name, on, text), "{} with {}: {!r} gives {!r}, want {!r}".format(
                    name, on or "no option", text, answers[text], want))


# ---- number options -------------------------------------------------------

def spoken(lang, n):
    words = R.expand((R.zh_integer if lang == "zh" else R.ja_integer)(str(n)))
    return words


def value(text):
    """The value of a number written with 万, 亿 and 億."""
    text = text.replace("億", "亿").replace("W", "万")
    total = 0
    for mark, scale in (("兆", 10 ** 12), ("亿", 10 ** 8), ("万", 10 ** 4)):
        if mark in text:
            head, text = text.split(mark, 1)
            if not head.isdigit():
                return None
            total += int(head) * scale
    if text == "":
        return total
    return total + int(text) if text.isdigit() else None


def number_form(n, flags, kind):
    """Whether a written number is right in value and in form."""
    def right(text):
        if value(text) != n:
            return False
        if kind != "alone" and n % 10000 == 0:
            return True       # before units 万 may stay, whatever the options
        if n < 10 ** 6 or (flags["enable_million"] and n < 10 ** 8):
            return text == str(n)
        return "万" in text or "亿" in text or "億" in text
    return right


def number_rows(lang, thorough):
    """(kind, text, prefix, suffix, n, needs) with the rule on when the number is written."""
    small = list(range(0, 10))
    large = list(range(10, 131)) + [200, 205, 210, 340, 999, 1000, 1001, 1010, 1100, 1234, 9999, 10000, 10005, 12000, 34567,
                                    99999, 100000, 123456, 200000, 999999, 1000000, 1234500, 6000000, 12345678, 99999999]
    if thorough:
        large += list(range(131, 2000, 7)) + [n * 10 ** k for n in (2, 13, 407) for k in range(3, 6)]
    units = {"zh": [("个", "个"), ("公里", "km"), ("岁", "岁"), ("平方米", "m²"), ("次", "次")],
             "ja": [("個", "個"), ("キロメートル", "km"), ("歳", "歳"), ("グラム", "g")]}[lang]
    money = {"zh": [("美元", "$"), ("欧元", "€")], "ja": [("ドル", "$"), ("ユーロ", "€")]}[lang]
    for n in small + large:
        ways = spoken(lang, n)
        for way in ways if thorough else ways[:1]:
            for left, right in (("", ""), ("共计", "、") if lang == "zh" else ("「", "」")):
                yield "alone", left + way + right, left, right, n
            for unit, sign in units:
                if way + unit == "一个":
                    continue      # listed as a word
                yield "unit", way + unit, "", sign, n
            for name, sign in money:
                yield "money", way + name, sign, "", n


# Texts no number option concerns: the same under every combination.
FIXED = {
    "zh_itn": ["三点五", "零点零五", "幺三八七", "五五五", "百分之五", "百分之十二", "二零二五年五月三日", "五月三日", "五分之三", "负五分之三",
               "下午五点十分", "十点半", "京A一二三四五", "五点三公里", "一二七点零点零点一", "你好", "hello", "五块三毛"],
    "ja_itn": ["三点五", "〇点〇五", "一三八七", "五五五", "五パーセント", "十二パーセント", "二〇二五年五月三日", "五月三日", "五分の三",
               "五時十分", "十時半", "五点三キロメートル", "こんにちは", "hello"],
}
ANSWER = {
    "zh_itn": ["3.5", "0.05", "1387", "555", "5%", "12%", "2025/05/03", "05/03", "3/5", "-3/5", "5:10p.m.", "10:30", "京A12345", "5.3km",
               "127.0.0.1", "你好", "hello", "5块3毛"],
    "ja_itn": ["3.5", "0.05", "1387", "555", "5%", "12%", "2025年5月3日", "5月3日", "3/5", "5時10分", "10時半", "5.3km", "こんにちは", "hello"],
}


def judge_numbers(job):
    name, flags, thorough = job
    pipe = common.build(name, **flags)
    lang = name[:2]
    bad = []
    done = 0
    for kind, text, left, right, n in number_rows(lang, thorough):
        got = pipe.normalize(text)
        done += 1
        big = n > 9 or flags["enable_0_to_9"]
        convert = big and (kind != "alone" or flags["enable_standalone_number"])
        if not convert:
            fine = got == text
            want = text
        else:
            fine = got.startswith(left) and got.endswith(right) and number_form(n, flags, kind)(got[len(left):len(got) - len(right)])
            want = left + str(n) + right
        if not fine:
            bad.append((kind, text, got, want))
    fixed = [pipe.normalize(text) for text in FIXED[name]]
    for text, got, want in zip(FIXED[name], fixed, ANSWER[name]):
        done += 1
        if want is not None and got != want:
            bad.append(("fixed", text, got, want))
    # the character option of the pipeline
    on = sum(flags[k] for k in NUMBERS)
    for reach in (0, 1, 2) if thorough else (1,) if on in (0, 3) else (0,):
        for text in char_rows(name, reach):
            got, want = pipe.normalize(text), model(name, flags, text)
            done += len(text) // 2
            if got != want:
                bad.append(("chars", text, got, want))
    return bad, dict(zip(FIXED[name], fixed)), done


def body(report):
    for name in OPTIONS:
        FACTS[name] = claimed(name)
    jobs = []
    for name in ("zh_tn", "ja_tn"):
        for flags in settings(name):
            on = sum(flags.values())
            reach = 2 if report.thorough or on in (0, len(flags)) else 1 if on == 1 else 0
            jobs.append((name, flags, reach))
        report.set("characters_" + name, len(alphabet(name, 2)))
    jobs.sort(key=lambda j: -j[2])
    results = {"zh_tn": {}, "ja_tn": {}}
    for (name, flags, wide), (bad, answers, done) in zip(jobs, common.run_jobs(jobs, judge_chars)):
        on = "+".join(k for k, v in flags.items() if v)
        report.count("combinations")
        report.count("evaluations", done)
        results[name][tuple(flags.values())] = answers
        for kind, text, got, want in bad:
            report.violation("{}:{}:{}:{}".format(name, kind, on, text), "{} with {}: {!r} gives {!r}, want {!r}".format(
                name, on or "no option", text, got, want))
    for name in results:
        judge_tokens(name, results[name], report)
    jobs = []
    for name in ("zh_itn", "ja_itn"):
        for flags in settings(name):
            first = OPTIONS[name][0]
            if not report.thorough and name == "zh_itn" and not flags[first] and sum(flags.values()) not in (0, 3):
                continue
            jobs.append((name, flags, report.thorough))
    fixed = {}
    for (name, flags, _), (bad, answers, done) in zip(jobs, common.run_jobs(jobs, judge_numbers)):
        on = "+".join(k for k, v in flags.items() if v)
        report.count("combinations")
        report.count("evaluations", done)
        for kind, text, got, want in bad:
            report.violation("{}:{}:{}:{}".format(name, kind, on, text), "{} with {}: {!r} gives {!r}, want {!r}".format(
                name, on or "no option", text, got, want))
        for text, got in answers.items():
            first = fixed.setdefault((name, text), (got, on))
            if got != first[0]:
                report.violation("{}:changed:{}:{}".format(name, on, text), "{}: {!r} gives {!r} with {} but {!r} with {}".format(
                    name, text, got, on, first[0], first[1]))
    report.set("distinct_nontrivial", report.coverage["combinations"])
    report.sample({"pipeline": "zh_tn", "options": "traditional_to_simple+tag_oov", "text": "甲學甲龘甲",
                   "expected": model("zh_tn", dict.fromkeys(ZH, False) | {"traditional_to_simple": True, "tag_oov": True}, "甲學甲龘甲")})
    report.set("exhaustive", True)
    report.set("rule", "every option combination x every table character (one in twenty, and every punctuation mark, for combinations of "
                       "middle size; the whole BMP for none and all options) in neutral context, erhua and transliteration rows, token texts; number options x spoken numbers x contexts; "
                       "distinct = option combinations")


if __name__ == "__main__":
    common.main("C17", "exploration", body)
