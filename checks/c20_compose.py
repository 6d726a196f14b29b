"""C20: normalization is compositional across sentence punctuation.

All ordered pairs (and bounded triples) over an inventory with every token
kind, joined by sentence punctuation, go through the real pipelines; each must
give the results of its parts, joined by that punctuation.
"""

import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
from fragments import FRAGMENTS  # noqa: E402

PIPES = {}
# Marks that end a clause and belong to no number, date or address of the language; (mark, what it is written as).
MARKS = {
    "zh_tn": [("、", "、"), ("；", ";"), ("！", "!"), ("？", "?"), ("，", ","), ("。", ".")],
    "ja_tn": [("、", "、"), ("；", ";"), ("！", "!"), ("？", "?")],
    "en_tn": [("; ", "; "), ("! ", "! "), (" ; ", " ; ")],
    "zh_itn": [("、", "、"), ("，", "，"), ("。", "。"), ("；", "；"), ("！", "！"), ("？", "？")],
    "ja_itn": [("、", "、"), ("，", "，"), ("。", "。"), ("；", "；"), ("！", "！"), ("？", "？")],
    "en_itn": [(" ; ", " ; "), (" ! ", " ! "), (" ? ", " ? ")],
}
MORE = {
    "zh_tn": ["5", "12", "100000", "0.5", "12.30", "-3.2", "+7", "½", "2/3", "100%", "20%-30%", "1~5天", "3-5", "5:3", "8:30", "18:00:05", "凌晨3:15",
              "1999年", "3月", "12日", "1999年3月", "2025/01/02", "3月5日", "￥5.5", "100美元", "US$20", "HK$5", "5kg", "30km/h", "5米", "20℃", "三千", "第5",
              "No.5", "95后", "80后", "B2B", "5G", "400-820-8820", "+86 13812345678", "a1b2", "V2", "5万", "3.5亿", "2×3", "5>=3", "a+b", "湖人3:2",
              "西班牙2-1", "语言", "語言", "花儿", "女儿", "呃", "M.V.P", "（x）", "…", "~", "-", "：", "a-b", "x@y.com", "http://a.cn/b"],
    "ja_tn": ["5", "12", "100000", "0.5", "12.30", "-3.2", "+7", "2/3", "100%", "1~5日", "3-5", "5:3", "8:30", "18:00:05", "午前3:15", "1999年", "3月", "12日",
              "1999年3月", "3月5日", "5万円", "100ドル", "$20", "5kg", "30km/h", "5メートル", "20℃", "第5回", "B2B", "5G", "a1b2", "3.5億", "2×3", "a+b", "語言",
              "R-18", "@", "（x）", "…", "~", "-", "a-b", "x@y.com", "１２３", "ＡＢＣ", "ﾊﾝ", "5回", "3人"],
    "en_tn": ["5", "12", "100000", "0.5", "12.30", "-3.2", "+7", "2/3", "100%", "3:05 p.m.", "8:30", "18:00:05", "1999", "the 1990s", "may 5", "5 may 2012", "2012/05/06",
              "$5", "$1", "£20.50", "€3 million", "5 kg", "30 km/h", "20 °C", "1 km", "3rd", "101st", "No. 5", "B2B", "5G", "800-123-4567", "a1b2", "#5", "dr. smith",
              "st. paul", "x@y.com", "http://a.com/b", "127.0.0.1", "10,000", "jan.", "AM", "TV", "it's", "well-known", "(x)", "...", "-", "&", "+", "=", "5 + 3 = 8",
              "1/2 cup", "5'", "4x", "covid-19", "q&a", "1-2", "100 m", "5 lbs", "5 ft"],
    "zh_itn": ["五", "十二", "一百零五", "十万", "三点五", "负三点二", "三分之二", "百分之百", "百分之二十到三十", "一到五天", "三到五", "五比三", "八点半", "十八点零五分", "凌晨三点十五分",
               "一九九九年", "三月", "十二号", "三月五日", "五块五", "一百美元", "五千克", "三十公里每小时", "五米", "二十摄氏度", "第五", "八零后", "五万", "三点五亿", "二乘三", "京A一二三四五",
               "G一零一次列车", "四个八", "幺零零八六", "一二七点零点零点一", "七八十", "五六个", "十几", "几十", "语言", "呃", "一下", "一会儿", "百", "千万", "万一", "一些", "三五成群", "两", "（十二）",
               "每小时六十公里", "十七八岁", "零", "零点五", "a到b", "二零二零", "一千零一夜"],
    "ja_itn": ["五", "十二", "百五", "十万", "三点五", "マイナス三", "三分の二", "百パーセント", "五時", "十八時五分", "午前三時十五分", "一九九九年", "三月", "十二日", "三月五日", "五ドル", "一万円",
               "五キログラム", "三十キロメートル", "五メートル", "第五", "五万", "三億", "二千二十", "一二七", "〇", "語言", "一人", "百", "千", "万一", "月曜日", "（十二）", "五回", "十分", "三対二",
               "二十五日", "零点五", "一つ"],
    "en_itn": ["five", "thirteen", "one hundred and five", "one hundred thousand", "zero point five", "minus thirty", "two thirds", "one hundred percent", "three o'clock",
               "half past eight", "quarter to nine", "eight thirty p m", "nineteen ninety nine", "the nineteen nineties", "may fifth", "the fifth of may", "march", "five dollars",
               "one dollar", "twenty pounds and fifty pence", "three million euros", "five kilograms", "thirty miles per hour", "third", "one hundred and first", "two hundred",
               "one two three", "eight hundred one two three four five six seven", "a b c dot com", "x at y dot com", "doctor smith", "o o", "oh", "twenty twenty", "ten",
               "eleven", "twelve", "thousand", "a million", "a hundred", "january", "monday", "p m", "c plus plus", "it's", "well-known", "minus", "point", "and", "dot", "per"],
}
SHORT = {
    "zh_tn": ["5", "-3.2", "1/3", "3-5岁", "8:30", "5:3", "2025年1月2日", "3月", "25kg", "￥100", "100%", "13812345678", "hello", "语言", "1+1=2", "B2B"],
    "ja_tn": ["5", "-3.2", "1/3", "3~5歳", "8:30", "2025年1月2日", "3月", "25kg", "100円", "100%", "hello", "カナ", "1+1=2", "B2B"],
    "en_tn": ["5", "-3.2", "1/3", "8:30", "may 5", "1999", "25 kg", "$12.05", "100%", "1st", "a@b.com", "hello", "B2B"],
    "zh_itn": ["五", "十二", "负三点二", "三分之一", "三到五岁", "八点半", "二零二五年一月二日", "三月", "二十五公里", "一百元", "百分之百", "幺零零八六", "hello", "语言", "七八十"],
    "ja_itn": ["五", "十二", "マイナス三", "三分の一", "八時半", "二〇二五年一月二日", "三月", "二十五キログラム", "百円", "百パーセント", "hello", "カナ"],
    "en_itn": ["five", "twenty one", "minus thirty", "half past eight", "may fifth", "nineteen ninety nine", "twenty five kilograms", "twelve dollars", "ten percent",
               "third", "a at b dot com", "hello"],
}


def grouped(parts):
    """Whether the full-width comma groups digits here, as in '12，100km/h'."""
    return any(re.search(r"\d$", a) and re.match(r"\d{3}(?!\d)", b) for a, b in zip(parts, parts[1:]))


def judge(job):
    name, rows, alone = job
    pipe = PIPES[name]
    bad = []
    for parts, mark, written in rows:
        text = mark.join(parts)
        got = pipe.normalize(text)
        want = written.join(alone[p] for p in parts)
        if got != want:
            bad.append((text, got, want))
    return bad


def answers(job):
    name, texts = job
    return [PIPES[name].normalize(t) for t in texts]


def body(report):
    PIPES.update(common.build_many([(n, n, {}) for n in common.PIPELINES]))
    names = list(PIPES)
    inventory = {n: list(dict.fromkeys(FRAGMENTS[n] + MORE[n] + SHORT[n])) for n in names}
    alone = {n: dict(zip(inventory[n], got)) for n, got in zip(names, common.run_jobs([(n, inventory[n]) for n in names], answers))}
    jobs = []
    for name in names:
        for k, (mark, written) in enumerate(MARKS[name]):
            rows = []
            for pair in itertools.product(inventory[name], repeat=2):
                if report.thorough or k == 0 or pair[0] in SHORT[name] or pair[1] in SHORT[name]:
                    rows.append((pair, mark, written))
            if k < (len(MARKS[name]) if report.thorough else 2):
                rows += [(triple, mark, written) for triple in itertools.product(SHORT[name], repeat=3)]
            if k == 0 and report.thorough:
                rows += [(four, mark, written) for four in itertools.product(SHORT[name][:10], repeat=4)]
            rows = [row for row in rows if not (mark == "，" and grouped(row[0]))]
            report.count("texts_" + name, len(rows))
            jobs += [(name, chunk, alone[name]) for chunk in common.chunks(rows, 300)]
        report.set("inventory_" + name, len(inventory[name]))
        report.sample({"pipeline": name, "text": mark.join(rows[77][0]), "expected": written.join(alone[name][p] for p in rows[77][0])})
    for (name, rows, _), bad in zip(jobs, common.run_jobs(jobs, judge)):
        report.count("evaluations", len(rows))
        for text, got, want in bad:
            report.violation("{}:{}".format(name, text), "{}: {!r} gives {!r}, its parts {!r}".format(name, text, got, want))
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "all ordered pairs of the inventory by the first mark, pairs with a short part by every mark, triples of short parts by two "
                       "marks (thorough: all pairs and triples by every mark, quadruples by one); distinct texts counted")


if __name__ == "__main__":
    common.main("C20", "exploration", body)
