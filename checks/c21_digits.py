"""C21: no digit is lost, invented, changed or moved.

All token strings over small alphabets of digits, marks, units and number words,
and all longer ones of a number-mark-number shape, go through the real
pipelines.  The nonzero digits a result names, written or spoken, must be those
of the text, in its order unless the text holds a fraction or a date; and
Chinese and Japanese TN must leave no written digit.
"""

import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import digits  # noqa: E402
import strings  # noqa: E402

PIPES = {}
# What changes the order of digits: fractions (denominator first), dates written day or month first, times told past the hour
MOVES = {"tn": re.compile(r"/|(?<!\d)\d\d?[-.]\d{4}|\d{4}[-.]\d\d?[-.]\d|\d\d?[-.]\d,\d{3}|\d[-.]\d\d?[-.]\d{4}"), "itn": re.compile("分之|分の| past | to | of ")}
# Texts without one meaning: a number right behind a percentage or a fraction, 一十 in Japanese, a unit behind a smaller one, a zero
# before a unit, a unit behind a decimal point
NO_MEANING = {"zh_tn": re.compile(r"%\d|\d-\d+/\d|(?<!\d)\d{1,3}/\d+/\d"), "ja_tn": re.compile(r"%\d|\d-\d+/\d|(?<!\d)\d{1,3}/\d+/\d"),
              "zh_itn": re.compile("百?分之?百|[零〇][十百千]|点.?[十百千]"),
              "ja_itn": re.compile("[〇一]十|[〇一]百|〇千|十[百千]|百千|十十|百百|千千|百分の?百|百分の|点.?[十百千]")}


def wrong(name, text, got):
    lang, way = name.split("_")
    if way == "tn" and lang != "en" and any(c.isdigit() for c in got):
        return "a written digit is left"
    before, after = digits.named(lang, text), digits.named(lang, got)
    if not before & after:
        return "not the same digits"
    if MOVES[way].search(text):
        return None
    if not digits.ordered(lang, text) & digits.ordered(lang, got):
        return "not the same order of digits"
    return None


def judge(job):
    name, texts = job
    bad = []
    for text in texts:
        got = PIPES[name].normalize(text)
        why = wrong(name, text, got)
        if why:
            bad.append((text, got, why))
    return bad


def body(report):
    PIPES.update(common.build_many([(n, n, {}) for n in common.PIPELINES]))
    jobs = []
    for name in common.PIPELINES:
        texts = strings.texts(name, report.thorough)
        if name in NO_MEANING:
            texts = [t for t in texts if not NO_MEANING[name].search(t)]
        report.count("texts_" + name, len(texts))
        report.sample({"pipeline": name, "text": texts[len(texts) // 2], "result": PIPES[name].normalize(texts[len(texts) // 2])})
        jobs += [(name, chunk) for chunk in common.chunks(texts, 400)]
    for (name, texts), bad in zip(jobs, common.run_jobs(jobs, judge)):
        report.count("evaluations", len(texts))
        for text, got, why in bad:
            report.violation("{}:{}".format(name, text), "{}: {!r} gives {!r}: {}".format(name, text, got, why))
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "all token strings to length 3 of the pipeline's alphabet, and all strings of its number-mark shapes; distinct texts counted")


if __name__ == "__main__":
    common.main("C21", "exploration", body)
