"""C22: a normalized text is a fixed point.

All token strings and number-mark shapes of lib/strings.py go through the real
pipelines twice with the same options; the second pass must change nothing.
"""

import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa: E402
import strings  # noqa: E402
from c21_digits import NO_MEANING  # noqa: E402
from fragments import FRAGMENTS  # noqa: E402

PIPES = {}
# English marks glued to each other or doubled blanks are no text: what they leave is read by the second pass.
NO_TEXT = {"en_tn": re.compile(r"[-.,:/$%+=#@]\s*[-/]|[-/]\s*[-.,:/$%+=#@]|  |x[%ks]|/\S*[-/]|-\S*/|\+\S*\."), "ja_itn": NO_MEANING["ja_itn"]}


def judge(job):
    name, texts = job
    pipe = PIPES[name]
    bad, seen, changed = [], set(), 0
    for text in texts:
        once = pipe.normalize(text)
        changed += once != text
        if once in seen or once == text:        # a text that comes out as itself is a fixed point already
            continue
        seen.add(once)
        twice = pipe.normalize(once)
        if twice != once:
            bad.append((text, once, twice))
    return bad, changed, len(seen)


def body(report):
    PIPES.update(common.build_many([(n, n, {}) for n in common.PIPELINES]))
    jobs = []
    for name in common.PIPELINES:
        texts = list(dict.fromkeys(strings.texts(name, report.thorough) + FRAGMENTS[name] + [a + (" " if name.startswith("en") else "") + b for a in FRAGMENTS[name] for b in FRAGMENTS[name]]))
        if name in NO_TEXT:
            texts = [t for t in texts if not NO_TEXT[name].search(t)]
        report.count("texts_" + name, len(texts))
        report.sample({"pipeline": name, "text": texts[-1], "result": PIPES[name].normalize(texts[-1])})
        jobs += [(name, chunk) for chunk in common.chunks(texts, 400)]
    for (name, texts), (bad, changed, second) in zip(jobs, common.run_jobs(jobs, judge)):
        report.count("evaluations", len(texts) + second)
        report.count("distinct_nontrivial", changed)
        for text, once, twice in bad:
            report.violation("{}:{}".format(name, text), "{}: {!r} gives {!r}, and that gives {!r}".format(name, text, once, twice))
    report.set("exhaustive", True)
    report.set("rule", "all token strings to length 3 of the pipeline's alphabet, all strings of its number-mark shapes, all pairs of fragments; "
                       "non-trivial: texts the first pass changes")


if __name__ == "__main__":
    common.main("C22", "exploration", body)
