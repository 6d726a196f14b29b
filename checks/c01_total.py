"""C01: every text is accepted by every pipeline (tagger input universality)."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
import fstkit

# Unicode neighbourhoods from which concrete texts are built to replay the
# model's verdict against the implementation.
ATOMS = ["a", "Z", "5", "０", "十", "五", "あ", "é", "한", "😀", " ", "\t", "\n", "\u00a0", "\u3000", "\x01", "\x7f", "\"", "\\",
         "[", "]", "{", "}", "<", "/", ".", ",", "$", "#", "%", "-", "：", "。", "￥", "\U0010ffff", "\u0300"]


def body(report):
    engine = fstkit.compile_engine()
    scratch = common.scratch()

    def job(item):
        name, config = item
        processor = common.build(name, **config)
        path = os.path.join(scratch, "c01-{}.fst".format(os.getpid()))
        processor.tagger.write(path)
        result = fstkit.run_engine(engine, "universal", path, "12")
        os.unlink(path)
        bad = []
        for hexed in result["fails"]:
            text = fstkit.text(hexed)
            try:
                processor.tag(text)
                replay = "tagged"
            except Exception as error:
                replay = "{}: {}".format(type(error).__name__, error)
            bad.append((text, replay))
        replayed = 0
        default = config == fstkit.FLAGS[name]
        texts = [a + b for a in ATOMS for b in [""] + (ATOMS if default else [])]
        for text in texts:
            replayed += 1
            try:
                processor.tag(text)
                processor.normalize(text)
            except Exception as error:
                bad.append((text, "{}: {}".format(type(error).__name__, error)))
        return result, bad, replayed

    jobs = fstkit.all_configs(report.thorough)
    largest = 0
    for (name, config), (result, bad, replayed) in zip(jobs, common.run_jobs(jobs, job)):
        where = fstkit.label(name, config)
        if result["capped"]:
            raise RuntimeError("{}: state space not exhausted".format(where))
        report.count("states", result["states"])
        report.count("transitions", result["transitions"])
        report.count("traces_validated_against_impl", replayed)
        report.count("configurations")
        largest = max(largest, result["largest_set"])
        report.sample({"pipeline": where, "states": result["states"], "transitions": result["transitions"]})
        for text, replay in bad:
            if replay == "tagged":
                raise RuntimeError("{}: the model rejects {!r} but the implementation accepts it".format(where, text))
            report.violation("{}:{!r}".format(name, text), "{}: {!r} is not accepted ({})".format(where, text, replay),
                             text=text, pipeline=where)
    report.set("largest_state_set", largest)
    report.set("exhaustive", True)
    report.assumptions.append("text is a non-empty sequence of Unicode scalar values without U+0000")


if __name__ == "__main__":
    common.main("C01", "model_checking", body)
