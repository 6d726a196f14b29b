"""C03: every analysis the tagger can produce is well formed and verbalizable."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
import fstkit

REPLAY = {
    "tn": ["2025-01-02 10:30", "1/3 3.5% $12.05 -5kg", "$1.0 billion", "a@b.com +86 138 0000 1234", "“x” \\ \"y\"",
           "下午3:30到4:00", "FM 98.5", "<a\"b>"],
    "itn": ["二零二五年一月二日 十点半", "三分之一 百分之五 负十二点五千克", "twenty five dollars", "\"a\\b\"", "下午三点半",
            "january fifth twenty twelve", "午後三時半"],
}


def body(report):
    engine = fstkit.compile_engine()
    scratch = common.scratch()

    def job(item):
        name, config = item
        processor = common.build(name, **config)
        base = os.path.join(scratch, "c03-{}".format(os.getpid()))
        processor.tagger.write(base + ".t")
        fstkit.verbalizer_language(processor.verbalizer).write(base + ".v")
        orders = fstkit.encode_orders(fstkit.token_orders(processor))
        result = fstkit.run_engine(engine, "accept", base + ".t", base + ".v", orders, "12", "30000000")
        os.unlink(base + ".t")
        os.unlink(base + ".v")
        bad = []
        for fail in result["fails"]:
            bad.append((fail["why"], fstkit.text(fail["in"]), fstkit.text(fail["tagged"])))
        replayed = 0
        for text in REPLAY["itn" if name.endswith("itn") else "tn"]:
            for tagged in processor.tag(text, nbest=12):
                replayed += 1
                try:
                    processor.verbalize(tagged)
                except Exception as error:
                    bad.append((type(error).__name__, text, tagged))
        return result, replayed, bad

    jobs = fstkit.all_configs(report.thorough)
    for (name, config), (result, replayed, bad) in zip(jobs, common.run_jobs(jobs, job)):
        where = fstkit.label(name, config)
        if result["malformed"]:
            report.violation("{}:malformed".format(name), "{}: malformed token stream {!r}".format(
                where, fstkit.text(result["malformed"])))
        elif result["capped"] or result["exploded"]:
            raise RuntimeError("{}: state space not exhausted".format(where))
        report.count("states", result["states"])
        report.count("transitions", result["transitions"])
        report.count("field_chains", result["chains"])
        report.count("traces_validated_against_impl", replayed)
        report.count("configurations")
        report.sample({"pipeline": where, "states": result["states"], "verbalizer_sets": result["verbalizer_sets"]})
        for why, text, tagged in bad:
            report.violation("{}:{}".format(name, text), "{}: {!r} tagged {!r}: {}".format(where, text, tagged, why),
                             text=text, tagged=tagged)
    report.set("exhaustive", True)


if __name__ == "__main__":
    common.main("C03", "model_checking", body)
