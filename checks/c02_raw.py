"""C02: the tagger's field values are the input text itself."""

import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
import fstkit

# Fields which say how a token is read and hold no input text.
ROLE_FIELDS = "preserve_order,kind,style"
# Characters a tagger may drop between two fields of one token, before a
# token's first field, and first fields which only name the token's form.
ALLOWED = {
    "zh_tn": ("-./:：", "", ""),
    "ja_tn": ("-./:：。－．／", "", ""),
    "en_tn": ("-./:@", ".", "units=math,units=address,integer=-"),
    "zh_itn": ("", "", ""),
    "ja_itn": ("", "", ""),
    "en_itn": ("", "", ""),
}
REPLAY = {
    "tn": ["2025-01-02 10:30", "1/3 3.5% $12.05 -5kg", "a@b.com +86 138 0000 1234", "“x” \\ \"y\""],
    "itn": ["二零二五年一月二日 十点半", "三分之一 百分之五 负十二点五千克", "twenty five dollars", "\"a\\b\""],
}


def flatten(tagged, orders=None):
    """Field values of a token stream in the order the tagger wrote them."""
    values, pos = [], 0
    while True:
        start = tagged.find('"', pos)
        if start < 0:
            return values
        key = tagged[:start].rstrip(": ").split()[-1]
        out, pos = [], start + 1
        while tagged[pos] != '"':
            if tagged[pos] == "\\":
                pos += 1
            out.append(tagged[pos])
            pos += 1
        pos += 1
        values.append((key, "".join(out)))


def body(report):
    engine = fstkit.compile_engine()
    scratch = common.scratch()

    def job(item):
        name, config = item
        processor = common.build(name, **config)
        path = os.path.join(scratch, "c02-{}.fst".format(os.getpid()))
        processor.tagger.write(path)
        result = fstkit.run_engine(engine, "raw", path, ROLE_FIELDS, *ALLOWED[name])
        os.unlink(path)
        # bind the model to the implementation: the public tagging of concrete
        # texts decodes to the text minus white space and dropped separators
        replayed, bad = 0, []
        droppable = set("".join(ALLOWED[name][:2]))
        markers = {tuple(m.split("=")) for m in ALLOWED[name][2].split(",") if m}
        for text in REPLAY["itn" if name.endswith("itn") else "tn"]:
            for tagged in processor.tag(text, nbest=4):
                fields = [f for f in flatten(tagged) if f[0] not in ROLE_FIELDS.split(",") and f not in markers]
                got = "".join(v for _, v in fields)
                replayed += 1
                rest = iter("".join(c for c in text if not c.isspace()))
                wanted = [c for c in got if not c.isspace()]
                ok, index = True, 0
                for c in rest:
                    if index < len(wanted) and wanted[index] == c:
                        index += 1
                    elif c not in droppable:
                        ok = False
                if not ok or index != len(wanted):
                    bad.append((text, tagged))
        return result, replayed, bad

    jobs = fstkit.all_configs(report.thorough)
    for (name, config), (result, replayed, bad) in zip(jobs, common.run_jobs(jobs, job)):
        where = fstkit.label(name, config)
        if result["capped"]:
            raise RuntimeError("{}: state space not exhausted".format(where))
        report.count("states", result["states"])
        report.count("transitions", result["transitions"])
        report.count("traces_validated_against_impl", replayed)
        report.count("configurations")
        report.sample({"pipeline": where, "states": result["states"], "max_delay_bytes": result["max_delay"],
                       "separators_dropped": sorted(fstkit.text(k) for k in result["dropped"])})
        for fail in result["fails"]:
            text, out = fstkit.text(fail["in"]), fstkit.text(fail["out"])
            report.violation("{}:{}".format(name, text), "{}: {} after reading {!r} and writing {!r}".format(
                where, fail["why"], text, out), text=text, tagged=out)
        for text, tagged in bad:
            report.violation("{}:{}".format(name, text), "{}: tag({!r}) gave {!r}".format(where, text, tagged),
                             text=text, tagged=tagged)
    report.set("exhaustive", True)
    report.assumptions.append("white space between tokens and fields may be dropped; listed structural separators may be "
                              "dropped between the fields of one token")


if __name__ == "__main__":
    common.main("C02", "model_checking", body)
