"""C05: the C++ runtime reorders token streams as the Python pipelines do."""

import itertools
import os
import struct
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
import wire

# wetext::ParseType values, a public enumeration of the runtime
TYPES = {"zh_tn": 0, "zh_itn": 1, "en_tn": 2, "en_itn": 3, "ja_tn": 4, "ja_itn": 5}


def compile_driver():
    binary = os.path.join(common.scratch(), "reorder")
    runtime = os.path.join(common.REPO, "runtime")
    subprocess.run(["g++", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-std=c++17",
                    "-I" + runtime, "-I" + os.path.join(common.VERIF, "engine", "glog_stub"),
                    os.path.join(common.VERIF, "engine", "reorder_driver.cc"),
                    os.path.join(runtime, "processor", "wetext_token_parser.cc"),
                    os.path.join(runtime, "utils", "wetext_string.cc"), "-o", binary], check=True)
    return binary


def ask(binary, mode, texts):
    data = b"".join(struct.pack("<I", len(t.encode())) + t.encode() for t in texts)
    done = subprocess.run([binary, str(mode)], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out, pos, result = done.stdout, 0, []
    while pos < len(out):
        status = chr(out[pos])
        size = struct.unpack_from("<I", out, pos + 1)[0]
        result.append((status, out[pos + 5:pos + 5 + size]))
        pos += 5 + size
    return result, done.returncode, done.stderr.decode(errors="replace")


def body(report):
    binary = compile_driver()
    deep = report.thorough

    from tn.token_parser import TokenParser

    def streams(name):
        """Canonical streams (as a tagger writes them) and malformed ones."""
        orders = common.pipeline_orders(name)
        out = []
        for token in list(orders) + ["cardinal"]:
            pool = list(dict.fromkeys(list(orders.get(token, ["value"])) + ["extra", "style", "preserve_order"]))
            for size in range(1, min(len(pool), 6 if deep else 5) + 1):
                for keys in itertools.permutations(pool, size):
                    for flag in ("true", "false") if "preserve_order" in keys else ("",):
                        out.append(token + " {" + "".join(' {}: "{}"'.format(k, flag if k == "preserve_order" else "值" + k[0])
                                                         for k in keys) + " } ")
        kinds = list(out[:: max(1, len(out) // 60)])
        out += [a + b for a in kinds for b in kinds]
        alphabet = ["a", "é", "中", "😀", '\\"', "\\\\", " ", "}", "{", ":"]
        for size in range(0, 5 if deep else 4):
            for chars in itertools.product(alphabet, repeat=size):
                out.append('date {{ day: "{}" year: "{}" }} '.format("".join(chars), "".join(reversed(chars))))
        for chars in itertools.product(["d", " ", " { ", "{", "}", ': "', '"', "\\", 'y: "1"', ' m: "2"'], repeat=5 if deep else 4):
            stream = "".join(chars)
            if stream:
                out.append(stream)
        seed = 'date { day: "1" year: "\\"2" } char { value: "x" }'
        for i in range(len(seed) + 1):
            out.append(seed[:i])
            for c in ' {}:"\\a中':
                out.append(seed[:i] + c + seed[i:])
                out.append(seed[:i] + c + seed[i + 1:])
            out.append(seed[:i] + seed[i + 1:])
        return [s for s in dict.fromkeys(out) if s], orders

    def job(name):
        texts, orders = streams(name)
        answers, code, err = ask(binary, TYPES[name], texts)
        bad = []
        if code != 0 or len(answers) != len(texts):
            bad.append("{}: the runtime parser dies on {!r}: {}".format(name, texts[len(answers)] if len(answers) < len(texts) else "", err[-300:]))
        good = 0
        for text, (status, got) in zip(texts, answers):
            tokens = wire.parse(text)
            try:
                want = TokenParser(orders).reorder(text)
            except ValueError:
                want = None
            if want is None:
                if status != "-":
                    bad.append("{}: runtime accepts malformed stream {!r}".format(name, text))
                continue
            if tokens is None or any(wire.escape(v) not in text for _, fields, _, _ in tokens for _, v in fields):
                continue        # not canonically escaped: no tagger writes it
            good += 1
            if status != "+" or got.decode("utf-8", "replace") != want:
                bad.append("{}: runtime reorders {!r} as {!r}, Python as {!r}".format(name, text, got.decode("utf-8", "replace"), want))
        return len(texts), good, bad

    for name, (n, good, bad) in zip(TYPES, common.run_jobs(list(TYPES), job)):
        report.count("evaluations", n)
        report.count("distinct_nontrivial", good)
        report.sample({"pipeline": name, "streams": n, "well_formed": good})
        for why in bad:
            report.violation(why, why)

    # characters of every UTF-8 length and every boundary, alone and in pairs
    points = [0x1, 0x20, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x10ffff]
    if deep:
        singles = [chr(p) for p in range(1, 0x110000) if not 0xd800 <= p < 0xe000]
    else:
        singles = [chr(p) for p in range(1, 0x110000, 7) if not 0xd800 <= p < 0xe000] + [chr(p) for p in points]
    texts = singles + [chr(a) + chr(b) + chr(c) for a in points for b in points for c in points]
    answers, code, err = ask(binary, "split", texts)
    if code != 0 or len(answers) != len(texts):
        report.violation("split", "the runtime character splitter dies: " + err[-300:])
    for text, (status, got) in zip(texts, answers):
        report.count("evaluations")
        report.count("distinct_nontrivial")
        if status != "+" or got.decode("utf-8", "replace").split("\0")[:-1] != list(text):
            report.violation("split {!r}".format(text), "runtime splits {!r} as {!r}".format(text, got))
    report.set("rule", "all field subsets and orders of every token kind of every pipeline, all pairs of representative "
                       "tokens, all field values over an alphabet, all lexeme strings and single edits; non-trivial = "
                       "well-formed streams whose reordering was compared, or texts whose characters were compared")
    report.set("exhaustive", True)
    report.assumptions.append("glog is replaced by a stub; the graph execution of the runtime (OpenFst C++ headers are not "
                              "installed) is out of reach")


if __name__ == "__main__":
    common.main("C05", "exploration", body)
