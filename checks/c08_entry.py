"""C08: every entry point gives the same result for the same text and options.

API part: all fragment texts and pairs on the six real pipelines through every
entry point.  CLI part: every option in every spelling, alone and in pairs, for
every direction and language, observed at the pipeline constructors; every
short input of lines and line endings from a file, from stdin and as --text;
and six real command line processes.
"""

import inspect
import io
import itertools
import os
import re
import subprocess
import sys
import contextlib

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
from fragments import FRAGMENTS, SEPARATORS  # noqa: E402

PIPES = {}
# README and --help: the options of each command and their defaults
OPTIONS = {
    "zh_tn": dict(remove_interjections=True, remove_erhua=True, traditional_to_simple=True, remove_puncts=False,
                  full_to_half=True, tag_oov=False),
    "ja_tn": dict(transliterate=False, remove_interjections=False, remove_puncts=False, full_to_half=True, tag_oov=False),
    "en_tn": {},
    "zh_itn": dict(enable_standalone_number=True, enable_0_to_9=False, enable_million=False, remove_interjections=True),
    "ja_itn": dict(enable_standalone_number=True, enable_0_to_9=False, enable_million=False, full_to_half=False),
    "en_itn": {},
}
ALL_OPTIONS = sorted({o for table in OPTIONS.values() for o in table})


def cli(direction, argv, stdin=None, factory=None):
    """Runs the CLI in process: (exit status or None, stdout text)."""
    from tn.cli import run
    out, err = io.StringIO(), io.StringIO()
    kwargs = {} if factory is None else {"processor_factory": factory}
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(out):
        try:
            run(direction, list(argv), stdin=stdin, **kwargs)
        except SystemExit as stop:
            return stop.code, out.getvalue()
    return None, out.getvalue()


# --- API agreement ----------------------------------------------------------

def api_job(item):
    name, texts = item
    pipe = PIPES[name]
    direction = "itn" if name.endswith("itn") else "tn"
    language = name[:2]
    bad, calls = [], 0
    for text in texts:
        label = "{} {!r}".format(name, text)
        try:
            one = pipe.normalize(text)
            tagged = pipe.tag(text)
            views = {"verbalize(tag)": pipe.verbalize(tagged)}
            for n in (2, 3, 5):
                many = pipe.normalize(text, nbest=n)
                views["normalize(nbest={})[0]".format(n)] = many[0]
            views["normalize_with_mapping"] = pipe.normalize_with_mapping(text).output_text
            views["normalize_with_mapping(nbest=2)[0]"] = pipe.normalize_with_mapping(text, nbest=2)[0].output_text
            calls += 8
            for view, got in views.items():
                if got != one:
                    bad.append("{}: normalize gives {!r} but {} gives {!r}".format(label, one, view, got))
            for n in (2, 4):
                tags = pipe.tag(text, nbest=n)
                calls += 1
                if tags[0] != tagged or len(set(tags)) != len(tags) or len(tags) > n:
                    bad.append("{}: tag gives {!r} but tag(nbest={}) gives {!r}".format(label, tagged, n, tags))
            if not re.search("[\r\n]", text) and not text.startswith("-"):
                status, out = cli(direction, ["--language", language, "--text", text], factory=lambda *a: pipe)
                calls += 1
                if status is not None or out != "{}\n{}\n".format(tagged, one):
                    bad.append("{}: the command line printed {!r}".format(label, out))
        except Exception as error:
            if not common.in_repo(error):
                raise
            bad.append("{}: {}: {}".format(label, type(error).__name__, error))
        if len(bad) >= 10:
            break
    return bad, calls


# --- options -----------------------------------------------------------------

class Recorder:
    """Replaces the pipelines' constructors by ones which note their arguments."""

    def __enter__(self):
        self.calls = []
        self.saved = []
        for name in common.PIPELINES:
            cls = common.pipeline_class(name)
            original = cls.__init__
            signature = inspect.signature(original)
            calls = self.calls

            def init(this, *args, _name=name, _signature=signature, **kwargs):
                bound = _signature.bind(this, *args, **kwargs)
                bound.apply_defaults()
                values = dict(bound.arguments)
                values.pop("self", None)
                calls.append((_name, values))
                this.tag = lambda text, nbest=1: "<" + text + ">"
                this.verbalize = lambda tagged: "[" + tagged + "]"

            self.saved.append((cls, original))
            cls.__init__ = init
        return self

    def __exit__(self, *exc):
        for cls, original in self.saved:
            cls.__init__ = original

    def take(self):
        calls, self.calls[:] = list(self.calls), []
        return calls


def spellings(option):
    hyphen = option.replace("_", "-")
    for base in {option, hyphen}:
        yield ["--" + base], True
        for word in ("True", "true", "TRUE"):
            yield ["--" + base, word], True
        for word in ("False", "false", "FALSE"):
            yield ["--" + base, word], False
        yield ["--" + base + "=False"], False
        yield ["--" + base + "=true"], True
        yield ["--no-" + base], False


def options_part(report):
    runs = 0
    with Recorder() as recorder:
        def observe(name, argv, want, cache_dir=None, overwrite=False):
            direction = "itn" if name.endswith("itn") else "tn"
            status, out = cli(direction, argv)
            calls = recorder.take()
            expected = dict(want, cache_dir=cache_dir, overwrite_cache=overwrite)
            if status is not None or len(calls) != 1 or calls[0][0] != name:
                return "{} {}: exit {!r}, constructed {}".format(name, argv, status, calls)
            got = {k: v for k, v in calls[0][1].items()}
            if got != expected:
                return "{} {}: pipeline options {} instead of {}".format(name, argv, got, expected)
            if out != "<t>\n[<t>]\n":
                return "{} {}: printed {!r}".format(name, argv, out)
            return None

        def refused(name, argv):
            direction = "itn" if name.endswith("itn") else "tn"
            status, _ = cli(direction, argv)
            calls = recorder.take()
            if status in (None, 0) or calls:
                return "{} {}: not refused (exit {!r}, constructed {})".format(name, argv, status, calls)
            return None

        def note(message):
            nonlocal runs
            runs += 1
            if message:
                report.violation("cli:" + message[:300], message)

        for name, defaults in OPTIONS.items():
            lang = ["--language", name[:2]]
            text = ["--text", "t"]
            # the constructor itself has the documented defaults
            common.pipeline_class(name)()
            calls = recorder.take()
            if calls != [(name, dict(defaults, cache_dir=None, overwrite_cache=False))]:
                note("{}: constructor defaults {}".format(name, calls))
            note(observe(name, lang + text, defaults))
            note(observe(name, text + ["--language=" + name[:2]], defaults))
            if name.startswith("zh"):
                note(observe(name, text, defaults))
            for flag in ("--cache_dir", "--cache-dir"):
                note(observe(name, lang + text + [flag, "/x"], defaults, cache_dir="/x"))
            for flag in ("--overwrite_cache", "--overwrite-cache"):
                note(observe(name, lang + [flag] + text, defaults, overwrite=True))
            forms = [(o, argv, value) for o in defaults for argv, value in spellings(o)]
            for option, argv, value in forms:
                for order in (lang + argv + text, argv + text + lang, text + argv + lang):
                    note(observe(name, order, dict(defaults, **{option: value})))
                note(observe(name, lang + argv + ["--cache_dir", "/x", "--overwrite_cache"] + text,
                             dict(defaults, **{option: value}), cache_dir="/x", overwrite=True))
            # every pair of spellings, one per polarity and shape; the later one of an option wins
            short = [f for f in forms if "_" in f[1][0] or len(f[1]) == 1]
            for (o1, a1, v1), (o2, a2, v2) in itertools.product(short, repeat=2):
                note(observe(name, lang + a1 + a2 + text, dict(defaults, **dict([(o1, v1), (o2, v2)]))))
            # every combination of values
            for values in itertools.product((True, False), repeat=len(defaults)):
                want = dict(zip(defaults, values))
                argv = [x for o, v in want.items() for x in ("--" + o, str(v))]
                note(observe(name, lang + argv + text, want))
                argv = ["--" + ("" if v else "no-") + o.replace("_", "-") for o, v in want.items()]
                note(observe(name, argv + lang + text, want))
            for option in ALL_OPTIONS:
                if option not in defaults:
                    note(refused(name, lang + ["--" + option] + text))
                    note(refused(name, lang + ["--no-" + option.replace("_", "-")] + text))
                else:
                    for word in ("yes", "1", "0", "", "None"):
                        note(refused(name, lang + ["--" + option + "=" + word] + text))
            note(refused(name, lang + text + ["--file", "/nonexistent"]))
            note(refused(name, ["--language", "fr"] + text))
    report.count("evaluations", runs)
    report.count("command_lines", runs)


# --- lines ---------------------------------------------------------------------

class Echo:
    def tag(self, text):
        return "<" + text + ">"

    def verbalize(self, tagged):
        return "[" + tagged + "]"


CONTENTS = ["", "a", " b ", "中\u2028x", "c\x0bd\x85", "\ufeff", "--text"]
ENDINGS = ["\n", "\r\n", "\r"]


def lines_job(item):
    count, directory = item
    path = os.path.join(directory, "in-{}.txt".format(os.getpid()))
    bad, runs = [], 0
    for contents in itertools.product(CONTENTS, repeat=count):
        for endings in itertools.product(ENDINGS, repeat=count):
            for last in (True, False):
                data = "".join(c + e for c, e in zip(contents, endings))
                if not last:
                    data = data[:-len(endings[-1])]
                want = "".join("<{0}>\n[<{0}>]\n".format(line) for line in expected_lines(data))
                with open(path, "w", encoding="utf-8", newline="") as target:
                    target.write(data)
                for direction in ("tn", "itn"):
                    status, out = cli(direction, ["--file", path], factory=lambda *a: Echo())
                    runs += 1
                    if status is not None or out != want:
                        bad.append("{} --file with {!r} printed {!r}".format(direction, data, out))
                    stdin = io.TextIOWrapper(io.BytesIO(data.encode("utf-8")), encoding="utf-8")
                    status, out = cli(direction, [], stdin=stdin, factory=lambda *a: Echo())
                    runs += 1
                    if status is not None or out != want:
                        bad.append("{} stdin with {!r} printed {!r}".format(direction, data, out))
                    if "\r" not in data.replace("\r\n", ""):
                        # a stream which hands line endings through untranslated
                        status, out = cli(direction, [], stdin=io.StringIO(data, newline="\n"), factory=lambda *a: Echo())
                        runs += 1
                        if status is not None or out != want:
                            bad.append("{} raw stdin with {!r} printed {!r}".format(direction, data, out))
                if len(bad) > 5:
                    return bad, runs
    os.unlink(path)
    return bad, runs


def expected_lines(data):
    lines = re.split("\r\n|\n|\r", data)
    return lines[:-1] if lines[-1] == "" else lines


def body(report):
    specs = [(name, name, {}) for name in FRAGMENTS]
    PIPES.update(common.build_many(specs))

    # real processes run beside the rest
    cache = os.path.join(common.scratch(), "cli-cache")
    processes = []
    for name in FRAGMENTS:
        lines = FRAGMENTS[name][::3] + ["", " x "]
        data = "".join(l + "\n" for l in lines)
        direction = "itn" if name.endswith("itn") else "tn"
        path = os.path.join(common.scratch(), name + ".txt")
        with open(path, "w", encoding="utf-8") as target:
            target.write(data)
        use_file = name.startswith("ja")
        module = direction if name.startswith("zh") else direction + ".main"
        command = [common.PYTHON, "-B", "-m", module, "--language", name[:2], "--cache_dir", cache]
        out = open(os.path.join(common.scratch(), name + ".out"), "w+b")
        process = subprocess.Popen(command + (["--file", path] if use_file else []),
                                   stdin=subprocess.DEVNULL if use_file else open(path, "rb"), stdout=out,
                                   stderr=subprocess.PIPE, cwd=common.REPO,
                                   env=dict(os.environ, PYTHONPATH=common.REPO, PYTHONIOENCODING="utf-8"))
        processes.append((name, lines, process, out))

    options_part(report)
    jobs = [("lines", (count, common.scratch())) for count in ((1, 2, 3) if report.thorough else (1, 2))]
    for name in FRAGMENTS:
        frags = FRAGMENTS[name]
        texts = list(frags) + [" " + f + " " for f in frags]
        half = frags if report.thorough else frags[::4]
        texts += [a + b for a in half for b in frags] + [a + s + b for s in SEPARATORS[name][:1] for a in half for b in half]
        texts += [" ", "\t", "a\nb", "\u00a0", "\u3000", ""]
        jobs += [("api", (name, chunk)) for chunk in common.chunks(texts, 40)]
        report.count("api_texts", len(texts))
    run = {"lines": lines_job, "api": api_job}
    for (kind, item), (bad, runs) in zip(jobs, common.run_jobs(jobs, lambda j: run[j[0]](j[1]))):
        report.count("evaluations", runs)
        for message in bad:
            report.violation(kind + ":" + message[:300], message)
        if kind == "lines":
            report.count("line_inputs", runs)

    for name, lines, process, out in processes:
        error = process.stderr.read().decode("utf-8", "replace")
        status = process.wait()
        out.seek(0)
        got = out.read().decode("utf-8")
        want = "".join("{}\n{}\n".format(PIPES[name].tag(l), PIPES[name].normalize(l)) for l in lines)
        report.count("evaluations")
        report.count("processes")
        if status or got != want:
            message = "the {} process exited {} and printed {!r}, expected {!r} {}".format(name, status, got[:300], want[:300],
                                                                                     error[-300:])
            report.violation("process:" + name, message)
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "API: all fragments, padded fragments and ordered pairs per pipeline through eleven entry points; CLI: every "
               "spelling of every option alone and paired, every combination of values, and all inputs of up to "
               "{} lines over {} contents and 3 line endings".format(3 if report.thorough else 2, len(CONTENTS)))
    report.sample({"argv": ["--language", "ja", "--no-full-to-half", "--text", "t"], "want": dict(OPTIONS["ja_tn"], full_to_half=False)})
    report.assumptions.append("lines end at LF, CRLF or CR and nowhere else, as in Python's universal newline mode")


common.main("C08", "exploration", body)
