"""C12: a cache bundle is reused only for identical sources and options.

Trees: every source tree of a small universe, and trees built to collide, have
distinct fingerprints.  Files: every file the six pipelines really read or
import is changed in a scratch copy in several ways.  Options: all option
combinations of all pipelines share one cache, in two orders.  Processes: a
scratch copy of the project is edited between and during cached builds.
"""

import itertools
import json
import os
import pickle
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import cachelab  # noqa: E402
from fstkit import FLAGS  # noqa: E402

TRACER = r'''
import json, os, sys
root, pipeline, flags = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
sys.dont_write_bytecode = True
sys.path.insert(0, root)
seen = set()
def note(path):
    try:
        path = os.path.realpath(os.fspath(path))
    except TypeError:
        return
    if path.startswith(root + os.sep):
        seen.add(os.path.relpath(path, root))
sys.addaudithook(lambda e, a: note(a[0]) if e == "open" and isinstance(a[0], (str, bytes, os.PathLike)) else None)
import pynini
def wrap(owner, name):
    original = getattr(owner, name)
    def wrapper(*args, **kwargs):
        for value in list(args) + list(kwargs.values()):
            for item in value if isinstance(value, (list, tuple)) else [value]:
                if isinstance(item, (str, os.PathLike)):
                    note(item)
        return original(*args, **kwargs)
    setattr(owner, name, wrapper)
wrap(pynini, "string_file")
for name in ("Far",):
    original = getattr(pynini, name)
    def far(*args, _original=original, **kwargs):
        for value in args:
            for item in value if isinstance(value, (list, tuple)) else [value]:
                if isinstance(item, str):
                    note(item)
        return _original(*args, **kwargs)
    setattr(pynini, name, far)
import importlib, logging
logging.disable(logging.CRITICAL)
module, cls = pipeline.split(":")
getattr(importlib.import_module(module), cls)(cache_dir=False, **flags)
for module in list(sys.modules.values()):
    if getattr(module, "__file__", None):
        note(module.__file__)
print(json.dumps(sorted(p for p in seen if "__pycache__" not in p)))
'''

EDITED = r'''
import os, sys
root, cache, target, mode = sys.argv[1:5]
sys.dont_write_bytecode = True
sys.path.insert(0, root)
sys.path.insert(1, sys.argv[5])
import common
common.REPO = root
import cachelab, logging
import tn.processor
logging.disable(logging.CRITICAL)
assert os.path.realpath(tn.processor.__file__).startswith(os.path.realpath(root) + os.sep)
Tiny = cachelab.tiny_class()
def during(where):
    if mode == "during" and where == "middle":
        with open(target, "ab") as out:
            out.write(b"\n#x\n" if target.endswith(".py") else b"\nx\ty\n")
try:
    tiny = Tiny(cache, gen=sys.argv[6], on_build=during)
    print("RESULT", tiny.outcome(), tiny.builds)
except RuntimeError as error:
    print("RESULT refused", type(error).__name__)
'''


def fingerprint(root):
    import tn.cache
    return tn.cache.production_source_fingerprint(root)


def write_tree(root, tree):
    os.makedirs(os.path.join(root, "tn"))
    os.makedirs(os.path.join(root, "itn"))
    for name, data in tree.items():
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as out:
            out.write(data)


def trees():
    names = ["tn/a.py", "tn/b.tsv", "tn/d/a.py", "itn/a.py", "tn/c.far"]
    for values in itertools.product((None, b"", b"x", b"y"), repeat=len(names)):
        yield {n: v for n, v in zip(names, values) if v is not None}
    for name in ("tn/aa.py", "tn/A.py", "tn/a/b.py", "tn/a.py.py", "tn/tests.py", "tn/test_x.py", "itn/d/b.tsv", "itn/b.far",
                 "tn/data/\u4e2d.tsv", "tn/.h.py", "tn/d/e/f/a.tsv"):
        for value in (b"", b"x", b"y"):
            yield {name: value}
            yield {"tn/a.py": b"x", name: value}
    # contents which look like another file of the tree, under any plain framing
    for first, second in itertools.permutations(("tn/a.py", "tn/b.tsv", "tn/c.far", "itn/z.tsv"), 2):
        for body in (b"", b"y"):
            heads = [second.encode() + body, len(second).to_bytes(8, "big") + second.encode() + body,
                     second.encode() + b"\0" + body, second.encode() + b"\n" + body,
                     len(second).to_bytes(8, "big") + second.encode() + len(body).to_bytes(8, "big") + body,
                     b"\0" + second.encode() + b"\0" + body]
            for head in heads:
                yield {first: b"x" + head}
                yield {first: head, second: body}
    for size in (1, 2, 1024 * 1024 - 1, 1024 * 1024, 1024 * 1024 + 1, 2 * 1024 * 1024 + 5):
        yield {"tn/a.tsv": b"z" * size}
        yield {"tn/a.tsv": b"z" * (size - 1) + b"w"}


def tree_job(batch):
    out = []
    for index, tree in batch:
        root = os.path.join(common.scratch(), "tree-{}-{}".format(os.getpid(), index))
        write_tree(root, tree)
        first = fingerprint(root)
        # what is no source, and how the tree came to be, makes no difference
        for name in ("tn/README.md", "tn/__pycache__/a.cpython-312.pyc", "tn/test/a.py", "tn/d/test/data/b.tsv", "README.py", "docs/a.py"):
            path = os.path.join(root, name)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "wb") as extra:
                extra.write(b"q")
        for name in tree:
            os.utime(os.path.join(root, name), (1, 1))
        second = fingerprint(root)
        shutil.rmtree(root)
        os.makedirs(root + "r")
        write_tree(os.path.join(root + "r", "elsewhere"), dict(reversed(list(tree.items()))))
        third = fingerprint(os.path.join(root + "r", "elsewhere"))
        shutil.rmtree(root + "r")
        out.append((first, second == first and third == first))
    return out


def copy_project(where):
    os.makedirs(where)
    for package in ("tn", "itn"):
        shutil.copytree(os.path.join(common.REPO, package), os.path.join(where, package), ignore=shutil.ignore_patterns("__pycache__"))


def file_job(names):
    """Each file changed in several ways in a scratch copy: the unchanged fingerprints."""
    root = os.path.join(common.scratch(), "copy-{}".format(os.getpid()))
    if not os.path.isdir(root):
        copy_project(root)
    base = fingerprint(root)
    bad, runs = [], 0
    for name, partner in names:
        path = os.path.join(root, name)
        with open(path, "rb") as source:
            data = source.read()

        def put(content, at=path):
            with open(at, "wb") as out:
                out.write(content)

        def check(what):
            nonlocal runs
            runs += 1
            if fingerprint(root) == base:
                bad.append("{} {} and the fingerprint stays".format(name, what))

        put(data + b" ")
        check("grows by a blank")
        if data:
            put(data[:-1])
            check("loses its last byte")
            put(bytes([data[0] ^ 1]) + data[1:])
            check("has its first byte changed")
            middle = len(data) // 2
            put(data[:middle] + bytes([data[middle] ^ 1]) + data[middle + 1:])
            check("has a byte in the middle changed")
        os.unlink(path)
        check("is removed")
        moved = os.path.join(os.path.dirname(path), "zz_" + os.path.basename(path))
        put(data, moved)
        check("is renamed")
        os.unlink(moved)
        if partner:
            other = os.path.join(root, partner)
            with open(other, "rb") as source:
                theirs = source.read()
            if theirs != data:
                put(theirs)
                put(data, other)
                check("is swapped with " + partner)
            put(theirs, other)
        put(data)
        os.utime(path, (5, 5))
        runs += 1
        if fingerprint(root) != base:
            bad.append("{} is restored but the fingerprint is another".format(name))
    return bad, runs


def option_sets():
    for name in common.PIPELINES:
        table = FLAGS[name]
        for values in itertools.product((False, True), repeat=len(table)):
            yield name, dict(zip(table, values))


def options_part(report):
    from pynini import cross, escape

    def stub(name):
        cls = common.pipeline_class(name)

        def build(self):
            self.built = getattr(self, "built", 0) + 1
            word = name + " " + json.dumps(self.wanted, sort_keys=True)
            self.tagger = cross("t", escape(word))
            self.verbalizer = cross("v", escape(word))

        def tagger(self):
            build(self)

        return type(cls.__name__, (cls,), {"build_tagger_and_verbalizer": build, "build_tagger": tagger,
                                           "build_verbalizer": lambda self: None, "built": 0, "wanted": None})

    classes = {name: stub(name) for name in common.PIPELINES}
    cache = os.path.join(common.scratch(), "options")
    combos = list(option_sets())
    if not report.thorough:
        report.assumptions.append("options: the quick tier shares the cache in two orders, the thorough tier in four")
    orders = [combos, combos[::-1]] + ([combos[1::2] + combos[::2], combos] if report.thorough else [])
    made = set()
    for order in orders:
        for name, flags in order:
            cls = classes[name]
            cls.wanted = flags
            pipe = cls(cache_dir=cache, **flags)
            word = name + " " + json.dumps(flags, sort_keys=True)
            got = (("t" @ pipe.tagger).string(), ("v" @ pipe.verbalizer).string())
            report.count("evaluations")
            report.count("option_runs")
            key = (name, tuple(sorted(flags.items())))
            if got != (word, word):
                report.violation("options:" + word, "{} with {} was given the bundle of {}".format(name, flags, got))
            elif pipe.built != (key not in made):
                report.violation("options:" + word, "{} with {}: {} builds, {} before".format(name, flags, pipe.built, key in made))
            made.add(key)
            # the defaults are the bundle of the options that equal them
    for name, cls in classes.items():
        import inspect
        defaults = {k: p.default for k, p in inspect.signature(common.pipeline_class(name).__init__).parameters.items()
                    if k in FLAGS[name]}
        cls.wanted = defaults
        pipe = cls(cache_dir=cache)
        report.count("evaluations")
        if ("t" @ pipe.tagger).string() != name + " " + json.dumps(defaults, sort_keys=True) or pipe.built:
            report.violation("defaults:" + name, "{} without options does not share the bundle of its defaults".format(name))


def process_part(report, reads):
    """Edits to a project copy between and during cached builds, in real processes."""
    kinds = {}
    for name in reads:
        kinds.setdefault((name.split("/")[0], name.rsplit(".", 1)[-1]), []).append(name)
    picks = sorted({n for group in kinds.values() for n in (group[0], group[-1])} | {"tn/processor.py", "tn/cache.py"})

    def job(name):
        root = os.path.join(common.scratch(), "proj-{}".format(picks.index(name)))
        copy_project(root)
        cache = root + "-cache"
        target = os.path.join(root, name)
        out = []

        def run(mode, gen):
            done = subprocess.run([common.PYTHON, "-B", "-c", EDITED, root, cache, target, mode, os.path.join(common.VERIF, "lib"), gen],
                                  capture_output=True, text=True, cwd=common.scratch())
            lines = [l for l in done.stdout.splitlines() if l.startswith("RESULT")]
            if not lines:
                raise RuntimeError("no result: " + done.stderr[-800:])
            out.append(lines[0])
            return lines[0]

        with open(target, "rb") as source:
            data = source.read()

        def put(content):
            with open(target, "wb") as sink:
                sink.write(content)

        note = data + (b"\n# x\n" if name.endswith(".py") else b"\n" if name.endswith(".tsv") else b"\0")
        bad = []

        def expect(mode, gen, allowed, what):
            got = run(mode, gen)
            if got not in allowed:
                bad.append("{}: {}: {}".format(name, what, got))

        expect("plain", "a", ["RESULT a/ 1"], "first build")
        expect("plain", "b", ["RESULT a/ 0"], "unchanged sources")
        put(note)
        expect("plain", "c", ["RESULT c/ 1"], "file changed")
        expect("plain", "d", ["RESULT c/ 0"], "changed sources again")
        put(data)
        expect("plain", "e", ["RESULT a/ 0"], "file restored")
        shutil.rmtree(cache)
        during = run("during", "dirty")
        if during not in ("RESULT refused RuntimeError", "RESULT refused CacheError", "RESULT dirty/ 1"):
            bad.append("{}: changed during the build: {}".format(name, during))
        expect("plain", "f", ["RESULT f/ 1"], "after a build from changing sources")
        put(data)
        expect("plain", "g", ["RESULT g/ 1"], "sources restored after a build from changing sources")
        shutil.rmtree(root)
        shutil.rmtree(cache)
        return bad, len(out)

    for name, (bad, runs) in zip(picks, common.run_jobs(picks, job)):
        report.count("evaluations", runs)
        report.count("process_runs", runs)
        for message in bad:
            report.violation("process:" + message[:200], message)


def body(report):
    items = list(enumerate(trees()))
    batches = common.chunks(items, 40)
    seen = {}
    for batch, results in zip(batches, common.run_jobs(batches, tree_job)):
        for (_, tree), (value, steady) in zip(batch, results):
            report.count("evaluations")
            report.count("trees")
            shown = {n: (d if len(d) < 60 else "{} bytes".format(len(d))) for n, d in tree.items()}
            if not steady:
                report.violation("steady:{}".format(shown), "the fingerprint of {} depends on what is no source".format(shown))
            key = tuple(sorted(tree.items()))
            if value in seen and seen[value] != key:
                other = {n: (d if len(d) < 60 else "{} bytes".format(len(d))) for n, d in seen[value]}
                report.violation("collide:{}".format(shown), "{} and {} have one fingerprint".format(shown, other))
            seen.setdefault(value, key)


    def trace(item):
        name, flags = item
        module, cls = common.PIPELINES[name]
        done = subprocess.run([common.PYTHON, "-B", "-c", TRACER, common.REPO, module + ":" + cls, json.dumps(flags)],
                              capture_output=True, text=True, cwd=common.scratch())
        if done.returncode:
            raise RuntimeError(done.stderr[-1500:])
        return json.loads(done.stdout)

    variants = []
    for name in common.PIPELINES:
        variants.append((name, {}))
        if FLAGS[name]:
            variants.append((name, {k: not v for k, v in FLAGS[name].items()}))
    variants.sort(key=lambda item: item[0][:2] != "en")
    reads = set()
    for found in common.run_jobs(variants, trace):
        reads.update(found)
    reads = sorted(r for r in reads if not r.endswith("_version.py"))
    report.set("files_read", len(reads))
    if len(reads) < 100:
        raise RuntimeError("only {} source files were seen".format(len(reads)))
    outside = [r for r in reads if not r.startswith(("tn/", "itn/"))]
    for name in outside:
        report.violation("outside:" + name, "the pipelines read {}, which no fingerprint covers".format(name))
    reads = [r for r in reads if r not in outside]
    pairs = [(name, reads[i + 1] if i + 1 < len(reads) else None) for i, name in enumerate(reads)]
    batches = common.chunks(pairs, max(1, len(pairs) // 24 + 1))
    for bad, runs in common.run_jobs(batches, file_job):
        report.count("evaluations", runs)
        report.count("file_edits", runs)
        for message in bad:
            report.violation("file:" + message, message)
    with cachelab.steady_fingerprint():
        options_part(report)
    process_part(report, reads)
    report.sample({"file": reads[0]})
    report.sample({"options": list(option_sets())[5]})
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "all trees over 5 names x 4 states plus framing look-alikes; 7 edits of every file the pipelines read; all option "
               "combinations of the six pipelines in one cache; edits between and during builds for one file per package and type")


common.main("C12", "exploration", body)
