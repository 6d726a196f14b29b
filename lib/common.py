"""Shared plumbing of the /verif checks: builds pipelines from /repo's working
tree, runs jobs on forked workers, writes evidence and violation artefacts."""

import atexit
import importlib
import json
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WETEXT_VERIF_REPO", "/repo")   # the checks registered in MANIFEST.json use /repo
PYTHON = "/opt/venv/bin/python"
NPROC = max(1, min(8, os.cpu_count() or 1))
START = time.time()

_scratch = None


def scratch():
    """One private scratch directory per check run, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="wetext-verif-")
        owner = os.getpid()
        path = _scratch

        def clean():
            if os.getpid() == owner:
                shutil.rmtree(path, ignore_errors=True)

        atexit.register(clean)
    return _scratch


def bootstrap():
    """Makes sure /repo is imported with no stale byte code and a private cache."""
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch(), "pyc")
    os.environ["PYTHONPYCACHEPREFIX"] = sys.pycache_prefix
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.environ["XDG_CACHE_HOME"] = os.path.join(scratch(), "xdg")
    os.environ.setdefault("PYTHONHASHSEED", "0")
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import tn
    import itn
    for module in (tn, itn):
        if not os.path.abspath(module.__file__).startswith(REPO.rstrip("/") + "/"):
            raise RuntimeError("imported {} from {}".format(module.__name__, module.__file__))
    logging.disable(logging.CRITICAL)


PIPELINES = {
    "zh_tn": ("tn.chinese.normalizer", "Normalizer"),
    "ja_tn": ("tn.japanese.normalizer", "Normalizer"),
    "en_tn": ("tn.english.normalizer", "Normalizer"),
    "zh_itn": ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
    "ja_itn": ("itn.japanese.inverse_normalizer", "InverseNormalizer"),
    "en_itn": ("itn.english.inverse_normalizer", "InverseNormalizer"),
}


def pipeline_class(name):
    module, cls = PIPELINES[name]
    return getattr(importlib.import_module(module), cls)


def build(name, **flags):
    """Builds a pipeline in memory from the working tree (never from a cache)."""
    dev = os.environ.get("WETEXT_VERIF_DEV_CACHE")   # development only; no registered command sets it
    return pipeline_class(name)(cache_dir=dev if dev else False, **flags)


def run_jobs(jobs, func, nproc=None, timeout=None):
    """Runs func(job) for every job on forked workers; returns results in order.

    Work is handed out dynamically.  A worker that dies or raises makes the
    whole run an error of the check (never a silent pass).
    """
    jobs = list(jobs)
    nproc = max(1, min(nproc or NPROC, len(jobs)))
    results = [None] * len(jobs)
    if not jobs:
        return results
    import select
    import struct

    workers = []
    for _ in range(nproc):
        job_r, job_w = os.pipe()
        res_r, res_w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(job_w)
                os.close(res_r)
                for w in workers:
                    os.close(w["job_w"])
                    os.close(w["res_r"])
                while True:
                    head = _read_exact(job_r, 4)
                    if not head:
                        break
                    index = struct.unpack("<I", head)[0]
                    if index == 0xFFFFFFFF:
                        break
                    try:
                        payload = pickle.dumps((True, func(jobs[index])))
                    except BaseException as error:
                        payload = pickle.dumps((False, (in_repo(error), traceback.format_exc())))
                    _write_exact(res_w, struct.pack("<IQ", index, len(payload)) + payload)
            except BaseException:
                traceback.print_exc()
                code = 1
            finally:
                os._exit(code)
        os.close(job_r)
        os.close(res_w)
        workers.append({"pid": pid, "job_w": job_w, "res_r": res_r, "busy": None})

    pending = list(range(len(jobs)))[::-1]
    import struct as st

    def give(w):
        if pending:
            index = pending.pop()
            w["busy"] = index
            _write_exact(w["job_w"], st.pack("<I", index))
        else:
            w["busy"] = None
            try:
                _write_exact(w["job_w"], st.pack("<I", 0xFFFFFFFF))
            except OSError:
                pass

    error = None
    repo_failure = False
    try:
        for w in workers:
            give(w)
        while any(w["busy"] is not None for w in workers) and error is None:
            fds = {w["res_r"]: w for w in workers if w["busy"] is not None}
            ready, _, _ = select.select(list(fds), [], [], 5)
            for fd in ready:
                w = fds[fd]
                head = _read_exact(fd, 12)
                if not head:
                    _, status = os.waitpid(w["pid"], 0)
                    w["gone"] = True
                    by = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
                    # a crash of the graph library on what the code gave it; not running out of memory
                    repo_failure = by in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE)
                    error = "worker died (signal {}) while running job {!r}".format(by, jobs[w["busy"]])[:500]
                    break
                index, size = st.unpack("<IQ", head)
                ok, value = pickle.loads(_read_exact(fd, size))
                if not ok:
                    error = "job {!r} failed:\n{}".format(str(jobs[index])[:500], value[1])[:4000]
                    repo_failure = value[0]
                    break
                results[index] = value
                give(w)
    finally:
        for w in workers:
            if error is not None and "gone" not in w:
                try:
                    os.kill(w["pid"], signal.SIGKILL)
                except OSError:
                    pass
            os.close(w["job_w"])
            os.close(w["res_r"])
        for w in workers:
            if "gone" not in w:
                os.waitpid(w["pid"], 0)
    if error is not None:
        raise (RepoFailure if repo_failure else RuntimeError)(error)
    return results


class RepoFailure(RuntimeError):
    """A call into the code under test raised where it must not."""


def in_repo(error):
    """Whether an exception was raised inside the code under test.

    The deciding frame is the innermost one of /repo or /verif: an exception
    raised by the check's own code (a renamed helper, say) is an error of the check.
    """
    if isinstance(error, (KeyboardInterrupt, SystemExit, MemoryError)):
        return False
    if isinstance(error, RepoFailure):
        return True
    last = None
    tb = error.__traceback__
    while tb is not None:
        name = tb.tb_frame.f_code.co_filename
        path = os.path.abspath(name)
        if path.startswith((REPO.rstrip("/") + "/", VERIF + "/")):
            last = path
        tb = tb.tb_next
    return last is not None and last.startswith(REPO.rstrip("/") + "/")


def _read_exact(fd, size):
    chunks = []
    while size:
        chunk = os.read(fd, min(size, 1 << 20))
        if not chunk:
            return b""
        chunks.append(chunk)
        size -= len(chunk)
    return b"".join(chunks)


def _write_exact(fd, data):
    view = memoryview(data)
    while view:
        view = view[os.write(fd, view):]


def chunks(items, size):
    items = list(items)
    return [items[i:i + size] for i in range(0, len(items), size)]


class Report:
    """Collects what a check covered and found; prints the outcome and exits."""

    def __init__(self, prop, level):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.coverage = {}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def count(self, key, amount=1):
        self.coverage[key] = self.coverage.get(key, 0) + amount

    def set(self, key, value):
        self.coverage[key] = value

    def sample(self, item, limit=12):
        samples = self.coverage.setdefault("samples", [])
        if len(samples) < limit:
            samples.append(item)

    def violation(self, key, message, **detail):
        """Records a violation; ``key`` identifies the specific failing case."""
        for entry in self.known:
            if entry["key"] == key:
                self.known_hit.setdefault(key, message)
                return
        self.violations.append({"key": key, "message": message, "detail": detail})

    def finish(self):
        for entry in self.known:
            if entry["key"] in self.known_hit:
                print("KNOWN-FINDING: property={} {}".format(self.prop, entry["what"]))
        evidence_dir = os.path.join(VERIF, "evidence")
        os.makedirs(evidence_dir, exist_ok=True)
        evidence = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - START, 3),
            "violations": len(self.violations),
        }
        with open(os.path.join(evidence_dir, self.prop + ".json"), "w", encoding="utf-8") as out:
            json.dump(evidence, out, ensure_ascii=False, indent=1, default=str)
            out.write("\n")
        code = 0
        if self.violations:
            path = os.path.join(evidence_dir, "{}-violations.json".format(self.prop))
            with open(path, "w", encoding="utf-8") as out:
                json.dump({"property": self.prop, "violations": self.violations[:int(os.environ.get("WETEXT_VERIF_KEEP", "200"))]}, out, ensure_ascii=False, indent=1, default=str)
                out.write("\n")
            for item in self.violations[:15]:
                print("  violation: {}".format(item["message"])[:1200])
            print("  {} violation(s) in all".format(len(self.violations)))
            print("VIOLATION property={} replay={}".format(self.prop, path))
            code = 1
        else:
            print("OK property={} tier={} {} wall={:.1f}s".format(
                self.prop, self.tier,
                {k: v for k, v in self.coverage.items() if isinstance(v, int)},
                time.time() - START))
        sys.stdout.flush()
        return code


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path, encoding="utf-8") as source:
            data = json.load(source)
    except FileNotFoundError:
        return []
    return [entry for entry in data.get("findings", []) if entry["property"] == prop]


def main(prop, level, body):
    """Entry point of a check: exit 0, 1, or 2 for an error of the check."""
    report = Report(prop, level)
    try:
        bootstrap()
        body(report)
    except SystemExit:
        raise
    except BaseException as error:
        traceback.print_exc()
        if in_repo(error):
            report.violation("raised", "the code under test raised: {}".format(
                (str(error) if isinstance(error, RepoFailure) else traceback.format_exc())[-1000:]))
            sys.exit(report.finish())
        print("ERROR property={}: the check itself failed".format(prop))
        sys.exit(2)
    sys.exit(report.finish())


def pipeline_orders(name):
    """The field order table a pipeline hands to its token parser (builds no graph)."""
    shell = type("Shell", (pipeline_class(name),), {"build_fst": lambda self, *args, **kwargs: None})()
    return shell.token_parser().orders


def build_many(specs):
    """Builds pipelines in parallel: {key: pipeline} for specs [(key, name, flags)].

    Each is built in memory by its own worker; the parent then runs the same
    constructor with the finished graphs, so forked workers share them.
    """
    import pynini

    def one(spec):
        _, name, flags = spec
        pipe = build(name, **flags)
        return pipe.tagger.write_to_string(), pipe.verbalizer.write_to_string()

    pipes = {}
    for (key, name, flags), (tagger, verbalizer) in zip(specs, run_jobs(specs, one)):
        def load(self, *args, _graphs=(tagger, verbalizer), **kwargs):
            self.tagger, self.verbalizer = (pynini.Fst.read_from_string(g) for g in _graphs)

        shell = type(pipeline_class(name).__name__, (pipeline_class(name),), {"build_fst": load})
        pipes[key] = shell(cache_dir=False, **flags)
        if pipes[key].tagger is None or pipes[key].verbalizer is None:
            raise RuntimeError("the pipeline constructor of {} built no graphs".format(name))
    return pipes
