"""C10: concurrent users of one cache never see a torn or mixed bundle.

Stateless exploration of the real code: two or three forked processes
construct the same pipeline over one cache directory.  Each stops before every
file system and lock operation and at the steps of a build, and runs only when
the explorer lets it.  All schedules up to a bound on deviations (a preemption
or a SIGKILL) are executed and judged.
"""

import fcntl
import itertools
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import cachelab  # noqa: E402
from bundles import good_bundle, rename, sound  # noqa: E402

COUNTER = itertools.count()
STEPS = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.listdir", "os.scandir", "fcntl.flock", "fcntl.lockf",
         "os.lstat", "os.stat", "os.link", "os.symlink", "os.truncate", "shutil.rmtree"}
GRACE = 5.0


class Process:
    """One forked user of the cache, run step by step."""

    def __init__(self, Tiny, root, name, overwrite, others):
        down_r, down_w = os.pipe()
        up_r, up_w = os.pipe()
        self.name, self.state, self.event, self.result = name, "start", None, None
        self.pid = os.fork()
        if self.pid == 0:
            for p in others:
                os.close(p.down)
                os.close(p.up)
            os.close(down_w)
            os.close(up_r)
            self._child(Tiny, root, overwrite, down_r, up_w)
        os.close(down_r)
        os.close(up_w)
        self.down, self.up = down_w, up_r

    def _child(self, Tiny, root, overwrite, down, up):
        code = 1
        try:
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            read, write = os.read, os.write

            def say(message):
                data = pickle.dumps(message)
                write(up, struct.pack("<I", len(data)) + data)

            def step(kind, event):
                say((kind, event))
                if not read(down, 1):
                    os._exit(3)

            def point(event, args):
                if event not in STEPS:
                    return
                if event in ("os.lstat", "os.stat"):
                    path = args[0]
                    if isinstance(path, int) or not os.fspath(path).startswith(root + "/"):
                        return
                elif event == "open":
                    path = args[0]
                    if isinstance(path, int) or str(os.fspath(path)).startswith("/proc/"):
                        return
                release = event == "fcntl.flock" and bool(args[1] & fcntl.LOCK_UN)
                step("point", (event, "release") if release else (event,))

            def sleep(seconds):
                step("wait", ("sleep",))

            time.sleep = sleep
            outcome = None
            with cachelab.observed(point):
                def on_build(where):
                    step("point", ("build", where))

                try:
                    tiny = Tiny(root, gen=self.name, overwrite=overwrite, on_build=on_build)
                    outcome = ("ok", tiny.builds)
                except Exception as error:
                    if not common.in_repo(error):
                        raise
                    outcome = ("raised", "{}: {}".format(type(error).__name__, error))
            if outcome[0] == "ok":
                outcome += (tiny.outcome(),)
            say(("done", outcome))
            code = 0
        except BaseException:
            import traceback
            try:
                say(("error", traceback.format_exc()))
            except BaseException:
                pass
        finally:
            os._exit(code)

    def listen(self, timeout):
        """Waits for the process to reach its next step."""
        ready, _, _ = select.select([self.up], [], [], timeout)
        if not ready:
            self.state = "kernel"
            return
        head = common._read_exact(self.up, 4)
        if not head:
            raise RuntimeError("a cache user died on its own")
        kind, event = pickle.loads(common._read_exact(self.up, struct.unpack("<I", head)[0]))
        if kind == "error":
            raise RuntimeError(event)
        if kind == "done":
            self.state, self.result = "done", event
            os.waitpid(self.pid, 0)
        else:
            self.state, self.event = ("ready" if kind == "point" else "wait"), event

    def go(self):
        os.write(self.down, b"x")
        self.listen(GRACE)

    def kill(self):
        if self.state not in ("done", "dead"):
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
            self.state = "dead"

    def close(self):
        self.kill()
        os.close(self.down)
        os.close(self.up)


def execute(Tiny, scenario, choices):
    """Runs one schedule.  choices: {step index: ("switch", j) or ("kill",)}.

    Returns the list of points [(running process, switchable processes)], the
    log, and a message if the execution violates the property.
    """
    name, start, users, founds = scenario
    root = os.path.join(common.scratch(), "c10-{}-{}".format(os.getpid(), next(COUNTER)))
    if start:
        cachelab.materialize(start, root)
    procs, points, log, killed = [], [], [], []
    message = None
    try:
        for i, overwrite in enumerate(users):
            procs.append(Process(Tiny, root, "p{}".format(i), overwrite, procs))
        for p in procs:
            p.listen(60)
        current, idle, building = 0, 0, set()
        step = 0
        while any(p.state not in ("done", "dead") for p in procs):
            for p in procs:
                if p.state == "kernel":
                    p.listen(0)
            ready = [i for i, p in enumerate(procs) if p.state == "ready"]
            if not ready:
                waiting = [p for p in procs if p.state in ("wait", "kernel")]
                idle += 1
                if idle > 4:
                    message = "every process waits and none can go on: {}".format([(p.name, p.state) for p in procs])
                    break
                for p in waiting:
                    if p.state == "kernel":
                        p.listen(GRACE)
                    else:
                        p.go()
                continue
            if current not in ready:
                current = ready[0]
            choice = choices.get(step)
            points.append((current, [i for i in ready if i != current], procs[current].event))
            step += 1
            if choice is not None and choice[0] == "kill":
                log.append("{} killed before {}".format(procs[current].name, procs[current].event))
                procs[current].kill()
                killed.append(current)
                building.discard(current)
                for p in procs:
                    if p.state == "wait":
                        p.go()
                idle = 0
                continue
            if choice is not None:
                current = choice[1]
                if current not in ready:
                    raise RuntimeError("the schedule does not replay")
            p = procs[current]
            event = p.event
            if event[0] == "build":
                if event[1] == "begin":
                    building.add(current)
                    if len(building) > 1:
                        message = "{} processes build at once".format(len(building))
                        break
                elif event[1] == "end":
                    building.discard(current)
            log.append("{} {}".format(p.name, " ".join(map(str, event))))
            p.go()
            if p.state != "wait":
                idle = 0
            if "release" in event or p.state in ("done", "dead"):
                for q in procs:
                    if q.state == "wait":
                        q.go()
            if step > 2000:
                message = "the processes never finish"
                break
        if message is None:
            message = judge(Tiny, root, procs, users, founds, killed)
    finally:
        for p in procs:
            p.close()
        shutil.rmtree(root, ignore_errors=True)
    return points, log, message


def judge(Tiny, root, procs, users, founds, killed):
    builds = 0
    for i, p in enumerate(procs):
        if p.state == "dead":
            continue
        if p.result[0] != "ok":
            return "{} failed: {}".format(p.name, p.result[1])
        _, count, got = p.result
        builds += count
        allowed = {"p{}/".format(j) for j in range(len(procs))} | {f + "/" for f in founds}
        if users[i]:
            allowed = {p.name + "/"}
        if got not in allowed:
            return "{} ended with {!r}".format(p.name, got)
        if users[i] and count != 1:
            return "{} was to overwrite and built {} times".format(p.name, count)
    if not any(users) and not killed:
        if builds != (0 if founds else 1):
            return "{} builds, each process could share one".format(builds)
    if not killed:    # a kill between two renames leaves recovery to the next user
        tree = cachelab.snapshot(root)
        problem = sound(tree)
        if problem:
            return "in the end {}".format(problem)
        problem = leftovers(tree)
        if problem:
            return problem
    # whatever happened, the cache is usable and the lock is free
    os.environ["WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"] = "0.5"
    try:
        last = Tiny(root, gen="last")
        got = last.outcome()
        known = {"p{}/".format(j) for j in range(len(procs))} | {f + "/" for f in founds} | {"last/"}
        if got not in known or (not killed and last.builds):
            return "a later user got {!r} with {} builds".format(got, last.builds)
        last = Tiny(root, gen="over", overwrite=True)
        if last.outcome() != "over/":
            return "a later overwrite got {!r}".format(last.outcome())
    except Exception as error:
        if not common.in_repo(error):
            raise
        return "a later user failed: {}: {}".format(type(error).__name__, error)
    finally:
        del os.environ["WETEXTPROCESSING_CACHE_LOCK_TIMEOUT"]
    tree = cachelab.snapshot(root)
    return sound(tree) or leftovers(tree)


def leftovers(tree):
    bundle = cachelab.bundle_dir(tree)
    parent, digest = bundle.rsplit("/", 1)
    rest = sorted(n for n in tree if n.startswith(parent + "/") and n != bundle and not n.startswith(bundle + "/"))
    if rest not in ([], ["{}/.{}.lock".format(parent, digest)]):
        return "left beside the bundle: {}".format(rest)
    return None


def explore(Tiny, scenario, prefix, budget, kills):
    """All schedules extending prefix by up to ``budget`` deviations."""
    bad, runs, steps, outcomes = [], 0, 0, set()
    stack = [(dict(prefix), budget, kills)]
    while stack:
        choices, left, kill_left = stack.pop()
        points, log, message = execute(Tiny, scenario, choices)
        runs += 1
        steps += len(points)
        outcomes.add(tuple(log))
        if message:
            bad.append((message, choices, log))
            if len(bad) > 3:
                break
            continue
        first = max(choices) + 1 if choices else 0
        for at in range(first, len(points)):
            if left:
                for other in points[at][1]:
                    stack.append((dict(choices, **{}) | {at: ("switch", other)}, left - 1, kill_left))
            if kill_left:
                stack.append((dict(choices) | {at: ("kill",)}, left, kill_left - 1))
    return bad, runs, steps, len(outcomes)


def scenarios(Tiny, thorough):
    one, two = good_bundle(Tiny, "one"), good_bundle(Tiny, "two")
    bundle = cachelab.bundle_dir(one)
    parent, digest = bundle.rsplit("/", 1)
    broken = dict(one)
    broken[bundle + "/tagger.fst"] = ("f", b"junk")
    previous = rename(one, bundle, "{}/.{}.previous-{}".format(parent, digest, "0" * 32))
    mixed = {n: e for n, e in one.items()}
    mixed[bundle + "/verbalizer.fst"] = two[bundle + "/verbalizer.fst"]
    # name, start, overwrite flag per process, builds that may be found, preemptions, kills
    p2 = 3 if thorough else 2
    yield ("two first users", {}, (False, False), ()), p2, 0
    yield ("overwrite and reader", one, (True, False), ("one",)), p2, 0
    yield ("reader and overwrite", one, (False, True), ("one",)), p2, 0
    yield ("two overwrites", one, (True, True), ("one",)), 2 if thorough else 1, 0
    yield ("two users of a damaged bundle", broken, (False, False), ()), 2 if thorough else 1, 0
    yield ("two users of a mixed bundle", mixed, (False, False), ()), 1, 0
    yield ("damaged, overwrite and reader", broken, (True, False), ()), 2 if thorough else 1, 0
    yield ("two users after a crash", previous, (False, False), ("one",)), 2 if thorough else 1, 0
    yield ("overwrite and reader after a crash", previous, (True, False), ("one",)), 1, 0
    yield ("three first users", {}, (False, False, False), ()), 1, 0
    yield ("two overwrites and a reader", one, (True, True, False), ("one",)), 1, 0
    yield ("killed first user", {}, (False, False), ()), 1, 1
    yield ("killed overwrite", one, (True, False), ("one",)), 1, 1
    yield ("killed overwrites", one, (True, True), ("one",)), 1 if thorough else 0, 2 if thorough else 1
    yield ("killed repair", broken, (False, False), ()), 1 if thorough else 0, 1
    yield ("killed recovery", previous, (False, False), ("one",)), 1 if thorough else 0, 1


def body(report):
    Tiny = cachelab.tiny_class()
    with cachelab.steady_fingerprint():
        jobs = []
        for scenario, preempt, kills in scenarios(Tiny, report.thorough):
            # the undisturbed run, twice: the same schedule must give the same steps
            points, log, message = execute(Tiny, scenario, {})
            again, log2, _ = execute(Tiny, scenario, {})
            if message is None and log != log2:
                raise RuntimeError("the undisturbed run of {!r} is not deterministic".format(scenario[0]))
            report.sample({"scenario": scenario[0], "steps": len(points), "preemptions": preempt, "kills": kills})
            report.count("schedules")
            report.count("steps", len(points))
            report.count("scenarios")
            if message:
                report.violation(scenario[0], "{}: {}".format(scenario[0], message), log=log)
                continue
            for at, (_, others, _) in enumerate(points):
                for other in others:
                    if preempt:
                        jobs.append((scenario, {at: ("switch", other)}, preempt - 1, kills))
                if kills:
                    jobs.append((scenario, {at: ("kill",)}, preempt, kills - 1))
        for job, (bad, runs, steps, distinct) in zip(jobs, common.run_jobs(jobs, lambda j: explore(Tiny, *j))):
            report.count("schedules", runs)
            report.count("steps", steps)
            report.count("distinct_nontrivial", distinct)
            for message, choices, log in bad:
                report.violation("{}:{}".format(job[0][0], message[:200]), "{}: {} under schedule {}".format(job[0][0], message, choices),
                                 schedule=str(choices), log=log)
    report.set("evaluations", report.coverage["schedules"])
    report.set("exhaustive", True)
    report.set("rule", "every schedule of 16 scenarios up to the scenario's number of preemptions and kills; distinct schedules by "
               "their sequence of steps; each has at least one deviation from running one process after the other")
    report.assumptions.append("processes interact only through the file system and flock; a step is a name-based file system "
                              "operation, a lock operation or a build step")


if __name__ == "__main__":
    common.main("C10", "exploration", body)
