"""C18: a call's result depends on nothing but its arguments and the options.

History: every sequence of calls up to a depth over an alphabet of good,
failing and result-mutating calls, on one object, compared with each call made
first thing in a fresh process.  Threads: every schedule of two calls on one
object up to a preemption bound, under a controlled scheduler which switches
at the function entries, lines or instructions of the code under test.
"""

import copy
import itertools
import os
import pickle
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import interleave  # noqa: E402

PIPES = {}
TEXTS = {"zh_tn": ("3-5岁", "你好，10:30", "好1"), "ja_tn": ("100円", "こんにちは、10:30", "1回"), "en_tn": ("$5 b", "may 5", "U.S."),
         "zh_itn": ("十二点", "共百分之五，负十", "一"), "ja_itn": ("百円", "これは十二時半", "一"), "en_itn": ("twenty", "may fifth", "the a")}
BAD_TAGGED = 'cardinal { integer: "1" '
FLIP = {"zh_tn": dict(remove_erhua=False, tag_oov=True, traditional_to_simple=False, full_to_half=False),
        "ja_tn": dict(transliterate=False, tag_oov=True, full_to_half=False, remove_puncts=True), "en_tn": {},
        "zh_itn": dict(remove_interjections=False, enable_standalone_number=False, enable_0_to_9=True, enable_million=True),
        "ja_itn": dict(full_to_half=True, enable_standalone_number=False, enable_0_to_9=True, enable_million=True), "en_itn": {}}


def plain(value):
    if isinstance(value, BaseException):
        return (type(value).__name__, str(value)[:200])
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    if hasattr(value, "as_dict"):
        return value.as_dict()
    return value


def spoil(value):
    """Mutates whatever of a result can be mutated."""
    for item in value if isinstance(value, list) else [value]:
        if hasattr(item, "as_dict"):
            shown = item.as_dict()
            for key in list(shown):
                if isinstance(shown[key], list):
                    for row in shown[key]:
                        row.clear()
                    shown[key].clear()
            shown.clear()
    if isinstance(value, list):
        value[:] = ["spoiled"]


def operations(name):
    one, two, three = TEXTS[name]
    tagged = TAGGED[name]
    ops = [
        ("normalize", one), ("normalize", two), ("normalize", three), ("normalize", ""), ("normalize", one, 3), ("normalize", two, 2),
        ("tag", one), ("tag", two, 2), ("verbalize", tagged), ("normalize_with_mapping", two), ("normalize_with_mapping", one, 2, True),
        ("verbalize", BAD_TAGGED), ("normalize", None), ("normalize", 7), ("normalize", one, 0), ("tag", "\ud800"),
    ]
    return ops


TAGGED = {}
SHORT = {}


def call(pipe, op):
    try:
        value = getattr(pipe, op[0])(*op[1:])
    except Exception as error:
        return plain(error)
    shown = plain(value)
    spoil(value)
    return shown


def apart(func):
    """Runs func in a forked child and returns its result."""
    read, write = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(read)
            data = pickle.dumps(func())
            while data:
                data = data[os.write(write, data):]
            code = 0
        finally:
            os._exit(code)
    os.close(write)
    data = b""
    while True:
        piece = os.read(read, 65536)
        if not piece:
            break
        data += piece
    os.close(read)
    os.waitpid(pid, 0)
    return pickle.loads(data)


def sequence_of(size, depth):
    """A cyclic sequence over range(size) holding every word of that length (de Bruijn)."""
    out = []
    word = [0] * size * depth

    def extend(t, p):
        if t > depth:
            if depth % p == 0:
                out.extend(word[1:p + 1])
            return
        word[t] = word[t - p]
        extend(t + 1, p)
        for j in range(word[t - p] + 1, size):
            word[t] = j
            extend(t + 1, t)

    extend(1, 1)
    return out + out[:depth - 1]


def histories(job):
    """Call sequences on one object, each from the state of a fresh process."""
    name, words, alone = job
    ops = operations(name)
    bad = []
    for word in words:
        got = apart(lambda: [call(PIPES[name], ops[i]) for i in word])
        for place, (i, result) in enumerate(zip(word, got)):
            if result != alone[i]:
                bad.append(([ops[j] for j in word[max(0, place - 3):place + 1]], result, alone[i], len(word)))
                break
    return bad


def first_calls(name):
    return [apart(lambda op=op: call(PIPES[name], op)) for op in operations(name)]


SHARED = ("3-5", "10:30", "一", "十二", "5 kg", "twenty", "2025-01-02", "$5", "儿")


def crosswise():
    """Calls with the very same arguments for every pipeline."""
    ops = [("normalize", text) for text in SHARED] + [("tag", text) for text in SHARED]
    for name in PIPES:
        for token, fields in sorted(common.pipeline_orders(name).items()):
            fields = sorted(set(fields))
            for order in (fields, fields[::-1]):
                ops.append(("reorder", token + " { " + " ".join('{}: "{}"'.format(f, i) for i, f in enumerate(order)) + " }"))
    return list(dict.fromkeys(ops))


def call_shared(pipe, op):
    if op[0] == "reorder":
        try:
            return pipe.token_parser().reorder(op[1])
        except Exception as error:
            return plain(error)
    return call(pipe, op)


def pair_of_pipelines(job):
    """One pipeline's answers after another one got the same calls (none: first thing in the process)."""
    before, name, ops = job

    def story():
        if before is not None:
            for op in ops:
                call_shared(PIPES[before], op)
        return [call_shared(PIPES[name], op) for op in ops]

    return apart(story)


def neighbours(job):
    """A pipeline with other options comes to life: earlier ones and it answer as each does on its own."""
    other, alone, ops = job

    def lone():
        built = common.build(other, **FLIP[other])
        return [call_shared(built, op) for op in ops]

    def story():
        for op in ops:
            call_shared(PIPES[other], op)
        built = common.build(other, **FLIP[other])
        mine = [call_shared(built, op) for op in ops]
        return mine, {name: [call(PIPES[name], op) for op in operations(name)] for name in PIPES}

    want = apart(lone)
    mine, got = apart(story)
    bad = [(name, op, result, right) for name in got for op, result, right in zip(operations(name), got[name], alone[name]) if result != right]
    return bad + [(other + " with other options", op, result, right) for op, result, right in zip(ops, mine, want) if result != right]


def fresh(name):
    return copy.copy(PIPES[name])


def forget():
    """Empties the function caches of the code under test, so that every schedule starts alike."""
    for module in list(sys.modules.values()):
        if getattr(module, "__name__", "").split(".")[0] not in ("tn", "itn"):
            continue
        for thing in list(vars(module).values()):
            clear = getattr(thing, "cache_clear", None)
            if callable(clear):
                clear()


def race(names, ops, schedule, grain):
    forget()
    pipes = {name: fresh(name) for name in set(names)}
    run = interleave.Race(common.REPO, [lambda n=n, op=op: call(pipes[n], op) for n, op in zip(names, ops)], schedule, grain)
    return run.run(), run


def schedules(job):
    names, ops, grain, words, want = job
    bad = []
    taken = 0
    points = 0
    race(names, ops, (0, ()), grain)     # switches the interpreter's event machinery on
    for schedule in words:
        got, run = race(names, ops, schedule, grain)
        taken += run.switches
        points += sum(run.points)
        if got != want:
            bad.append((names, ops, schedule, grain, [plain(g) for g in got], want))
    return bad, taken, points


def lengths(job):
    """The number of yield points of each call when it runs alone."""
    names, ops, grain = job
    race(names, ops, (0, ()), grain)
    _, run = race(names, ops, (0, ()), grain)
    return run.points


def body(report):
    PIPES.update(common.build_many([(n, n, {}) for n in common.PIPELINES]))
    for name in PIPES:
        TAGGED[name] = apart(lambda: PIPES[name].tag(TEXTS[name][0]))
        SHORT[name] = apart(lambda: PIPES[name].tag("x"))
    names = list(PIPES)
    alone = dict(zip(names, common.run_jobs(names, first_calls)))
    again = dict(zip(names, common.run_jobs(names, first_calls)))
    for name in names:
        if alone[name] != again[name]:
            report.violation(name + ":first", "{}: the same first call differs between processes".format(name))
    jobs = []
    for name in names:
        size = len(operations(name))
        words = [list(w) for w in itertools.product(range(size), repeat=2)]
        if report.thorough:
            words += [list(w) for w in itertools.product(range(size), repeat=3)]
            long = sequence_of(size, 4)
        else:
            long = sequence_of(size, 3)
        report.count("histories_fresh_process", len(words))
        report.count("history_calls", sum(map(len, words)) + len(long))
        jobs += [(name, chunk, alone[name]) for chunk in common.chunks(words, 64)]
        jobs += [(name, [long[max(0, i - 3):i + 1024]], alone[name]) for i in range(0, len(long), 1024)]
        report.sample({"pipeline": name, "history": [operations(name)[i] for i in words[100]]})
    jobs.sort(key=lambda j: -max(map(len, j[1])))
    for (name, words, _), bad in zip(jobs, common.run_jobs(jobs, histories)):
        report.count("evaluations", len(words))
        for story, got, want, _ in bad:
            report.violation("{}:history:{}".format(name, story), "{}: after {}, {} gives {!r}, first thing it gives {!r}".format(
                name, story[:-1], story[-1], got, want))
    shared = crosswise()
    jobs = [(before, name, shared) for name in names for before in [None] + names if before != name]
    answers = dict(zip([j[:2] for j in jobs], common.run_jobs(jobs, pair_of_pipelines)))
    for (before, name), got in answers.items():
        report.count("pairs_of_pipelines")
        report.count("evaluations", len(got))
        for op, result, want in zip(shared, got, answers[None, name]):
            if result != want:
                report.violation("{}:pair:{}:{}".format(name, before, op), "{}: {} gives {!r} after {} got the same calls, {!r} first thing".format(
                    name, op, result, before, want))
    others = [n for n in names if report.thorough or n != "en_tn"]
    for other, bad in zip(others, common.run_jobs([(o, alone, shared) for o in others], neighbours)):
        report.count("neighbour_pipelines")
        for name, op, got, want in bad:
            report.violation("{}:neighbour:{}:{}".format(name, other, op), "{}: {} gives {!r} beside a {} pipeline with other options, "
                             "{!r} without".format(name, op, got, other, want))
    races = []
    for name in names:
        one, two, three = TEXTS[name]
        deep, wide = ("opcode", "line") if report.thorough else ("line", "call")
        pairs = [((("normalize", one), ("normalize", three)), deep, 1),
                 ((("verbalize", TAGGED[name]), ("normalize", three)), deep, 1),
                 ((("verbalize", BAD_TAGGED), ("normalize", one)), deep, 1),
                 ((("normalize_with_mapping", three), ("normalize", one)), "line", 1),
                 ((("normalize_with_mapping", three), ("normalize_with_mapping", one)), wide, 1),
                 ((("normalize", two, 2), ("normalize_with_mapping", one, 2, True)), wide, 1),
                 ((("tag", two, 2), ("normalize", three)), deep, 1)]
        if report.thorough or name in ("zh_tn", "ja_itn", "en_itn"):
            pairs.append(((("verbalize", SHORT[name]), ("normalize", three)), "call", 2))
        if report.thorough or name == "zh_itn":
            pairs.append(((("verbalize", SHORT[name]), ("verbalize", SHORT[name])), "opcode", 1))
        if report.thorough:
            pairs.append(((("normalize_with_mapping", three), ("normalize", one)), "call", 2))
        races += [((name, name), ops, grain, bound) for ops, grain, bound in pairs]
    for left, right in (("zh_tn", "zh_itn"), ("zh_tn", "ja_tn"), ("en_tn", "en_itn"), ("ja_itn", "en_itn")):
        races.append(((left, right), (("normalize", TEXTS[left][0]), ("normalize_with_mapping", TEXTS[right][2])), "line", 1))
    counts = common.run_jobs([r[:3] for r in races], lengths)
    jobs = []
    for (pair, ops, grain, bound), count in zip(races, counts):
        want = [alone[n][operations(n).index(op)] if op in operations(n) else apart(lambda: call(PIPES[n], op)) for n, op in zip(pair, ops)]
        words = []
        for first in (0, 1):
            mine, theirs = count[first], count[1 - first]
            if bound == 1:
                words += [(first, (k,)) for k in range(mine + 1)]
            else:
                words += [(first, (k, j)) for k in range(mine + 1) for j in range(theirs + 1)]
        report.count("schedules_bound_{}".format(bound), len(words))
        jobs += [(pair, ops, grain, chunk, want) for chunk in common.chunks(words, 200)]
    for job, (bad, taken, points) in zip(jobs, common.run_jobs(jobs, schedules)):
        report.count("evaluations", len(job[3]))
        report.count("switches_taken", taken)
        report.count("yield_points", points)
        for pair, ops, schedule, grain, got, want in bad:
            report.violation("{}:schedule:{}:{}".format("/".join(pair), ops, schedule), "{} beside each other, schedule {} by {}: {!r}, alone "
                             "{!r}".format(list(zip(pair, ops)), schedule, grain, got, want))
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "all call sequences of length 2 from fresh processes and of length 3 within one (thorough: 3 and 4); all schedules of two "
                       "calls with one preemption at any line (some pairs: any instruction; thorough: all) and with two at any function entry "
                       "(thorough: any line) of the code under test; distinct = sequences and schedules")


if __name__ == "__main__":
    common.main("C18", "model_checking", body)
