"""C06: normalize(text, nbest=N) is the exact joint ranking without duplicates.

Exhaustive part: every small weighted two-stage pipeline (up to three analyses,
each with any set of weighted verbalizations) is built from real graphs, run
through Processor.normalize for every N and compared with a brute-force ranking
of all (analysis, verbalization) pairs.  Bound part: the six real pipelines on
fragment texts, against a ranking recomputed from the composed graphs.
"""

import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402

EPS = 1e-3
TAGS = ['a { v: "%d" } ' % i for i in range(60)]
OUTS = [chr(ord("A") + i) for i in range(12)] + ["w%d" % i for i in range(48)]


def expected(tag_weights, tables):
    """{output: least joint cost}; tables[t] = list of (output, weight)."""
    best = {}
    for weight, table in zip(tag_weights, tables):
        if weight is None or not table:
            continue
        low = min(w for _, w in table)
        for out, w in table:
            cost = weight + w - low
            if out not in best or cost < best[out]:
                best[out] = cost
    return best


def judge(want, got, label):
    """got: list of outputs; want: {output: cost}."""
    if len(set(got)) != len(got):
        return "{}: duplicate outputs {}".format(label, got)
    for out in got:
        if out not in want:
            return "{}: impossible output {!r}".format(label, out)
    costs = [want[o] for o in got]
    if any(a > b + EPS for a, b in zip(costs, costs[1:])):
        return "{}: not in cost order: {}".format(label, list(zip(got, costs)))
    ranked = sorted(want.values())[:len(got)]
    if any(abs(a - b) > EPS for a, b in zip(costs, ranked)):
        return "{}: costs {} but the ranking is {}".format(label, costs, ranked)
    return None


class Lab:
    """Synthetic pipelines from cached graph pieces."""

    def __init__(self):
        from tn.processor import Processor
        import pynini
        self.pynini = pynini
        self.Processor = Processor
        self.processor = Processor("x")
        reorder = self.processor.token_parser().reorder
        self.keys = [reorder(tag) for tag in TAGS]
        self.pieces = {}

    def tagger(self, weights):
        pynini = self.pynini
        arcs = []
        for tag, entry in zip(TAGS, weights):
            for w in (entry if isinstance(entry, tuple) else (entry,)):
                if w is not None:
                    arcs.append(pynini.cross("t", pynini.escape(tag)) + pynini.accep("", weight=w))
        return pynini.union(*arcs)

    def piece(self, index, table):
        key = (index, table)
        if key not in self.pieces:
            pynini = self.pynini
            if table:
                outs = pynini.union(*[pynini.cross("", out) + pynini.accep("", weight=w) for out, w in table])
                fst = pynini.cross(pynini.escape(self.keys[index]), "") + outs
            else:
                fst = None
            self.pieces[key] = fst
        return self.pieces[key]

    def verbalizer(self, tables):
        fsts = [f for f in (self.piece(i, t) for i, t in enumerate(tables)) if f is not None]
        return self.pynini.union(*fsts) if fsts else None

    def check(self, weights, tables, tagger=None, ns=None):
        flat = [min(w) if isinstance(w, tuple) else w for w in weights]
        want = expected(flat, tables)
        if not want:
            return None, 0
        p = self.processor
        p.tagger = tagger if tagger is not None else self.tagger(weights)
        p.verbalizer = self.verbalizer(tables)
        total = len(want)
        label = "tag weights {} verbalizations {}".format(weights, tables)
        full = p.normalize("t", nbest=total + 2)
        if len(full) != total:
            return "{}: nbest={} gave {} of {} outputs: {}".format(label, total + 2, len(full), total, full), 1
        bad = judge(want, full, label)
        if bad:
            return bad, 1
        runs = 1
        for n in ns or range(1, total + 1):
            got = p.normalize("t", nbest=n)
            runs += 1
            if n == 1:
                got = [got]
            if got != full[:n] and not (n > total and got == full):
                return "{}: nbest={} gave {} but nbest={} starts {}".format(label, n, got, total + 2, full[:n]), runs
        return None, runs


def family_a(job):
    """Three analyses x every table over three outputs and given weights."""
    weights, values, first = job
    lab = Lab()
    tagger = lab.tagger(weights)
    options = list(itertools.product((None,) + values, repeat=3))
    to_table = [tuple((OUTS[i], w) for i, w in enumerate(o) if w is not None) for o in options]
    out, evals, models, depth = [], 0, 0, 0
    for second in to_table:
        for third in to_table:
            tables = (to_table[first], second, third)
            bad, runs = lab.check(weights, tables, tagger, ns=(1, 2))
            evals += runs
            models += bool(runs)
            if bad:
                out.append(bad)
                if len(out) > 5:
                    return out, evals, models
    return out, evals, models


def family_b(job):
    """Long verbalization lists: the streams double their width while they are read."""
    sizes_a, dup = job
    lab = Lab()
    out, evals, models = [], 0, 0
    for size_b in range(0, 6):
        for shift in range(0, 4):
            for gap in (0, 1, 3):
                for step in (1, 2):
                    first = [(OUTS[i], float(i * step)) for i in range(sizes_a)]
                    second = [(OUTS[(i + shift) % 10], float(size_b - i - 3)) for i in range(size_b)]
                    if dup:
                        first += [(o, w + 0.5) for o, w in first]
                        second += [(o, w + 2.5) for o, w in second[:2]]
                    weights = ((0.0, 2.0), (float(gap), float(gap) + 1)) if dup else (0.0, float(gap))
                    bad, runs = lab.check(weights, (tuple(first), tuple(second)))
                    evals += runs
                    models += bool(runs)
                    if bad:
                        out.append(bad)
    return out, evals, models


def family_c(job):
    """Many analyses with one or two outputs each (the tag stream doubles its width)."""
    count, pattern = job
    lab = Lab()
    out, evals, models = [], 0, 0
    for outputs in itertools.product(range(3), repeat=count):
        tables = tuple((((OUTS[o], 0.0), (OUTS[3 + i % 3], pattern[i] + 0.5)) if i % 2 else ((OUTS[o], 0.0),))
                       for i, o in enumerate(outputs))
        weights = tuple(float(w) for w in pattern[:count])
        bad, runs = lab.check(weights, tables, ns=(1, 2, 4))
        evals += runs
        models += bool(runs)
        if bad:
            out.append(bad)
            if len(out) > 5:
                break
    return out, evals, models


def family_d(job):
    """Wide rankings: one analysis with many outputs, many analyses with few."""
    width, kind = job
    lab = Lab()
    out, evals, models = [], 0, 0
    for lead in (0, 1, 3):
        rest = tuple((OUTS[lead + i], float(0 if kind % 2 else i)) for i in range(width))
        head = tuple((OUTS[i], 0.0) for i in range(lead))
        if kind < 2:  # the outputs hang on the first, or the last, of two analyses
            weights, tables = (0.0, 1.0), (rest, head)
            cases = [(weights, tables), (weights, (head, rest))]
        else:  # one output per analysis; every third analysis cannot be verbalized, then all but the last
            weights = tuple(float(i if kind == 2 else 0) for i in range(width + 1))
            cases = [(weights, tuple(() if i % 3 == lead else ((OUTS[i], 0.0),) for i in range(width + 1))),
                     (weights, tuple(((OUTS[i], 0.0),) if i == width else () for i in range(width + 1))),
                     (weights, tuple(((OUTS[i // 2 + lead], 0.0),) for i in range(width + 1)))]
        for weights, tables in cases:
            bad, runs = lab.check(weights, tables, ns=(1, 2, 7, 16, 17, 31))
            evals += runs
            models += bool(runs)
            if bad:
                out.append(bad)
    return out, evals, models


def ranked(fst, limit):
    import pynini
    fst = fst.copy().project("output").rmepsilon()
    best = pynini.shortestpath(fst, nshortest=limit, unique=True)
    table = {}
    for _, out, weight in best.paths().items():
        weight = float(weight)
        if out not in table or weight < table[out]:
            table[out] = weight
    return table


PIPES = {}
NMAX = 8


def real(job):
    """A real pipeline on one text, against the ranking recomputed from its graphs."""
    import pynini
    name, text = job
    pipe = PIPES[name]
    tags = ranked(pynini.accep(pynini.escape(text)) @ pipe.tagger, 40)
    horizon = max(tags.values()) if len(tags) >= 40 else float("inf")
    best = {}
    for tagged, weight in tags.items():
        reordered = pipe.token_parser().reorder(tagged)
        outs = ranked(pynini.accep(pynini.escape(reordered)) @ pipe.verbalizer, 24)
        if not outs:
            continue
        low = min(outs.values())
        if len(outs) >= 24:
            horizon = min(horizon, weight + max(outs.values()) - low)
        for out, w in outs.items():
            cost = weight + w - low
            if out not in best or cost < best[out]:
                best[out] = cost
    order = sorted(best.values())
    sure = [c for c in order if c < horizon - EPS]
    full = pipe.normalize(text, nbest=NMAX)
    label = "{} {!r}".format(name, text)
    if not isinstance(full, list) or len(set(full)) != len(full):
        return [label + ": duplicate outputs {}".format(full)]
    if len(full) < min(NMAX, len(sure)):
        return [label + ": only {} of {} outputs".format(len(full), len(order))]
    known = full[:len(sure)]
    out = []
    costs = [best.get(o) for o in known]
    if None in costs:
        out.append(label + ": output {!r} has no analysis among the best".format(known[costs.index(None)]))
    elif any(abs(a - b) > EPS for a, b in zip(costs, order)):
        out.append(label + ": outputs {} cost {} but the ranking is {}".format(known, costs, order[:len(costs)]))
    for n in (1, 2, 3, 5):
        got = pipe.normalize(text, nbest=n)
        if ([got] if n == 1 else got) != full[:n]:
            out.append(label + ": nbest={} gave {} but nbest={} starts {}".format(n, got, NMAX, full[:n]))
    return out


def body(report):
    from fragments import FRAGMENTS
    jobs = []
    values = (0.0, 1.0)
    patterns = [(0.0, 0.0, 0.0), (0.0, 0.0, 1.0), (0.0, 1.0, 1.0), (0.0, 1.0, 2.0)]
    if report.thorough:
        values = (0.0, 1.0, 3.0)
        patterns += [(0.0, 2.0, 2.0), (0.0, 1.0, 3.0), (0.0, 2.0, 3.0), (0.0, 0.0, 3.0)]
    for weights in patterns:
        for first in range((len(values) + 1) ** 3):
            jobs.append(("a", (weights, values, first)))
    for size in range(0, 8 if report.thorough else 7):
        for dup in (False, True):
            jobs.append(("b", (size, dup)))
    for count in ((4, 5, 6, 7) if report.thorough else (4, 5)):
        for pattern in ((0,) * 8, (0, 0, 0, 1, 1, 2, 2, 3), (0, 1, 2, 3, 4, 5, 6, 7), (3, 2, 1, 0, 0, 1, 2, 3)):
            jobs.append(("c", (count, pattern)))
    for width in range(0, 56 if report.thorough else 41):
        for kind in range(4):
            jobs.append(("d", (width, kind)))
    names = list(FRAGMENTS)
    run = {"a": family_a, "b": family_b, "c": family_c, "d": family_d}
    for (kind, job), (bad, evals, models) in zip(jobs, common.run_jobs(jobs, lambda j: run[j[0]](j[1]))):
        report.count("evaluations", evals)
        report.count("distinct_nontrivial", models)
        report.count("family_" + kind, models)
        for message in bad:
            report.violation("synthetic:" + message[:300], message)
    report.sample({"family": "a", "tag_weights": patterns[-1], "outputs": OUTS[:3], "weights": values})

    # every nbest argument that is not a positive integer is refused
    from tn.processor import Processor
    import pynini
    p = Processor("x")
    p.tagger = pynini.cross("t", pynini.escape(TAGS[0]))
    p.verbalizer = pynini.cross(pynini.escape(p.token_parser().reorder(TAGS[0])), "A")
    for value in (0, -1, -7, True, False, 1.0, 2.5, "2", None, [1]):
        for text in ("t", ""):
            for method in (p.normalize, p.tag, p.normalize_with_mapping):
                report.count("evaluations")
                try:
                    result = method(text, nbest=value)
                except ValueError:
                    continue
                except Exception as error:
                    result = "{}: {}".format(type(error).__name__, error)
                report.violation("nbest:{!r}:{}".format(value, method.__name__),
                                 "{}({!r}, nbest={!r}) was not refused: {}".format(method.__name__, text, value, result))

    def pipeline_job(name):
        PIPES[name] = common.build(name)
        texts = list(FRAGMENTS[name])
        texts += [a + " " + b for a in texts[:6] for b in texts[:6]][:None if report.thorough else 8]
        out = []
        for text in texts:
            out += real((name, text))
        return out, len(texts)

    for name, (bad, done) in zip(names, common.run_jobs(names, pipeline_job)):
        report.count("evaluations", 5 * done)
        report.count("real_texts", done)
        for message in bad:
            report.violation("real:" + message[:300], message)
    report.set("exhaustive", True)
    report.set("rule", "family a: 3 analyses x all weight tables over 3 outputs; b: 2 analyses with 0..6 and 0..5 "
               "outputs, overlapping and duplicated paths; c: 4+ analyses x all maps to 3 outputs; d: one analysis with 0..40 outputs, 1..41 analyses with one or none; each pipeline with "
               "at least one output counts, run for several N; plus fragment texts on the six real pipelines")
    report.assumptions.append("weights are small integers and halves; ties may come in any order but the same for every N")


common.main("C06", "exploration", body)
