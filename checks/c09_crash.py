"""C09: a cache bundle is never half-written, mixed or wrong after a crash.

Crash part: cache histories (fresh build, overwrite, repair of a damaged
bundle, recovery) run on the real code under an observer that records the
state of the cache before every file system operation.  Every recorded state,
with every combination of lost or torn unsynced file contents, is laid out in
a fresh directory and the pipeline is constructed from it; recovery runs are
crashed again at every operation.  Damage part: every truncation, byte change,
removal, swap and replacement of the bundle's files.
"""

import hashlib
import itertools
import json
import os
import shutil
import stat
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import cachelab  # noqa: E402
from bundles import good_bundle, rename, sound  # noqa: E402

COUNTER = itertools.count()


def fresh_root():
    return os.path.join(common.scratch(), "c09-{}-{}".format(os.getpid(), next(COUNTER)))


def variants(entry, synced):
    """What a file may hold after a crash: its data, and if unsynced less of it."""
    data, inode = entry[1], entry[2]
    out = [data]
    last = synced.get(inode, b"")
    if last != data:
        for other in (last, b"", data[:len(data) // 2], b"\0" * len(data)):
            if other not in out:
                out.append(other)
    return out


def record(root, action):
    """Runs action() and returns every distinct crash state of root, in order."""
    states, seen, synced = [], set(), {}

    for entry in cachelab.snapshot(root, inodes=True).values():
        if entry[0] == "f":
            synced[entry[2]] = entry[1]     # what was there before is on disk

    def note(where):
        tree = cachelab.snapshot(root, inodes=True)
        files = [n for n, e in tree.items() if e[0] == "f"]
        choices = [variants(tree[n], synced) for n in files]
        for combo in itertools.product(*choices):
            state = {n: e for n, e in tree.items() if e[0] != "f"}
            state.update({n: ("f", data) for n, data in zip(files, combo)})
            key = canonical(state)
            if key not in seen:
                seen.add(key)
                states.append((where, state))

    def point(event, args):
        note(event)
        if event in ("os.fsync", "os.fdatasync") and isinstance(args[0], int):
            st = os.fstat(args[0])
            if stat.S_ISREG(st.st_mode):
                path = os.readlink("/proc/self/fd/{}".format(args[0]))
                with open(path, "rb") as source:
                    synced[st.st_ino] = source.read()

    with cachelab.observed(point):
        try:
            action()
        except Exception as error:
            return states, error
    note("end")
    return states, None


def canonical(state):
    return hashlib.sha256(repr(sorted((n, e) for n, e in state.items())).encode()).digest()


def recover(Tiny, state, known, label, deep=False, refuse=(), gen="new"):
    """Constructs the pipeline from a state; returns messages and deeper states."""
    root = fresh_root()
    cachelab.materialize(state, root)
    deeper = []
    try:
        box = []

        def action():
            box.append(Tiny(root, gen=gen))

        if deep:
            deeper, error = record(root, action)
        else:
            error = None
            try:
                action()
            except Exception as caught:
                error = caught
        if error is not None:
            if refuse and type(error).__name__ in refuse:
                if cachelab.snapshot(root) and "mixed" not in str(error):
                    return None, deeper, False
            if not common.in_repo(error):
                raise error
            return "{}: construction failed with {}: {}".format(label, type(error).__name__, error), deeper, False
        got = box[0].outcome()
        if got not in {g + "/" for g in known + (gen,)}:
            return "{}: the pipeline outputs {!r}".format(label, got), deeper, False
        if got == gen + "/" and box[0].builds != 1:
            return "{}: {} builds".format(label, box[0].builds), deeper, False
        if got != gen + "/" and box[0].builds:
            return "{}: built and then used another build's graphs".format(label), deeper, False
        problem = sound(cachelab.snapshot(root))
        if problem:
            return "{}: after recovery {}".format(label, problem), deeper, False
        again = Tiny(root, gen="again")
        if again.builds or again.outcome() != got:
            return "{}: the recovered bundle is not reused ({} builds, {!r})".format(label, again.builds, again.outcome()), deeper, False
        return None, deeper, got == gen + "/"
    finally:
        shutil.rmtree(root, ignore_errors=True)


def histories(Tiny):
    """(name, start tree, names of builds that may be found, action on a root)."""
    one = good_bundle(Tiny, "one")
    two = good_bundle(Tiny, "two")
    bundle = cachelab.bundle_dir(one)
    parent, digest = bundle.rsplit("/", 1)
    yield "fresh build", {}, ("one",), lambda root: Tiny(root, gen="one")
    yield "overwrite", one, ("one", "two"), lambda root: Tiny(root, gen="two", overwrite=True)
    broken = dict(one)
    broken[bundle + "/tagger.fst"] = ("f", b"junk")
    yield "repair", broken, ("two",), lambda root: Tiny(root, gen="two")
    yield "overwrite of a damaged bundle", broken, ("two",), lambda root: Tiny(root, gen="two", overwrite=True)
    previous = rename(one, bundle, "{}/.{}.previous-{}".format(parent, digest, "0" * 32))
    yield "recovery", previous, ("one",), lambda root: Tiny(root, gen="two")
    yield "recovery then overwrite", previous, ("one", "two"), lambda root: Tiny(root, gen="two", overwrite=True)
    bad_previous = rename(broken, bundle, "{}/.{}.previous-{}".format(parent, digest, "0" * 32))
    yield "damaged previous", bad_previous, ("two",), lambda root: Tiny(root, gen="two")
    residue = dict(one)
    for kind, tree in (("tmp", two), ("corrupt", broken), ("previous", two)):
        name = "{}/.{}.{}-{}".format(parent, digest, kind, "abc")
        residue.update({n: e for n, e in rename(tree, bundle, name).items() if n.startswith(name)})
    yield "residuals beside a good bundle", residue, ("one", "two"), lambda root: Tiny(root, gen="two", overwrite=True)
    half = {n: e for n, e in rename(two, bundle, "{}/.{}.tmp-zz".format(parent, digest)).items() if not n.endswith("verbalizer.fst")}
    yield "half a temporary", half, ("one",), lambda root: Tiny(root, gen="one")


def damages(tree, other, thorough):
    """Every damaged form of a good bundle: (label, tree, refusal allowed)."""
    bundle = cachelab.bundle_dir(tree)
    files = ["tagger.fst", "verbalizer.fst", "manifest.json"]
    path = {f: bundle + "/" + f for f in files}
    for f in files:
        data = tree[path[f]][1]
        for size in range(len(data)):
            yield "{} cut to {} bytes".format(f, size), dict(tree, **{path[f]: ("f", data[:size])}), ()
        for i in range(len(data)):
            for mask in ((1, 2, 4, 8, 16, 32, 64, 128, 255) if thorough else (1, 0x20, 0x80)):
                yield ("{} byte {} xor {}".format(f, i, mask),
                       dict(tree, **{path[f]: ("f", data[:i] + bytes([data[i] ^ mask]) + data[i + 1:])}), ())
        for extra in (b"\0", b"\n", b"{}", data):
            yield "{} with {} bytes appended".format(f, len(extra)), dict(tree, **{path[f]: ("f", data + extra)}), ()
            yield "{} with {} bytes prepended".format(f, len(extra)), dict(tree, **{path[f]: ("f", extra + data)}), ()
        shapes = [("d",), ("l", "/nonexistent"), ("l", "tagger.fst"), ("l", f), ("?", stat.S_IFIFO), ("f", b""), ("f", data[::-1])]
        for shape in shapes:
            yield "{} replaced by {}".format(f, shape[:2]), dict(tree, **{path[f]: shape}), ("CachePathError",)
    # every way to take each file from this build, another build, the other role, or nowhere
    sources = [("own", lambda f: tree[path[f]]), ("other", lambda f: other[path[f]]), ("absent", lambda f: None),
               ("role", lambda f: tree[path[files[(files.index(f) + 1) % 2]]] if f != files[2] else tree[path[files[0]]])]
    for combo in itertools.product(sources, repeat=3):
        mixed = {n: e for n, e in tree.items() if n not in path.values()}
        for f, (_, source) in zip(files, combo):
            entry = source(f)
            if entry is not None:
                mixed[path[f]] = entry
        yield "files from {}".format([c[0] for c in combo]), mixed, ()
    for extra in ("extra", ".hidden", "tagger.fst.tmp", "manifest.json~"):
        yield "extra file {}".format(extra), dict(tree, **{bundle + "/" + extra: ("f", b"x")}), ()
    manifest = json.loads(tree[path["manifest.json"]][1])

    def edited(label, value):
        text = value if isinstance(value, bytes) else json.dumps(value).encode()
        return "manifest " + label, dict(tree, **{path["manifest.json"]: ("f", text)}), ()

    for key in list(manifest):
        without = {k: v for k, v in manifest.items() if k != key}
        yield edited("without " + key, without)
        for value in (None, "", 0, [], {}, "x", True, -1):
            yield edited("{}={!r}".format(key, value), dict(manifest, **{key: value}))
    for name in ("tagger.fst", "verbalizer.fst"):
        for key in ("size", "sha256"):
            for value in (None, "", 0, -1, 1.0, True, "x", [], manifest["files"][name][key] * 1 if key == "sha256" else 10 ** 30,
                          manifest["files"]["tagger.fst"][key]):
                files_entry = json.loads(json.dumps(manifest["files"]))
                files_entry[name][key] = value
                yield edited("{} {}={!r}".format(name, key, value), dict(manifest, files=files_entry))
        yield edited(name + " entry missing", dict(manifest, files={k: v for k, v in manifest["files"].items() if k != name}))
    for text in (b"", b"{", b"[]", b"null", b"1", b"\"x\"", b"\xff\xfe", b"{}" * 2, b"[" * 100000):
        yield edited(repr(text[:20]), text)


def big_class(Tiny):
    """Tiny with graph files of several megabytes."""
    import pynini
    import random
    ballast = pynini.accep("".join(random.Random(7).choices("abcdefgh", k=45000)))

    class BigTiny(Tiny):
        def build_tagger(self):
            super().build_tagger()
            self.tagger = pynini.union(self.tagger, ballast)

        def build_verbalizer(self):
            super().build_verbalizer()
            self.verbalizer = pynini.union(self.verbalizer, ballast)

    return BigTiny


def big_damages(tree, thorough):
    """Damage at every block edge of a big graph: (label, tree, refusal allowed)."""
    bundle = cachelab.bundle_dir(tree)
    for f in ("tagger.fst", "verbalizer.fst"):
        path = bundle + "/" + f
        data = tree[path][1]
        block = 4096
        edges = set()
        while block < len(data):
            edges.update(range(block, len(data), block) if thorough and block >= 65536 else (block,))
            edges.add(len(data) // block * block)
            block *= 2 if thorough else 4
        spots = sorted({0, 100, len(data) // 2, len(data) - 1} | edges | {e - 1 for e in edges})
        for i in spots:
            flipped = data[:i] + bytes([data[i] ^ 1]) + data[i + 1:]
            yield "big {} byte {} flipped".format(f, i), dict(tree, **{path: ("f", flipped)}), ()
        for i in sorted(edges):
            yield "big {} cut to {}".format(f, i), dict(tree, **{path: ("f", data[:i])}), ()
            zeroed = data[:i] + b"\0" * (len(data) - i)
            if zeroed != data:
                yield "big {} zero from {}".format(f, i), dict(tree, **{path: ("f", zeroed)}), ()


def body(report):
    Tiny = cachelab.tiny_class()
    BigTiny = big_class(Tiny)
    with cachelab.steady_fingerprint():
        jobs = []
        for name, start, known, action in histories(Tiny):
            root = fresh_root()
            if start:
                cachelab.materialize(start, root)
            states, error = record(root, lambda: action(root))
            shutil.rmtree(root, ignore_errors=True)
            if error is not None:
                if not common.in_repo(error):
                    raise error
                report.violation("history:" + name, "{}: the history itself failed: {!r}".format(name, error))
            report.count("crash_states", len(states))
            report.count("histories")
            report.sample({"history": name, "states": len(states), "last_operation": states[-1][0] if states else None})
            extra = tuple(g for g in ("one", "two") if g in known)
            for where, state in states:
                jobs.append(("crash", "{}: crash before {}".format(name, where), state, extra, ()))
        tree, other = good_bundle(Tiny, "one"), good_bundle(Tiny, "two")
        for label, damaged, refuse in damages(tree, other, report.thorough):
            jobs.append(("damage", label, damaged, ("one", "two") if "other" in label else ("one",), refuse))
        big = good_bundle(BigTiny, "one")
        for label, damaged, refuse in big_damages(big, report.thorough):
            jobs.append(("big", label, damaged, ("one",), refuse))

        def work(batch):
            bad, deeper_count, rebuilt, runs = [], 0, 0, 0
            for kind, label, state, known, refuse in batch:
                deep = kind == "crash"
                message, deeper, fresh = recover(BigTiny if kind == "big" else Tiny, state, known, label, deep=deep, refuse=refuse)
                runs += 1
                rebuilt += fresh
                if message:
                    bad.append((kind, message))
                for where, second in deeper:
                    again = label + ", then before " + where
                    message, third, fresh = recover(Tiny, second, known + ("new",), again, deep=report.thorough, gen="newer")
                    deeper_count += 1
                    runs += 1
                    rebuilt += fresh
                    if message:
                        bad.append((kind, message))
                    for spot, state in third:
                        message, _, fresh = recover(Tiny, state, known + ("new", "newer"), again + ", then before " + spot,
                                                    gen="newest")
                        deeper_count += 1
                        runs += 1
                        rebuilt += fresh
                        if message:
                            bad.append((kind, message))
                if len(bad) > 5:
                    break
            return bad, runs, deeper_count, rebuilt

        crash = [j for j in jobs if j[0] == "crash"]
        damage = [j for j in jobs if j[0] == "damage"]
        batches = common.chunks(crash, 4) + common.chunks(damage, 150) + common.chunks([j for j in jobs if j[0] == "big"], 6)
        for batch, (bad, runs, deeper, rebuilt) in zip(batches, common.run_jobs(batches, work)):
            report.count("evaluations", runs)
            report.count("second_crashes", deeper)
            report.count("rebuilt", rebuilt)
            if batch[0][0] != "crash":
                report.count("damages", len(batch))
            for kind, message in bad:
                report.violation(kind + ":" + message[:300], message)
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "every distinct state of the cache before each file system operation of 9 histories, with every choice "
               "of full, last-synced, empty, half or zeroed content for each unsynced file; each recovery is crashed again "
               "at every operation (thorough: and that recovery too); every truncation, byte change and file mix of a small bundle; changes, cuts and zeroing at block edges of a bundle of megabytes")
    report.assumptions.append("directory operations reach the disk in order; a two-file graph pair stands for any bundle")


common.main("C09", "fault_enumeration", body)
