"""C11: cache maintenance touches nothing outside its own bundle.

Every combination of a cache state, an intruder (foreign file, directory,
link, fifo or bundle look-alike at every level of the tree) and an operation is
run on the real code in a scratch tree; everything that is not the bundle's own
directory, lock or residual must come out as it was, and nothing behind a link
may be read into a graph, written or removed.
"""

import itertools
import os
import shutil
import stat
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import cachelab  # noqa: E402
from bundles import good_bundle, rename  # noqa: E402

COUNTER = itertools.count()
KINDS = ("tmp", "previous", "corrupt")


def times(root):
    out = {}
    for base, dirs, files in os.walk(root):
        for name in files:
            st = os.lstat(os.path.join(base, name))
            out[os.path.relpath(os.path.join(base, name), root)] = (st.st_mtime_ns, st.st_ino, stat.S_IMODE(st.st_mode))
    return out


class World:
    """Names of one bundle's paths and the trees intruders are made of."""

    def __init__(self, Tiny):
        self.one, self.evil = good_bundle(Tiny, "one"), good_bundle(Tiny, "evil")
        self.bundle = cachelab.bundle_dir(self.one)
        self.parent, self.digest = self.bundle.rsplit("/", 1)
        self.prefix, self.config = self.parent.split("/")
        self.lock = "{}/.{}.lock".format(self.parent, self.digest)
        files = ("tagger.fst", "verbalizer.fst", "manifest.json")
        self.files = {f: self.one[self.bundle + "/" + f] for f in files}
        self.evil_files = {f: self.evil[self.bundle + "/" + f] for f in files}

    def residual(self, kind, tail="x1"):
        return "{}/.{}.{}-{}".format(self.parent, self.digest, kind, tail)

    def bases(self):
        yield "empty", {}
        yield "good", self.one
        broken = dict(self.one)
        broken[self.bundle + "/verbalizer.fst"] = ("f", b"junk")
        yield "damaged", broken
        yield "crashed", rename(self.one, self.bundle, self.residual("previous", "0"))

    def parents(self):
        return {self.prefix: ("d",), self.parent: ("d",)}

    def shapes(self, name):
        """What may stand at a foreign name: (label, entries)."""
        yield "file", {name: ("f", b"foreign")}
        yield "bundle directory", dict({name: ("d",)}, **{name + "/" + f: e for f, e in self.evil_files.items()})
        yield "directory of foreign files", {name: ("d",), name + "/notes.txt": ("f", b"n"), name + "/tagger.fst": ("f", b"t")}
        yield "nested directory", {name: ("d",), name + "/sub": ("d",), name + "/sub/tagger.fst": ("f", b"t")}
        yield "link to a directory", {name: ("l", "OUT/dir")}
        yield "link to a bundle", {name: ("l", "OUT/bundle")}
        yield "link to a file", {name: ("l", "OUT/file")}
        yield "dangling link", {name: ("l", "OUT/none")}
        yield "fifo", {name: ("?", stat.S_IFIFO)}
        yield "directory of links", {name: ("d",), name + "/tagger.fst": ("l", "OUT/file"), name + "/verbalizer.fst": ("l", "OUT/dir"),
                                     name + "/manifest.json": ("l", "OUT/none")}
        yield "empty directory", {name: ("d",)}

    def foreign(self):
        """(label, entries, whether the bundle must still work)."""
        d, p = self.digest, self.parent
        other = d[::-1] if d != d[::-1] else "0" * len(d)
        names = ["tiny_tagger.fst", "tiny_verbalizer.fst", "tiny2", ".tiny", "tiny.tmp-1", "." + d + ".tmp-1", d, "manifest.json",
                 self.prefix + "/" + self.config + "x", self.prefix + "/." + self.config + ".tmp-1", self.prefix + "/" + d,
                 self.prefix + "/." + d + ".previous-1", self.prefix + "/tagger.fst",
                 p + "/" + other, p + "/." + other + ".lock", p + "/notes"]
        for kind in KINDS:
            names += [p + "/." + other + "." + kind + "-1", p + "/." + d + "x." + kind + "-1", p + "/." + d[:-1] + "." + kind + "-1",
                      p + "/" + d + "." + kind + "-1", p + "/.." + d + "." + kind + "-1", p + "/." + d + "." + kind,
                      p + "/." + d + "." + kind + "x-1", p + "/x." + d + "." + kind + "-1", p + "/." + d.upper() + "." + kind + "-1"]
        names += [p + "/" + d + "x", p + "/." + d, p + "/." + d + ".lock.bak", p + "/." + d + ".lock-1", p + "/." + d + ".other-1",
                  p + "/" + d + ".lock"]
        for name in names:
            if name == p + "/." + d.upper() + ".tmp-1" and d.upper() == d:
                continue
            for label, entries in self.shapes(name):
                yield "{} at {}".format(label, name), dict(self.parents(), **entries), True, ()
        # the bundle's own residual names, not made by the cache
        for kind in KINDS:
            name = self.residual(kind)
            for label, entries in self.shapes(name):
                free = label in ("bundle directory", "empty directory", "directory of links")
                keep = () if free else tuple(n for n in entries)
                # a link in a bundle that may be recovered may be refused
                works = not (kind == "previous" and label == "directory of links")
                yield "{} at own {}".format(label, kind), dict(self.parents(), **entries), works, keep

    def blocking(self):
        """Links and special files on the bundle's own path: refuse, or work without them."""
        for label, name in (("prefix", self.prefix), ("config", self.parent), ("bundle", self.bundle), ("lock", self.lock)):
            for target in ("OUT/dir", "OUT/bundle", "OUT/file", "OUT/none", "OUT/root/" + name):
                yield "{} is a link to {}".format(label, target), name, {name: ("l", target)}
            yield "{} is a file".format(label), name, {name: ("f", b"foreign")}
            yield "{} is a fifo".format(label), name, {name: ("?", stat.S_IFIFO)}
            if label == "lock":
                yield "lock is a directory", name, {name: ("d",), name + "/x": ("f", b"x")}
        for f in self.files:
            name = self.bundle + "/" + f
            for target in ("OUT/bundle/" + f, "OUT/file", "OUT/none", "OUT/dir"):
                yield "{} is a link to {}".format(f, target), name, {name: ("l", target)}
            yield "{} is a directory".format(f), name, {name: ("d",), name + "/x": ("f", b"x")}
            yield "{} is a fifo".format(f), name, {name: ("?", stat.S_IFIFO)}


def place(base, name, entries, world):
    """base with everything at and below name replaced by entries."""
    tree = {n: e for n, e in base.items() if name is None or not (n == name or n.startswith(name + "/"))}
    tree.update(entries)
    for n in list(tree):
        while "/" in n:
            n = n.rsplit("/", 1)[0]
            tree.setdefault(n, ("d",))
    return {n: e for n, e in tree.items() if all(tree[p][0] == "d" for p in ancestors(n))}


def ancestors(name):
    parts = name.split("/")
    return ["/".join(parts[:i]) for i in range(1, len(parts))]


def run_case(Tiny, world, case):
    label, tree, overwrite, must_work, keep, linked_root = case
    home = os.path.join(common.scratch(), "c11-{}-{}".format(os.getpid(), next(COUNTER)))
    os.makedirs(home)
    try:
        out, root = os.path.join(home, "out"), os.path.join(home, "root")
        cachelab.materialize({"dir": ("d",), "dir/tagger.fst": ("f", b"t"), "dir/keep.txt": ("f", b"k"), "file": ("f", b"outside"),
                              "bundle": ("d",), **{"bundle/" + f: e for f, e in world.evil_files.items()},
                              "root": ("d",), **{"root/" + n: e for n, e in world.evil.items()}}, out)
        tree = {n: (("l", e[1].replace("OUT", out)) if e[0] == "l" else e) for n, e in tree.items()}
        cachelab.materialize(tree, root)
        user_root = root
        if linked_root:
            user_root = os.path.join(home, "alias")
            os.symlink(root, user_root)
        keep = tuple(n for n in keep if n in tree)
        before, before_out, stamps = cachelab.snapshot(root), cachelab.snapshot(out), times(out)
        root_stamps = times(root)
        try:
            tiny = Tiny(user_root, gen="new", overwrite=overwrite)
            got = tiny.outcome()
        except Exception as error:
            if not common.in_repo(error):
                raise
            got = error
        after, after_out = cachelab.snapshot(root), cachelab.snapshot(out)
        if after_out != before_out or times(out) != stamps:
            changed = [n for n in set(after_out) | set(before_out) if after_out.get(n) != before_out.get(n)]
            return "{}: changed outside the cache: {}".format(label, changed or "time stamps"), 0
        if isinstance(got, Exception):
            if must_work:
                return "{}: failed with {}: {}".format(label, type(got).__name__, got), 0
            if type(got).__name__ not in ("CachePathError", "CacheError", "FileExistsError", "NotADirectoryError", "IsADirectoryError",
                                          "OSError"):
                return "{}: refused with {}: {}".format(label, type(got).__name__, got), 0
        elif got not in ("new/", "one/", "evil/" if "bundle directory at own previous" in label else "new/") or (overwrite and got != "new/"):
            return "{}: the pipeline outputs {!r}".format(label, got), 0
        own = (world.bundle, world.lock)
        marks = ["{}/.{}.{}-".format(world.parent, world.digest, k) for k in KINDS]

        def mine(name):
            return (name in own or name.startswith(world.bundle + "/") or any(name.startswith(m) for m in marks)
                    or name in (world.prefix, world.parent))

        root_times = times(root)
        for name in sorted(set(before) | set(after)):
            if mine(name) and name not in keep:
                continue
            if before.get(name) != after.get(name):
                return "{}: {} was {} and is {}".format(label, name, str(before.get(name))[:80], str(after.get(name))[:80]), 0
            if name in root_stamps and root_stamps[name] != root_times.get(name):
                return "{}: {} was rewritten".format(label, name), 0
        # what blocks the path is not removed either, unless it is a file of the bundle itself
        for name in (world.prefix, world.parent):
            if before.get(name, ("d",))[0] != "d" and after.get(name) != before.get(name):
                return "{}: {} was {} and is {}".format(label, name, before.get(name), after.get(name)), 0
        for name in own:
            if before.get(name, ("d",))[0] == "l" and after.get(name) != before.get(name):
                return "{}: the link at {} was replaced".format(label, name), 0
        return None, isinstance(got, str)
    finally:
        shutil.rmtree(home, ignore_errors=True)


def body(report):
    Tiny = cachelab.tiny_class()
    with cachelab.steady_fingerprint():
        world = World(Tiny)
        cases = []
        bases = list(world.bases())
        for (base_label, base), overwrite in itertools.product(bases, (False, True)):
            tag = "{} cache, {}".format(base_label, "overwrite" if overwrite else "construct")
            cases.append((tag + ", nothing foreign", dict(base), overwrite, True, (), False))
            cases.append((tag + ", root through a link", dict(base), overwrite, True, (), True))
            foreign = list(world.foreign())
            for label, entries, works, keep in foreign:
                cases.append(("{}, {}".format(tag, label), place(base, None, entries, world), overwrite, works, keep, False))
            for label, name, entries in world.blocking():
                cases.append(("{}, {}".format(tag, label), place(base, name, entries, world), overwrite, False, (), False))
            if report.thorough:
                own = [f for f in foreign if " at own " in f[0]]
                for (l1, e1, _, k1), (l2, name, e2) in itertools.product(own, world.blocking()):
                    tree = place(place(base, None, e1, world), name, e2, world)
                    kept = tuple(k for k in k1 if not (k.startswith(name + "/")))
                    cases.append(("{}, {}, {}".format(tag, l1, l2), tree, overwrite, False, kept, False))
                for (l1, e1, w1, k1), (l2, e2, w2, k2) in itertools.product(own, foreign[::7]):
                    if any(n not in world.parents() for n in set(e1) & set(e2)):
                        continue
                    cases.append(("{}, {}, {}".format(tag, l1, l2), place(place(base, None, e1, world), None, e2, world), overwrite,
                                  w1 and w2, k1 + k2, False))

        def work(batch):
            return [run_case(Tiny, world, case) for case in batch]

        batches = common.chunks(cases, 60)
        for batch, results in zip(batches, common.run_jobs(batches, work)):
            for case, (message, worked) in zip(batch, results):
                report.count("evaluations")
                report.count("worked" if worked else "refused")
                if message:
                    report.violation("tree:" + message[:300], message)
        report.sample({"case": cases[7][0], "tree": sorted(cases[7][1])})

        # a prefix is one safe path component
        for prefix in ("", ".", "..", "a/b", "/abs", "../x", "a\\b", "a\n", "a b", "é", "a\0b", "x/..", "~", None, 3, b"tiny"):
            root = os.path.join(common.scratch(), "c11-prefix", "root")
            os.makedirs(root)
            report.count("evaluations")
            try:
                tiny = Tiny(root, prefix=prefix)
                message = "prefix {!r} was accepted".format(prefix)
            except (ValueError, TypeError):
                message = None
            except Exception as error:
                message = "prefix {!r}: {}: {}".format(prefix, type(error).__name__, error)
            if cachelab.snapshot(os.path.dirname(root)) != {"root": ("d",)}:
                message = "prefix {!r} left files behind".format(prefix)
            if message:
                report.violation("prefix:{!r}".format(prefix), message)
            shutil.rmtree(os.path.dirname(root))
    report.set("distinct_nontrivial", report.coverage["evaluations"])
    report.set("exhaustive", True)
    report.set("rule", "4 cache states x 2 operations x every intruder shape at every foreign, look-alike, residual and own path "
               "(thorough: pairs of intruders); each case is a distinct tree")
    report.assumptions.append("POSIX; links and special files stand still while the cache works")


common.main("C11", "exploration", body)
