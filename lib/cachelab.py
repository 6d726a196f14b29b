"""A tiny pipeline over the real cache code, and a file system observer.

``Tiny`` goes through Processor.build_fst and tn.cache like the six pipelines,
but its graphs are a few arcs which carry the name of the build that made them,
so a mixed, torn or foreign pair of graphs shows in what it outputs.
"""

import contextlib
import io
import os
import stat
import sys

import common


def tiny_class():
    from pynini import cross, escape

    from tn.processor import Processor

    class Tiny(Processor):
        def __init__(self, cache_dir, gen="g", overwrite=False, config=None, prefix="tiny", on_build=None):
            super().__init__("tiny")
            self.gen = gen
            self.config = {} if config is None else config
            self.builds = 0
            self.on_build = on_build
            self.build_fst(prefix, cache_dir, overwrite, self.config)

        def word(self):
            return self.gen + "/" + ",".join("{}{}".format(k, v) for k, v in sorted(self.config.items()))

        def build_tagger(self):
            self.builds += 1
            if self.on_build:
                self.on_build("begin")
            self.tagger = cross("t", escape('x { v: "%s" } ' % self.word()))

        def build_verbalizer(self):
            if self.on_build:
                self.on_build("middle")
            key = self.token_parser().reorder('x { v: "%s" } ' % self.word())
            self.verbalizer = cross(escape(key), self.word())
            if self.on_build:
                self.on_build("end")

        def outcome(self):
            """(build name, configuration) if tagger and verbalizer belong together."""
            tagged = self.tag("t")
            said = self.verbalize(tagged)
            if said != self.normalize("t") or '"%s"' % said not in tagged:
                return "mixed: {!r} / {!r}".format(tagged, said)
            return said

    return Tiny


@contextlib.contextmanager
def steady_fingerprint():
    """Computes the (real) source fingerprint once: the sources do not change here."""
    import tn.cache
    import tn.processor

    value = tn.cache.production_source_fingerprint()
    saved = []
    for module in (tn.cache, tn.processor):
        if hasattr(module, "production_source_fingerprint"):
            saved.append((module, module.production_source_fingerprint))
            module.production_source_fingerprint = lambda *args, **kwargs: value
    try:
        yield
    finally:
        for module, original in saved:
            module.production_source_fingerprint = original


# --- trees -------------------------------------------------------------------

def snapshot(root, inodes=False):
    """{relative path: entry}; entry = ("d",), ("f", data), ("l", target) or ("?", mode)."""
    tree = {}

    def visit(directory, prefix):
        with os.scandir(directory) as entries:
            for entry in entries:
                name = prefix + entry.name
                st = entry.stat(follow_symlinks=False)
                if stat.S_ISLNK(st.st_mode):
                    tree[name] = ("l", os.readlink(entry.path))
                elif stat.S_ISDIR(st.st_mode):
                    tree[name] = ("d",)
                    visit(entry.path, name + "/")
                elif stat.S_ISREG(st.st_mode):
                    with _quiet_open(entry.path) as source:
                        tree[name] = ("f", source.read()) + ((st.st_ino,) if inodes else ())
                else:
                    tree[name] = ("?", stat.S_IFMT(st.st_mode))

    if os.path.isdir(root):
        visit(root, "")
    return tree


def _quiet_open(path):
    return io.FileIO(os.open(path, os.O_RDONLY | os.O_NONBLOCK), "rb")


def materialize(tree, root):
    os.makedirs(root)
    for name in sorted(tree):
        entry, path = tree[name], os.path.join(root, name)
        if entry[0] == "d":
            os.mkdir(path)
        elif entry[0] == "f":
            with open(path, "wb") as target:
                target.write(entry[1])
        elif entry[0] == "l":
            os.symlink(entry[1], path)
        elif entry[1] == stat.S_IFIFO:
            os.mkfifo(path)
        else:
            raise RuntimeError("cannot make {!r}".format(entry))


def bundle_dir(tree):
    """The one bundle directory root/prefix/config/bundle of a tree with one bundle."""
    found = [n for n, e in tree.items() if e[0] == "d" and n.count("/") == 2 and not n.rsplit("/", 1)[1].startswith(".")]
    return found[0] if len(found) == 1 else None


# --- observing the file system ------------------------------------------------

# audit events raised before the interpreter touches the file system by name
_EVENTS = {"open", "os.mkdir", "os.rename", "os.remove", "os.rmdir", "os.listdir", "os.scandir", "os.truncate", "os.link",
           "os.symlink", "os.chmod", "os.utime", "fcntl.flock", "fcntl.lockf", "shutil.rmtree", "tempfile.mkdtemp"}
# further calls, not audited
_CALLS = ["lstat", "stat", "write", "fsync", "fdatasync", "ftruncate", "close", "pwrite", "fstat"]

_point = None
_installed = False


def _hook(event, args):
    if _point is not None and event in _EVENTS:
        _emit(event, args)


def _emit(event, args):
    global _point
    point, _point = _point, None      # the observer's own calls are not observed
    try:
        point(event, args)
    finally:
        _point = point


@contextlib.contextmanager
def observed(point):
    """Calls point(event, args) before every file system operation of the block."""
    global _point, _installed
    if not _installed:
        sys.addaudithook(_hook)
        _installed = True
    saved = []
    for name in _CALLS:
        original = getattr(os, name, None)
        if original is None:
            continue

        def wrapper(*args, _name=name, _original=original, **kwargs):
            if _point is not None:
                _emit("os." + _name, args)
            return _original(*args, **kwargs)

        saved.append((name, original))
        setattr(os, name, wrapper)
    import pynini
    _point = point
    try:
        yield
    finally:
        _point = None
        for name, original in saved:
            setattr(os, name, original)
