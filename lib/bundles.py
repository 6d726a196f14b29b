"""Helpers of the cache checks."""

import hashlib
import json
import os
import shutil

import cachelab
import common


def sound(tree):
    """Whether the tree holds one bundle that is complete by its own manifest."""
    bundle = cachelab.bundle_dir(tree)
    if bundle is None:
        return "there is no single bundle directory"
    names = sorted(n[len(bundle) + 1:] for n in tree if n.startswith(bundle + "/"))
    if names != ["manifest.json", "tagger.fst", "verbalizer.fst"]:
        return "the bundle holds {}".format(names)
    try:
        manifest = json.loads(tree[bundle + "/manifest.json"][1])
        for name in ("tagger.fst", "verbalizer.fst"):
            data = tree[bundle + "/" + name][1]
            meta = manifest["files"][name]
            if meta["size"] != len(data) or meta["sha256"] != hashlib.sha256(data).hexdigest():
                return "{} does not match the manifest".format(name)
    except (KeyError, ValueError, TypeError) as error:
        return "the manifest is unreadable: {!r}".format(error)
    return None


def good_bundle(Tiny, gen):
    root = os.path.join(common.scratch(), "bundle-{}-{}".format(os.getpid(), gen))
    Tiny(root, gen=gen)
    tree = cachelab.snapshot(root)
    shutil.rmtree(root)
    return tree


def rename(tree, old, new):
    return {new + n[len(old):] if n == old or n.startswith(old + "/") else n: e for n, e in tree.items()}
