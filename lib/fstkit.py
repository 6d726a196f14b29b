"""Builds the pipelines' graphs from the working tree and hands them to the
explicit-state explorer engine/fstmc.cc."""

import importlib
import itertools
import json
import os
import subprocess

import common

FLAGS = {
    "zh_tn": {"remove_interjections": True, "remove_erhua": True, "traditional_to_simple": True,
              "remove_puncts": False, "full_to_half": True, "tag_oov": False},
    "ja_tn": {"transliterate": False, "remove_interjections": False, "remove_puncts": False,
              "full_to_half": True, "tag_oov": False},
    "en_tn": {},
    "zh_itn": {"remove_interjections": True, "enable_standalone_number": True, "enable_0_to_9": False,
               "enable_million": False},
    "ja_itn": {"full_to_half": False, "enable_standalone_number": True, "enable_0_to_9": False,
               "enable_million": False},
    "en_itn": {},
}

# Slowest first, so that the dynamic scheduler packs well.
BUILD_ORDER = ("en_tn", "zh_itn", "zh_tn", "en_itn", "ja_tn", "ja_itn")


def configs(name, every):
    """Flag settings of a pipeline: all of them, or default, single toggles and the complement."""
    default = FLAGS[name]
    if not default:
        return [{}]
    if every:
        keys = list(default)
        return [dict(zip(keys, values)) for values in itertools.product((True, False), repeat=len(keys))]
    out = [dict(default)]
    for key in default:
        out.append({**default, key: not default[key]})
    out.append({key: not value for key, value in default.items()})
    return out


def all_configs(every):
    return [(name, config) for name in BUILD_ORDER for config in configs(name, every)]


def label(name, config):
    default = FLAGS[name]
    changed = ["{}={}".format(k, v) for k, v in sorted(config.items()) if default.get(k) != v]
    return name + ("[" + ",".join(changed) + "]" if changed else "")


def compile_engine():
    binary = os.path.join(common.scratch(), "fstmc")
    source = os.path.join(common.VERIF, "engine", "fstmc.cc")
    subprocess.run(["g++", "-O2", "-std=c++17", "-o", binary, source], check=True)
    return binary


def run_engine(binary, *arguments, timeout=600):
    done = subprocess.run([binary, *arguments], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    if done.returncode != 0:
        raise RuntimeError("fstmc {} failed: {}".format(arguments[0], done.stderr.decode(errors="replace")))
    return json.loads(done.stdout)


def text(hexed):
    return bytes.fromhex(hexed).decode("utf-8", "replace")


def token_orders(processor):
    """The field order table the pipeline really uses."""
    orders = processor.token_orders
    if orders is None:
        from tn import token_parser
        orders = token_parser.TokenParser(processor.ordertype).orders
    return orders


def encode_orders(orders):
    return ";".join("{}:{}".format(name, ",".join(fields)) for name, fields in orders.items())


def verbalizer_language(verbalizer):
    """Deterministic acceptor of the token streams the verbalizer can read."""
    import pynini
    lang = verbalizer.copy()
    lang.project("input")
    lang = pynini.arcmap(lang, map_type="rmweight")
    lang.rmepsilon()
    lang.connect()
    return pynini.determinize(lang).minimize()
