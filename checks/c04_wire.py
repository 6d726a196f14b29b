"""C04: the token stream parser accepts exactly the wire format and loses nothing."""

import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
import wire

ORDERS = {"d": ["y", "m", "d"], "e": ["preserve_order", "b", "a"]}
CHARS = ["a", " ", "{", "}", ":", '"', "\\"]
LEXEMES = ["d", "e", "y", "m", " ", " { ", "{", "}", " }", ': "', ":", '"', "\\", '\\"', "\\\\", "中", "1", "\n",
           'y: "1"', ' m: "2"', 'd: "\\\\"', "d { ", ' preserve_order: "true"']
VALUE_CHARS = ["a", '"', "\\", "{", "}", ":", " ", "中", "\n"]


def compare(parser_cls, stream, orders=ORDERS):
    """None when implementation and model agree on one stream."""
    want = wire.parse(stream)
    parser = parser_cls(orders)
    try:
        got_text, got_spans = parser.reorder_with_spans(stream)
        got = [(t.name, [(k, t.members[k]) for k in t.order], t.start, t.end) for t in parser.tokens]
    except ValueError:
        got = None
    except Exception as error:
        return "{!r}: raises {} instead of a token stream error".format(stream, type(error).__name__)
    if want is None:
        return None if got is None else "{!r}: malformed stream accepted as {!r}".format(stream, got)
    if got is None:
        return "{!r}: well-formed stream rejected".format(stream)
    if got != want:
        return "{!r}: parsed {!r}, the stream says {!r}".format(stream, got, want)
    text, spans = wire.serialize(want, orders)
    if (got_text, tuple(map(tuple, got_spans))) != (text, spans):
        return "{!r}: reordered {!r} {!r}, expected {!r} {!r}".format(stream, got_text, got_spans, text, spans)
    if parser_cls(orders).reorder(stream) != text:
        return "{!r}: reorder and reorder_with_spans differ".format(stream)
    return None


def body(report):
    from tn import token_parser
    parser_cls = token_parser.TokenParser
    deep = report.thorough

    def raw_job(prefix):
        bad, n, valid = [], 0, 0
        limit = 8 if deep else 7
        for size in range(0, limit - len(prefix) + 1):
            for rest in itertools.product(CHARS, repeat=size):
                stream = prefix + "".join(rest)
                n += 1
                why = compare(parser_cls, stream)
                valid += wire.parse(stream) is not None
                if why:
                    bad.append(why)
        return n, valid, bad[:20]

    def lexeme_job(prefix):
        bad, n, valid = [], 0, 0
        limit = 6 if deep else 5
        for size in range(0, limit - len(prefix) + 1):
            for rest in itertools.product(LEXEMES, repeat=size):
                stream = "".join(prefix + rest)
                n += 1
                why = compare(parser_cls, stream)
                valid += wire.parse(stream) is not None
                if why:
                    bad.append(why)
        return n, valid, bad[:20]

    def value_job(size):
        bad, n = [], 0
        for chars in itertools.product(VALUE_CHARS, repeat=size):
            value = "".join(chars)
            n += 1
            wired = token_parser.escape_value(value)
            stream = 'd {{ m: "{}" y: "{}" }}'.format(wired, wired)
            tokens = wire.parse(stream)
            if tokens is None or [v for _, v in tokens[0][1]] != [value, value]:
                bad.append("escape_value({!r}) = {!r} does not decode to the value".format(value, wired))
            why = compare(parser_cls, stream)
            if why:
                bad.append(why)
        return n, n, bad[:20]

    def order_job(table):
        """Every set of fields of every token kind, in every order."""
        bad, n = [], 0
        names = {"tn": token_parser.TN_ORDERS, "itn": token_parser.ITN_ORDERS, "en_tn": token_parser.EN_TN_ORDERS}
        orders = names[table]
        for name in list(orders) + ["other"]:
            pool = list(dict.fromkeys(list(orders.get(name, ["value"])) + ["extra", "preserve_order"]))
            for size in range(0, min(len(pool), 6 if deep else 5) + 1):
                for keys in itertools.permutations(pool, size):
                    for flag in ("true", "false") if "preserve_order" in keys else ("",):
                        fields = [(k, flag if k == "preserve_order" else k[0] + '"') for k in keys]
                        one = name + " {" + "".join(' {}: "{}"'.format(k, wire.escape(v)) for k, v in fields) + " }"
                        # an empty token is written with one space on either side of nothing
                        one = one if keys else name + " {  }"
                        for stream in (one, one + ' c { v: "x" } ' + one):
                            n += 1
                            why = compare(parser_cls, stream, orders)
                            text, spans = wire.serialize(wire.parse(stream), orders)
                            if parser_cls(table).reorder_with_spans(stream) != (text, spans):
                                why = why or "{}: {!r} is not put in the documented order".format(table, stream)
                            if why:
                                bad.append(why)
        return n, n, bad[:20]

    def edit_job(seed):
        """Every single and (thorough) double character edit of a well-formed stream."""
        bad, n, valid = [], 0, 0

        def edits(text):
            for i in range(len(text) + 1):
                for c in CHARS + ["d", "\n"]:
                    yield text[:i] + c + text[i:]
                    if i < len(text):
                        yield text[:i] + c + text[i + 1:]
                if i < len(text):
                    yield text[:i] + text[i + 1:]
                yield text[:i]

        first = set(edits(seed))
        space = set(first)
        for one in first if deep else sorted(first)[::6]:
            space.update(edits(one))
        for stream in space:
            n += 1
            why = compare(parser_cls, stream)
            valid += wire.parse(stream) is not None
            if why:
                bad.append(why)
        return n, valid, bad[:20]

    jobs = []
    jobs += [(raw_job, "")] if False else [(raw_job, a + b) for a in CHARS for b in CHARS]
    jobs += [(lexeme_job, (a, b)) for a in LEXEMES for b in LEXEMES]
    jobs += [(value_job, size) for size in range(0, 7 if deep else 6)]
    jobs += [(order_job, table) for table in ("tn", "itn", "en_tn")]
    jobs += [(edit_job, s) for s in ('d { m: "1" y: "\\"2" }', 'c { v: "\\\\" } e { a: "" }', 'd { } e { b: "x" }',
                                     'e { preserve_order: "true" a: "1" b: "2" } ')]
    short = [s for n in (0, 1) for s in map("".join, itertools.product(CHARS, repeat=n))]
    for stream in short:
        report.count("evaluations")
        why = compare(parser_cls, stream)
        if why:
            report.violation(why, why)
    for (kind, arg), (n, valid, bad) in zip(jobs, common.run_jobs(jobs, lambda job: job[0](job[1]))):
        report.count("evaluations", n)
        report.count("distinct_nontrivial", valid)
        if kind is edit_job:
            report.sample({"edit neighbourhood of": arg, "streams": n, "well_formed": valid})
        for why in bad:
            report.violation(why, why)
    report.set("rule", "all streams over the delimiter alphabet up to a length, all lexeme sequences up to a length, all "
                       "field values, all field orders, all character edits of well-formed streams; non-trivial = "
                       "well-formed streams whose parse, order, spans and values were compared with the model")
    report.set("exhaustive", True)


if __name__ == "__main__":
    common.main("C04", "exploration", body)
