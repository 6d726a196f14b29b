"""Reference model of the tagged-token wire format, written from its
documentation and independent of tn/token_parser.py."""

import re

_VALUE = r'"((?:[^"\\]|\\.)*)"'
_FIELD = re.compile(r' *([A-Za-z_]+): ' + _VALUE, re.S)
_NAME = re.compile(r' *([A-Za-z_]+) \{ ')
_CLOSE = re.compile(r' *\}')


def unescape(raw):
    return re.sub(r'\\(["\\])', r"\1", raw, flags=re.S)


def escape(value):
    return "".join("\\" + c if c in '\\"' else c for c in value)


def parse(stream):
    """Tokens as (name, [(key, value)...], start, end); None when malformed."""
    if not stream:
        return None
    tokens, pos = [], 0
    while stream[pos:].strip(" "):
        match = _NAME.match(stream, pos)
        if not match:
            return None
        start, name = match.start(1), match.group(1)
        pos, fields = match.end(), []
        while True:
            match = _CLOSE.match(stream, pos)
            if match:
                pos = match.end()
                break
            match = _FIELD.match(stream, pos)
            if not match:
                return None
            key, raw = match.group(1), match.group(2)
            # an escape other than \" and \\ stands for itself
            if any(key == k for k, _ in fields):
                return None
            fields.append((key, _decode(raw)))
            pos = match.end()
        tokens.append((name, fields, start, pos))
    return tokens


def _decode(raw):
    out, i = [], 0
    while i < len(raw):
        if raw[i] == "\\":
            out.append(raw[i + 1] if raw[i + 1] in '"\\' else raw[i:i + 2])
            i += 2
        else:
            out.append(raw[i])
            i += 1
    return "".join(out)


def serialize(tokens, orders):
    """The reordered stream and each token's span in it."""
    parts, spans, offset = [], [], 0
    for name, fields, _, _ in tokens:
        members = dict(fields)
        keys = [k for k, _ in fields]
        if name in orders and members.get("preserve_order") != "true":
            keys = [k for k in orders[name] if k in members] + [k for k in keys if k not in orders[name]]
        text = name + " {" + "".join(' {}: "{}"'.format(k, escape(members[k])) for k in keys) + " }"
        if parts:
            offset += 1
        spans.append((offset, offset + len(text)))
        offset += len(text)
        parts.append(text)
    return " ".join(parts), tuple(spans)
