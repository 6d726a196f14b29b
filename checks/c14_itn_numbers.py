"""C14: ITN writes every spoken number with its exact value.

Every reading (all conventional variants) of a bounded space of numbers goes
through the real Chinese, Japanese and English ITN, and the written result is
evaluated and compared with the number spoken; TN readings are inverted too.
"""

import itertools
import os
import re
import sys
from fractions import Fraction

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import readings as R  # noqa: E402

PIPES = {}
SPECS = [("zh_itn", "zh_itn", {}), ("zh_itn+0-9", "zh_itn", dict(enable_0_to_9=True)),
         ("zh_itn+million", "zh_itn", dict(enable_million=True)),
         ("ja_itn", "ja_itn", {}), ("ja_itn+0-9", "ja_itn", dict(enable_0_to_9=True)),
         ("ja_itn+million", "ja_itn", dict(enable_million=True)),
         ("en_itn", "en_itn", {}),
         ("zh_tn", "zh_tn", {}), ("ja_tn", "ja_tn", {}), ("en_tn", "en_tn", {})]
INTEGER = {"zh": R.zh_integer, "ja": R.ja_integer, "en": R.en_integer}
CONTEXTS = {"zh": [("", ""), ("共计", "、"), ("《", "》"), ("hello ", " 好")],
            "ja": [("", ""), ("これは", "です"), ("「", "」")],
            "en": [("", ""), ("they counted ", " yesterday"), ("hello ", " hello")]}
SMALL = {"zh": 9, "ja": 9, "en": 12}


def readings(digits, language):
    """Every reading of an integer in words."""
    out = R.expand(INTEGER[language](digits))
    if language == "en":
        out = [o for o in out if not re.search(r"\ba\b|-|^thousand", o)]
    return out


def written(language, thorough):
    out = [str(i) for i in range(100000 if thorough else 10000)]
    top = {"zh": 12, "ja": 13, "en": 14}[language]
    size = 3 if language == "en" else 4
    for length in range(5, top + 1):
        for bits in itertools.product("01", repeat=length - 1):
            bits = "1" + "".join(bits)
            groups = [bits[max(0, e - size):e] for e in range(length, 0, -size)]
            odd = sum(len(set(g)) > 1 for g in groups)
            if length > (12 if thorough else 7) and odd > (2 if thorough else 1):
                continue
            for base in range(2 if thorough else 1):
                out.append("".join(str((i * 3 + length + base * 4) % 9 + 1) if b == "1" else "0" for i, b in enumerate(bits)))
        for place in range(length):
            for digit in "0123456789":
                for rest in "01":
                    text = ["1"] + [rest] * (length - 1)
                    text[place] = digit
                    if text[0] != "0":
                        out.append("".join(text))
    return list(dict.fromkeys(out))


FEW = ["13", "15", "20", "22", "99", "100", "101", "110", "119", "200", "205", "999", "1000", "1001", "1010", "1234", "10000", "20002",
       "120000", "1000000"]
DIGIT = {"zh": lambda d: "".join(R.ZH[int(c)] for c in d), "ja": lambda d: "".join(R.JA[int(c)] for c in d),
         "en": lambda d: " ".join(R.ONES[int(c)] for c in d)}
POINT = {"zh": "点", "ja": "点", "en": " point "}


def rows(language, thorough):
    """(spoken text, value, kind, contexts, how the result is written)."""
    contexts = CONTEXTS[language]
    plain = "{}"
    for digits in written(language, thorough):
        ways = readings(digits, language)
        if not thorough and len(digits) > 3 and len(digits.strip("0")) > 2:
            ways = [ways[0], ways[-1]] if int(digits) % 5 == 0 else ways[int(digits) % len(ways)::len(ways)]
        for spoken in ways:
            yield spoken, Fraction(digits), "integer", contexts if len(digits) <= (3 if thorough else 2) else contexts[:1], plain
    minus = {"zh": ["负"], "ja": ["マイナス"], "en": ["minus ", "negative "]}[language]
    for digits in [str(i) for i in range(100)] + FEW[5:]:
        for sign in minus:
            for spoken in readings(digits, language):
                yield sign + spoken, -Fraction(digits), "negative", contexts[:2], plain
    for whole in [str(i) for i in range(30)] + FEW[4:-1]:
        for width in (1, 2, 3):
            if width == 3 and not (thorough or whole in ("0", "15", "100")) or width == 2 and not thorough and whole not in ("0", "3", "15", "20"):
                continue
            for part in range(10 ** width):
                part = str(part).zfill(width)
                for spoken in readings(whole, language)[:2]:
                    yield (spoken + POINT[language] + DIGIT[language](part), Fraction(whole + "." + part), "decimal",
                           contexts[:2] if width == 1 else contexts[:1], plain)
    if language != "en":                # a scale word in front of the point
        for spoken in readings("1000000", language):
            yield spoken + "点五", Fraction("1000000.5"), "large decimal", contexts[:1], plain
    for sign, whole, part in itertools.product(minus, ("0", "3", "20", "100"), ("1", "5", "05", "25", "123")):
        for spoken in readings(whole, language)[:1]:
            yield (sign + spoken + POINT[language] + DIGIT[language](part), -Fraction(whole + "." + part), "negative decimal",
                   contexts[:2], plain)
    percent = {"zh": "百分之{}", "ja": "{}パーセント", "en": "{} percent"}[language]
    for digits in [str(i) for i in range(1, 1000 if thorough else 201)] + FEW[10:]:
        for spoken in readings(digits, language):
            yield percent.format(spoken), Fraction(digits), "percentage", contexts[:2], "{}%"
    for whole, part in itertools.product(["0", "3", "12", "20", "99", "100"], range(100)):
        part = str(part) if part < 10 else str(part).zfill(2)
        for spoken in readings(whole, language)[:1]:
            yield (percent.format(spoken + POINT[language] + DIGIT[language](part)), Fraction(whole + "." + part),
                   "decimal percentage", contexts[:1], "{}%")
    if language != "en":
        for top, down in itertools.product(list(range(1, 100 if thorough else 31)) + [99, 100, 101],
                                           list(range(2, 100 if thorough else 31)) + [99, 101, 120]):
            for spoken in readings(str(down), language)[:1]:
                join = "分之" if language == "zh" else "分の"
                yield (spoken + join + readings(str(top), language)[0], (str(top), str(down)), "fraction", contexts[:2],
                       "{}/{}")
        lengths = {"zh": (3, 4, 5, 11), "ja": (3, 4)}[language]
    else:
        for n in range(1, 10000 if thorough else 1100):
            pattern = R.en_integer(str(n))
            for spoken in readings(str(n), language):
                yield ordinal(spoken), Fraction(n), "ordinal", contexts[:1], "{}" + suffix(str(n))
        lengths = (3, 4, 5, 7)
    for length in lengths:
        for a, b in itertools.product(range(10), repeat=2):
            digits = str(b) + str(a) * (length - 2) + str((a + b) % 10)
            if len(set(digits)) > 1:
                yield DIGIT[language](digits), digits, "digits", contexts[:1], plain


ORDINAL = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}


def ordinal(words):
    head, _, last = words.rpartition(" ")
    last = ORDINAL.get(last) or (last[:-1] + "ieth" if last.endswith("y") else last + "th")
    return (head + " " if head else "") + last


def suffix(text):
    if text[-2:-1] == "1":
        return "th"
    return {"1": "st", "2": "nd", "3": "rd"}.get(text[-1], "th")


def judge(got, spoken, value, kind, form, language, convert_small):
    """Whether the written result has the spoken value."""
    left, right = form.split("{}")[0], form.split("{}")[-1]
    if kind == "fraction":
        m = re.fullmatch(r"(\d+)/(\d+)", got)
        return bool(m) and m.groups() == value
    if kind == "digits":
        return got.replace("-", "").replace(" ", "") == value
    if right == "%":
        got = got.replace(" %", "%")
    if not (got.startswith(left) and got.endswith(right)):
        return False
    core = got[len(left):len(got) - len(right)] if right else got[len(left):]
    if kind.startswith("negative"):
        core = re.sub("^(负|マイナス|minus |negative )(?=[0-9.])", "-", core)
    if R.written_value(core, language) == value:
        return True
    if got == spoken and kind in ("integer", "negative") and not convert_small:
        if abs(value) <= SMALL[language]:
            return True
        return language == "zh" and re.fullmatch(r"负?[一二两三四五六七八九]亿(零[一二三四五六七八九])?", spoken) is not None
    return False


def job(item):
    key, items = item
    pipe = PIPES[key]
    language = key[:2]
    bad, evals = [], 0
    for spoken, value, kind, contexts, form in items:
        for before, after in contexts:
            evals += 1
            got = pipe.normalize(before + spoken + after)
            ok = got.startswith(before) and got.endswith(after) and judge(
                got[len(before):len(got) - len(after)], spoken, value, kind, form, language, key.endswith("0-9"))
            if not ok:
                bad.append((kind, before + spoken + after, got))
                break
    return bad, evals


def back(item):
    """ITN of the TN reading."""
    language, texts = item
    tn, itn = PIPES[language + "_tn"], PIPES[language + "_itn"]
    bad = []
    for text, value, kind in texts:
        spoken = tn.normalize(text)
        got = itn.normalize(spoken)
        if got == spoken and abs(value) <= SMALL[language] and kind == "integer":
            continue
        if re.sub("[一幺二三四五六七八九零〇]", "", spoken) == "" and got.replace(" ", "") == text:
            continue            # read digit by digit, in more than one group
        core = got.replace(" %", "%")
        if kind == "percentage":
            core = core[:-1] if core.endswith("%") else "?"
        if core != text and R.written_value(core, language) != value:
            if language == "zh" and got == spoken and re.fullmatch("[一二两三四五六七八九]亿(零[一二三四五六七八九])?", got):
                continue
            bad.append(("round trip " + kind, text + " > " + spoken, got))
    return bad, len(texts)


def body(report):
    PIPES.update(common.build_many(SPECS))
    jobs = []
    for key, name, flags in SPECS:
        if not name.endswith("_itn"):
            continue
        items = list(rows(key[:2], report.thorough))
        if flags and not report.thorough:
            items = [r for i, r in enumerate(items) if r[2] == "integer" and (len(r[0]) <= 3 or i % 20 == 0) or r[2] != "integer" and i % 9 == 0 or r[2] == "large decimal"]
        for row in items:
            report.count("spoken_" + row[2].replace(" ", "_"))
        report.count("distinct_nontrivial", len({r[0] for r in items}))
        report.sample({"pipeline": key, "spoken": items[len(items) // 2][0]})
        jobs += [(job, (key, chunk)) for chunk in common.chunks(items, 150)]
    for language in ("zh", "ja", "en"):
        texts = [(t, Fraction(t), "integer") for t in written(language, report.thorough)[::1 if report.thorough else 5]
                 if len(t) <= (12 if language != "ja" else 8)]
        texts += [("{}.{}".format(a, b), Fraction("{}.{}".format(a, b)), "decimal") for a in (0, 13, 20, 100) for b in range(100)]
        texts += [("{}%".format(a), Fraction(a), "percentage") for a in range(1, 201)]
        jobs += [(back, (language, chunk)) for chunk in common.chunks(texts, 100)]
    for (func, (key, _)), (bad, evals) in zip(jobs, common.run_jobs(jobs, lambda j: j[0](j[1]))):
        report.count("evaluations", evals)
        if func is back:
            report.count("round_trips", evals)
        for kind, text, got in bad:
            counter = "failed_{}_{}".format(key, kind.replace(" ", "_"))
            report.count(counter)
            if report.coverage[counter] <= 40:
                report.violation("{}:{}:{}".format(key, kind, text), "{} {} {!r} gives {!r}".format(key, kind, text, got))
    report.set("exhaustive", True)
    report.set("rule", "every conventional reading (quick: above 10^3 one or two of them) of all integers below 10^4 (thorough 10^5), of all zero patterns up to 8 digits "
               "(longer: at most one mixed group), every digit at every place; signs, decimals, percentages, fractions, ordinals "
               "and digit strings over the stated ranges; with the 0-9 and million options too; TN readings inverted")
    report.assumptions += ["numbers up to nine (English: twelve) alone, and one digit beside a bare hundred-million word, may stay in words",
                           "a written form may keep scale words (wan, yi, million)"]


common.main("C14", "exploration", body)
