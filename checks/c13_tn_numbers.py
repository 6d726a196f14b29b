"""C13: TN reads every number with its exact value.

Every written number of a bounded space is normalized by the real Chinese,
Japanese and English TN and the result must be one of the readings that
lib/readings.py derives from the number system: all integers below 10^4 (10^6
thorough), all zero patterns of longer ones, every digit at every place, signs,
decimals, percentages, fractions, ordinals and amounts, alone and in sentences.
"""

import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import readings as R  # noqa: E402

PIPES = {}
NAMES = ("zh_tn", "ja_tn", "en_tn")
NUMBER = {"zh_tn": R.zh_number, "ja_tn": R.ja_number, "en_tn": R.en_number}
LONGEST = {"zh_tn": 14, "ja_tn": 14, "en_tn": 15}
CONTEXTS = {
    "zh_tn": [("", ""), ("共计", "、"), ("他说", "吗"), ("《", "》"), ("hello ", " 好")],
    "ja_tn": [("", ""), ("これは", "です"), ("「", "」"), ("値は", "、")],
    "en_tn": [("", ""), ("they counted ", " yesterday"), ("(", ")"), ("we got ", "; really")],
}


def integers(name, thorough):
    """Written integers, shortest first."""
    out = {str(i): None for i in range(1000000 if thorough else 10000)}
    for length in range(2, 5):
        for i in range(10 ** (length - 1) if length < 4 or thorough else 0):
            out[str(i).zfill(length)] = None
    for length in range(5, LONGEST[name] + 1):
        for bits in itertools.product("01", repeat=length - 1):
            bits = ("1",) + bits
            if not thorough and length > 9:
                # long ones: each group of the number system all zero or not, and each edge pattern
                size = 3 if name == "en_tn" else 4
                groups = ["".join(bits)[max(0, e - size):e] for e in range(length, 0, -size)]
                odd = sum(len(set(g)) > 1 for g in groups)
                if odd > 2:
                    continue
            for base in range(3 if thorough else 1):
                digits = [str((i * (3 + base) + length * (base + 1)) % 9 + 1) if b == "1" else "0" for i, b in enumerate(bits)]
                out["".join(digits)] = None
        for place in range(length):
            for digit in "0123456789":
                for rest in "01":
                    text = ["1"] + [rest] * (length - 1)
                    text[place] = digit
                    if text[0] != "0":
                        out["".join(text)] = None
    return list(out)


def few(name):
    return ["0", "1", "2", "5", "10", "11", "12", "20", "22", "99", "100", "101", "110", "200", "222", "999", "1000", "1001", "2000",
            "2002", "1100", "10000", "10002", "22222", "120000", "200002", "1000000", "2200000"]


def small(limit):
    return [str(i) for i in range(limit)]


def fractions_of(width):
    return [str(i).zfill(width) for i in range(10 ** width)]


def items(name, thorough):
    """(written text, regex of its readings, kind, contexts to use)."""
    number = NUMBER[name]
    contexts = CONTEXTS[name]
    alone, every = contexts[:1], contexts
    for text in integers(name, thorough):
        near = len(text) <= (4 if thorough else 3)
        yield text, number(text), "integer", every if near or text.strip("0") in ("1", "11", "101") else alone
    wide = {ord(str(d)): 0xff10 + d for d in range(10)}
    if name != "en_tn":
        for text in integers(name, False)[:200] + few(name):
            yield text.translate(wide), number(text), "full-width integer", alone
    # signs
    signs = {"zh_tn": [("-", "负"), ("+", "正")], "ja_tn": [("-", "マイナス"), ("+", "プラス")],
             "en_tn": [("-", "(?:minus|negative) ")]}[name]
    for text in small(300 if thorough else 120) + few(name)[8:]:
        for sign, word in signs:
            yield sign + text, word + number(text), "signed", every[:2]
    # decimals
    wholes = ["0", "1", "2", "7", "10", "15", "20", "100", "205", "1000", "12345"]
    for whole in wholes:
        for width in (1, 2, 3) if thorough or whole in ("0", "13", "100") else (1, 2):
            for part in fractions_of(width):
                text = whole + "." + part
                if name == "zh_tn" and 1 <= int(whole) <= 12 and width <= 2 and 1 <= int(part) <= 31:
                    continue        # also a date, month.day
                if name != "en_tn" and len(whole) == 4 and 1 <= int(part) <= 12:
                    continue        # also a date, year.month
                yield text, number(whole, part), "decimal", every if width == 1 else alone
    for sign, word in signs[:1]:
        for whole, part in itertools.product(("0", "20", "100"), fractions_of(1) + ["05", "50", "25", "123"]):
            yield sign + whole + "." + part, word + number(whole, part), "signed decimal", alone
    # percentages
    percent = {"zh_tn": "百分之{}", "ja_tn": "{}パーセント", "en_tn": "{} percent"}[name]
    for text in small(1000 if thorough else 201) + few(name)[8:]:
        yield text + "%", percent.format(number(text)), "percentage", every
    for whole, part in itertools.product(wholes, fractions_of(1) + (fractions_of(2) if thorough else ["05", "25", "50", "99"])):
        yield whole + "." + part + "%", percent.format(number(whole, part)), "decimal percentage", every[:2]
    for text in small(101):
        sign, word = signs[0]
        spoken = {"zh_tn": "百分之负" + number(text), "ja_tn": word + percent.format(number(text)),
                  "en_tn": word + percent.format(number(text))}[name]
        yield sign + text + "%", spoken, "signed percentage", alone
    # fractions
    tops = list(range(1, 101 if thorough else 24)) + [99, 100, 101, 1000]
    downs = list(range(1, 101 if thorough else 33)) + [99, 100, 101, 1000, 10000]
    for top, down in itertools.product(tops, downs):
        a, b = str(top), str(down)
        if name == "zh_tn":
            if top <= 12 and down <= 31 or len(a) == 4 and down <= 12 or len(b) == 4 and top <= 12:
                continue            # also a date, month/day or year/month
            yield a + "/" + b, number(b) + "分之" + number(a), "fraction", every[:2]
        elif name == "ja_tn":
            yield a + "/" + b, number(b) + "分の" + number(a), "fraction", every[:2]
        else:
            yield a + "/" + b, en_fraction(a, b), "fraction", every[:2]
    if name == "en_tn":
        for text in small(10000 if thorough else 1200) + [t for t in few(name) if len(t) > 4]:
            if text != "0":
                yield text + suffix(text), en_ordinal(text), "ordinal", every if len(text) < 3 else alone
        for text in [t for t in integers(name, False) if 4 <= len(t) <= 13 and t[0] != "0"][::1 if thorough else 7]:
            grouped = "{:,}".format(int(text))
            yield grouped, number(grouped), "grouped", alone
        for whole in small(200) + few(name)[8:]:
            for cents in [""] + fractions_of(2):
                if cents and int(whole) > 30 and not (thorough or cents in ("00", "05", "10")) or int(whole) > 9 and cents not in ("", "00", "05", "10", "99"):
                    continue
                yield "$" + whole + ("." + cents if cents else ""), en_dollars(whole, cents), "amount", alone
    else:
        unit = {"zh_tn": "美元", "ja_tn": "ドル"}[name]
        for whole in small(200) + few(name)[8:]:
            for part in (None, "01", "05", "10", "25", "5"):
                if part and int(whole) > 30:
                    continue
                yield ("$" + whole + ("." + part if part else ""), number(whole, part) + unit, "amount", every[:2])
        for whole in small(100) + few(name)[8:]:
            if whole == "0":
                continue
            yield "第" + whole, "第" + number(whole), "ordinal", alone


def suffix(text):
    if text[-2:-1] == "1":
        return "th"
    return {"1": "st", "2": "nd", "3": "rd"}.get(text[-1], "th")


ORDINAL = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}


def ordinal_word(pattern):
    """Makes the last word of a reading an ordinal."""
    head, last = re.fullmatch(r"(.*?)([a-z]+)", pattern, re.S).groups()
    if last in ORDINAL:
        return head + ORDINAL[last]
    return head + (last[:-1] + "ieth" if last.endswith("ty") else last + "th")


def en_ordinal(text):
    ways = [ordinal_word(R.en_integer(text))]
    if len(text) == 4:
        high, low = text[:2], text[2:]
        if low == "00":
            ways.append(ordinal_word(R.en_two(int(high)) + " hundred"))
        else:
            joint = " hundred (?:and )?"
            ways.append(ordinal_word(R.en_two(int(high)) + joint + R.en_two(int(low))))
    return "(?:" + "|".join(ways) + ")"


def en_fraction(top, down):
    number = R.en_number(top)
    plural = top != "1"
    if down == "1":
        ways = [number + " over one", number, number + " divided by one", ordinal_word("one")]
    elif down == "2":
        ways = [number + (" halves" if plural else " half")]
    else:
        ways = [number + " " + ordinal_word(R.en_integer(down)) + ("s" if plural else "")]
        if down == "4":
            ways.append(number + (" quarters" if plural else " quarter"))
    ways.append(number + " over " + R.en_number(down))
    return "(?:" + "|".join(ways) + ")"


def en_dollars(whole, cents):
    major = R.en_number(whole) + (" dollar" if whole == "1" else " dollars")
    if not cents or int(cents) == 0:
        return major + "(?: and zero cents)?"
    minor = R.en_two(int(cents)) + (" cent" if cents == "01" else " cents")
    ways = [major + " and " + minor, R.en_number(whole, cents) + " dollars?", R.en_number(whole, cents.rstrip("0")) + " dollars?"]
    if whole == "0":
        ways.append(minor)
    return "(?:" + "|".join(ways) + ")"


def job(item):
    name, rows = item
    pipe = PIPES[name]
    bad, evals = [], 0
    for text, pattern, kind, contexts in rows:
        for before, after in contexts:
            evals += 1
            got = pipe.normalize(before + text + after)
            if re.fullmatch(re.escape(before) + pattern + re.escape(after), got) is None:
                bad.append((kind, text, before, after, got))
                break
    return bad, evals


def body(report):
    PIPES.update(common.build_many([(n, n, {}) for n in NAMES]))
    jobs = []
    for name in NAMES:
        rows = list(items(name, report.thorough))
        for row in rows:
            report.count("numbers_" + row[2].replace(" ", "_").replace("-", "_"))
        report.count("distinct_nontrivial", len({r[0] for r in rows}))
        report.sample({"pipeline": name, "text": rows[len(rows) // 2][0], "readings": rows[len(rows) // 2][1]})
        jobs += [(name, chunk) for chunk in common.chunks(rows, 100)]
    for (name, _), (bad, evals) in zip(jobs, common.run_jobs(jobs, job)):
        report.count("evaluations", evals)
        for kind, text, before, after, got in bad:
            report.count("failed_" + name + "_" + kind.replace(" ", "_"))
            if report.coverage["failed_" + name + "_" + kind.replace(" ", "_")] > 40:
                continue
            report.violation("{}:{}:{}".format(name, kind, text), "{} {} {!r} gives {!r}".format(name, kind, before + text + after, got))
    report.set("exhaustive", True)
    report.set("rule", "all integers below 10^4 (thorough 10^6) and with leading zeros up to three digits, all patterns of zero "
               "and other digits up to 9 digits and all those with at most two mixed groups up to {} digits, every digit at "
               "every place among zeros and among ones; signs, decimals, percentages, fractions, ordinals and dollar amounts "
               "over the stated ranges, in every sentence context".format(LONGEST))
    report.assumptions += [
        "d.dd and n/m which are also a month and day (zh) or a year and month may be read as a date and are left out",
        "en: four-digit numbers may be read in hundreds; 'thousand' stands for 'one thousand'",
        "conventional variants (liang/er, optional 'and', digit-wise reading) are all accepted"]


common.main("C13", "exploration", body)
