"""C16: every lexicon row takes effect.

The rows of the lexicons are frozen in spec/lexicons.json.  Every row is put
into the minimal contexts its rule serves and sent through the real pipeline;
the result must carry the row's spoken (for ITN: written) side.  Where several
rows share a left side, any of their right sides is accepted.
"""

import collections
import itertools
import json
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import readings as R  # noqa: E402

PIPES = {}
NAMES = ("zh_tn", "ja_tn", "en_tn", "zh_itn", "ja_itn", "en_itn")
HERE = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(HERE, "..", "spec", "lexicons.json"), encoding="utf-8") as handle:
    LEX = json.load(handle)


def either(words):
    return "(?:" + "|".join(sorted({re.escape(w) for w in words}, key=lambda w: (-len(w), w))) + ")"


def table(*names):
    """{left: set of rights} over the rows of several tables."""
    out = collections.OrderedDict()
    for name in names:
        for row in LEX[name]:
            out.setdefault(row[0], set()).add(row[1] if len(row) > 1 else row[0])
    return out


def flipped(*names):
    out = collections.OrderedDict()
    for name in names:
        for row in LEX[name]:
            out.setdefault(row[1] if len(row) > 1 else row[0], set()).add(row[0])
    return out


# Rows another meaning of the same characters rightly claims, by kind.
OTHER_MEANING = {}


def zh_tn(deep):
    units = table("zh_tn/measure/units_en", "zh_tn/measure/units_zh")
    numbers = [("1", "一"), ("2", "[二两]"), ("5", "五"), ("12", "十二"), ("3.5", "三点五"), ("1/2", "二分之一")]
    for unit, spoken in units.items():
        said = either(spoken)
        for digits, words in numbers if deep else numbers[:5]:
            yield "unit", unit, digits + unit, words + said
        yield "unit", unit, "5 " + unit, "五" + said
        yield "unit", unit, "3-5" + unit, "三到五" + said
        for per, name in (("h", "小时"), ("s", "秒"), ("天", "天"), ("kg", "千克")):
            yield "unit per", unit + "/" + per, "5" + unit + "/" + per, "每" + name + "五" + said
        if unit != "h":
            yield "unit per", "km/" + unit, "5km/" + unit, "每" + said + "五公里"
    for sign, spoken in table("zh_tn/money/code", "zh_tn/money/symbol").items():
        for digits, words in (("1", "一"), ("2", "[二两]"), ("5", "五"), ("120", "一百二十"), ("3.5", "三点五")):
            yield "currency", sign, sign + digits, words + either(spoken)
            yield "currency", sign, sign + " " + digits, words + either(spoken)
    for name in ("club", "country"):
        for row in LEX["zh_tn/sport/" + name]:
            team = re.escape(row[0]).replace("潟", "[潟舄]")  # simplified along with everything else
            for sep in ":-/" if deep else ":-":
                yield "score", row[0], row[0] + "3" + sep + "2", team + "三比[二两]"
            if deep:
                yield "score", row[0], row[0] + " 12:10", team + "十二比十"
    for sign, spoken in table("zh_tn/math/operator").items():
        if sign == "-":
            continue  # between numbers a hyphen is a range as well
        yield "operator", sign, "3" + sign + "5", "三" + either(spoken) + "五"
        yield "operator", sign, "3 " + sign + " 5", "三" + either(spoken) + "五"
    for sign, spoken in table("zh_tn/math/operator_unambiguous").items():
        yield "operator", sign, "甲" + sign + "乙", "甲" + either(spoken) + "乙"
    for word, spoken in table("zh_tn/default/whitelist", "zh_tn/erhua/whitelist", "zh_tn/cardinal/phone").items():
        yield "whitelist", word, word, either(spoken)
        yield "whitelist", word, "这是" + word + "、", "这是" + either(spoken) + "、"


def ja_tn(deep):
    units = table("ja_tn/measure/units_en", "ja_tn/measure/units_ja")
    for unit, spoken in units.items():
        said = either(spoken)
        for digits, words in (("1", "一"), ("2", "二"), ("5", "五"), ("12", "十二"), ("3.5", "三点五")):
            yield "unit", unit, digits + unit, words + said
        yield "unit", unit, "5 " + unit, "五" + said
        yield "unit", unit, "3-5" + unit, "三から五" + said
        yield "unit per", unit + "/h", "5" + unit + "/h", "五" + said + "毎時"
        yield "unit per", "km/" + unit, "5km/" + unit, "五キロメートル毎" + said
    for sign, spoken in table("ja_tn/money/code", "ja_tn/money/symbol").items():
        for digits, words in (("1", "一"), ("5", "五"), ("120", "百二十"), ("3.5", "三点五")):
            yield "currency", sign, sign + digits, words + either(spoken)
            yield "currency", sign, sign + " " + digits, words + either(spoken)
    for name in ("club", "country"):
        for row in LEX["ja_tn/sport/" + name]:
            for sep in ":-/":
                yield "score", row[0], row[0] + "3" + sep + "2", re.escape(row[0]) + "三対二"
    for sign, spoken in table("ja_tn/math/operator").items():
        yield "operator", sign, "3" + sign + "5", "三" + either(spoken) + "五"
        yield "operator", sign, "3 " + sign + " 5", "三" + either(spoken) + "五"
    for word, spoken in table("ja_tn/default/whitelist").items():
        yield "whitelist", word, word, either(spoken)
        yield "whitelist", word, "それは" + word + "です", "それは" + either(spoken) + "です"


VOWELS = "aeiou"


def en_plural(word, suppletive):
    """The plurals of a unit; the last word carries the ending unless listed."""
    out = set()
    if word in suppletive:
        return set(suppletive[word])
    for i in range(len(word.split())):
        head, tail = " ".join(word.split()[:i]), " ".join(word.split()[i:])
        for form in suppletive.get(tail, ()):
            out.add((head + " " + form).strip())
    if word.startswith("degree "):
        return {"degrees" + word[6:]}
    if " per " in word:
        head, tail = word.split(" per ", 1)
        out |= {p + " per " + tail for p in en_plural(head.strip(), suppletive)} if not head.endswith("s") else {word}
    elif not out or " " in word:
        if re.search(r"(s|z|x|ch|sh)$", word):
            out.add(word + "es")
        if word.endswith("y") and word[-2] not in VOWELS:
            out.add(word[:-1] + "ies")
        elif not re.search(r"(s|z|x|ch|sh)$", word):
            out.add(word + "s")
    return out


def en_tn(deep):
    suppletive = table("en_tn/suppletive")
    units = table("en_tn/measure/unit", "en_tn/measure/unit_alternatives")
    for unit, spoken in units.items():
        plural = either(p for s in spoken for p in en_plural(s, suppletive))
        for digits, words in (("2", "two"), ("12", "twelve"), ("3.5", "three point five"), ("0.2", "(?:zero )?point two")):
            yield "unit", unit, digits + unit, words + " " + plural
            yield "unit", unit, digits + " " + unit, words + " " + plural
        yield "unit", unit, "1" + unit, "one " + either(spoken)
        yield "unit", unit, "-2 " + unit, "(?:minus|negative) two " + plural
        yield "unit per", "km/" + unit, "5km/" + unit, "five kilometers per " + either(spoken)
        yield "unit per", unit + "/h", "5" + unit + "/h", "five " + plural + " per hour"
    for sign, spoken in table("en_tn/money/currency_major").items():
        plural = either(p for s in spoken for p in en_plural(s, suppletive) | ({s} if s[0].isupper() or s in (
            "won", "yen", "swedish kronor") else set()))
        for digits, words in (("2", "two"), ("5", "five"), ("120", "one hundred (?:and )?twenty")):
            yield "currency", sign, sign + digits, words + " " + plural
        yield "currency", sign, sign + "1", "one " + either(spoken)
        for word in ("million", "billion"):
            yield "currency quantity", sign, sign + "5 " + word, "five " + word + " " + plural
    for sign, spoken in table("en_tn/electronic/symbol").items():
        word = either(spoken)
        if sign not in "./":
            yield "electronic", sign, "abc{}def@abc.com".format(sign), "abc {} def at abc dot com".format(word)
        yield "electronic", sign, "www.abc.com/a{}b".format(sign), "WWW dot abc dot com slash a {} b".format(word)
    for sign, spoken in table("en_tn/electronic/domain").items():
        yield "electronic", sign, "abc@xyz" + sign, "abc at xyz " + either(spoken)
        yield "electronic", sign, "www.xyz" + sign, "WWW dot xyz " + either(spoken)
        yield "electronic", sign, "xyz" + sign, "xyz " + either(spoken)
    for word, spoken in table("en_tn/electronic/words").items():
        yield "electronic", word, word + "@xyz.com", either(spoken) + " at xyz dot com"
        yield "electronic", word, "www.xyz.com/" + word, "WWW dot xyz dot com slash " + either(spoken)
    for word in LEX["en_tn/number/quantity_abbr"] + LEX["en_tn/number/thousand"]:
        left, right = word[0], word[-1]
        if right == "thousand":
            continue  # money keeps million and above only; "5 k" may be anything
        said = either({right, "million"} if right == "mln" else {right})
        yield "quantity", left, "$5 " + left, "five " + said + " dollars"
        yield "quantity", left, "$5.2" + (" " if len(word) == 1 else "") + left, "five point two " + said + " dollars"
    for word, spoken in table("en_tn/date/week").items():
        for other in ("Mon", "Fri"):
            yield "weekday", word, "{}-{}".format(word, other), either(spoken) + " to " + {"Mon": "Monday", "Fri": "Friday"}[other]
    for word, spoken in table("en_tn/date/month_abbr", "en_tn/date/month_name").items():
        month = either(spoken)
        yield "month", word, word + " 5, 2012", "(?:the fifth of {0}|{0} fifth),? twenty twelve".format(month)
        yield "month", word, "5 " + word + " 2012", "(?:the fifth of {0}|{0} fifth),? twenty twelve".format(month)
        yield "month", word, word + ". 5", "(?:the fifth of {0}|{0} fifth)".format(month)
    for row in LEX["en_tn/date/year_suffix"]:
        yield "era", row[0], "123 " + row[0], "one twenty three " + re.escape(row[1])
        yield "era", row[0], "1066 " + row[0], "ten sixty six " + re.escape(row[1])
    suffixes = table("en_tn/time/suffix")
    for word, spoken in suffixes.items():
        said = either({s for s in spoken} | {" ".join(s) for s in spoken})
        yield "half day", word, "2:30 " + word, "two thirty " + said
        yield "half day", word, "2:30" + word, "two thirty " + said
        yield "half day", word, "2 " + word, "two " + said
        for zone, name in table("en_tn/time/zone").items():
            if deep or word in ("a.m.", "pm"):
                yield "time zone", zone, "2:30 {} {}".format(word, zone), "two thirty " + said + " " + either(
                    name | {" ".join(n) for n in name})
    shared = table("en_tn/whitelist/tts", "en_tn/whitelist/alternatives", "en_tn/whitelist/symbol")
    for word in table("en_tn/whitelist/tts"):
        said = either(shared[word] | ({word.replace(".", "")} if re.fullmatch(r"(?:[A-Z]\.){3,}", word) else set()))
        yield "whitelist", word, word, said
        yield "whitelist", word, "the " + word + " there", "the " + said + " there"
    for word in table("en_tn/whitelist/alternatives"):
        said = either(shared[word])
        yield "alternative", word, word, said
        yield "alternative", word, "the " + word + " there", "the " + said + " there"
    for word in table("en_tn/whitelist/symbol"):
        if word != "/":  # kept: a slash is punctuation or part of a fraction
            yield "symbol", word, "the " + word + " there", "the " + either(shared[word]) + " there"
    for left, right in LEX["en_tn/address/state"]:
        yield "state", right, "Springfield, " + right, "Springfield, " + either([left])
    for left, spoken in table("en_tn/address/address_word").items():
        for form in (left, left.capitalize()):
            yield "address", form, "2788 San Tomas " + form, "twenty seven eighty eight San Tomas " + either(
                spoken | {s.lower() for s in spoken})
    for sign, spoken in table("en_tn/measure/math_operation").items():
        yield "operator", sign, "3 {} 4 = 7".format(sign), "three {} four equals seven".format(either(spoken | {
            s + " by" for s in spoken}))
    for sign, spoken in table("en_tn/number/fraction").items():
        top, bottom = next(iter(spoken)).split("/")
        yield "fraction", sign, "3 " + sign, "three and (?:" + en_fraction(int(top), int(bottom)) + ")"
        yield "fraction", sign, sign, en_fraction(int(top), int(bottom))
    for row in LEX["en_tn/telephone/telephone_prompt"]:
        spoken = ", ".join([" ".join(R.ONES[int(c)] for c in part) for part in ("123", "456", "7890")])
        yield "prompt", row[0], row[0] + " 123-456-7890", re.escape(row[-1]) + " ?,? ?" + spoken
    for row in LEX["en_tn/telephone/ip_prompt"]:
        yield "prompt", row[0], row[0] + " 192.168.0.1", re.escape(row[-1]) + " one nine two dot one six eight dot (?:zero|oh?) dot one"
    for row in LEX["en_tn/telephone/ssn_prompt"]:
        yield ("prompt", row[0], row[0] + " 123-45-6789",
               either({r[-1] for r in LEX["en_tn/telephone/ssn_prompt"] if r[0] == row[0]}) + " one two three, four five, six seven eight nine")


def en_fraction(top, bottom):
    names = {2: ("half", "halves"), 4: ("(?:quarter|fourth)", "(?:quarters|fourths)"), 3: ("third", "thirds"), 5: ("fifth", "fifths"),
             6: ("sixth", "sixths"), 7: ("seventh", "sevenths"), 8: ("eighth", "eighths"), 9: ("ninth", "ninths"), 10: ("tenth", "tenths")}
    one, many = names[bottom]
    head = "(?:one|a)" if top == 1 else R.ONES[top]
    return head + " " + (one if top == 1 else many)


def zh_itn(deep):
    units = table("zh_itn/measure/units_en", "zh_itn/measure/units_zh")
    for unit, written in units.items():
        put = either(written)
        for words, digits in (("十二", "12"), ("三十", "30"), ("三点五", "3\\.5"), ("一百零五", "105")):
            yield "unit", unit, words + unit, digits + put + ("|¥" + digits if unit == "元" else "")
        yield "unit", unit, "十到二十" + unit, "10~20" + put
        yield "unit per", unit, "每小时十二" + unit, "12" + put + "/h"
        yield "unit per", "每" + unit, "每" + unit + "十二千米", "12km/" + put
    money = table("zh_itn/money/code", "zh_itn/money/symbol")
    for name, signs in money.items():
        for words, digits in (("十二", "12"), ("三十", "30"), ("一百零五", "105"), ("三点五", "3\\.5")):
            yield "currency", name, words + name, either(signs) + digits + "|" + digits + either({name})
    for word in LEX["zh_itn/default/whitelist"]:
        yield "whitelist", word[0], word[0], either({word[-1]})
        yield "whitelist", word[0], "她说" + word[0] + "、", "她说" + either({word[-1]}) + "、"
    for row in LEX["zh_itn/license_plate/province"]:
        yield "plate", row[0], row[0] + "A一二三四五", row[0] + "A12345"
        yield "plate", row[0], row[0] + "B一二三四五六", row[0] + "B123456"
        yield "plate", row[0], row[0] + "CD七Q零幺", row[0] + "CD7Q01"
    for left, right in LEX["zh_itn/train_number/prefix"]:
        for words, digits in (("一二三", "123"), ("幺零零二", "1002"), ("六七", "67")):
            yield "train", left, left + words, "(?:{}|{}){}".format(left, right, digits)
    for left, right in LEX["zh_itn/number/repeat_digit"]:
        yield "repeat", left, "一三八" + left, "138" + right
    for left, right in LEX["zh_itn/number/special_tilde"]:
        yield "range", left, left + "人", "{}人".format(re.escape(right))
    for left, right in LEX["zh_itn/number/special_dash"]:
        low, high = right.split("-")
        if len(low) == 1:
            yield "range", "十" + left, "十" + left + "人", "1{0}-1?{1}人|1{0}~1{1}人".format(low, high)
    for word, signs in table("zh_itn/math/operator").items():
        if word == "到":
            continue
        yield "operator", word, "三十" + word + "五十", "30" + either(signs) + "50"
        yield "operator", word, "十二" + word + "三点五", "12" + either(signs) + "3\\.5"
    for word, signs in table("zh_itn/number/sign").items():
        yield "sign", word, word + "百分之三十", either(signs) + "30%"
        yield "sign", word, word + "一百二十三点五", either(signs) + "123\\.5"
    for word, mark in table("zh_itn/time/noon").items():
        yield "half day", word, word + "五点三十分", "0?5:30 ?" + either(mark)


def ja_itn(deep):
    units = table("ja_itn/measure/unit_en", "ja_itn/measure/unit_ja")
    for unit, written in units.items():
        put = either(written)
        for words, digits in (("十二", "12"), ("三十", "30"), ("三点五", "3\\.5"), ("百五", "105")):
            yield "unit", unit, words + unit, digits + put
    for unit, written in table("ja_itn/measure/unit_en").items():
        for per, sign in (("時", "h"), ("分", "min"), ("秒", "s")):
            yield "unit per", unit, "十二" + unit + "毎" + per, "12" + either(written) + "/" + sign
    for name, signs in table("ja_itn/money/symbol").items():
        for words, digits in (("十二", "12"), ("三十", "30"), ("百五", "105"), ("三点五", "3\\.5")):
            yield "currency", name, words + name, either(signs) + digits
    for word in LEX["ja_itn/default/whitelist"]:
        yield "whitelist", word[0], word[0], either({word[-1]})
        yield "whitelist", word[0], "それは" + word[0] + "です", "それは" + either({word[-1]}) + "です"
    for word, signs in table("ja_itn/math/operator").items():
        if word in ("負", "マイナス"):
            signs = signs | {"-"}
        yield "operator", word, "三十" + word + "五十", "30" + either(signs) + "50"
        yield "operator", word, "十二" + word + "三点五", "12" + either(signs) + "3\\.5"
    for word, signs in table("ja_itn/number/sign").items():
        yield "sign", word, word + "三十", either(signs) + "30"
        yield "sign", word, word + "百二十三点五", either(signs) + "123\\.5"
    for word, short in table("ja_itn/date/week").items():
        yield "weekday", word, "五月三日" + word, "5月3日[(（]?" + either(short | {word}) + "[)）]?"


def en_itn(deep):
    units = flipped("en_itn/measurements")
    irregular = {"foot": {"feet"}, "inch": {"inches"}}
    for unit, written in units.items():
        put = either(written)
        for words, digits in (("two", "2"), ("twelve", "12"), ("three point five", "3\\.5"), ("minus thirty", "-30")):
            yield "unit", unit, words + " " + unit, digits + " ?" + put
        plurals = irregular.get(unit) or en_plural(unit, {})
        for plural in plurals:
            yield "unit plural", plural, "twelve " + plural, "12 ?" + put
            yield "unit plural", plural, "we saw twenty " + plural + " there", "we saw 20 ?" + put + " there"
        yield "unit per", unit, "two kilometers per " + unit, "2 ?km/" + put
    for name, signs in flipped("en_itn/currency").items():
        plural = name + ("es" if name.endswith("s") else "s")
        put = either(signs)
        for words, digits in (("two", "2"), ("thirty", "30"), ("two point five", "2\\.5")):
            yield "currency", name, words + " " + plural, put + digits
        yield "currency", name, "one " + name, put + "1"
        yield "currency", name, "five million " + plural, put + "5 million"
        yield "currency", name, "three point five billion " + plural, put + "3\\.5 billion"
    for word, forms in flipped("en_itn/whitelist").items():
        put = either({f.strip() for f in forms})
        yield "whitelist", word, word, put
        yield "whitelist", word, "the " + word + " there", "the " + put + " there"
    for word, sign in flipped("en_itn/electronic/symbols").items():
        put = either(sign)
        if word not in ("dot", "slash"):
            yield "electronic", word, "a b c {} d e f at x y z dot com".format(word), "abc{}def@xyz\\.com".format(put)
        yield "electronic", word, "w w w dot x y z dot com {} a b".format(word), "www\\.xyz\\.com{}ab".format(put)
    for row in LEX["en_itn/electronic/domain"]:
        yield "electronic", row[0], "a b c at x y z dot " + row[0], "abc@xyz\\." + row[0]
    for row in LEX["en_itn/electronic/server_name"]:
        yield "electronic", row[0], "a b c at " + row[0] + " dot com", "abc@" + re.escape(row[-1]) + "\\.com"
    for mark, put in table("en_itn/time/time_suffix").items():
        yield "half day", mark, "five thirty " + mark, "05:30 " + either(put)
        for zone, name in flipped("en_itn/time/time_zone").items():
            yield "time zone", zone, "five thirty " + mark + " " + zone, "05:30 " + either(put) + " " + either(name)
    for row in LEX["en_itn/numbers/thousands"]:
        if deep or True:
            yield "quantity", row[0], "two point five " + row[0], "2\\.5 " + row[0]


def judge(item):
    name, rows = item
    pipe = PIPES[name]
    bad = []
    for kind, row, text, pattern in rows:
        got = pipe.normalize(text)
        if re.fullmatch(pattern, got) is None:
            bad.append((kind, row, text, got))
    return bad


def body(report):
    PIPES.update(common.build_many([(n, n, {}) for n in NAMES]))
    jobs = []
    for name in NAMES:
        rows = [r for r in {"zh_tn": zh_tn, "ja_tn": ja_tn, "en_tn": en_tn, "zh_itn": zh_itn, "ja_itn": ja_itn,
                            "en_itn": en_itn}[name](report.thorough)
                if (r[0], r[1]) not in OTHER_MEANING.get(name, ()) and (r[0], r[2]) not in OTHER_MEANING.get(name, ())]
        for row in rows:
            report.count("{}_{}".format(name, row[0].replace(" ", "_")))
        report.count("lexicon_rows", len({(r[0], r[1]) for r in rows}))
        report.count("distinct_nontrivial", len({r[2] for r in rows}))
        report.sample({"pipeline": name, "text": rows[len(rows) // 2][2], "expected": rows[len(rows) // 2][3]})
        jobs += [(name, chunk) for chunk in common.chunks(rows, 150)]
    for (name, rows), bad in zip(jobs, common.run_jobs(jobs, judge)):
        report.count("evaluations", len(rows))
        for kind, row, text, got in bad:
            report.violation("{}:{}:{}".format(name, kind, text), "{} {} row {!r}: {!r} gives {!r}".format(name, kind, row, text, got))
    report.set("exhaustive", True)
    report.set("rule", "every row of the frozen lexicons (spec/lexicons.json) in each minimal context of its rule; distinct texts counted")


if __name__ == "__main__":
    common.main("C16", "exploration", body)
