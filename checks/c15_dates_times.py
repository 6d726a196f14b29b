"""C15: every calendar date and clock time is read and written correctly.

All days of a leap year and all years of four digits, in every supported
notation, all 1440 minutes of the day, and seconds, go through the real TN and
ITN pipelines; the result must be a reading (a written form) of exactly that
date or time.  TN readings are inverted by ITN where both exist.
"""

import datetime
import itertools
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import common  # noqa: E402
import readings as R  # noqa: E402

PIPES = {}
NAMES = ("zh_tn", "ja_tn", "en_tn", "zh_itn", "ja_itn", "en_itn")
CONTEXTS = {"zh": [("", ""), ("时间", "、"), ("《", "》")], "ja": [("", ""), ("「", "」"), ("それは", "です")],
            "en": [("", ""), ("it was ", " they said"), ("(", ")")]}
MONTHS = "january february march april may june july august september october november december".split()
DAYS = [datetime.date(2024, 1, 1) + datetime.timedelta(i) for i in range(366)]
ORDINAL = {"one": "first", "two": "second", "three": "third", "five": "fifth", "eight": "eighth", "nine": "ninth", "twelve": "twelfth"}


def ordinal(n):
    words = R.en_two(n).replace("[ -]", " ")
    head, _, last = words.rpartition(" ")
    last = ORDINAL.get(last) or (last[:-1] + "ieth" if last.endswith("y") else last + "th")
    return (head + " " if head else "") + last


# ---- readings -------------------------------------------------------------

def zh_small(n):
    return R.zh_integer(str(n))


def zh_plain(n):
    """The everyday word: ten is 十, not 一十."""
    words = R.expand(zh_small(n))
    return min(words, key=len) if n < 20 else words[-1]


def zh_date(y, m, d):
    out = ""
    if y is not None:
        out += "".join("[零〇]" if c == "0" else R.ZH[int(c)] for c in y) + "年"
    if m is not None:
        out += zh_small(m) + "月"
    if d is not None:
        out += zh_small(d) + "[日号]"
    return out


def ja_date(y, m, d):
    out = ""
    if y is not None:
        out += "(?:" + R.ja_integer(y) + "|" + R.ja_digits(y) + ")年"
    if m is not None:
        out += R.ja_integer(str(m)) + "月"
    if d is not None:
        out += R.ja_integer(str(d)) + "日"
    return out


def en_date(y, m, d):
    month, year = (MONTHS[m - 1] if m else None), (R.en_number(y) if y else None)
    if d is None:
        return month + ",? " + year
    tail = ",? " + year if year else ""
    return "(?:the {} of {}{}|{} (?:the )?{}{})".format(ordinal(d), month, tail, month, ordinal(d), tail)


def zh_time(h, m, s, noon=""):
    out = noon + ("[两二]" if h == 2 else zh_small(h)) + "点"
    if m:
        out += ("零" if m < 10 else "") + zh_small(m) + "分"
    elif s:
        out += "(?:零+分)?"
    if s:
        out += ("零?" if s < 10 else "") + zh_small(s) + "秒"
    return out


def ja_time(h, m, s, noon=""):
    out = noon + R.ja_integer(str(h)) + "時"
    if m:
        out += R.ja_integer(str(m)) + "分"
    elif s:
        out += "(?:[〇零]+分)?"
    if s:
        out += R.ja_integer(str(s)) + "秒"
    return out


def en_time(h, m, s, noon=None):
    suffix = " (?:{0}{1}|{0} {1}|{2}{3}|{2} {3})".format(noon[0].upper(), noon[1].upper(), noon[0], noon[1]) if noon else ""
    hour = R.en_two(h)
    if s is not None:
        minute = "(?:zero|oh?)" if m == 0 else R.en_two(m)
        second = "(?:zero|oh?)" if s == 0 else R.en_two(s)

        def count(words, n, unit):
            return words + " " + unit + ("" if n == 1 else "s")
        return "{} {} and {}{}".format(count(hour, h, "hour"), count(minute, m, "minute"), count(second, s, "second"), suffix)
    if m == 0:
        return hour + (suffix if noon else " o'clock")
    return hour + (" (?:o|oh|zero) " if m < 10 else " ") + R.en_two(m) + suffix


# ---- what is enumerated ---------------------------------------------------

def dates(thorough):
    """(y, m, d) as strings and numbers: every day of a leap year, every year."""
    for day in DAYS:
        yield "2024", day.month, day.day
    for day in (DAYS[::1] if thorough else DAYS[3::31]):
        for year in ("1987", "2000", "2019", "1600"):
            if not (day.month == 2 and day.day == 29 and year in ("1987", "2019")):
                yield year, day.month, day.day


def years(thorough):
    return [str(y) for y in range(1000, 10000 if thorough else 3000)]


def tn_rows(lang, thorough):
    contexts = CONTEXTS[lang]
    speak = {"zh": zh_date, "ja": ja_date, "en": en_date}[lang]
    for i, (y, m, d) in enumerate(dates(thorough)):
        use = contexts if thorough or i % 5 == 0 else contexts[:1]
        for sep in ("-", "/") if lang == "en" else ("-", "/", "."):
            yield y + sep + "{:02}".format(m) + sep + "{:02}".format(d), speak(y, m, d), "date y-m-d", use
            if lang != "en":
                yield y + sep + str(m) + sep + str(d), speak(y, m, d), "date y-m-d", use[:1]
                yield "{:02}".format(d) + sep + "{:02}".format(m) + sep + y, speak(y, m, d), "date d-m-y", use[:1]
        if lang == "en":
            name = MONTHS[m - 1]
            for text in (name + " " + str(d) + ", " + y, name + " " + str(d) + " " + y, str(d) + " " + name + " " + y,
                         name.capitalize() + " " + str(d) + ", " + y, name[:3] + " " + str(d) + ", " + y):
                yield text, speak(y, m, d), "date in words", use[:1]
            for text in (name + " " + str(d), str(d) + " " + name):
                yield text, speak(None, m, d), "day of month", use[:1]
            yield "{:02}/{:02}/{}".format(m, d, y), speak(y, m, d), "date m-d-y", use[:1]
        else:
            yield "{}年{}月{}日".format(y, m, d), speak(y, m, d), "date in characters", use
            yield "{}月{}日".format(m, d), speak(None, m, d), "day of month", use[:1]
            if lang == "zh" or m < 10 or d < 10:  # ja: 10/11 is a fraction as well
                yield "{:02}/{:02}".format(m, d), speak(None, m, d), "day of month", use[:1]
    for y in years(thorough):
        m, d = int(y) % 12 + 1, int(y) % 28 + 1
        if lang == "en":
            yield "{}-{:02}-{:02}".format(y, m, d), speak(y, m, d), "year", contexts[:1]
            yield MONTHS[m - 1] + " " + y, speak(y, m, None), "year and month", contexts[:1]
        else:
            yield "{}-{:02}-{:02}".format(y, m, d), speak(y, m, d), "year", contexts[:1]
            yield "{}年{}月".format(y, m), speak(y, m, None), "year and month", contexts[:1]
            if lang == "zh" or m < 10:  # ja: 2024/10 is a fraction as well
                yield "{}/{:02}".format(y, m), speak(y, m, None), "year and month", contexts[:1]
    say = {"zh": zh_time, "ja": ja_time, "en": en_time}[lang]
    for h, m in itertools.product(range(24), range(60)):
        use = contexts if m in (0, 5, 30) else contexts[:1]
        yield "{}:{:02}".format(h, m), say(h, m, None), "time", use
        yield "{:02}:{:02}".format(h, m), say(h, m, None), "time", use
        if 1 <= h <= 12 and (thorough or m % 7 == 0 or m < 3):
            if lang == "en":
                for mark in ("am", "pm", "a.m.", "p.m.", "AM", "PM"):
                    noon = "am" if mark[0] in "aA" else "pm"
                    yield "{}:{:02} {}".format(h, m, mark), say(h, m, None, noon), "time of half day", contexts[:1]
            else:
                early, late = ("上午", "下午") if lang == "zh" else ("午前", "午後")
                for noon, mark in ((early, "am"), (late, "pm"), (early, "AM"), (late, "p.m."), (early, " am"), (late, " p.m.")):
                    yield "{}:{:02}{}".format(h, m, mark), say(h, m, None, noon), "time of half day", contexts[:1]
                    if mark[0] != " ":
                        yield "{}{}:{:02}".format(noon, h, m), say(h, m, None, noon), "time of half day", contexts[:1]
    hms = [(h, m, s) for h in (0, 1, 2, 9, 10, 12, 20, 23) for m in (0, 1, 5, 10, 30, 59) for s in range(60)]
    for h, m, s in hms if not thorough else itertools.product(range(24), range(60), range(0, 60)):
        if thorough and (h * 7 + m + s) % 5:
            continue
        second = s if lang == "en" or s else 0
        yield "{}:{:02}:{:02}".format(h, m, s), say(h, m, second), "time with seconds", contexts[:1]


def range_rows(lang, thorough):
    """Spans of years, months, days and times: both ends, with the word between them."""
    to = {"zh": "到", "ja": "から", "en": " to "}[lang]
    one = CONTEXTS[lang][:1]
    say = {"zh": zh_time, "ja": ja_time, "en": en_time}[lang]
    starts = list(itertools.product(range(24), (0, 5, 30, 45))) if thorough else [(0, 30), (2, 5), (8, 0), (8, 30), (9, 59), (12, 0), (13, 5), (23, 45)]
    for (h, m), (h2, m2) in itertools.product(starts, starts):
        if (h, m) < (h2, m2):
            for mark in ("-", " - ") if lang == "en" else ("-", "~"):
                yield "{}:{:02}{}{}:{:02}".format(h, m, mark, h2, m2), say(h, m, None) + to + say(h2, m2, None), "range of times", one
            if 0 < h and h2 < 13:
                if lang == "en":
                    yield "{}:{:02} am - {}:{:02} pm".format(h, m, h2, m2), say(h, m, None, "am") + to + say(h2, m2, None, "pm"), "range of times", one
                else:
                    noon = "上午" if lang == "zh" else "午前"
                    yield noon + "{}:{:02}-{}:{:02}".format(h, m, h2, m2), say(h, m, None, noon) + to + say(h2, m2, None), "range of times", one
    if lang == "en":
        return
    day = zh_date if lang == "zh" else ja_date

    def year(y):
        return day(y, None, None)[:-1]
    span = years(False)[:: 1 if thorough else 13]
    for y, y2 in zip(span, span[7:]):
        for mark in "-~":
            yield y + "年" + mark + y2 + "年", year(y) + "年" + to + year(y2) + "年", "range of years", one
            if lang == "zh":
                yield y + mark + y2 + "年", year(y) + to + year(y2) + "年", "range of years", one
    months = range(1, 13)
    for m, m2 in itertools.combinations(months, 2):
        for mark in "-~":
            yield "{}月{}{}月".format(m, mark, m2), day(None, m, None) + to + day(None, m2, None), "range of months", one
        for d, d2 in ((1, 2), (2, 12), (10, 20), (22, 30)) if not thorough else itertools.product((1, 2, 5, 10, 11, 20, 22, 30), repeat=2):
            for mark in "-~":
                yield "{}月{}日{}{}月{}日".format(m, d, mark, m2, d2), day(None, m, d) + to + day(None, m2, d2), "range of days", one
    days = [(d, d2) for d, d2 in itertools.combinations(range(1, 32), 2) if thorough or (d * 5 + d2) % 7 == 0]
    for d, d2 in days:
        m = (d + d2) % 12 + 1
        for mark in "-~":
            yield "{}月{}日{}{}日".format(m, d, mark, d2), day(None, m, d) + to + day(None, None, d2), "range of days", one
            if lang == "zh":
                yield "{}月{}{}{}日".format(m, d, mark, d2), "(?:" + day(None, m, d)[:-4] + "|" + day(None, m, d) + ")" + to + day(None, None, d2), "range of days", one
        for mark in "-~" if lang == "zh" else "~":
            text = "2021-{0:02}-{1:02}{3}2021-{0:02}-{2:02}".format(m, d, d2, mark)
            yield text, day("2021", m, d) + to + day("2021", m, d2), "range of dates", one


def itn_rows(lang, thorough):
    contexts = CONTEXTS[lang][:2]
    if lang == "zh":
        def digits(y):
            return "".join(R.ZH[int(c)] for c in y)
        for i, (y, m, d) in enumerate(dates(thorough)):
            use = contexts if i % 5 == 0 else contexts[:1]
            for sm, sd in itertools.product((zh_plain(m),), (zh_plain(d),)):
                yield digits(y) + "年" + sm + "月" + sd + "日", "{}/{:02}/{:02}".format(y, m, d), "date", use
                yield digits(y) + "年" + sm + "月" + sd + "号", "{}/{:02}/{:02}".format(y, m, d), "date", use[:1]
                yield sm + "月" + sd + "日", "{:02}/{:02}".format(m, d), "day of month", use[:1]
        for y in years(thorough):
            m = int(y) % 12 + 1
            yield digits(y) + "年" + zh_plain(m) + "月", "{}/{:02}".format(y, m), "year and month", contexts[:1]
            yield digits(y) + "年", y + "年", "year", contexts[:1]
        for h, m in itertools.product(range(24), range(60)):
            if m == 0:
                continue
            sh = "两" if h == 2 else zh_plain(h)
            sm = ("零" if m < 10 else "") + zh_plain(m)
            yield sh + "点" + sm + "分", "0?{}:{:02}".format(h, m), "time", contexts if m % 20 == 1 else contexts[:1]
            if 1 <= h <= 12:
                yield "上午" + sh + "点" + sm + "分", "{}:{:02} ?a\\.m\\.".format(h, m), "time of half day", contexts[:1]
                yield "下午" + sh + "点" + sm + "分", "{}:{:02} ?p\\.m\\.".format(h, m), "time of half day", contexts[:1]
            for s in range(60) if m in (1, 30) and h in (2, 10, 23) else (15,) if m % 10 == 3 else ():
                if s:
                    ss = zh_plain(s)
                    yield (sh + "点" + sm + "分" + ss + "秒", "0?{}:{:02}:{:02}".format(h, m, s), "time with seconds", contexts[:1])
    elif lang == "ja":
        def number(n):
            return R.expand(R.ja_integer(str(n)).replace("一?", ""))[0]
        for i, (y, m, d) in enumerate(dates(thorough)):
            use = contexts if i % 5 == 0 else contexts[:1]
            for sy in (number(int(y)), R.expand(R.ja_digits(y))[0]):
                yield sy + "年" + number(m) + "月" + number(d) + "日", "{}年{}月{}日".format(y, m, d), "date", use
            yield number(m) + "月" + number(d) + "日", "{}月{}日".format(m, d), "day of month", use[:1]
        for y in years(thorough):
            m = int(y) % 12 + 1
            yield number(int(y)) + "年" + number(m) + "月", "{}年{}月".format(y, m), "year and month", contexts[:1]
        for h, m in itertools.product(range(24), range(60)):
            if m == 0 or h == 0:
                continue
            yield number(h) + "時" + number(m) + "分", "{}時{}分".format(h, m), "time", contexts if m % 20 == 1 else contexts[:1]
            if 1 <= h <= 12 and m % 4 == 1:
                yield "午後" + number(h) + "時" + number(m) + "分", "午後{}時{}分".format(h, m), "time of half day", contexts[:1]
            for s in range(60) if m in (1, 30) and h in (2, 10, 23) else (15,) if m % 10 == 3 else ():
                if s:
                    yield (number(h) + "時" + number(m) + "分" + number(s) + "秒", "{}時{}分{}秒".format(h, m, s),
                           "time with seconds", contexts[:1])
    else:
        for i, (y, m, d) in enumerate(dates(thorough)):
            use = contexts if i % 5 == 0 else contexts[:1]
            name = MONTHS[m - 1]
            for sy in [w for w in R.expand(R.en_number(y)) if not re.search(r"-|\ba\b|^thousand|zero|\bo\b|\boh\b", w)
                       and (w.startswith("two thousand") or " hundred " not in w and w.split()[0] not in R.ONES[:10])][:3]:
                yield name + " " + ordinal(d) + " " + sy, "{} {} {}".format(name, d, y), "date", use
                yield "the " + ordinal(d) + " of " + name + " " + sy, "{} {} {}".format(d, name, y), "date", use[:1]
            yield name + " " + ordinal(d), "{} {}".format(name, d), "day of month", use[:1]
        for y in years(thorough):
            high, low = int(y[:2]), int(y[2:])
            if low < 10 or high == 20 and low < 10 or high % 10 == 0 and high != 20:
                continue
            m = int(y) % 12 + 1
            sy = R.expand(R.en_two(high))[0] + " " + R.expand(R.en_two(low))[0]
            yield MONTHS[m - 1] + " " + sy, "{} {}".format(MONTHS[m - 1], y), "year and month", contexts[:1]
        for h, m in itertools.product(range(1, 13), range(60)):
            sh = R.ONES[h]
            sm = R.expand(R.en_two(m))[0] if m > 9 else "o " + R.ONES[m]
            for mark, form in (("a m", "a.m."), ("p m", "p.m.")):
                if m == 0:
                    yield sh + " " + mark, "{:02}:00 {}".format(h, re.escape(form)), "time of half day", contexts
                else:
                    yield (sh + " " + sm + " " + mark, "{:02}:{:02} {}".format(h, m, re.escape(form)), "time of half day",
                           contexts if m % 20 == 1 else contexts[:1])
            if m == 0:
                yield sh + " o'clock", "{:02}:00".format(h), "time", contexts
            else:
                past = R.expand(R.en_two(m))[0]
                if h != 10 and m < 30:
                    yield past + " past " + sh, "{:02}:{:02}".format(h, m), "minutes past", contexts[:1]
        for h in range(1, 13):
            yield "half past " + R.ONES[h], "{:02}:30".format(h), "minutes past", contexts
            yield "quarter past " + R.ONES[h], "{:02}:15".format(h), "minutes past", contexts
            yield "quarter to " + R.ONES[h], "{:02}:45".format((h - 2) % 12 + 1), "minutes to", contexts


def job(item):
    name, rows = item
    pipe = PIPES[name]
    bad, evals = [], 0
    for text, pattern, kind, contexts in rows:
        for before, after in contexts:
            evals += 1
            got = pipe.normalize(before + text + after)
            if re.fullmatch(re.escape(before) + "(?:" + pattern + ")" + re.escape(after), got) is None:
                bad.append((kind, before + text + after, got))
                break
    return bad, evals


def back(item):
    """ITN of TN readings."""
    lang, rows = item
    bad = []
    for text, want in rows:
        spoken = PIPES[lang + "_tn"].normalize(text)
        got = PIPES[lang + "_itn"].normalize(spoken)
        if got != want:
            bad.append(("round trip", text + " > " + spoken, got))
    return bad, len(rows)


def body(report):
    PIPES.update(common.build_many([(n, n, {}) for n in NAMES]))
    jobs = []
    for name in NAMES:
        lang = name[:2]
        rows = list((tn_rows if name.endswith("_tn") else itn_rows)(lang, report.thorough))
        if name.endswith("_tn"):
            rows += range_rows(lang, report.thorough)
        for row in rows:
            report.count("{}_{}".format(name, row[2].replace(" ", "_").replace("-", "_")))
        report.count("distinct_nontrivial", len({r[0] for r in rows}))
        report.sample({"pipeline": name, "text": rows[len(rows) // 2][0], "expected": rows[len(rows) // 2][1]})
        jobs += [(job, (name, chunk)) for chunk in common.chunks(rows, 150)]
    for lang in ("zh", "ja"):
        pairs = []
        for y, m, d in dates(report.thorough):
            want = "{}/{:02}/{:02}".format(y, m, d) if lang == "zh" else "{}年{}月{}日".format(y, m, d)
            pairs.append(("{}-{:02}-{:02}".format(y, m, d), want))
        for h, m in itertools.product(range(1, 24), range(1, 60)):
            pairs.append(("{}:{:02}".format(h, m), "{}:{:02}".format(h, m) if lang == "zh" else "{}時{}分".format(h, m)))
        jobs += [(back, (lang, chunk)) for chunk in common.chunks(pairs, 150)]
    for (func, (name, _)), (bad, evals) in zip(jobs, common.run_jobs(jobs, lambda j: j[0](j[1]))):
        report.count("evaluations", evals)
        if func is back:
            report.count("round_trips", evals)
        for kind, text, got in bad:
            counter = "failed_{}_{}".format(name, kind.replace(" ", "_").replace("-", "_"))
            report.count(counter)
            if report.coverage[counter] <= 40:
                report.violation("{}:{}:{}".format(name, kind, text), "{} {} {!r} gives {!r}".format(name, kind, text, got))
    report.set("exhaustive", True)
    report.set("rule", "every day of 2024 and samples by fixed stride of four other years in every notation, every year 1000-2999 "
               "(thorough 1000-9999), every minute of the day, seconds for a grid of hours and minutes; distinct texts counted")
    report.assumptions += ["conventional variants (liang/er dian, optional zero words, 'the', commas) are all accepted",
                           "en m/d/y is month first; ja m/d with month and day above 9 and y/m with month above 9 are left out (fractions as well); en ITN times need an am/pm mark or o'clock"]


common.main("C15", "exploration", body)
