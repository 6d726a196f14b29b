"""Which digits a text names, written or spoken: the multiset of its nonzero digits.

Zeros are left out: positional notation adds and drops them.  Words that can be
read in two ways give two answers, so a text has a set of possible multisets.
"""

import re

ZH = {c: d for d, c in enumerate("零一二三四五六七八九")}
ZH.update({"〇": 0, "两": 2, "兩": 2, "幺": 1})
WIDE = {chr(0xFF10 + d): d for d in range(10)}


def cjk(text, lang):
    """All possible digit lists; 十 (in Japanese also 百, 千) means one of its kind where no digit stands before."""
    bare = "十" if lang == "zh" else "十百千"
    outs = [[]]
    for i, c in enumerate(text):
        ways = [()]
        if c in ZH:
            ways = [(ZH[c],)]
        elif c in WIDE:
            ways = [(WIDE[c],)]
        elif c.isascii() and c.isdigit():
            ways = [(int(c),)]
        elif c in bare:
            if not i or text[i - 1] not in "几幾" and not ZH.get(text[i - 1]):
                ways = [(1,)]
            elif i > 1 and text[i - 2] == "十":         # 十一十: eleven, ten or ten, one ten
                ways = [(), (1,)]
        outs = [out + list(way) for out in outs for way in ways]
    return outs


ONES = "zero one two three four five six seven eight nine".split()
TEENS = "ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split()
TENS = "twenty thirty forty fifty sixty seventy eighty ninety".split()
WORDS = {w: (d,) for d, w in enumerate(ONES)}
WORDS.update({"o": (0,), "oh": (0,), "first": (1,), "third": (3,), "fourth": (4,), "fifth": (5,), "sixth": (6,), "seventh": (7,), "eighth": (8,),
              "ninth": (9,), "half": (2,), "halves": (2,), "quarter": (4,), "zeroth": (0,)})
WORDS.update({w: (1, d) for d, w in enumerate(TEENS)})
WORDS.update({w + "th": (1, d) for d, w in enumerate(TEENS)})
WORDS["twelfth"] = (1, 2)
WORDS.update({w: (d + 2,) for d, w in enumerate(TENS)})
WORDS.update({w[:-1] + "ieth": (d + 2,) for d, w in enumerate(TENS)})
WORDS.update({w[:-1] + "ies": (d + 2,) for d, w in enumerate(TENS)})
for word in list(WORDS):
    if word.endswith(("th", "rd", "er", "en", "ne")):
        WORDS.setdefault(word + "s", WORDS[word])
MONTHS = {m: tuple(int(c) for c in str(i + 1)) for i, m in enumerate(
    "january february march april may june july august september october november december".split())}
SCALES = re.compile(r"(?:hundred|thousand|million|billion|trillion)(?:s|th|ths)?$")


def english(text):
    """All possible digit lists."""
    outs = [[]]
    before = None
    for word in re.findall(r"[a-z]+|[0-9]", text.lower()):
        if word.isdigit():
            ways = [(int(word),)]
        elif word in WORDS:
            ways = [WORDS[word]]
        elif word in ("second", "seconds"):
            ways = [(2,), ()]
        elif word in MONTHS:
            ways = [MONTHS[word], ()]
        elif SCALES.match(word):
            ways = [()] if before in WORDS or before is not None and (before.isdigit() or SCALES.match(before)) else [(1,), ()]
        else:
            ways = [()]
        outs = [out + list(way) for out in outs for way in ways]
        before = word
    return outs


def ordered(lang, text):
    """The possible sequences of nonzero digits, in the order of the text."""
    outs = english(text) if lang == "en" else cjk(text, lang)
    return {"".join(str(d) for d in out if d) for out in outs}


def named(lang, text):
    """The possible multisets of nonzero digits, as sorted strings."""
    return {"".join(sorted(way)) for way in ordered(lang, text)}
