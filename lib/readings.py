"""What a written number sounds like: all accepted readings, as regular expressions.

Written from the number systems of the three languages, not from the grammars.
A reading is accepted if it denotes exactly the value (conventional variants
included), or names exactly the written digits.
"""

import re
from fractions import Fraction

ZH = "零一二三四五六七八九"


def zh_group(digits, first):
    """Readings of one four-digit group, without the leading zero rule."""
    out, zero = "", False
    digits = digits.lstrip("0")
    units = ["", "十", "百", "千"]
    for i, d in enumerate(digits):
        unit = units[len(digits) - 1 - i]
        if d == "0":
            zero = True
            continue
        if zero:
            out += "零"
            zero = False
        if unit == "十" and d == "1":
            out += "一?十" if first and i == 0 else "一十"
        else:
            out += ("[二两]" if d == "2" and unit in ("百", "千") else ZH[int(d)]) + unit
    return out


def zh_integer(digits):
    """Regex for the value reading of an integer of up to 12 digits, no leading zeros."""
    if digits == "0":
        return "零"
    padded = digits.zfill(12)
    groups = [padded[0:4], padded[4:8], padded[8:12]]
    out, started, gap = "", False, False
    for group, unit in zip(groups, ("亿", "万", "")):
        if int(group) == 0:
            gap = gap or started
            continue
        if started:
            if gap or int(group) < 1000:
                out += "零"
            elif out_last.endswith("0"):
                out += "零?"
        text = zh_group(group, not started)
        if text == "二" and unit:
            text = "[二两]"
        out += text + unit
        out_last = group
        started, gap = True, False
    return out


def zh_digits(digits):
    return "".join("[一幺]" if d == "1" else "[零〇]" if d == "0" else ZH[int(d)] for d in digits)


def zh_number(integer, fraction=None):
    """Accepted readings of an unsigned written number (integer digits, fraction digits)."""
    ways = [zh_digits(integer)]
    if len(integer) <= 12 and (integer == "0" or integer[0] != "0"):
        ways.append(zh_integer(integer))
    elif len(integer) <= 12 and integer.strip("0"):   # leading zeros by name, then the value
        rest = integer.lstrip("0")
        ways.append(zh_digits("0" * (len(integer) - len(rest))) + zh_integer(rest))
    out = "(?:" + "|".join(ways) + ")"
    if fraction is not None:
        out += "点" + "".join(ZH[int(d)] for d in fraction)
    return out


JA = "〇一二三四五六七八九"


def ja_group(digits):
    out = ""
    digits = digits.lstrip("0")
    for i, d in enumerate(digits):
        unit = ["", "十", "百", "千"][len(digits) - 1 - i]
        if d == "0":
            continue
        if d == "1" and unit:
            out += ("一?" if unit != "十" else "") + unit
        else:
            out += JA[int(d)] + unit
    return out


def ja_integer(digits):
    if digits == "0":
        return "[〇零]"
    padded = digits.zfill(16)
    out = ""
    for i, unit in enumerate(("兆", "億", "万", "")):
        group = padded[4 * i:4 * i + 4]
        if int(group):
            out += ja_group(group) + unit
    return out


def ja_digits(digits):
    return "".join("[〇零]" if d == "0" else JA[int(d)] for d in digits)


def ja_number(integer, fraction=None):
    ways = [ja_digits(integer)]
    if len(integer) <= 16 and (integer == "0" or integer[0] != "0"):
        ways.append(ja_integer(integer))
    elif integer.strip("0"):                          # leading zeros by name, then the value
        rest = integer.lstrip("0")
        ways.append(ja_digits("0" * (len(integer) - len(rest))) + ja_integer(rest))
    out = "(?:" + "|".join(ways) + ")"
    if fraction is not None:
        out += "[点・]" + ja_digits(fraction)
    return out


ONES = ("zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen "
        "sixteen seventeen eighteen nineteen").split()
TENS = "_ ten twenty thirty forty fifty sixty seventy eighty ninety".split()


def en_two(n):
    if n < 20:
        return ONES[n]
    return TENS[n // 10] + ("[ -]" + ONES[n % 10] if n % 10 else "")


def en_three(n):
    out = []
    if n >= 100:
        out.append(("(?:one|a)" if n // 100 == 1 else ONES[n // 100]) + " hundred")
    if n % 100:
        out.append(("(?:and )?" if out else "") + en_two(n % 100))
    return " ".join(out).replace(") ", ")").replace(")hundred", ") hundred")


def en_integer(digits):
    n = int(digits)
    if n == 0:
        return "zero"
    names = ["", "thousand", "million", "billion", "trillion"]
    groups = []
    while n:
        groups.append(n % 1000)
        n //= 1000
    if len(groups) > len(names):
        return None
    out = []
    for i in range(len(groups) - 1, -1, -1):
        g = groups[i]
        if not g:
            continue
        if g == 1 and i and not out:
            out.append("(?:one |a |)" + names[i] if i == 1 else "(?:one|a) " + names[i])
        else:
            joint = "(?:and )?" if out and i == 0 and g < 100 else ""
            out.append(joint + en_three(g) + (" " + names[i] if i else ""))
    return " ".join(out)


def en_digits(digits):
    return " ".join("(?:zero|oh|o)" if d == "0" else ONES[int(d)] for d in digits)


def en_number(integer, fraction=None):
    plain = integer.replace(",", "")
    ways = [en_digits(plain)] if integer == plain else []
    if plain == "0" or plain[:1] != "0":
        value = en_integer(plain)
        if value is not None:
            ways.append(value)
        if len(plain) == 4 and fraction is None:      # in hundreds: "nineteen ninety", "twelve hundred"
            high, low = int(plain[:2]), int(plain[2:])
            ways.append(en_two(high) + " " + ("hundred" if low == 0 else "(?:oh|o|zero|hundred|hundred and) " + en_two(low)
                                              if low < 10 else "(?:hundred (?:and )?)?" + en_two(low)))
    elif plain.lstrip("0"):                           # leading zeros by name, then the value
        rest = plain.lstrip("0")
        ways.append(en_digits("0" * (len(plain) - len(rest))) + " " + en_integer(rest))
    if fraction is not None and not integer:
        out = ""
    else:
        out = "(?:" + "|".join(ways) + ")"
    if fraction is not None:
        out += (" " if out else "(?:zero )?") + "point " + en_digits(fraction)
    return out


try:
    import re._parser as _parser
except ImportError:
    import sre_parse as _parser


def expand(pattern):
    """Every string of a finite pattern made of literals, sets, groups, | and ?."""
    def strings(tree):
        outs = [""]
        for op, arg in tree:
            op = str(op)
            if op == "LITERAL":
                alternatives = [chr(arg)]
            elif op == "IN":
                alternatives = [chr(code) for _, code in arg]
            elif op == "SUBPATTERN":
                alternatives = strings(arg[-1])
            elif op == "BRANCH":
                alternatives = [t for branch in arg[1] for t in strings(branch)]
            elif op == "MAX_REPEAT" and arg[:2] == (0, 1):
                alternatives = [""] + strings(arg[2])
            else:
                raise ValueError(op)
            outs = [o + a for o in outs for a in alternatives]
        return outs
    return list(dict.fromkeys(strings(_parser.parse(pattern))))


SCALE = {"兆": 10 ** 12, "億": 10 ** 8, "亿": 10 ** 8, "万": 10 ** 4, "": 1}
EN_SCALE = {None: 1, "hundred": 100, "thousand": 1000, "million": 10 ** 6, "billion": 10 ** 9, "trillion": 10 ** 12}


def written_value(text, language):
    """The value of a written number (digits, with 万/亿 or million), or None."""
    if language == "en":
        m = re.fullmatch(r"(-)?(\d+(?:\.\d+)?|\.\d+)(?: (hundred|thousand|million|billion|trillion))?", text)
        if not m:
            return None
        value = Fraction("0" + m[2] if m[2][0] == "." else m[2]) * EN_SCALE[m[3]]
        return -value if m[1] else value
    m = re.fullmatch(r"([-+])?((?:\d+(?:\.\d+)?[兆億亿万]?)+)(零[一二三四五六七八九])?", text)
    if not m:
        return None
    total, last = Fraction(0), None
    for number, unit in re.findall(r"(\d+(?:\.\d+)?)([兆億亿万]?)", m[2]):
        part = Fraction(number) * SCALE[unit]
        if last is not None and part >= last:
            return None
        last = SCALE[unit]
        total += part
    if m[3]:
        if not last or last < 10:
            return None
        total += ZH.index(m[3][1])
    return -total if m[1] == "-" else total


def matches(pattern, text):
    return re.fullmatch(pattern, text) is not None
