"""Identifiers of each pipeline: (text, pattern its result must match in full).

Addresses, phone, card and serial numbers, number plates and trains are made of
characters, each with its own reading; the pattern spells them out one by one.
"""

import itertools
import re

import readings

WORD = readings.ONES[:10]
EN_SYMBOL = {".": "dot", "-": "dash", "_": "underscore", "/": "slash", "+": "plus", "&": "ampersand", "%": "percent", "=": "equal sign", "~": "tilde"}
DOMAINS = {"com": "com", "org": "org", "gov": "gov", "uk": "UK", "fr": "FR", "net": "net", "br": "BR", "in": "IN", "ru": "RU", "de": "DE", "it": "IT"}
DIGIT = {"zh": "零一二三四五六七八九", "ja": "〇一二三四五六七八九"}


def strings(letters, low, high):
    return ["".join(t) for n in range(low, high + 1) for t in itertools.product(letters, repeat=n)]


def spell(text):
    """An address as spoken; blanks are free, except that something must part two words."""
    out = []
    for piece in re.findall(r"[0-9]+|[a-zA-Z]+|.", text):
        if piece.isdigit():
            ways = [readings.en_digits(piece)]
            if piece == "0" or piece[0] != "0" and len(piece) < 4:
                ways.append(readings.en_integer(piece))
            if len(piece) == 4 and piece.endswith("000"):
                ways.append(WORD[int(piece[0])] + " thousand")
            out.append(" (?:" + "|".join(ways) + ") ")
        elif piece.isalpha():
            out.append(" ?".join(piece))
        else:
            out.append(" " + EN_SYMBOL[piece] + " ")
    return re.sub(" +", " ", "".join(out)).strip()


def en_addresses(thorough):
    users = [u for u in strings("ab1._-", 1, 4 if thorough else 3) if u[0].isalpha()] + ["user1000", "x3000y", "service", "part12", "x0", "a+b", "a&b", "a%b", "a=b", "a~b", "info", "A1B2"]
    hosts = ["ab", "a1", "a-b", "a.b", "x1.y2", "b0", "ab-1"]
    for user, (domain, spoken) in itertools.product(users, [("com", "com"), ("org", "org")]):
        yield user + "@cd." + domain, spell(user) + " at c ?d dot " + spoken
    for host, (domain, spoken) in itertools.product(hosts, DOMAINS.items()):
        dot = " dot (?:" + spoken + "|" + " ?".join(spoken.lower()) + ")"
        yield "a1@" + host + "." + domain, "a one at " + spell(host) + dot
        for protocol, said in (("", ""), ("www.", "WWW dot "), ("http://", "HTTP colon slash slash "), ("https://", "HTTPS colon slash slash "),
                               ("https://www.", "HTTPS colon slash slash WWW dot ")):
            if domain in ("com", "org", "net") or protocol:
                yield protocol + host + "." + domain, said + spell(host) + dot
                for path in ("x", "x-1", "x/y", "10", "a_b") if domain == "com" else ():
                    yield protocol + host + "." + domain + "/" + path, said + spell(host) + dot + " slash " + spell(path)


def said_digits(digits):
    return " ".join(WORD[int(d)] for d in digits)


def en_phones(thorough):
    numbers = {"1234567890", "8001234567", "8008008000"}
    for i in range(10):
        for d in "0123456789":
            numbers.add("2345678901"[:i] + d + "2345678901"[i + 1:])
    for n in sorted(numbers):
        area, mid, last = n[:3], n[3:6], n[6:]
        said = (said_digits(area) if area != "800" else "eight hundred") + ", " + said_digits(mid) + ", " + said_digits(last)
        yield f"{area}-{mid}-{last}", said
        yield f"({area}) {mid}-{last}", said
        yield f"({area})-{mid}-{last}", said
        yield f"{area}.{mid}.{last}", said
        for code in ("1", "86", "358") if thorough or n < "3" else ("1",):
            yield f"+{code} {area}-{mid}-{last}", "plus " + said_digits(code) + ", " + said
            yield f"+{code}-{area}-{mid}-{last}", "plus " + said_digits(code) + ", " + said
        yield f"{area}-{mid[:2]}-{mid[2]}{last[:3]}", said_digits(area) + ", " + said_digits(mid[:2]) + ", " + said_digits(mid[2] + last[:3])


OCTETS = ["0", "9", "10", "87", "100", "192", "255"]


def ips(thorough):
    return [".".join(t) for t in itertools.product(OCTETS if thorough else OCTETS[:1] + OCTETS[2:3] + OCTETS[4:6], repeat=4)]


def en_serials(thorough):
    numbers = [str(n) for n in range(1, 130)] + ["00", "07", "012", "999", "1000", "2025"] + ["1234567890123456"[:n] for n in range(6, 17)] + ["1" + "0" * n for n in range(4, 16)]
    if thorough:
        numbers += [str(n) for n in range(130, 1100)]
    for n in numbers:
        said = "(?:" + readings.en_number(n) + ")"
        for left, right in itertools.product(("B", "ab", ""), ("c", "XY", "")):
            if not left and not right:
                continue
            for mark in "-/":
                if left and not right:
                    yield left + mark + n + mark + "9", left + mark + said + mark + "nine"
                elif right and not left:
                    yield n + mark + right + mark + "9", said + mark + right + mark + "nine"
                else:
                    yield left + mark + n + mark + right, left + mark + said + mark + right


def en_tn(thorough):
    yield from en_addresses(thorough)
    yield from en_phones(thorough)
    for ip in ips(thorough):
        yield ip, " dot ".join(said_digits(o) for o in ip.split("."))
    yield from en_serials(thorough)


def cjk_tn(lang, thorough):
    digit = DIGIT[lang]
    zero = digit[0] if lang == "zh" else "(?:〇|ゼロ)"

    def said(text, one="一"):
        return "".join(zero if c == "0" else one if c == "1" else digit[int(c)] if c.isdigit() else c for c in text)
    for ip in ips(thorough):
        yield ip, said(ip).replace(".", "点")
    one = "[一幺]" if lang == "zh" else "一"
    gap = "" if lang == "zh" else "の"
    if lang == "zh":                # area or service numbers and mobiles, in groups
        shapes = [("138", (3, 4, 4)), ("0", (3, 8)), ("400", (3, 3, 4)), ("400", (3, 4, 3))]
    else:
        shapes = [("090", (3, 4, 4)), ("03", (2, 4, 4)), ("090", (3, 3, 4)), ("03", (2, 3, 4))]
    for head, sizes in shapes:
        for i in range(1, sum(sizes)):
            for d in "0123456789":
                n = (head + "23456789012"[len(head) - 1:])[:sum(sizes)]
                if lang == "zh" and i < len(head) or lang == "ja" and (i == 1 and d == "0" or i == 2 and sizes[0] == 3):
                    continue
                n = n[:i] + d + n[i + 1:]
                ends = [sum(sizes[:k]) for k in range(len(sizes) + 1)]
                yield "-".join(n[p:q] for p, q in zip(ends, ends[1:])), gap.join(said(n[p:q], one) for p, q in zip(ends, ends[1:]))
                if sizes == (3, 4, 4) or lang == "ja" and sizes == (2, 4, 4):
                    yield n, said(n, one)
                if lang == "ja":
                    yield "+81-" + n[:sizes[0]] + "-" + n[sizes[0]:-4] + "-" + n[-4:], "プラス八一の" + gap.join(said(n[p:q], one) for p, q in zip(ends, ends[1:]))


def cjk_itn(lang, thorough):
    digit = DIGIT[lang]

    def say(text):
        return "".join(digit[int(c)] if c.isdigit() else c for c in text)
    for ip in ips(thorough):
        yield say(ip).replace(".", "点"), re.escape(ip)
    for i in range(11):
        for d in "0123456789":
            n = "13823456789"[:i] + d + "13823456789"[i + 1:]
            if lang == "ja" or n[0] == "1":
                yield say(n), n
    if lang == "ja":
        return
    for province in "京津沪渝冀豫云辽黑湘皖鲁新苏浙赣鄂桂甘晋蒙陕吉闽贵粤青藏川宁琼":
        for n in ("12345", "90807", "A1234", "1234B", "66666", "D12345", "00123", "12345F"):
            yield province + "A" + say(n), province + "A" + n
    for n in strings("0189A", 5, 5):
        if thorough or n[0] in "1A":
            yield "京B" + say(n), "京B" + n
    for spoken, prefix in zip("高动特快直", "GDTKZ"):
        for n in [f"{i:03}" for i in range(0, 1000, 1 if thorough else 7)] + [f"{i:04}" for i in range(1000, 10000, 11 if thorough else 333)]:
            yield spoken + say(n), prefix + n


SPOKEN_SYMBOL = {".": "dot", "-": "dash", "_": "underscore"}


def speak(text):
    return " ".join(WORD[int(c)] if c.isdigit() else SPOKEN_SYMBOL.get(c, c) for c in text)


def segmentations(digits):
    """Every way of saying digits one by one, doubled, tripled or in twos."""
    if not digits:
        yield ()
        return
    heads = [(WORD[int(digits[0])], 1)]
    if digits[:2] == digits[0] * 2:
        heads.append(("double " + WORD[int(digits[0])], 2))
    if digits[:3] == digits[0] * 3:
        heads.append(("triple " + WORD[int(digits[0])], 3))
    if len(digits) > 1 and digits[0] != "0" and (digits[0] == "1" or digits[1] != "0"):
        heads.append((readings.en_two(int(digits[:2])).replace("[ -]", " "), 2))
    for head, size in heads:
        for rest in segmentations(digits[size:]):
            yield (head,) + rest


def en_itn(thorough):
    for user in strings("ab1_.-", 1, 4 if thorough else 3):
        if user[0] in "ab" and user[-1] in "ab1" and not re.search("[_.-]{2}", user):
            yield speak(user) + " at c d dot com", re.escape(user + "@cd.com")
    for server in "gmail nvidia outlook hotmail yahoo aol gmx msn live yandex orange web comcast google".split():
        for domain in "com uk fr net br in ru de it ai".split():
            yield "b at " + server + " dot " + domain, re.escape("b@" + server + "." + domain)
            yield "w w w dot " + server + " dot " + domain, re.escape("www." + server + "." + domain)
            yield "h t t p s colon slash slash w w w dot " + server + " dot " + domain, re.escape("https://www." + server + "." + domain)
            yield "h t t p colon slash slash " + server + " dot " + domain + " slash a one", re.escape("http://" + server + "." + domain + "/a1")
    for n in {"2345678901"[:i] + d + "2345678901"[i + 1:] for i in range(10) for d in "0123456789"}:
        phone = n[:3] + "-" + n[3:6] + "-" + n[6:]
        yield said_digits(n), phone
        for code in ("1", "86", "358"):
            yield "plus " + said_digits(code + n), re.escape("+" + code + " " + phone)
    base = ["2233344456", "1122233344"] + (["1234567890", "5550055577"] if thorough else [])
    for n in base:
        for way in segmentations(n if thorough else n[:5]):
            yield " ".join(way) + ("" if thorough else " " + said_digits(n[5:])), n[:3] + "-" + n[3:6] + "-" + n[6:]
    for n in {"234567890"[:i] + d + "234567890"[i + 1:] for i in range(9) for d in "0123456789"}:
        yield said_digits(n), n[:3] + "-" + n[3:5] + "-" + n[5:]
    for sizes in ((4, 4, 4, 4), (4, 6, 4), (4, 6, 5)):
        for i in range(sum(sizes)):
            for d in "0123456789":
                n = "4234567890123456"[:sum(sizes)]
                n = n[:i] + d + n[i + 1:]
                parts, at = [], 0
                for size in sizes:
                    parts.append(n[at:at + size])
                    at += size
                yield said_digits(n), " ".join(parts)
    for ip in ips(thorough):
        yield " dot ".join(said_digits(o) for o in ip.split(".")), re.escape(ip)
    for octet in ["10", "11", "19", "55", "87", "99", "111", "115", "192", "199", "217", "225"]:
        for way in segmentations(octet):
            if any(w.startswith("double") for w in way) and len(way) > 1:
                continue                                # doubles stand alone in an address
            said = " ".join(way)
            for i in range(4):
                yield " dot ".join(["one"] * i + [said] + ["one"] * (3 - i)), re.escape(".".join(["1"] * i + [octet] + ["1"] * (3 - i)))
            yield " dot ".join([said] * 4), re.escape(".".join([octet] * 4))
    tokens = ["b", "c", "one", "two", "three", "zero"]
    for n in range(3, 6 if thorough else 5):
        for t in itertools.product(tokens, repeat=n):
            if t[0] in "bc" and any(len(x) > 1 for x in t):
                yield " ".join(t), "".join(str(WORD.index(x)) if len(x) > 1 else x for x in t)


def texts(name, thorough):
    if name == "en_tn":
        out = en_tn(thorough)
    elif name == "en_itn":
        out = en_itn(thorough)
    else:
        lang, way = name.split("_")
        out = (cjk_tn if way == "tn" else cjk_itn)(lang, thorough)
    return list(dict.fromkeys(out))
