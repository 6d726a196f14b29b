"""Bounded spaces of texts: all token strings over small alphabets, and number-mark shapes."""

import itertools

ALPHABET = {
    "zh_tn": list("0125.,-/:%~ a年月日￥+=第万x点个") + ["kg"],
    "ja_tn": list("0125.,-/:%~ a年月日￥+=第万x時回") + ["kg"],
    "en_tn": list("0125.,-/:% a$+=s#@") + ["kg", "x", "st", "pm"],
    "zh_itn": list("零一二五九十百千万亿点负第月号年分元比a到") + ["分之"],
    "ja_itn": list("〇一二五九十百千万億点第月日年分円a時") + ["マイナス", "分の"],
    "en_itn": "zero one two five ten eleven twenty hundred thousand million and point minus first fifth percent dollars may past a of o'clock".split(),
}
NUMBERS = {"tn": ["5", "05", "12", "123", "2025", "12345", "13812345678"],
           "zh_itn": ["五", "十二", "一百零五", "三千", "二零二五", "十五万", "二十"], "ja_itn": ["五", "十二", "百五", "三千", "二〇二五", "十五万", "二十"],
           "en_itn": ["five", "twelve", "one hundred five", "three thousand", "twenty twenty five", "twenty", "third"]}
MARKS = {"tn": [".", ",", "-", "/", ":", "~", " ", "x", "+", "*"],
         "zh_itn": ["点", "分之", "到", "比", "月", "年", "分", "乘", "加", "号"], "ja_itn": ["点", "分の", "から", "対", "月", "年", "分", "プラス", "時", "日"],
         "en_itn": [" point ", " and ", " ", " of ", " past ", " o'clock ", " over ", " in ", " by ", " plus "]}
BEFORE = {"zh_tn": ["", "￥", "$", "第", "-", "a", "约", "No."], "ja_tn": ["", "￥", "$", "第", "-", "a", "約", "No."], "en_tn": ["", "$", "€", "#", "-", "a", "no. ", "+"],
          "zh_itn": ["", "第", "负", "百分之", "a"], "ja_itn": ["", "第", "マイナス", "a", "約"], "en_itn": ["", "minus ", "may ", "the ", "a "]}
AFTER = {"zh_tn": ["", "%", "kg", "元", "年", "月", "岁", "个", "万", "后", "km/h", "a", "℃"], "ja_tn": ["", "%", "kg", "円", "年", "月", "歳", "個", "万", "時", "km/h", "a", "℃"],
         "en_tn": ["", "%", " kg", " million", "th", "s", "pm", " may", "m", " km/h", "a", "°C"],
         "zh_itn": ["", "千克", "元", "年", "月", "岁", "个", "万", "公里每小时", "a", "美元", "摄氏度"], "ja_itn": ["", "キログラム", "円", "年", "月", "歳", "個", "万", "a", "ドル", "パーセント"],
         "en_itn": ["", " percent", " kilograms", " dollars", " million", " pm", " may", " years", " a"]}


def texts(name, thorough):
    """The texts of one pipeline, shortest first."""
    way = name if name in NUMBERS else "tn"
    glue = " " if name == "en_itn" else ""
    out = [glue.join(t) for n in range(1, 5 if thorough else 4) for t in itertools.product(ALPHABET[name], repeat=n)]
    numbers, marks = NUMBERS[way], MARKS[way]
    for n in range(1, 4):
        for pieces in itertools.product(numbers if n < 3 or thorough else numbers[:5], repeat=n):
            for joints in itertools.product(marks if n < 3 or thorough else marks[:7], repeat=n - 1):
                out.append("".join(a + b for a, b in zip(pieces, joints + ("",))))
    for before, a, mark, b, after in itertools.product(BEFORE[name], numbers[:6], marks + [None], numbers[:6], AFTER[name]):
        out.append(before + (a + mark if mark is not None else "") + b + after)
    if thorough:
        few = {"tn": (["5", "12", "2025"], [".", "-", "/", ":", " ", ","])}.get(way, (numbers[:3], marks[:6]))
        for pieces in itertools.product(few[0], repeat=4):
            for joints in itertools.product(few[1], repeat=3):
                out.append("".join(a + b for a, b in zip(pieces, joints + ("",))))
    return list(dict.fromkeys(t for t in out if t.strip()))
