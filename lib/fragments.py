"""Inventories of text fragments, one or more per token kind and script."""

FRAGMENTS = {
    "zh_tn": ["2025年1月2日", "2025-01-02", "10:30", "下午3:05:09", "1/3", "3.5%", "$12.05", "￥100", "-5", "1+1=2", "3-5岁", "13812345678",
              "010-12345678", "25kg", "100km/h", "比分3:2", "127.0.0.1", "GDP", "你好", "一儿", "啊", "Ａ", "喆", "hello", "“x”", "\\", "\"q\"",
              "😀", "1.23", "007", "8:00~9:00", "第1名", "1,000", "3°C", "@"],
    "ja_tn": ["2025年1月2日", "2025/01/02", "10:30", "午後3時5分", "1/3", "3.5%", "$12.05", "100円", "-5", "1+1=2", "3~5歳", "090-1234-5678",
              "25kg", "3:2", "127.0.0.1", "こんにちは", "カタカナ", "Ａ", "hello", "「x」", "\\", "\"q\"", "😀", "1.23", "007", "1,000", "10万円", "第1回"],
    "en_tn": ["january 5, 2012", "2012-01-05", "10:30 am", "7:05", "1/3", "3.5%", "$12.05", "-5", "3-5", "1st", "22nd", "+1 (123) 456-7890", "25 kg",
              "100 km/h", "a@b.com", "www.abc.com/x", "B2C", "$1.5 million", "hello", "U.S.", "\"q\"", "\\", "1.23", "007", "1,000", "é", "😀", "mr.",
              "3Q22", "<b>", "1999", "12 dollars", "2 3/4"],
    "zh_itn": ["二零二五年一月二日", "十点半", "下午三点零五分", "三分之一", "百分之三点五", "十二点零五元", "负五", "一加一等于二", "三到五岁", "幺三八幺二三四五六七八",
               "二十五千克", "一百公里每小时", "比分三比二", "你好", "一点二三", "零零七", "第一名", "两万五", "三百五十万", "hello", "一九九九年", "\"q\"", "\\", "😀",
               "a点b", "万", "十", "一", "三十", "五五开"],
    "ja_itn": ["二〇二五年一月二日", "十時半", "午後三時五分", "三分の一", "三点五パーセント", "百円", "マイナス五", "二十五キログラム", "三百五十万円", "こんにちは", "一点二三", "〇〇七",
               "第一回", "hello", "\"q\"", "\\", "😀", "十", "一", "三十", "カタカナ", "Ａ"],
    "en_itn": ["january fifth twenty twelve", "ten thirty a m", "seven o five p m", "one third", "three point five percent", "twelve dollars and five cents",
               "minus five", "first", "twenty second", "one two three four five six seven eight nine o", "twenty five kilograms", "a at b dot com", "hello",
               "twenty one", "one point two three", "nineteen ninety nine", "two and three quarters", "five million dollars", "\"q\"", "\\", "é", "😀", "mister smith",
               "one hundred and twenty three", "the", "u s"],
}

# Punctuation which ends a clause and joins nothing.
SEPARATORS = {"zh_tn": ["，", "。", "；"], "ja_tn": ["、", "。"], "en_tn": ["; ", "! "], "zh_itn": ["，", "。"], "ja_itn": ["、", "。"], "en_itn": [" ; ", " ! "]}
