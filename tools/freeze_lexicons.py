"""Developer tool: write spec/lexicons.json, the lexicon rows C16 and C17 hold the code to.

Checks never run this: they compare the code with the committed copy, so that a
row lost from the tables is seen.
"""
import json
import os
import sys

REPO = sys.argv[1] if len(sys.argv) > 1 else "/repo"
TABLES = """
tn/chinese/data: measure/units_en measure/units_zh money/code money/symbol sport/club sport/country default/whitelist
 default/blacklist erhua/whitelist cardinal/phone math/operator math/operator_unambiguous char/traditional_to_simple
 char/fullwidth_to_halfwidth char/charset_national_standard_2013_8105 char/charset_extension char/punctuations_zh time/noon
tn/japanese/data: measure/units_en measure/units_ja money/code money/symbol sport/club sport/country default/whitelist
 math/operator char/fullwidth_to_halfwidth char/hiragana_and_katakana char/common_chinese_char char/punctuations_ja
 pyopenjtalk/transliteration date/date time/noon
tn/english/data: measure/unit measure/unit_alternatives suppletive money/currency_major money/currency_minor_plural
 money/currency_minor_singular money/per_unit electronic/symbol electronic/domain electronic/words number/fraction
 number/quantity_abbr number/thousand date/week date/month_abbr date/month_name date/year_suffix time/suffix time/zone
 whitelist/tts whitelist/symbol whitelist/alternatives roman/male roman/female roman/roman_to_spoken roman/key_word
 address/address_word address/state telephone/telephone_prompt telephone/ssn_prompt telephone/ip_prompt
 measure/math_operation
itn/chinese/data: measure/units_en measure/units_zh money/code money/symbol default/whitelist default/blacklist
 license_plate/province train_number/prefix number/repeat_digit number/special_dash number/special_tilde math/operator
 number/sign time/noon
itn/japanese/data: measure/unit_en measure/unit_ja money/symbol default/whitelist math/operator number/sign date/week
itn/english/data: currency measurements whitelist electronic/symbols electronic/domain electronic/server_name magnitudes
 time/time_suffix time/time_zone date_period year_suffix numbers/thousands
"""
out = {}
base = None
for word in TABLES.split():
    if word.endswith(":"):
        base = word[:-1]
        continue
    path = os.path.join(REPO, base, word + ".tsv")
    with open(path, encoding="utf-8") as f:
        rows = [line.rstrip("\n").split("\t") for line in f]
    out["{}/{}".format("_".join(base.split("/")[:2][::-1]).replace("chinese", "zh").replace("japanese", "ja").replace("english", "en"),
                       word)] = [r for r in rows if r != [""]]
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "lexicons.json"), "w", encoding="utf-8") as f:
    json.dump(out, f, ensure_ascii=False, separators=(",", ":"))
print(len(out), sum(map(len, out.values())))
