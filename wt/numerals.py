"""An independent reading of written and spoken numerals (Arabic, Roman, Chinese, Japanese, English), months, weekdays and day halves.

Written from the number systems themselves, not from the grammars under analysis.
"""
import re
import unicodedata

HAN = {}
for v, cs in enumerate(["零〇○洞", "一壹幺弌", "二贰貳弐两兩俩倆双", "三叁參参仨", "四肆", "五伍", "六陆陸", "七柒拐", "八捌", "九玖勾"]):
    for c in cs:
        HAN[c] = v
SCALE = {"十": 10, "拾": 10, "百": 100, "佰": 100, "千": 1000, "仟": 1000}
BIG = {"万": 10**4, "萬": 10**4, "亿": 10**8, "億": 10**8, "兆": 10**12}
SHORT = {"廿": 20, "卅": 30, "卌": 40}
KANA = {"れい": 0, "ゼロ": 0, "ぜろ": 0, "まる": 0, "いち": 1, "に": 2, "さん": 3, "よん": 4, "し": 4, "ご": 5, "ろく": 6, "なな": 7, "しち": 7, "はち": 8,
        "きゅう": 9, "く": 9, "じゅう": 10}
UNITS = ("月", "日", "号", "號", "点钟", "点", "點", "时", "時", "分钟", "分", "秒钟", "秒", "年", "度")
PARTS = {"半": 30, "一刻": 15, "一刻钟": 15, "三刻": 45, "三刻钟": 45}

ONES = {w: n for n, w in enumerate("zero one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen".split())}
ONES.update({"oh": 0, "o": 0})
TENS = {w: 10 * (n + 2) for n, w in enumerate("twenty thirty forty fifty sixty seventy eighty ninety".split())}
TENS["fourty"] = 40
LARGE = {"thousand": 10**3, "million": 10**6, "billion": 10**9, "trillion": 10**12}
ORD = {"first": "one", "second": "two", "third": "three", "fifth": "five", "eighth": "eight", "ninth": "nine", "twelfth": "twelve"}
MONTHS = "january february march april may june july august september october november december".split()
DAYS = "monday tuesday wednesday thursday friday saturday sunday".split()
JADAYS = "月火水木金土日"
HALVES = {"am": ("am", "a.m", "上午", "早上", "早晨", "凌晨", "清晨", "午前"), "pm": ("pm", "p.m", "下午", "晚上", "中午", "傍晚", "午後")}
ROMAN = {"i": 1, "v": 5, "x": 10, "l": 50, "c": 100, "d": 500, "m": 1000}


def arabic(t):
    t = unicodedata.normalize("NFKC", t)
    return {int(t)} if re.fullmatch(r"[0-9]+", t) else set()


def han(t):
    """The numbers a Chinese or Japanese numeral can denote: positional, or digit by digit."""
    if not t or any(c not in HAN and c not in SCALE and c not in BIG and c not in SHORT for c in t):
        return set()
    if all(c in HAN for c in t):
        return {int("".join(str(HAN[c]) for c in t))}
    total = section = 0
    num, last = None, None
    for c in t:
        if c in HAN:
            if num not in (None, 0):
                return set()
            num = HAN[c]
        elif c in SHORT:
            section, num, last = section + SHORT[c], None, 10
        elif c in SCALE:
            if last is not None and SCALE[c] >= last:
                return set()
            section, last, num = section + (1 if num is None else num) * SCALE[c], SCALE[c], None
        else:
            section += num or 0
            if section == 0:
                return set()
            total, section, num, last = total + section * BIG[c], 0, None, None
    return {total + section + (num or 0)}


def english(t):
    ws = re.split(r"[\s-]+", t.strip().lower())
    if not ws or not all(ws):
        return set()
    w = ws[-1]
    if w in ORD:
        ws[-1] = ORD[w]
    elif w.endswith("ieth"):
        ws[-1] = w[:-4] + "y"
    elif w.endswith("th") and w[:-2] in list(ONES) + ["hundred"] + list(LARGE):
        ws[-1] = w[:-2]
    total = cur = 0
    seen = False
    digits = []
    for w in ws:
        if w == "and" and seen:
            continue
        if w in ONES:
            digits.append(ONES[w])
            cur += ONES[w]
        elif w in TENS:
            cur += TENS[w]
        elif w == "hundred":
            cur = (cur or 1) * 100
        elif w in LARGE:
            total, cur = total + (cur or 1) * LARGE[w], 0
        else:
            return set()
        seen = True
    out = {total + cur}
    if len(digits) == len(ws) > 1 and all(d < 10 for d in digits):
        out = {int("".join(map(str, digits)))}
    return out


def roman(t):
    l = t.lower()
    if not l or any(c not in ROMAN for c in l):
        return set()
    n = sum(-ROMAN[c] if i + 1 < len(l) and ROMAN[l[i + 1]] > ROMAN[c] else ROMAN[c] for i, c in enumerate(l))
    back = "".join("I II III IV V VI VII VIII IX".split()[d - 1] if d else "" for d in []) or write_roman(n)
    return {n} if back == l else set()


def write_roman(n):
    out = ""
    for v, s in ((1000, "m"), (900, "cm"), (500, "d"), (400, "cd"), (100, "c"), (90, "xc"), (50, "l"), (40, "xl"), (10, "x"), (9, "ix"), (5, "v"), (4, "iv"), (1, "i")):
        while n >= v:
            out, n = out + s, n - v
    return out


def month(t):
    l = t.lower().rstrip(".")
    return {n for n, m in enumerate(MONTHS, 1) if l == m or l == m[:3] or m == "september" and l == "sept"}


def weekday(t):
    l = t.lower().rstrip(".")
    out = {n for n, d in enumerate(DAYS, 1) if len(l) >= 2 and d.startswith(l) or l == {"thursday": "thurs"}.get(d)}
    m = re.fullmatch("([月火水木金土日])(?:曜日?)?", t)
    return out if len(out) == 1 else {JADAYS.index(m[1]) + 1} if m else set()


def half(t):
    l = t.lower().replace(" ", "").rstrip(".")
    l = {"a.m": "am", "p.m": "pm"}.get(l, l)
    return {k for k, v in HALVES.items() if l in v}


def numbers(t):
    """Every whole number the text can denote, as a plain count."""
    out = arabic(t) | han(t) | english(t)
    if t in KANA:
        out = out | {KANA[t]}
    return out


def measured(t):
    """Numbers with an optional unit of the calendar or the clock."""
    out = numbers(t)
    for u in UNITS:
        if t.endswith(u):
            out = out | numbers(t[:-len(u)])
    if t in PARTS:
        out = out | {PARTS[t]}
    return out


def fraction(t):
    if len(t) == 1 and unicodedata.decomposition(t).startswith("<fraction>"):
        t = unicodedata.normalize("NFKC", t).replace("\u2044", "/")
    m = re.fullmatch(r"(\d+)/(\d+)", t)
    return {(int(m[1]), int(m[2]))} if m else set()
