"""D02: every numeric data table pairs numerals that mean the same, covers its range, and gives no key two meanings."""
import os
import re

from ..absint import AnalysisError
from ..fstlang import file_rows
from ..grammar import extract
from ..numerals import HAN, arabic, english, fraction, half, han, measured, month, numbers, roman, weekday
from .resources import Every
from .wirecheck import label, spread, variants

LARGE = {"k": "thousand", "m": "million", "mln": "million", "b": "billion", "bn": "billion", "bln": "billion", "t": "trillion"}
SIGNS = [("+", "正", "加", "プラス"), ("±", "正负", "プラスマイナス"), ("-", "负", "负的", "減", "减", "負", "負の", "负の", "マイナス"), (".", "点", "點"),
         ("×", "乘", "カケル"), ("÷", "除", "ワル"), ("=", "等于", "イコール"), ("~", "到", "から"), (":", "比", "対"), (">", "大なり"), ("<", "小なり"),
         ("≥", ">=", "大于等于", "大なりイコール"), ("≤", "<=", "小于等于", "小なりイコール")]
ERAS = {"ad": ("ad", "anno domini"), "bc": ("bc", "before christ"), "bce": ("bce", "before common era"), "ce": ("ce", "common era")}


def spelled(t):
    return [HAN[c] for c in t] if t and all(c in HAN for c in t) else None


def pair(f, g=None):
    """A kind of table: both sides read, and what they read agrees."""
    def same(a, b):
        x, y = f(a), (g or f)(b)
        return x & y
    return same


def sign(t):
    return {l[0] for l in SIGNS if t in l}


def era(t):
    l = re.sub(r"[. ]", "", t.lower())
    return {k for k, v in ERAS.items() if l == k or t.lower() in v}


def amount(t):
    l = t.lower()
    return {LARGE.get(l, l)} & set(LARGE.values())


def period(t):
    m = re.fullmatch(r"([QH])(\d)", t)
    if m:
        return {(m[1], int(m[2]))}
    ws = t.lower().split()
    if len(ws) == 2 and ws[0] in ("q", "h"):
        return {(ws[0].upper(), n) for n in english(ws[1])}
    if len(ws) == 2 and ws[1] in ("quarter", "half"):
        return {({"quarter": "Q", "half": "H"}[ws[1]], n) for n in english({"second": "two"}.get(ws[0], ws[0]))}
    return set()


def tens(a, b):
    return {x for x in numbers(a) if any(x == 10 * y for y in numbers(b))}


def tens_prefix(a, b):
    """The digit before `ten`: silent for one."""
    return arabic(a) & ({1} if b == "" else han(b))


def spoken_digits(a, b):
    return {a} if spelled(b) is not None and "".join(map(str, spelled(b))) == a else set()


def to_sixty(a, b):
    return {x for x in numbers(a) if any(x + y == 60 for y in numbers(b))}


def hour_before(a, b):
    return {x for x in numbers(a) if any((x - 2) % 12 + 1 == y for y in numbers(b))}


def span(a, b):
    m = re.fullmatch(r"(\d)(0*)[-~](\d)\2", b)
    unit = {"": "", "0": "十", "00": "百", "000": "千", "0000": "万"}
    if not m or m[2] not in unit or a.removesuffix(unit[m[2]]) == a and m[2]:
        return set()
    d = spelled(a[:len(a) - len(unit[m[2]])])
    return {(d[0], d[1], m[2])} if d == [int(m[1]), int(m[3])] else set()


def repeated(a, b):
    n, sep, d = a.partition("个")
    return {b} if sep and any(b == str(v) * k for k in han(n) for v in han(d)) else set()


def clock(t):
    return measured(t) or ({0} if t == "" else set())


KINDS = {"equal": pair(measured), "clock": pair(clock), "roman": pair(roman, numbers), "month": pair(lambda t: month(t) | measured(t), month),
         "weekday": pair(weekday), "half-day": pair(half), "fraction": pair(fraction), "sign": pair(sign), "era": pair(era), "amount": pair(amount),
         "period": pair(period), "tens": tens, "ten-prefix": tens_prefix, "digits": spoken_digits, "to-sixty": to_sixty, "hour-before": hour_before,
         "span": span, "repeat": repeated}

R = lambda a, b: set(range(a, b + 1))
SPANS = {(a, b) for a in range(1, 9) for b in (a + 1, )}

# what each table is about and the range it has to cover
TABLES = {
    "itn/chinese/data/date/dd.tsv": ("equal", R(1, 31)), "itn/chinese/data/date/mm.tsv": ("equal", R(1, 12)),
    "itn/chinese/data/number/digit.tsv": ("equal", R(1, 9)), "itn/chinese/data/number/zero.tsv": ("equal", {0}),
    "itn/chinese/data/number/repeat_digit.tsv": ("repeat", None), "itn/chinese/data/number/special_dash.tsv": ("span", None),
    "itn/chinese/data/number/special_tilde.tsv": ("span", None), "itn/chinese/data/number/sign.tsv": ("sign", {"+", "-", "±"}),
    "itn/chinese/data/number/dot.tsv": ("sign", {"."}), "itn/chinese/data/math/operator.tsv": ("sign", None),
    "itn/chinese/data/time/hour.tsv": ("equal", R(1, 24)), "itn/chinese/data/time/minute.tsv": ("equal", R(10, 59)),
    "itn/chinese/data/time/minute_zero.tsv": ("equal", R(1, 9)), "itn/chinese/data/time/second.tsv": ("clock", R(0, 59)),
    "itn/chinese/data/time/noon.tsv": ("half-day", {"am", "pm"}),
    "itn/english/data/numbers/digit.tsv": ("equal", R(1, 9)), "itn/english/data/numbers/teen.tsv": ("equal", R(10, 19)),
    "itn/english/data/numbers/ties.tsv": ("tens", set(range(20, 100, 10))), "itn/english/data/numbers/zero.tsv": ("equal", {0}),
    "itn/english/data/ordinals/digit.tsv": ("equal", R(1, 9)), "itn/english/data/ordinals/teen.tsv": ("equal", {12}),
    "itn/english/data/time/minute_to.tsv": ("to-sixty", R(1, 59)), "itn/english/data/time/to_hour.tsv": ("hour-before", R(1, 12)),
    "itn/english/data/time/time_suffix.tsv": ("half-day", {"am", "pm"}), "itn/english/data/time/time_suffix_cased.tsv": ("half-day", {"am", "pm"}),
    "itn/english/data/year_suffix.tsv": ("era", set(ERAS)), "itn/english/data/magnitudes.tsv": ("amount", set(LARGE.values())),
    "itn/english/data/date_period.tsv": ("period", {("Q", 1), ("Q", 2), ("Q", 3), ("Q", 4), ("H", 1), ("H", 2)}),
    "itn/japanese/data/date/day.tsv": ("equal", R(1, 31)), "itn/japanese/data/date/month.tsv": ("equal", R(1, 12)),
    "itn/japanese/data/date/week.tsv": ("weekday", R(1, 7)), "itn/japanese/data/math/operator.tsv": ("sign", None),
    "itn/japanese/data/number/digit.tsv": ("equal", R(1, 9)), "itn/japanese/data/number/zero.tsv": ("equal", {0}),
    "itn/japanese/data/number/hundred_digit.tsv": ("equal", R(101, 109)), "itn/japanese/data/number/teen.tsv": ("equal", R(10, 19)),
    "itn/japanese/data/number/ties.tsv": ("tens", set(range(20, 100, 10))), "itn/japanese/data/number/sign.tsv": ("sign", {"+", "-", "±"}),
    "itn/japanese/data/number/dot.tsv": ("sign", {"."}), "itn/japanese/data/time/hour.tsv": ("equal", R(0, 24)),
    "itn/japanese/data/time/minute.tsv": ("equal", R(1, 59)), "itn/japanese/data/time/second.tsv": ("equal", R(1, 59)),
    "tn/chinese/data/cardinal/phone.tsv": ("digits", None), "tn/chinese/data/date/d.tsv": ("equal", R(1, 31)),
    "tn/chinese/data/date/dd.tsv": ("equal", R(1, 31)), "tn/chinese/data/date/m.tsv": ("equal", R(1, 12)), "tn/chinese/data/date/mm.tsv": ("equal", R(1, 12)),
    "tn/chinese/data/number/digit.tsv": ("equal", R(1, 9)), "tn/chinese/data/number/teen.tsv": ("ten-prefix", R(1, 9)),
    "tn/chinese/data/number/zero.tsv": ("equal", {0}), "tn/chinese/data/number/sign.tsv": ("sign", {"+", "-", "±"}),
    "tn/chinese/data/number/dot.tsv": ("sign", {"."}), "tn/chinese/data/math/operator.tsv": ("sign", None),
    "tn/chinese/data/math/operator_unambiguous.tsv": ("sign", None), "tn/chinese/data/time/hour.tsv": ("equal", R(1, 24)),
    "tn/chinese/data/time/minute.tsv": ("clock", R(0, 59)), "tn/chinese/data/time/second.tsv": ("clock", R(0, 59)),
    "tn/chinese/data/time/noon.tsv": ("half-day", {"am", "pm"}),
    "tn/english/data/date/month_abbr.tsv": ("month", R(1, 12) - {5}), "tn/english/data/date/month_name.tsv": ("month", R(1, 12)),
    "tn/english/data/date/month_number.tsv": ("month", R(1, 12)), "tn/english/data/date/week.tsv": ("weekday", R(1, 7)),
    "tn/english/data/date/year_suffix.tsv": ("era", {"ad", "bc"}), "tn/english/data/number/digit.tsv": ("equal", R(1, 9)),
    "tn/english/data/number/teen.tsv": ("equal", R(10, 19)), "tn/english/data/number/ty.tsv": ("tens", set(range(20, 100, 10))),
    "tn/english/data/number/zero.tsv": ("equal", {0}), "tn/english/data/number/fraction.tsv": ("fraction", None),
    "tn/english/data/number/quantity_abbr.tsv": ("amount", None), "tn/english/data/ordinal/digit.tsv": ("equal", R(1, 9)),
    "tn/english/data/ordinal/teen.tsv": ("equal", {12}), "tn/english/data/roman/roman_to_spoken.tsv": ("roman", R(1, 2000)),
    "tn/english/data/time/suffix.tsv": ("half-day", {"am", "pm"}),
    "tn/japanese/data/date/d.tsv": ("equal", R(1, 31)), "tn/japanese/data/date/dd.tsv": ("equal", R(1, 9)), "tn/japanese/data/date/m.tsv": ("equal", R(1, 12)),
    "tn/japanese/data/date/mm.tsv": ("equal", R(1, 9)), "tn/japanese/data/date/date.tsv": ("weekday", R(1, 7)),
    "tn/japanese/data/number/digit.tsv": ("equal", R(1, 9)), "tn/japanese/data/number/en_digit.tsv": ("equal", R(1, 9)),
    "tn/japanese/data/number/teen.tsv": ("ten-prefix", R(1, 9)), "tn/japanese/data/number/zero.tsv": ("equal", {0}),
    "tn/japanese/data/number/sign.tsv": ("sign", {"+", "-", "±"}), "tn/japanese/data/number/dot.tsv": ("sign", {"."}),
    "tn/japanese/data/math/operator.tsv": ("sign", None), "tn/japanese/data/time/hour.tsv": ("equal", R(0, 24)),
    "tn/japanese/data/time/minute.tsv": ("clock", R(0, 59)), "tn/japanese/data/time/second.tsv": ("clock", R(0, 59)),
    "tn/japanese/data/time/noon.tsv": ("half-day", {"am", "pm"}),
}


def d02_job(repo, pipeline, options):
    g = extract(repo, pipeline, options, interest=lambda n: n in ("fst:file", "fst:open", "fst:rows"))
    return sorted({e.args[0].args[0] for e in g.events if e.args and isinstance(e.args[0].args[0], str)})


def infer(rows):
    """The kind of a table this file does not know: the one nearly all of its rows fit."""
    best = max((sum(bool(f(a, b)) for a, b in rows), -i, k) for i, (k, f) in enumerate(KINDS.items()))
    return best[2] if len(rows) >= 5 and best[0] * 10 >= len(rows) * 9 else None


def d02(ck):
    ck.rule("same", "both cells of a row of a numeric table denote the same number (day, month, weekday, half of the day, era, sign), each read by an "
            "independent reader of the numerals themselves")
    ck.rule("range", "the table covers the whole range it stands for")
    ck.rule("one", "no key of a numeric table is given two different meanings")
    used = {}
    for (_, p, opts), r in spread(d02_job, [(ck.repo, p, o) for p, o in variants(Every(ck))]):
        for f in r:
            used.setdefault(os.path.realpath(f), set()).add(label(p))
    root = os.path.realpath(ck.repo)
    known = unread = 0
    for path in sorted(used):
        rel = os.path.relpath(path, root)
        if not rel.endswith(".tsv") or not os.path.isfile(path):
            continue
        rows = [(c[0], c[1] if len(c) > 1 else c[0]) for c, n, t in file_rows(path) if c]
        kind, due = TABLES.get(rel, (None, None))
        pairs = [(a, b) for a, b in rows if a != b]
        if kind is None:
            kind = infer(pairs) if pairs else None
            if kind is None:
                unread += 1
                continue
        elif rel in TABLES:
            known += 1
        f = KINDS[kind]
        met, by_key = set(), {}
        for a, b in rows:
            v = f(a, b) if a != b else f(a, a)
            if a == b and not v:
                continue   # a row that maps a text to itself means the same on both sides
            ck.ob("same", rel + ":" + a, bool(v), "%r stands for %r, which is not the same %s" % (a, b, WORD.get(kind, "number")))
            met |= v
            by_key.setdefault(a, []).append((b, v))
        if due is not None:
            lack = sorted(due - met, key=str)
            ck.ob("range", rel, not lack, "no row for %s" % ", ".join(map(str, lack[:8])))
        for a, l in by_key.items():
            ck.ob("one", rel + ":" + a, not l or all(x[1] & l[0][1] or not x[1] for x in l), "%r is given different meanings: %s" % (a, [x[0] for x in l]))
    ck.note("tables", known)
    ck.note("tables_of_other_kinds", unread)
    if known < 50:
        raise AnalysisError("anchor lost: only %d of the %d known numeric tables are read by the grammars" % (known, len(TABLES)))
    ck.floor("same", 1500)
    ck.floor("range", 50)


WORD = {"month": "month", "weekday": "day of the week", "half-day": "half of the day", "era": "era", "sign": "sign", "period": "part of the year", "fraction": "fraction"}
