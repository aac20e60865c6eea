"""Questions asked of abstract terms and must-facts."""
import os

from .terms import C, FALSE, NONE, TRUE, Sym, is_const, show, subterms

WRAP = {"os.fspath", "str", "pathlib.Path", "Path", "bytes", "memoryview", "os.fsencode", "os.fsdecode"}


def strip(t):
    """Removes value-preserving wrappers (fspath, str, Path, bytes ...)."""
    while isinstance(t, Sym) and t.op == "call" and t.args[0] in WRAP and len(t.args) == 2:
        t = t.args[1]
    return t


def access(t):
    """m[k] / m.get(k) -> (m, k) else None."""
    if t.op == "sub":
        return t.args[0], t.args[1]
    if t.op == "call" and t.args[0] == ".get" and len(t.args) >= 3:
        return t.args[1], t.args[2]
    return None


def access_path(t):
    """(base, [k1, k2 ...]) of a chain of constant-key lookups."""
    keys = []
    while True:
        a = access(t)
        if a is None or not is_const(a[1]):
            return t, tuple(reversed(keys))
        keys.append(a[1].args[0])
        t = a[0]


def split_eq(a, b):
    yield a, b
    if a.op == b.op and a.op in ("tuple", "listof") and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            yield from split_eq(x, y)
    if a.op == "dictof" and b.op == "dictof":
        da = dict(zip(a.args[0::2], a.args[1::2]))
        db = dict(zip(b.args[0::2], b.args[1::2]))
        if set(da) == set(db):
            for k in da:
                yield from split_eq(da[k], db[k])


def equalities(facts):
    """Pairs of terms known to be equal."""
    for f, b in facts:
        if f.op == "cmp" and f.args[0] == "==" and b:
            yield from split_eq(f.args[1], f.args[2])
        elif f.op == "call" and b and f.args[0] in ("hmac.compare_digest", "secrets.compare_digest", "operator.eq") and len(f.args) == 3:
            yield f.args[1], f.args[2]
        elif f.op == "cmp" and f.args[0] == "in" and b and f.args[2].op == "setof" and len(f.args[2].args) == 1:
            yield f.args[1], f.args[2].args[0]


def eq_with(facts, t):
    """All terms known equal to t."""
    out = []
    for a, b in equalities(facts):
        if a is t:
            out.append(b)
        elif b is t:
            out.append(a)
    return out


def upper_bounds(facts, t):
    """(bound, strict) pairs with t < bound / t <= bound known."""
    out = []
    for f, b in facts:
        if f.op != "cmp" or f.args[0] not in ("<", "<="):
            continue
        rel, x, y = f.args
        if b and x is t:
            out.append((y, rel == "<"))
        elif not b and y is t:
            out.append((x, rel == "<="))
    return out


def lower_bounds(facts, t):
    out = []
    for f, b in facts:
        if f.op != "cmp" or f.args[0] not in ("<", "<="):
            continue
        rel, x, y = f.args
        if b and y is t:
            out.append((x, rel == "<"))
        elif not b and x is t:
            out.append((y, rel == "<="))
    return out


def isinstances(facts, t):
    """Type names t is known to be an instance of (positively), and known not to be."""
    pos, neg = set(), set()
    for f, b in facts:
        if f.op == "call" and f.args[0] == "isinstance" and f.args[1] is t and len(f.args) == 3:
            (pos if b else neg).add(show(f.args[2]).split(".")[-1])
    return pos, neg


def calls(t, name):
    return [x for x in subterms(t) if x.op in ("call", "res") and x.args[0] == name]


def segments(t):
    """Flattens a path term into (base, [components])."""
    t = strip(t)
    if t.op == "div":
        base, comps = segments(t.args[0])
        for c in t.args[1:]:
            comps = comps + [c]
        return base, comps
    if t.op == "call" and t.args[0] == "os.path.join":
        base, comps = segments(t.args[1])
        return base, comps + list(t.args[2:])
    if t.op == "concat":
        # base + "/name" + ...
        base, comps = segments(t.args[0])
        rest = list(t.args[1:])
        if rest and is_const(rest[0]) and isinstance(rest[0].args[0], str) and rest[0].args[0].startswith("/"):
            parts = [p for p in rest[0].args[0].split("/") if p]
            if len(rest) == 1:
                return base, comps + [C(p) for p in parts]
        return t, []
    return t, []


def last_name(t):
    """Constant final component of a path term, or None."""
    t = strip(t)
    if is_const(t) and isinstance(t.args[0], str):
        return os.path.basename(t.args[0])
    base, comps = segments(t)
    if comps and is_const(comps[-1]):
        return os.path.basename(str(comps[-1].args[0]))
    if t.op == "path":
        return os.path.basename(t.args[0])
    return None


def bits(t):
    """Names or values or-ed into a flag term."""
    if t.op == "bits" and t.args[0] == "BitOr":
        return {x for a in t.args[1:] for x in bits(a)}
    if t.op == "call" and t.args[0] == "getattr":
        return {show(t.args[1]) + "." + str(t.args[2].args[0])} if is_const(t.args[2]) else set()
    if is_const(t):
        return {t.args[0]}
    return {show(t)}
