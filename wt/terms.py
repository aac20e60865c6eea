"""Hash-consed symbolic terms: every abstract value is a Sym."""


class Sym:
    __slots__ = ("op", "args", "_h", "_size", "__weakref__")
    _table = {}

    def __new__(cls, op, *args):
        key = (op, args) if op != "const" else (op, type(args[0]), args[0] if args[0] == args[0] else "nan")
        got = cls._table.get(key)
        if got is not None:
            return got
        self = object.__new__(cls)
        self.op = op
        self.args = args
        self._h = hash(key)
        self._size = None
        cls._table[key] = self
        return self

    def __hash__(self):
        return self._h

    def __eq__(self, other):
        return self is other

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return repr(self) < repr(other)


def show(t, depth=6):
    if not isinstance(t, Sym):
        return repr(t)
    if t.op == "const":
        return repr(t.args[0])
    if depth <= 0:
        return t.op + "(..)"
    if t.op == "ext":
        return t.args[0]
    if t.op == "param":
        return "$" + str(t.args[0])
    if t.op == "attr":
        return show(t.args[0], depth - 1) + "." + t.args[1]
    if t.op == "ref":
        return "&" + str(t.args[0])
    if t.op == "res":
        return "%s#%s" % (t.args[0], t.args[1:])
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))


def C(v):
    return Sym("const", v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_const(t):
    return t.op == "const"


def ground(t):
    """A constant, or a tuple of such: equality of two ground terms is decided by their structure."""
    return t.op == "const" or t.op == "tuple" and all(ground(x) for x in t.args)


def same(a, b):
    """Whether two ground terms are equal values."""
    if a is b:
        return True
    if a.op == "const" and b.op == "const":
        return bool(a.args[0] == b.args[0])
    return a.op == b.op == "tuple" and len(a.args) == len(b.args) and all(same(x, y) for x, y in zip(a.args, b.args))


def subterms(t, seen=None):
    """All subterms (pre-order, each once)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Sym) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(a for a in x.args if isinstance(a, (Sym, tuple)))


def mentions(t, needle):
    return any(x is needle for x in subterms(t))
