"""Abstract values: order-type points, linear integers over gap symbols, opaque atoms, tokens."""
from .core import M, Unmodelled


# ---------------------------------------------------------------- tokens
class Tokens:
    """Opaque words.  Token i is one private-use character: a non-empty string of unknown text that
    contains none of the characters the program treats specially, and differs from every other token."""

    @staticmethod
    def tok(i):
        return chr(0xE000 + i)


def tok(i):
    return chr(0xE000 + i)


def str_len(s):
    """Length of an abstract string: constants + one symbol (>=1) per token occurrence."""
    n = sum(1 for c in s if not "\ue000" <= c < "\uf000")
    coef = {}
    for c in s:
        if "\ue000" <= c < "\uf000":
            coef[("len", c)] = coef.get(("len", c), 0) + 1
    return mk(coef, n, {k: 1 for k in coef})


# ---------------------------------------------------------------- order types
class OrdVal:
    """A point of an unknown totally ordered type, known only by its rank in the scenario's order type.
    Only comparison, equality, hashing and printing are possible, as the Range contract promises."""

    __slots__ = ("rank",)

    def __init__(self, rank):
        self.rank = rank

    def _c(self, o):
        return isinstance(o, OrdVal)

    def __lt__(self, o):
        return self.rank < o.rank if isinstance(o, OrdVal) else NotImplemented

    def __gt__(self, o):
        return self.rank > o.rank if isinstance(o, OrdVal) else NotImplemented

    def __le__(self, o):
        return self.rank <= o.rank if isinstance(o, OrdVal) else NotImplemented

    def __ge__(self, o):
        return self.rank >= o.rank if isinstance(o, OrdVal) else NotImplemented

    def __eq__(self, o):
        if type(o) in (int, float, str, bytes, tuple, bool):
            # a point may well be 0 or the empty string: nothing may depend on its being a given constant
            return M.choose_memo(("ordconst", self.rank, repr(o)), "a point is the constant %r" % (o,), 2) == 1
        return self.rank == o.rank if isinstance(o, OrdVal) else NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((0x5EED, self.rank)) & 0xFFFFFFF

    def __bool__(self):
        # a point may be falsy (0, the empty string): nothing may depend on its truth value
        return M.choose_memo(("ordtruth", self.rank), "truth of an endpoint", 2) == 0

    def __repr__(self):
        return "p%d" % self.rank

    __str__ = __repr__

    def __deepcopy__(self, memo):
        return OrdVal(self.rank)

    def __reduce__(self):
        return (OrdVal, (self.rank,))


# ---------------------------------------------------------------- linear integers
class LinInt:
    """const + sum coef*symbol, each symbol a non-negative unknown with a known lower bound."""

    __slots__ = ("coef", "const", "low")

    def __init__(self, coef, const, low):
        self.coef = {k: v for k, v in coef.items() if v}
        self.const = const
        self.low = low

    @property
    def __class__(self):
        return int

    def _bin(self, o, sgn):
        if isinstance(o, bool) or not isinstance(o, int):
            return NotImplemented
        if type(o) is int:
            return mk(self.coef, self.const + sgn * o, self.low)
        if type(o) is not LinInt:
            return NotImplemented
        c = dict(self.coef)
        for k, v in o.coef.items():
            c[k] = c.get(k, 0) + sgn * v
        low = dict(self.low)
        low.update(o.low)
        return mk(c, self.const + sgn * o.const, low)

    def __add__(self, o):
        return self._bin(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, -1)

    def __rsub__(self, o):
        r = (-self)
        return r + o

    def __neg__(self):
        return mk({k: -v for k, v in self.coef.items()}, -self.const, self.low)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if type(o) is int:
            return mk({k: v * o for k, v in self.coef.items()}, self.const * o, self.low)
        raise Unmodelled("non-linear arithmetic")

    __rmul__ = __mul__

    def __floordiv__(self, o):
        raise Unmodelled("division of an abstract integer")

    __truediv__ = __mod__ = __rfloordiv__ = __rtruediv__ = __rmod__ = __pow__ = __floordiv__

    def sign(self):
        """-1/0/1 when decided for all values of the symbols, else a memoised nondeterministic choice."""
        pos = {k: v for k, v in self.coef.items() if v > 0}
        neg = {k: v for k, v in self.coef.items() if v < 0}
        lo = hi = None
        if not neg:
            lo = self.const + sum(v * self.low[k] for k, v in pos.items())
        if not pos:
            hi = self.const + sum(v * self.low[k] for k, v in neg.items())
        if not self.coef:
            return (self.const > 0) - (self.const < 0)
        if lo is not None and lo > 0:
            return 1
        if hi is not None and hi < 0:
            return -1
        raise Unmodelled("sign of %r is not decided by the scenario" % self)

    def _cmp(self, o):
        d = self - o
        if type(d) is int:
            return (d > 0) - (d < 0)
        return d.sign()

    def __lt__(self, o):
        return self._cmp(o) < 0 if isinstance(o, int) else NotImplemented

    def __le__(self, o):
        return self._cmp(o) <= 0 if isinstance(o, int) else NotImplemented

    def __gt__(self, o):
        return self._cmp(o) > 0 if isinstance(o, int) else NotImplemented

    def __ge__(self, o):
        return self._cmp(o) >= 0 if isinstance(o, int) else NotImplemented

    def __eq__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        if type(o) is LinInt and self.coef == o.coef:
            return self.const == o.const
        return self._cmp(o) == 0

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        return hash((tuple(sorted(self.coef.items(), key=repr)), self.const))

    def __bool__(self):
        return self.sign() != 0

    def __index__(self):
        raise Unmodelled("abstract integer used as an index")

    __int__ = __float__ = __index__
    __abslen_index__ = True

    def __abs__(self):
        return self if self.sign() >= 0 else -self

    def __repr__(self):
        return "<%s>" % "+".join(["%s*%s" % (v, "".join(map(str, k))) for k, v in sorted(self.coef.items(), key=repr)]
                                 + [str(self.const)])

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return LinInt(dict(self.coef), self.const, self.low)


def mk(coef, const, low):
    c = {k: v for k, v in coef.items() if v}
    if not c:
        return const
    return LinInt(c, const, low)


def sym(name, low):
    return LinInt({(name,): 1}, 0, {(name,): low})


# ---------------------------------------------------------------- opaque values
class Atom:
    """A value of unknown type.  Equality with other atoms is given by the label; its truth value
    is unknown, so any dependence on it is explored both ways."""

    __slots__ = ("label", "truth")

    def __init__(self, label, truth=None):
        self.label = label
        self.truth = truth

    def __eq__(self, o):
        return isinstance(o, Atom) and o.label == self.label

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(("atom", self.label)) & 0xFFFFFFF

    def __bool__(self):
        if self.truth is not None:
            return self.truth
        return M.choose_memo(("truth", self.label), "truth of %s" % (self.label,), 2) == 0

    def __repr__(self):
        return "\u27e8%s\u27e9" % (self.label,)

    def __deepcopy__(self, memo):
        return Atom(self.label, self.truth)


class EqUnknown(Atom):
    """Opaque value whose equality with another such value is unknown (memoised per pair)."""

    __slots__ = ()

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, EqUnknown):
            k = tuple(sorted((str(self.label), str(o.label))))
            return M.choose_memo(("eq", k), "%s == %s" % k, 2) == 0
        return False

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 7


class Rogue:
    """An object whose __eq__ answers True to everything (the worst legal citizen for a sentinel test)."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 11

    def __repr__(self):
        return "<rogue>"


# ---------------------------------------------------------------- sets
def _order(items):
    """The iteration order of a hash set of strings differs between runs: World.set_order picks one."""
    items = list(items)
    if len(items) > 1 and all(type(x) in (str, bytes, tuple) or hasattr(x, "__fspath__") for x in items):
        try:
            items.sort(key=str, reverse=not M.world.set_order)
        except AttributeError:
            pass
    return items


def _like(cls, name):
    base = getattr(cls, name)

    def f(self, *a):
        r = base(self, *a)
        return r if r is NotImplemented else (ASet if cls is set else AFrozenSet)(r)

    f.__name__ = name
    return f


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.__host__)

    def __subclasscheck__(cls, x):
        return issubclass(x, cls.__host__)


class ASet(set, metaclass=_SetMeta):
    """set, iterating in the order the abstract world chooses."""
    __host__ = set

    def __iter__(self):
        return iter(_order(set.__iter__(self)))

    def pop(self):
        for x in self:
            set.remove(self, x)
            return x
        return set.pop(self)

    def __repr__(self):
        return "{%s}" % ", ".join(repr(x) for x in self) if self else "set()"

    def __reduce_ex__(self, proto):
        return (ASet, (list(self),))


class AFrozenSet(frozenset, metaclass=_SetMeta):
    __host__ = frozenset

    def __iter__(self):
        return iter(_order(frozenset.__iter__(self)))

    def __repr__(self):
        return "frozenset({%s})" % ", ".join(repr(x) for x in self) if self else "frozenset()"

    def __reduce_ex__(self, proto):
        return (AFrozenSet, (list(self),))


for _n in ("copy", "union", "intersection", "difference", "symmetric_difference", "__or__", "__and__", "__sub__", "__xor__",
           "__ror__", "__rand__", "__rsub__", "__rxor__"):
    setattr(ASet, _n, _like(set, _n))
    setattr(AFrozenSet, _n, _like(frozenset, _n))
ASet.__name__ = ASet.__qualname__ = "set"
AFrozenSet.__name__ = AFrozenSet.__qualname__ = "frozenset"
