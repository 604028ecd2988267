"""Symbolic execution engine: values, path exploration and the loop rule.

The real source of /repo is executed by CPython itself; the loader instruments loops, comprehensions,
list displays and attribute/item stores so that loops with symbolic bounds run once, with a generic
index, on an arbitrary loop-carried state, and are summarised by sums (see LoopFrame).
"""
import itertools
import math
import sys
import types
from fractions import Fraction
import z3

from . import terms as tm
from . import logic as lgm
from .terms import (Term, Sm, T, ZERO, El, Fn, IntA, Base, PowI, ExpA, GQ, ONE, Head, ZK, I, Bz, And, Or, Not,
                    ieq, ile, ilt, zi, zb, isz, zvars, zsubst, fresh_int, int_term, term_to_int, atom_term, mk_fn,
                    Unsupp)


class PathAbort(BaseException):
    """this path is infeasible or cut"""


class Engine:
    def __init__(self):
        self.reset()
        self.summaries = {}
        self.called = set()
        self.max_paths = 4000
        self.max_decisions = 400

    def reset(self):
        self.logic = lgm.Logic().install()
        self.levels = [Level(0)]
        self.undo = []
        self.eigs = []
        self.rules = []
        self.events = []
        self.fs = []
        self.pyscf = {}
        self.env = {}
        self.notes = []
        self.loop_hints = {}

    # -- decisions
    def level_of(self, cond, heads=()):
        names = zdecls(cond) if isz(cond) else frozenset()
        hn = {h.name for h in heads}
        for i in range(len(self.levels) - 1, 0, -1):
            ln = self.levels[i].names
            if (names & ln) or (hn & ln):
                return i
        return 0

    def decide(self, cond, heads=()):
        cond = Bz(cond)
        if isinstance(cond, bool):
            return cond
        lg = self.logic
        if lg.entails(cond):
            return True
        if lg.entails(Not(cond)):
            return False
        li = self.level_of(cond, heads)
        lv = self.levels[li]
        v = lv.next(2) == 0
        f = cond if v else Not(cond)
        lg.assume(f, li)
        if li:
            lv.pc.append(f)
        else:
            lv.pc.append(f)
        return v

    def choose(self, n, level=0):
        if n == 1:
            return 0
        return self.levels[level].next(n)

    def assume(self, f):
        f = Bz(f)
        if f is False:
            raise PathAbort()
        self.logic.assume(f, 0)
        self.levels[0].pc.append(f) if f is not True else None

    # -- heap writes
    def log(self, loc, old):
        if len(self.levels) > 1:
            self.undo.append((loc, old))

    # -- exploration of level 0
    def explore(self, fn):
        """run fn() on every feasible path; yields nothing, fn records its own results"""
        trace = []
        n = 0
        while True:
            n += 1
            if n > self.max_paths:
                raise Unsupp("more than %d paths" % self.max_paths)
            self.reset()
            lv = self.levels[0]
            lv.trace = trace
            try:
                fn()
            except PathAbort:
                pass
            while trace and trace[-1][0] + 1 >= trace[-1][1]:
                trace.pop()
            if not trace:
                return n
            trace[-1][0] += 1


class Level:
    def __init__(self, idx):
        self.idx = idx
        self.trace = []
        self.pos = 0
        self.pc = []
        self.names = set()

    def next(self, n):
        if self.pos < len(self.trace):
            v = self.trace[self.pos][0]
        else:
            if len(self.trace) > ENG.max_decisions:
                raise Unsupp("too many decisions on one path")
            v = 0
            self.trace.append([0, n])
        self.pos += 1
        return v


_zd_cache = {}


def zdecls(e):
    """names of uninterpreted constants and functions in e"""
    k = ZK(e)
    r = _zd_cache.get(k)
    if r is not None:
        return r
    out = set()
    if z3.is_app(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            out.add(nm)
            out |= tm.ZNAME_HEADS.get(nm, frozenset())
        for c in e.children():
            out |= zdecls(c)
    r = frozenset(out)
    if len(_zd_cache) > 200000:
        _zd_cache.clear()
    _zd_cache[k] = r
    return r


ENG = None


def init():
    global ENG
    ENG = Engine()
    return ENG


# ----------------------------------------------------------------------------------------------
# scalar values


def is_sym_scalar(x):
    return isinstance(x, (SInt, SBool, Num))


class SBool:
    __slots__ = ("e", "heads")

    def __init__(self, e, heads=()):
        self.e = e
        self.heads = heads

    def __bool__(self):
        return ENG.decide(self.e, self.heads)

    __hash__ = None

    def __and__(s, o):
        ob = bool_of(o)
        if ob is None:
            return s.as_int() & o
        return mkbool(And(s.e, ob), s.heads)

    __rand__ = __and__

    def __or__(s, o):
        ob = bool_of(o)
        if ob is None:
            return NotImplemented
        return mkbool(Or(s.e, ob), s.heads)

    __ror__ = __or__

    def __xor__(s, o):
        ob = bool_of(o)
        if ob is None:
            return s.as_int() ^ o
        return mkbool(Bz(z3.Xor(zb(s.e), zb(ob))), s.heads)

    __rxor__ = __xor__

    def __invert__(s):
        return mkbool(Not(s.e), s.heads)

    def as_int(s):
        return mkint(tm.iite(s.e, 1, 0))

    def term(s):
        return T(1).guard(s.e)

    def __add__(s, o):
        return s.as_int() + o

    __radd__ = __add__

    def __sub__(s, o):
        return s.as_int() - o

    def __rsub__(s, o):
        return o - s.as_int()

    def __mul__(s, o):
        return s.as_int() * o

    __rmul__ = __mul__

    def __neg__(s):
        return -s.as_int()

    def __eq__(s, o):
        ob = bool_of(o)
        if ob is not None:
            return mkbool(Bz(zb(s.e) == zb(ob)), s.heads)
        return s.as_int() == o

    def __ne__(s, o):
        r = s == o
        return mkbool(Not(r.e)) if isinstance(r, SBool) else not r

    def __lt__(s, o):
        return s.as_int() < o

    def __gt__(s, o):
        return s.as_int() > o

    def __le__(s, o):
        return s.as_int() <= o

    def __ge__(s, o):
        return s.as_int() >= o

    def __repr__(s):
        return "SBool(%s)" % s.e

    def __deepcopy__(s, memo):
        return s

    def __copy__(s):
        return s

    def item(s):
        return s

    def all(s):
        return s

    def any(s):
        return s


def bool_of(o):
    if isinstance(o, SBool):
        return o.e
    if isinstance(o, bool):
        return o
    return None


def mkbool(e, heads=()):
    e = Bz(e)
    if isinstance(e, bool):
        return e
    return SBool(e, heads)


def mkint(e):
    e = I(e)
    if isinstance(e, int):
        return e
    return SInt(e)


def ival(x):
    """int-like z3/py from SInt/int/bool (or integral Num); None if not"""
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, SBool):
        return tm.iite(x.e, 1, 0)
    return None


def as_index(x, what="index"):
    v = ival(x)
    if v is not None:
        return v
    if isinstance(x, Num) and x.k == "i":
        r = term_to_int(x.t)
        if r is not None:
            return r
        raise Unsupp("integer value too complex as %s" % what)
    if isinstance(x, Num):
        raise IndexError("only integers, slices, ... are valid indices")
    if isinstance(x, float):
        raise TypeError("'float' object cannot be interpreted as an integer")
    if hasattr(x, "_qv_scalar_index"):
        return as_index(x._qv_scalar_index())
    raise TypeError("cannot be interpreted as an integer: %r" % (type(x),))


class SInt:
    __slots__ = ("e",)
    _qv_kind = "i"

    def __init__(self, e):
        self.e = e

    __hash__ = None

    def _bin(s, o, f):
        v = ival(o)
        if v is None:
            return None
        return mkint(f(zi(s.e), zi(v)))

    def __add__(s, o):
        r = s._bin(o, lambda a, b: a + b)
        return r if r is not None else (num(s) + o if isnumlike(o) else NotImplemented)

    __radd__ = __add__

    def __sub__(s, o):
        r = s._bin(o, lambda a, b: a - b)
        return r if r is not None else (num(s) - o if isnumlike(o) else NotImplemented)

    def __rsub__(s, o):
        r = s._bin(o, lambda a, b: b - a)
        return r if r is not None else (num(o) - num(s) if isnumlike(o) else NotImplemented)

    def __mul__(s, o):
        if isinstance(o, (list, tuple, str)):
            return NotImplemented if not isinstance(o, (list, tuple)) else sym_repeat(o, s)
        r = s._bin(o, lambda a, b: a * b)
        return r if r is not None else (num(s) * o if isnumlike(o) else NotImplemented)

    def __rmul__(s, o):
        return s.__mul__(o)

    def __truediv__(s, o):
        return num(s) / o if isnumlike(o) else NotImplemented

    def __rtruediv__(s, o):
        return num(o) / num(s) if isnumlike(o) else NotImplemented

    def __floordiv__(s, o):
        v = ival(o)
        if v is None:
            return (num(s) // o) if isnumlike(o) else NotImplemented
        return floordiv(s.e, v)

    def __rfloordiv__(s, o):
        v = ival(o)
        if v is None:
            return NotImplemented
        return floordiv(v, s.e)

    def __mod__(s, o):
        v = ival(o)
        if v is None:
            return NotImplemented
        return mod(s.e, v)

    def __rmod__(s, o):
        if isinstance(o, str):
            return SymStr(["%fmt", o, s])
        v = ival(o)
        if v is None:
            return NotImplemented
        return mod(v, s.e)

    def __divmod__(s, o):
        return s // o, s % o

    def __rdivmod__(s, o):
        return o // s, o % s

    def __pow__(s, o, m=None):
        v = ival(o)
        if isinstance(v, int) and v >= 0:
            r = 1
            for _ in range(v):
                r = r * s.e
            return mkint(r)
        return num(s) ** o

    def __rpow__(s, o):
        return num(o) ** s

    def __neg__(s):
        return mkint(-s.e)

    def __pos__(s):
        return s

    def __abs__(s):
        if ENG.logic.entails(s.e >= 0):
            return s
        if ENG.logic.entails(s.e <= 0):
            return mkint(-s.e)
        return mkint(z3.If(s.e >= 0, s.e, -s.e))

    def __and__(s, o):
        if isinstance(o, int) and not isinstance(o, bool) and o >= 0 and (o & (o + 1)) == 0:
            return mod(s.e, o + 1)
        v = ival(o)
        if v is not None and all(ENG.logic.entails(And(ile(0, x), ile(x, 1))) for x in (s.e, v)):
            return mkint(zi(s.e) * zi(v))
        raise Unsupp("bitwise and")

    __rand__ = __and__

    def __xor__(s, o):
        v = ival(o)
        if v is not None and all(ENG.logic.entails(And(ile(0, x), ile(x, 1))) for x in (s.e, v)):
            return mkint(z3.If(zi(s.e) == zi(v), z3.IntVal(0), z3.IntVal(1)))
        raise Unsupp("bitwise xor")

    __rxor__ = __xor__

    def __or__(s, o):
        v = ival(o)
        if v is not None and all(ENG.logic.entails(And(ile(0, x), ile(x, 1))) for x in (s.e, v)):
            return mkint(z3.If(Or(ieq(s.e, 1), ieq(v, 1)), z3.IntVal(1), z3.IntVal(0)))
        raise Unsupp("bitwise or")

    __ror__ = __or__

    def __lshift__(s, o):
        return s * (2 ** o)

    def __rlshift__(s, o):
        return o * (2 ** s)

    def __rshift__(s, o):
        return s // (2 ** o)

    def __invert__(s):
        return -s - 1

    def _cmp(s, o, f, fr):
        v = ival(o)
        if v is not None:
            return mkbool(f(zi(s.e), zi(v)))
        if isnumlike(o):
            return fr(num(s), o)
        return NotImplemented

    def __eq__(s, o):
        r = s._cmp(o, lambda a, b: a == b, lambda a, b: a == b)
        return False if r is NotImplemented and not hasattr(o, "_qv_arr") else r

    def __ne__(s, o):
        r = s._cmp(o, lambda a, b: a != b, lambda a, b: a != b)
        return True if r is NotImplemented and not hasattr(o, "_qv_arr") else r

    def __lt__(s, o):
        return s._cmp(o, lambda a, b: a < b, lambda a, b: a < b)

    def __le__(s, o):
        return s._cmp(o, lambda a, b: a <= b, lambda a, b: a <= b)

    def __gt__(s, o):
        return s._cmp(o, lambda a, b: a > b, lambda a, b: a > b)

    def __ge__(s, o):
        return s._cmp(o, lambda a, b: a >= b, lambda a, b: a >= b)

    def __bool__(s):
        return ENG.decide(s.e != 0)

    def __index__(s):
        raise Unsupp("symbolic integer used where CPython needs a machine integer")

    def __repr__(s):
        return "SInt(%s)" % s.e

    def __str__(s):
        raise Unsupp("str of symbolic int")

    def __format__(s, spec):
        raise Unsupp("format of symbolic int")

    def __deepcopy__(s, memo):
        return s

    def __copy__(s):
        return s

    def conjugate(s):
        return s

    conj = conjugate

    @property
    def real(s):
        return s

    @property
    def imag(s):
        return 0

    def item(s):
        return s

    def astype(s, dt):
        from .npmodel import scalar_astype
        return scalar_astype(s, dt)

    def is_integer(s):
        return True


def floordiv(a, b):
    a, b = I(a), I(b)
    if isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b < 0:
            return floordiv(I(-zi(a)), -b)
        return mkint(tm.idiv(a, b))
    if ENG.decide(ieq(b, 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    if ENG.decide(ilt(0, b)):
        return mkint(tm.idiv(a, b))
    return mkint(tm.idiv(I(-zi(a)), I(-zi(b))))


def mod(a, b):
    a, b = I(a), I(b)
    if isinstance(b, int):
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if b > 0:
            return mkint(tm.imod(a, b))
        raise Unsupp("negative modulus")
    if ENG.decide(ieq(b, 0)):
        raise ZeroDivisionError("integer division or modulo by zero")
    if ENG.decide(ilt(0, b)):
        return mkint(tm.imod(a, b))
    raise Unsupp("negative modulus")


def isnumlike(o):
    return isinstance(o, (Num, SInt, SBool, int, float, complex, Fraction))


def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, bool):
        return Num(T(int(x)), "i")
    if isinstance(x, int):
        return Num(T(x), "i")
    if isinstance(x, SInt):
        return Num(int_term(x.e), "i")
    if isinstance(x, SBool):
        return Num(x.term(), "i")
    if isinstance(x, (float, Fraction)):
        if isinstance(x, float) and (x != x or x in (math.inf, -math.inf)):
            raise Unsupp("non-finite constant")
        return Num(T(x), "f")
    if isinstance(x, complex):
        return Num(T(x), "c")
    if hasattr(x, "_qv_scalar"):
        return x._qv_scalar()
    raise TypeError("not a number: %r" % (type(x),))


KORD = {"b": 0, "i": 1, "f": 2, "c": 3}


def kjoin(a, b):
    return a if KORD[a] >= KORD[b] else b


def simp_num(n):
    """collapse integral Num to int when constant"""
    return n


class Num:
    """real or complex number (mathematical), kind i/f/c"""
    __slots__ = ("t", "k")

    def __init__(self, t, k="f"):
        self.t = t
        self.k = k

    __hash__ = None

    def _b(s, o):
        if isnumlike(o):
            return num(o)
        return None

    def __add__(s, o):
        o = s._b(o)
        return NotImplemented if o is None else Num(s.t + o.t, kjoin(s.k, o.k))

    def __radd__(s, o):
        o = s._b(o)
        return NotImplemented if o is None else Num(o.t + s.t, kjoin(s.k, o.k))

    def __sub__(s, o):
        o = s._b(o)
        return NotImplemented if o is None else Num(s.t - o.t, kjoin(s.k, o.k))

    def __rsub__(s, o):
        o = s._b(o)
        return NotImplemented if o is None else Num(o.t - s.t, kjoin(s.k, o.k))

    def __mul__(s, o):
        if isinstance(o, (list, tuple)):
            return NotImplemented
        o = s._b(o)
        return NotImplemented if o is None else Num(s.t * o.t, kjoin(s.k, o.k))

    def __rmul__(s, o):
        o = s._b(o)
        return NotImplemented if o is None else Num(o.t * s.t, kjoin(s.k, o.k))

    def __truediv__(s, o):
        o = s._b(o)
        return NotImplemented if o is None else div_num(s, o)

    def __rtruediv__(s, o):
        o = s._b(o)
        return NotImplemented if o is None else div_num(o, s)

    def __floordiv__(s, o):
        o = s._b(o)
        if o is None:
            return NotImplemented
        return floordiv_num(s, o)

    def __rfloordiv__(s, o):
        o = s._b(o)
        if o is None:
            return NotImplemented
        return floordiv_num(o, s)

    def __mod__(s, o):
        o = s._b(o)
        if o is None:
            return NotImplemented
        a, b = term_to_int(s.t), term_to_int(o.t)
        if a is None or b is None:
            raise Unsupp("% on reals")
        return mod(a, b)

    def __rmod__(s, o):
        return num(o) % s

    def __pow__(s, o, m=None):
        o = s._b(o)
        return NotImplemented if o is None else pow_num(s, o)

    def __rpow__(s, o):
        o = s._b(o)
        return NotImplemented if o is None else pow_num(o, s)

    def __neg__(s):
        return Num(-s.t, s.k)

    def __pos__(s):
        return s

    def __abs__(s):
        return abs_num(s)

    def _int(s):
        v = term_to_int(s.t)
        if v is None:
            raise Unsupp("bit operation on a non-integer: %r" % (s.t,))
        return mkint(v)

    def __and__(s, o):
        return s._int() & o

    def __rand__(s, o):
        return o & s._int()

    def __xor__(s, o):
        return s._int() ^ o

    def _cmp(s, o, op):
        o = s._b(o)
        if o is None:
            return NotImplemented
        return cmp_num(s, o, op)

    def __eq__(s, o):
        r = s._cmp(o, "eq")
        return False if r is NotImplemented and not hasattr(o, "_qv_arr") else r

    def __ne__(s, o):
        r = s._cmp(o, "ne")
        return True if r is NotImplemented and not hasattr(o, "_qv_arr") else r

    def __lt__(s, o):
        return s._cmp(o, "lt")

    def __le__(s, o):
        return s._cmp(o, "le")

    def __gt__(s, o):
        return s._cmp(o, "gt")

    def __ge__(s, o):
        return s._cmp(o, "ge")

    def __bool__(s):
        return bool(s != 0)

    def __float__(s):
        raise Unsupp("float() of a symbolic number")

    def __int__(s):
        raise Unsupp("int() of a symbolic number")

    def __index__(s):
        if s.k == "i":
            raise Unsupp("symbolic integer used where CPython needs a machine integer")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __repr__(s):
        return "Num(%s:%s)" % (s.k, s.t)

    def __deepcopy__(s, memo):
        return s

    def __copy__(s):
        return s

    def conjugate(s):
        return Num(s.t.conj(), s.k)

    conj = conjugate

    @property
    def real(s):
        return Num(s.t.re(), "f" if s.k == "c" else s.k)

    @property
    def imag(s):
        return Num(s.t.im(), "f" if s.k == "c" else s.k)

    @property
    def T(s):
        return s

    @property
    def shape(s):
        return ()

    @property
    def ndim(s):
        return 0

    @property
    def size(s):
        return 1

    @property
    def dtype(s):
        from .npmodel import DT
        return DT[s.k]

    def item(s, *a):
        return s

    def copy(s):
        return s

    def astype(s, dt, **kw):
        from .npmodel import scalar_astype
        return scalar_astype(s, dt)

    def is_integer(s):
        v = term_to_int(s.t)
        if v is not None:
            return True
        raise Unsupp("is_integer")

    def evalf(s, *a, **k):
        return s

    def sum(s, *a, **k):
        return s


def div_num(a, b):
    k = kjoin(kjoin(a.k, b.k), "f")
    if not b.t.s:
        raise ZeroDivisionError("division by zero")
    return Num(a.t / b.t, k)


def floordiv_num(a, b):
    k = kjoin(a.k, b.k)
    x, y = term_to_int(a.t), term_to_int(b.t)
    if x is not None and y is not None:
        r = floordiv(x, y)
        return r if k == "i" else num_kind(r, k)
    return floor_num(div_num(a, b), k)


def floor_num(x, k="f"):
    if not x.t.is_real():
        raise TypeError("floor of complex")
    den = 1
    for s in x.t.s:
        den = den * s.c.re.denominator // math.gcd(den, s.c.re.denominator)
    v = term_to_int(x.t * den)
    if v is None:
        return Num(mk_fn("floor", [x.t]), k)
    return mkint(tm.idiv(v, den)) if k == "i" else num_kind(mkint(tm.idiv(v, den)), k)


def num_kind(x, k):
    n = num(x)
    return Num(n.t, k)


def pow_num(a, b):
    k = kjoin(a.k, b.k)
    bt = b.t
    if b.k == "i" or term_to_int(bt) is not None:
        e = term_to_int(bt)
        if e is not None:
            if isinstance(e, int):
                if e < 0:
                    if a.k == "i" and b.k == "i":
                        k = "f"
                    if not a.t.s:
                        raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return Num(a.t ** e, k)
            return Num(a.t.powi(e), k)
    if bt.is_const() and bt.const_val().im == 0:
        q = bt.const_val().re
        if not a.t.s:
            return Num(ZERO, k)
        return Num(a.t ** q, kjoin(k, "f"))
    return Num(a.t ** bt, kjoin(k, "f"))


def with_rules(t):
    """t rewritten with the algebraic facts assumed by the contract (e.g. |a| = 1)"""
    if ENG is not None and t.s and not t.is_const() and (ENG.rules or any(s.b for s in t.s)):
        from . import logic as lgm
        return Term(lgm.normalise(t, tuple(ENG.rules)))
    return t


def abs_num(x):
    x = Num(with_rules(x.t), x.k)
    if x.k == "i":
        v = term_to_int(x.t)
        if v is not None:
            return abs(mkint(v))
    if x.t.is_real():
        return Num(tm.abs_term(x.t), "f" if x.k == "c" else x.k)
    return Num(tm.abs_term(x.t), "f")


def cmp_term(t, op):
    """z3 Bool of  t op 0  for a real term (eq/ne also for complex)"""
    t = with_rules(t)
    if op in ("eq", "ne") and not t.is_real():
        f = And(cmp_term(t.re(), "eq"), cmp_term(t.im(), "eq"))
        return f if op == "eq" else Not(f)
    if not t.is_real():
        t2 = t
        raise TypeError("'<' not supported between instances of 'complex' and 'complex'")
    if t.is_const():
        c = t.const_val().re
        return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
    den = 1
    for s in t.s:
        den = den * s.c.re.denominator // math.gcd(den, s.c.re.denominator)
    v = term_to_int(t * den)
    if v is not None:
        v = zi(v)
        z = z3.IntVal(0)
    else:
        v = tm.to_z3(t)
        z = z3.RealVal(0)
    return Bz({"eq": v == z, "ne": v != z, "lt": v < z, "le": v <= z, "gt": v > z, "ge": v >= z}[op])


def cmp_num(a, b, op):
    if "c" in (a.k, b.k) and op not in ("eq", "ne") and not (a.t - b.t).is_real():
        # numpy orders complex numbers lexicographically, python raises; neither is used
        raise TypeError("ordering of complex numbers")
    d = a.t - b.t
    return mkbool(cmp_term(d, op), tuple(d.heads()))


class SymStr:
    """string with symbolic parts"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, SymStr):
                ps = p.parts
            else:
                ps = [p]
            for x in ps:
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                elif x != "" or not isinstance(x, str):
                    out.append(x)
        self.parts = out

    def key(self):
        return tuple(p if isinstance(p, str) else ("S", str(p)) for p in self.parts)

    def __add__(s, o):
        return SymStr([s, o])

    def __radd__(s, o):
        return SymStr([o, s])

    def __eq__(s, o):
        if isinstance(o, str):
            o = SymStr([o])
        if not isinstance(o, SymStr):
            return False
        if len(s.parts) == len(o.parts):
            conds = []
            for a, b in zip(s.parts, o.parts):
                if isinstance(a, str) and isinstance(b, str):
                    if a != b:
                        break
                elif isinstance(a, SInt) and isinstance(b, SInt):
                    conds.append(ieq(a.e, b.e))
                elif isinstance(a, (SInt, str)) and isinstance(b, (SInt, str)):
                    break
                else:
                    raise Unsupp("string comparison")
            else:
                return mkbool(And(*conds))
        raise Unsupp("string comparison")

    def __ne__(s, o):
        r = s == o
        return ~r if isinstance(r, SBool) else not r

    def __hash__(self):
        raise Unsupp("hash of symbolic string")

    def __repr__(s):
        return "SymStr(%r)" % (s.parts,)

    def __deepcopy__(s, memo):
        return s

    def format(s, *a, **k):
        raise Unsupp("format on symbolic string")


# ----------------------------------------------------------------------------------------------
# generic substitution / merging of values


class Poison:
    """value of a variable that has no single description (using it is unsupported)"""
    def __init__(self, why):
        object.__setattr__(self, "_why", why)

    def __getattr__(self, n):
        raise Unsupp(object.__getattribute__(self, "_why"))

    def _u(self, *a, **k):
        raise Unsupp(object.__getattribute__(self, "_why"))

    __call__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __getitem__ = __setitem__ = _u
    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __bool__ = __iter__ = __len__ = __neg__ = _u
    __truediv__ = __rtruediv__ = __floordiv__ = __mod__ = __pow__ = __rpow__ = __iadd__ = __isub__ = __imul__ = _u
    __hash__ = None


class Unbound(Poison):
    def _u(self, *a, **k):
        raise UnboundLocalError("local variable referenced before assignment")


UNBOUND = object()


def vsubst(v, pairs):
    if isinstance(v, SInt):
        return mkint(zsubst(v.e, pairs))
    if isinstance(v, Num):
        return Num(v.t.subst(pairs), v.k)
    if isinstance(v, SBool):
        return mkbool(zsubst(v.e, pairs), v.heads)
    if isinstance(v, SymStr):
        return SymStr([vsubst(p, pairs) for p in v.parts])
    if isinstance(v, tuple):
        return tuple(vsubst(x, pairs) for x in v)
    if isinstance(v, SList):
        return SList([vsubst(x, pairs) for x in v])
    if hasattr(v, "_qv_vsubst"):
        return v._qv_vsubst(pairs)
    names = {a.decl().name() for a, _ in pairs}
    if isinstance(v, types.FunctionType) and v.__closure__ and vdepends(v, names):
        # a closure over loop state: the same code over the substituted cells
        cells = tuple(c if not vdepends(cell_of(c), names) else types.CellType(vsubst(c.cell_contents, pairs))
                      for c in v.__closure__)
        f = types.FunctionType(v.__code__, v.__globals__, v.__name__, v.__defaults__, cells)
        f.__kwdefaults__ = v.__kwdefaults__
        f.__dict__.update({k: x for k, x in v.__dict__.items() if k not in ("__wrapped__", "_qv_raw")})
        if vdepends(v.__defaults__, names) or vdepends(v.__kwdefaults__, names):
            f.__defaults__, f.__kwdefaults__ = vsubst(v.__defaults__, pairs), vsubst(v.__kwdefaults__, pairs)
        return f
    if isinstance(v, dict) and vdepends(v, names):
        return type(v)((k, vsubst(x, pairs)) for k, x in v.items())
    if type(v) is list and vdepends(v, names):
        return [vsubst(x, pairs) for x in v]
    if not isinstance(v, (int, float, complex, str, type(None))) and vdepends(v, names):
        raise Unsupp("an object built from a loop variable (%s) is kept past the iteration" % type(v).__name__)
    return v


def cell_of(c):
    try:
        return c.cell_contents
    except ValueError:
        return None


_dep_seen = set()


def vdepends(v, names):
    """does value v mention any z3 name/head name in names"""
    if isinstance(v, (types.FunctionType, dict, types.MethodType)) or getattr(type(v), "_qv_cls", False):
        if id(v) in _dep_seen:
            return False
        _dep_seen.add(id(v))
        try:
            if isinstance(v, types.FunctionType):
                return any(vdepends(cell_of(c), names) for c in v.__closure__ or ()) or \
                    vdepends(v.__defaults__, names) or vdepends(v.__kwdefaults__, names)
            if isinstance(v, types.MethodType):
                return vdepends(v.__self__, names)
            if isinstance(v, dict):
                return any(vdepends(x, names) for x in v.values())
            return vdepends(v.__dict__, names)
        finally:
            _dep_seen.discard(id(v))
    if isinstance(v, SInt):
        return bool(zdecls(v.e) & names)
    if isinstance(v, SBool):
        return bool(zdecls(v.e) & names) or any(h.name in names for h in v.heads)
    if isinstance(v, Num):
        return tdepends(v.t, names)
    if isinstance(v, SymStr):
        return any(vdepends(p, names) for p in v.parts)
    if isinstance(v, (tuple, list)):
        return any(vdepends(x, names) for x in v)
    if hasattr(v, "_qv_depends"):
        return v._qv_depends(names)
    return False


def tdepends(t, names):
    for z in t.fvs():
        if z.e.decl().name() in names:
            return True
    for s in t.s:
        for g in s.g:
            if zdecls(g) & names:
                return True
    return any(h.name in names for h in t.heads())


def veq_ident(a, b):
    """syntactic equality of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        if isinstance(a, (SInt, int)) and isinstance(b, (SInt, int)) and not isinstance(a, bool) and not isinstance(b, bool):
            return False
        return False
    if isinstance(a, SInt):
        return a.e.eq(b.e)
    if isinstance(a, SBool):
        return a.e.eq(b.e)
    if isinstance(a, Num):
        return a.k == b.k and a.t.key() == b.t.key()
    if isinstance(a, (int, float, complex, str, bool)) or a is None:
        return a == b
    if isinstance(a, tuple):
        return len(a) == len(b) and all(veq_ident(x, y) for x, y in zip(a, b))
    if hasattr(a, "_qv_same"):
        return a._qv_same(b)
    return False


def conjuncts(g):
    return [y for x in g.children() for y in conjuncts(x)] if isz(g) and z3.is_and(g) else [g]


def align_binders(t1, t2):
    """t2 with its summation variables named as in the summands of t1 that look alike"""
    out = []
    rest = [s for s in t1.s if s.b]
    for s in t2.s:
        for r in rest if s.b else ():
            if len(r.b) == len(s.b) and len(r.f) == len(s.f) and len(r.g) == len(s.g):
                w = tm.subst_sm(Sm(s.c, (), s.g, s.f), list(zip(s.b, r.b)))
                if len(w) == 1 and {str(x) for x in w[0].g} == {str(x) for x in r.g} \
                        and {repr(x) for x in w[0].f} == {repr(x) for x in r.f}:
                    s = Sm(w[0].c, r.b, r.g, r.f)
                    break
        out.append(s)
    return Term(tuple(out))


def merge_parity(alts):
    """join alternatives that differ by the sign of a part, chosen by a parity: X + P if even, X - P if odd"""
    alts = list(alts)
    for i, (g1, t1) in enumerate(alts):
        for j in range(i + 1, len(alts)):
            g2, t2 = alts[j]
            a, b = conjuncts(g1), conjuncts(g2)
            sa = {str(x): x for x in a}
            sb = {str(x): x for x in b}
            da = [x for x in a if str(x) not in sb]
            db = [x for x in b if str(x) not in sa]
            if len(da) != 1 or len(db) != 1 or not isz(da[0]) or not isz(db[0]):
                continue
            s, s2 = tm.parity_sign(da[0]), tm.parity_sign(db[0])
            if s is None or s2 is None or (s + s2).s:
                continue
            t2 = align_binders(t1, t2)
            X, P = (t1 + t2) * Fraction(1, 2), (t1 - t2) * Fraction(1, 2)
            if len(X.s) + len(P.s) > max(len(t1.s), len(t2.s)):
                continue
            rest = [x for x in a if x is not da[0]]
            alts[i] = (And(*rest), X + P * s)
            del alts[j]
            return merge_parity(alts)
    return alts


def vmerge(alts, what="value"):
    """alts: list of (guard z3/bool, value); guards are exhaustive and disjoint"""
    vals = [v for _, v in alts]
    v0 = vals[0]
    bad = [v for v in vals if isinstance(v, Poison)]
    if bad:
        return bad[0] if not isinstance(bad[0], Unbound) else Poison("%s unbound on some paths" % what)
    if all(veq_ident(v, v0) for v in vals[1:]):
        return v0
    if all(ival(v) is not None and not isinstance(v, (bool, SBool)) for v in vals):
        e = zi(ival(vals[-1]))
        for g, v in reversed(alts[:-1]):
            e = z3.If(zb(g), zi(ival(v)), e)
        return mkint(e)
    if all(isinstance(v, (bool, SBool)) for v in vals):
        e = zb(bool_of(vals[-1]))
        for g, v in reversed(alts[:-1]):
            e = z3.If(zb(g), zb(bool_of(v)), e)
        return mkbool(e)
    if all(isnumlike(v) for v in vals):
        k = "i"
        t = ZERO
        if len(alts) == 2 and isz(alts[0][0]):
            s = tm.parity_sign(alts[0][0])
            a, b = num(vals[0]), num(vals[1])
            if s is not None and a.t.is_const() and b.t.is_const() and not (a.t + b.t).s:
                return Num(s * a.t, kjoin(a.k, b.k))
        for v in vals:
            k = kjoin(k, num(v).k)
        for g, x in merge_parity([(g, num(v).t) for g, v in alts]):
            t = t + x.guard(g)
        return Num(t, k)
    if all(isinstance(v, tuple) for v in vals) and len({len(v) for v in vals}) == 1:
        return tuple(vmerge([(g, v[i]) for g, v in alts]) for i in range(len(v0)))
    if all(hasattr(v, "_qv_arr") for v in vals):
        from .npmodel import merge_arrays
        return merge_arrays(alts)
    return Poison("%s differs between paths of a loop body" % what)


# ----------------------------------------------------------------------------------------------
# lists with symbolic segments


class Seg:
    """n values fn(0..n-1), n symbolic"""
    def __init__(self, n, fn):
        self.n, self.fn = n, fn


class PHSeg:
    """unknown prefix of a list inside a loop body"""


class SList(list):
    """list that may be continued by symbolic segments (self holds a concrete prefix)"""

    def __init__(self, *a):
        super().__init__(*a)
        self.tail = []

    # location protocol
    def _loc_get(self):
        return (tuple(list.__iter__(self)), tuple(self.tail))

    def _loc_set(self, v):
        super().clear()
        super().extend(v[0])
        self.tail = list(v[1])

    def _log(self):
        if len(ENG.levels) > 1:
            ENG.log(self, self._loc_get())

    def append(self, x):
        self._log()
        if self.tail:
            self.tail.append(x)
        else:
            super().append(x)

    def extend(self, xs):
        self._log()
        if isinstance(xs, SList) and xs.tail:
            its = list(list.__iter__(xs)) + xs.tail
            for x in its:
                if self.tail or isinstance(x, Seg):
                    self.tail.append(x)
                else:
                    super().append(x)
            return
        for x in sym_iter(xs):
            if self.tail:
                self.tail.append(x)
            else:
                super().append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __add__(self, o):
        r = SList(list.__iter__(self))
        r.tail = list(self.tail)
        r.extend(o)
        return r

    def is_sym(self):
        return bool(self.tail)

    def sym_len(self):
        n = list.__len__(self)
        e = n
        for s in self.tail:
            e = tm.iadd(e, zi(s.n) if isinstance(s, Seg) else 1)
        return mkint(e)

    def at(self, i):
        """element at int-like index i (0 <= i < len)"""
        i = I(i)
        if isinstance(i, int) and i < list.__len__(self):
            return list.__getitem__(self, i)
        off = 0
        alts = []
        for j in range(list.__len__(self)):
            alts.append((ieq(i, j), list.__getitem__(self, j)))
        off = list.__len__(self)
        for s in self.tail:
            if isinstance(s, Seg):
                hi = tm.iadd(off, s.n)
                alts.append((And(ile(off, i), ilt(i, hi)), s.fn(tm.isub(i, off))))
                off = hi
            elif isinstance(s, PHSeg):
                raise Unsupp("reading a list while it is being built in a loop")
            else:
                alts.append((ieq(i, off), s))
                off = tm.iadd(off, 1)
        alts = [(g, v) for g, v in alts if Bz(g) is not False]
        for g, v in alts:
            if Bz(g) is True:
                return v
        if len(alts) == 1:
            return alts[0][1]
        return vmerge(alts)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if self.tail:
                raise Unsupp("slice of a symbolic list")
            return SList(list.__getitem__(self, i))
        v = ival(i)
        if v is None:
            raise TypeError("list indices must be integers or slices")
        if isinstance(v, int) and not self.tail:
            return list.__getitem__(self, v)
        n = ival(self.sym_len())
        if ENG.decide(And(ile(0, v), ilt(v, n))):
            return self.at(v)
        if ENG.decide(And(ile(I(-zi(n)), v), ilt(v, 0))):
            return self.at(tm.iadd(v, n))
        raise IndexError("list index out of range")

    def __setitem__(self, i, x):
        if self.tail or ival(i) is None and not isinstance(i, slice) or isinstance(i, SInt):
            raise Unsupp("store into a symbolic list")
        self._log()
        list.__setitem__(self, i, x)

    def __iter__(self):
        if self.tail:
            raise Unsupp("native iteration over a symbolic list")
        return list.__iter__(self)

    def __len__(self):
        if self.tail:
            raise Unsupp("len of a symbolic list")
        return list.__len__(self)

    def insert(self, *a):
        self._nosym()
        list.insert(self, *a)

    def pop(self, *a):
        self._nosym()
        return list.pop(self, *a)

    def clear(self):
        self._nosym()
        list.clear(self)

    def sort(self, **k):
        self._nosym()
        list.sort(self, **k)

    def reverse(self):
        self._nosym()
        list.reverse(self)

    def remove(self, x):
        self._nosym()
        list.remove(self, x)

    def _nosym(self):
        if self.tail:
            raise Unsupp("list operation on a symbolic list")
        self._log()

    def copy(self):
        r = SList(list.__iter__(self))
        r.tail = list(self.tail)
        return r

    def _qv_vsubst(self, pairs):
        r = SList([vsubst(x, pairs) for x in list.__iter__(self)])
        for s in self.tail:
            if isinstance(s, Seg):
                f = s.fn
                r.tail.append(Seg(I(zsubst(s.n, pairs)), lambda i, f=f: vsubst(f(i), pairs)))
            else:
                r.tail.append(vsubst(s, pairs))
        return r

    def __eq__(self, o):
        self_l = list(list.__iter__(self))
        if self.tail or (isinstance(o, SList) and o.tail):
            raise Unsupp("comparison of symbolic lists")
        if not isinstance(o, list):
            return False
        ol = list(list.__iter__(o))
        return len(self_l) == len(ol) and all(a is b or bool(a == b) for a, b in zip(self_l, ol))

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __deepcopy__(self, memo):
        import copy
        r = SList()
        memo[id(self)] = r
        list.extend(r, [copy.deepcopy(x, memo) for x in list.__iter__(self)])
        for s in self.tail:
            if isinstance(s, Seg):
                f = s.fn
                r.tail.append(Seg(s.n, f))
            else:
                r.tail.append(copy.deepcopy(s, memo))
        return r

    def __reduce_ex__(self, p):
        return (SList, (list(list.__iter__(self)),))


def sym_repeat(lst, n):
    """[x] * n"""
    if isinstance(lst, SList) and not lst.tail and list.__len__(lst) == 1:
        x = list.__getitem__(lst, 0)
        r = SList()
        if not (isinstance(n, SInt)):
            raise Unsupp("repeat")
        r.tail = [Seg(n.e, lambda i: x)]
        return r
    raise Unsupp("sequence repetition with symbolic count")


# ----------------------------------------------------------------------------------------------
# symbolic iterables


class SymRange:
    """range(lo, hi, step) with symbolic bounds, step a nonzero python int"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def sym_len(self):
        if self.step == 1:
            n = tm.isub(self.hi, self.lo)
        elif self.step > 0:
            n = tm.idiv(I(zi(self.hi) - zi(self.lo) + (self.step - 1)), self.step)
        else:
            n = tm.idiv(I(zi(self.lo) - zi(self.hi) + (-self.step - 1)), -self.step)
        if ENG.logic.entails(ile(0, n)):
            return mkint(n)
        return mkint(tm.iite(ile(0, n), n, 0))

    def at(self, i):
        return mkint(zi(self.lo) + self.step * zi(i))

    def __iter__(self):
        raise Unsupp("native iteration over a symbolic range")

    def __len__(self):
        raise Unsupp("len of symbolic range")

    def __getitem__(self, i):
        v = ival(i)
        if v is None:
            raise Unsupp("range slice")
        return self.at(v)


class SymSeq:
    """generic symbolic sequence"""

    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def sym_len(self):
        return mkint(self.n)

    def at(self, i):
        return self.fn(i)

    def __iter__(self):
        raise Unsupp("native iteration over a symbolic sequence")


def sym_len(x):
    """int or SInt length of an iterable usable by the loop rule; None if not symbolic"""
    if isinstance(x, SymRange) or isinstance(x, SymSeq):
        return x.sym_len()
    if isinstance(x, SList):
        return x.sym_len() if x.tail else None
    if hasattr(x, "_qv_arr"):
        if not x.shape:
            raise TypeError("iteration over a 0-d array")
        n = x.shape[0]
        return n if isinstance(n, SInt) else None
    return None


def sym_at(x, i):
    if isinstance(x, (SymRange, SymSeq, SList)):
        return x.at(i)
    return x[mkint(i)]


def sym_iter(x):
    """native iterator for concrete iterables"""
    n = sym_len(x)
    if n is not None and not isinstance(n, int):
        raise Unsupp("symbolic iterable in a native context")
    if n is not None:
        return iter([sym_at(x, i) for i in range(n)])
    return iter(x)


# ----------------------------------------------------------------------------------------------
# The loop rule


class AttrLoc:
    __slots__ = ("o", "n")

    def __init__(self, o, n):
        self.o, self.n = o, n

    def _loc_get(self):
        return self.o.__dict__.get(self.n, UNBOUND)

    def _loc_set(self, v):
        if v is UNBOUND:
            self.o.__dict__.pop(self.n, None)
        else:
            self.o.__dict__[self.n] = v

    def key(self):
        return ("attr", id(self.o), self.n)


def loc_key(l):
    return l.key() if isinstance(l, AttrLoc) else id(l)


def is_small(l):
    from . import npmodel
    if not isinstance(l, npmodel.Storage) or l.kind not in "ifc":
        return False
    n = 1
    for d in l.shape:
        v = npmodel.dimval(d)
        if not isinstance(v, int):
            return False
        n *= v
    return 0 < n <= 16 and len(l.shape) > 0


def small_cells(l):
    from . import npmodel
    return list(itertools.product(*[range(npmodel.dimval(d)) for d in l.shape]))


def cellwise(loc, old, vals):
    """content equal to vals at the given literal cells and to old elsewhere"""
    from . import npmodel

    def f(idx):
        if all(isinstance(i, int) for i in idx):
            return vals[idx] if idx in vals else old(idx)
        hit = [(c, And(*[ieq(i, j) for i, j in zip(idx, c)])) for c in vals]
        if old is None:
            r = tm.ZERO
        else:
            r = old(idx).guard(And(*[Not(g) for _, g in hit]))
        for c, g in hit:
            r = r + vals[c].guard(g)
        return r
    return npmodel.Content(f)


class DummyLoc:
    def _loc_get(self):
        return None

    def _loc_set(self, v):
        pass


class LoopFrame:
    """one symbolic for loop; drives passes over the body"""

    def __init__(self, n, at):
        self.n = I(n)            # number of iterations
        self.at = at             # iteration number -> item
        self.sym = True
        self.havoc_locals = set()
        self.havoc_locs = {}     # key -> loc
        self.state = "new"
        self.names = ()
        self.ph = {}             # placeholder bookkeeping
        self.small = {}          # key -> (Storage of literal shape, set of written cells)
        self.cell_entry = {}     # pseudo local of a cell -> value at loop entry

    # -- protocol used by instrumented code
    def enter(self, loc, names, rbw):
        self.names = names
        self.rbw = set(rbw)
        self.entry = {n: loc.get(n, UNBOUND) for n in names}
        for n in names:
            if isinstance(self.entry[n], Unbound):
                self.entry[n] = UNBOUND
        self.depth = len(ENG.levels)
        fr = sys._getframe(1)
        self.site = (fr.f_code, fr.f_lasti)
        hint = ENG.loop_hints.get(self.site) if self.depth > 1 else None
        if hint is not None:
            # nested loop met before on this path: start from the state it was found to carry
            # (an optimisation: carrying more state than needed is sound)
            locs, kinds, small = hint
            for n in names:
                if n in locs and n in self.rbw and isnumlike(self.entry[n]) \
                        and not isinstance(self.entry[n], (bool, SBool)):
                    self.havoc_locals.add(n)
                    if n in kinds and KORD[kinds[n]] > KORD[num(self.entry[n]).k]:
                        self.entry[n] = Num(num(self.entry[n]).t, kinds[n])
            self.small = {k: (l, set(c)) for k, (l, c) in small.items()}
        self.start_round()

    def start_round(self):
        """a round = all passes over the body with a fixed havoc set"""
        self.fresh_round = True
        ENG.levels.append(Level(self.depth))
        ENG.logic.push()
        self.level = ENG.levels[-1]
        self.k = fresh_int("k")
        self.level.names.add(self.k.decl().name())
        self.range_cond = And(ile(0, self.k), ilt(self.k, self.n))
        self.passes = []
        self.trace = []
        self.ph = {}
        self.undo_start = len(ENG.undo)
        self.in_pass = False
        # placeholder values
        self.start_vals = dict(self.entry)
        self.ph_locs = {}
        for n in self.names:
            if n in self.havoc_locals:
                self.start_vals[n] = self.mk_placeholder(self.entry[n], "L_" + n)
        for key, loc in self.havoc_locs.items():
            old = loc._loc_get()
            ENG.log(loc, old)
            loc._loc_set(self.mk_placeholder(old, "H", loc))
            self.ph_locs[key] = (loc, old)
        self.cell_names = []
        for key, (loc, cells) in self.small.items():
            old = loc._loc_get()
            ENG.log(loc, old)
            vals = {}
            for c in sorted(cells):
                nm = "@%d%s" % (key, c)
                if nm not in self.entry:
                    t = old(c)
                    e = term_to_int(t) if loc.kind == "i" else None
                    self.entry[nm] = mkint(e) if e is not None else Num(t, loc.kind)
                self.start_vals[nm] = self.mk_placeholder(self.entry[nm], "C")
                vals[c] = num(self.start_vals[nm]).t
                self.cell_names.append((nm, key, c))
            loc._loc_set(cellwise(loc, old, vals))
            self.ph_locs[key] = (loc, old)
        self.undo_start = len(ENG.undo)

    def mk_placeholder(self, v, nm, loc=None):
        from . import npmodel
        if isinstance(loc, npmodel.Storage):
            h = Head("ph_%s!%d" % (nm, next(tm._fresh)), len(loc.shape), real=(loc.kind != "c"), integer=(loc.kind in "ib"))
            self.level.names.add(h.name)
            self.ph[id(loc)] = h
            if loc.kind == "b":
                raise Unsupp("boolean array carried through a loop")
            return npmodel.Content(lambda idx, h=h: atom_term(El(h, idx)))
        if isinstance(loc, SList):
            self.ph[id(loc)] = True
            return ((), (PHSeg(),))
        if isinstance(v, bool) or isinstance(v, SBool):
            b = z3.Bool("ph_%s!%d" % (nm, next(tm._fresh)))
            self.level.names.add(b.decl().name())
            return SBool(b)
        if ival(v) is not None:
            e = fresh_int("ph_" + nm)
            self.level.names.add(e.decl().name())
            return SInt(e)
        if isnumlike(v):
            k = num(v).k
            ov = self.ph_kind.get(nm) if hasattr(self, "ph_kind") else None
            k = kjoin(k, ov) if ov else k
            h = Head("ph_%s!%d" % (nm, next(tm._fresh)), 0, real=(k != "c"), integer=(k == "i"))
            self.level.names.add(h.name)
            return Num(atom_term(El(h)), k)
        if hasattr(v, "_qv_arr"):
            k = v.kind
            ov = self.ph_kind.get(nm) if hasattr(self, "ph_kind") else None
            k = kjoin(k, ov) if ov else k
            h = Head("ph_%s!%d" % (nm, next(tm._fresh)), len(v.shape), real=(k != "c"), integer=(k == "i"))
            self.level.names.add(h.name)
            return npmodel.SArr.fresh(v.shape, k, lambda idx, h=h: atom_term(El(h, idx)))
        raise Unsupp("loop-carried variable of kind %s" % type(v).__name__)

    def more(self, loc):
        if self.fresh_round:
            return self.begin_pass()
        if self.in_pass:
            self.end_pass(loc)
        # advance the local trace
        while self.trace and self.trace[-1][0] + 1 >= self.trace[-1][1]:
            self.trace.pop()
        if not self.trace:
            return not self.finish_round()
        self.trace[-1][0] += 1
        return self.begin_pass()

    def begin_pass(self):
        self.fresh_round = False
        if len(self.passes) > 600:
            raise Unsupp("too many paths in a loop body")
        lv = self.level
        lv.trace = self.trace
        lv.pos = 0
        lv.pc = []
        ENG.logic.frames[self.depth] = []
        ENG.logic.assume(self.range_cond, self.depth)
        self.in_pass = True
        return True

    def values(self):
        out = []
        for n in self.names:
            v = self.start_vals[n]
            out.append(Unbound("unbound") if v is UNBOUND else v)
        return tuple(out)

    def item(self):
        return self.at(self.k)

    def rollback(self, to):
        u = ENG.undo
        while len(u) > to:
            l, old = u.pop()
            l._loc_set(old)

    def end_pass(self, loc):
        guard = And(*self.level.pc)
        vals = {n: loc.get(n, UNBOUND) for n in self.names}
        for n in self.names:
            if isinstance(vals[n], Unbound):
                vals[n] = UNBOUND
        touched = {}
        for l, old in ENG.undo[self.undo_start:]:
            touched[loc_key(l)] = l
        new = {k: (l, l._loc_get()) for k, l in touched.items()}
        self.rollback(self.undo_start)
        # values created/kept; objects written that did not exist at loop entry are irrelevant to the outside
        self.passes.append((guard, vals, new))
        self.in_pass = False

    def brk(self):
        raise Unsupp("break/return out of a loop with a symbolic number of iterations")

    def exc(self, e):
        """an exception escaped the body on the current local path"""
        if not isinstance(e, Exception):
            self.close()
            raise e
        pc = And(self.range_cond, *self.level.pc)
        # outer choice: some iteration raises / no iteration raises
        li = ENG.level_of(And(*[x for x in [pc] if x is not True])) if False else self.depth - 1
        if not ENG.logic.feasible():
            # unreachable path
            self.rollback(self.undo_start)
            self.drop_pass()
            return
        if isz(pc) and zdecls(pc) & (self.level.names - {self.k.decl().name()}):
            self.close()
            raise Unsupp("exception in a loop body under a condition on loop-carried state: %r" % (e,))
        c = ENG.levels[li].next(2)
        if c == 0:
            self.close()
            ENG.logic.assume(pc, li)
            for nm in self.level.names:
                ENG.levels[li].names.add(nm) if li else None
            raise e
        k2 = fresh_int("k")
        body = zsubst(pc, [(self.k, k2)])
        ENG.logic.assume(z3.ForAll([k2], z3.Not(zb(body))) if isz(body) else Not(body), li)
        if not self.level.pc:
            ENG.logic.assume(ile(self.n, 0), li)
        self.rollback(self.undo_start)
        self.drop_pass()

    def drop_pass(self):
        self.in_pass = False
        self.dropped = True

    def after_exc(self):
        """next pass after a dropped one (called by more via in_pass False)"""

    def close(self):
        while len(ENG.levels) > self.depth:
            ENG.levels.pop()
        while len(ENG.logic.frames) > self.depth:
            ENG.logic.frames.pop()

    def finish_round(self):
        """True when the loop is completely summarised (then results() is valid)"""
        # which locals / locations changed?
        new_h = set()
        new_l = {}
        for guard, vals, new in self.passes:
            for n in self.names:
                if n in self.havoc_locals or n not in self.rbw:
                    continue
                if self.entry[n] is UNBOUND:
                    continue
                if not veq_ident(vals[n], self.start_vals[n]):
                    new_h.add(n)
            for k, (l, v) in new.items():
                if k in self.havoc_locs:
                    continue
                if is_small(l):
                    known = self.small.get(k, (l, set()))[1]
                    cur = l._loc_get()
                    ch = {c for c in small_cells(l) if c not in known and (v(c) - cur(c)).s}
                    if ch:
                        self.small[k] = (l, known | ch)
                        new_l.setdefault("@", None)
                    continue
                new_l[k] = l
        # arrays rebound to the same SArr object but with written storage are covered by locs
        grown = new_l.pop("@", 0) is None
        pre_existing = {k: l for k, l in new_l.items() if self.pre_exists(l)}
        if new_h or pre_existing or grown:
            self.restart(new_h, pre_existing)
            return False
        ok = self.summarise()
        if not ok:
            return False
        if self.depth > 1:
            ENG.loop_hints[self.site] = (
                set(self.havoc_locals),
                {n: self.entry[n].k for n in self.havoc_locals if isinstance(self.entry[n], Num)},
                {k: (l, set(c)) for k, (l, c) in self.small.items()})
        return True

    def pre_exists(self, l):
        # a location created inside the body has a birth mark not older than the frame
        b = getattr(l, "birth", None)
        return True

    def restart(self, new_h, new_l):
        self.rounds = getattr(self, "rounds", 0) + 1
        if self.rounds > 12:
            raise Unsupp("loop state does not stabilise")
        # undo placeholder installs
        for key, (loc, old) in self.ph_locs.items():
            loc._loc_set(old)
        n_ph = len(self.ph_locs)
        if n_ph:
            del ENG.undo[self.undo_start - n_ph:self.undo_start]
        self.close()
        self.havoc_locals |= new_h
        self.havoc_locs.update(new_l)
        self.start_round()
        self.begin_pass()

    # -- summarisation
    def summarise(self):
        from . import npmodel
        k, n = self.k, self.n
        names = set(self.level.names)
        ph_names = names - {k.decl().name()}
        guards = [g for g, _, _ in self.passes]
        # undo placeholder installs so that the initial contents are visible
        for key, (loc, old) in self.ph_locs.items():
            loc._loc_set(old)
        n_ph = len(self.ph_locs)
        if n_ph:
            del ENG.undo[self.undo_start - n_ph:self.undo_start]
        lg = ENG.logic
        lg.frames[self.depth] = []
        lg.assume(self.range_cond, self.depth)
        at_k = {}       # placeholder z3 name/head name -> value at iteration k (once solved)
        res = {}
        pend = []
        writes = []
        if not self.passes:
            # every path raised: zero iterations remain
            self.close()
            self.res = {n_: (UNBOUND if self.entry[n_] is UNBOUND else self.entry[n_]) for n_ in self.names}
            return True
        merged = {}
        for nm in self.names:
            vs = [(g, vals[nm]) for g, vals, _ in self.passes]
            if any(v is UNBOUND for _, v in vs):
                merged[nm] = Poison("variable %s bound only on some paths of a loop" % nm)
            else:
                merged[nm] = vmerge(vs, nm)
        for nm, key, c in self.cell_names:
            vs = []
            loc = self.small[key][0]
            for g, _, new in self.passes:
                if key not in new:
                    vs.append((g, self.start_vals[nm]))
                    continue
                t = new[key][1](c)
                e = term_to_int(t) if loc.kind == "i" else None
                vs.append((g, mkint(e) if e is not None else Num(t, loc.kind)))
            merged[nm] = vmerge(vs, nm)
        # solve scalar recurrences, dependencies first
        todo = [nm for nm in self.names if nm in self.havoc_locals] + [nm for nm, _, _ in self.cell_names]
        sol_pairs_z = []      # (z3 ph var, expr at iteration k)
        sol_heads = {}        # head -> Term at iteration k
        progress = True
        order = list(todo)
        solved = {}
        while order and progress:
            progress = False
            for nm in list(order):
                r = self.solve_local(nm, merged[nm], ph_names, sol_pairs_z, sol_heads)
                if r is None:
                    continue
                solved[nm] = r
                order.remove(nm)
                progress = True
        if getattr(self, "need_restart", False):
            self.need_restart = False
            self.close()
            self.start_round()
            self.begin_pass()
            return False
        unsolved_names = set()
        for nm in order:
            ph = self.start_vals[nm]
            unsolved_names.add(nm)
            solved[nm] = Poison("loop-carried variable %s has no closed form" % nm)

        def resolve(t):
            """replace solved scalar placeholders (values at iteration k) in a term"""
            if sol_pairs_z:
                t = t.subst(sol_pairs_z)
            if sol_heads:
                t = t.map_atoms(lambda a: sol_heads[a.head] if isinstance(a, El) and a.head in sol_heads else None)
            return t
        self.resolve = resolve
        # storages
        for key, loc in self.havoc_locs.items():
            contents = [(g, new[key][1] if key in new else None) for g, _, new in self.passes]
            if isinstance(loc, npmodel.Storage):
                h = self.ph[id(loc)]
                phc = npmodel.Content(lambda idx, h=h: atom_term(El(h, idx)))
                alts = [(g, c if c is not None else phc) for g, c in contents]
                writes.append((loc, self.solve_storage(loc, h, alts, names, ph_names, resolve)))
            elif isinstance(loc, SList):
                writes.append((loc, self.solve_list(loc, contents, ph_names, resolve)))
            elif isinstance(loc, AttrLoc):
                writes.append((loc, self.solve_attr(loc, contents, ph_names)))
            else:
                raise Unsupp("write to %s in a symbolic loop" % type(loc).__name__)
        for key, (loc, cells) in self.small.items():
            vals = {}
            for nm, k2, c in self.cell_names:
                if k2 != key:
                    continue
                v = solved.get(nm)
                if v is None or isinstance(v, Poison):
                    raise Unsupp("loop-carried array cell without closed form")
                t = num(v).t
                if tdepends(t, ph_names):
                    raise Unsupp("loop-carried array cell depends on other loop-carried state")
                vals[c] = t
            old = loc._loc_get()
            for c in small_cells(loc):
                if c not in vals:
                    vals[c] = old(c)
            writes.append((loc, cellwise(loc, None, vals)))
        # last values
        nonempty = ilt(0, n)
        last = [(k, zi(tm.isub(n, 1)))]
        for nm in self.names:
            if nm in solved:
                res[nm] = solved[nm]
                continue
            v = merged[nm]
            e0 = self.entry[nm]
            if isinstance(v, Poison):
                res[nm] = v
                continue
            if e0 is not UNBOUND and veq_ident(v, e0):
                res[nm] = v
                continue
            if isnumlike(v) or isinstance(v, tuple) or hasattr(v, "_qv_arr"):
                try:
                    lv = self.close_value(v, last, ph_names, sol_pairs_z, sol_heads)
                except Unsupp as ex:
                    res[nm] = Poison(str(ex))
                    continue
                if lg_entails_outer(self, nonempty):
                    res[nm] = lv
                elif e0 is UNBOUND:
                    res[nm] = lv if False else MaybeUnbound(lv, nonempty)
                else:
                    res[nm] = vmerge([(nonempty, lv), (Not(nonempty), e0)], nm)
            else:
                res[nm] = Poison("value of %s after a symbolic loop" % nm) if vdepends(v, names) else v
        self.close()
        for loc, val in writes:
            ENG.log(loc, loc._loc_get())
            loc._loc_set(val)
        self.res = res
        return True

    def close_value(self, v, last, ph_names, pz, ph_heads):
        w = v
        if pz:
            w = vsubst(w, pz)
        if ph_heads and isinstance(w, Num):
            w = Num(w.t.map_atoms(lambda a: ph_heads[a.head] if isinstance(a, El) and a.head in ph_heads else None), w.k)
        if vdepends(w, ph_names):
            raise Unsupp("last value of a loop variable depends on unsolved state")
        return vsubst(w, last)

    def solve_local(self, nm, v, ph_names, pz, ph_heads):
        ph = self.start_vals[nm]
        v0 = self.entry[nm]
        k, n = self.k, self.n
        if isinstance(v, Poison):
            return None
        lg = ENG.logic
        if isinstance(ph, SInt):
            if isnumlike(v) and ival(v) is None and isinstance(v, Num):
                # int accumulator became a real: redo with a real placeholder
                self.entry[nm] = Num(num(v0).t, v.k)
                self.need_restart = True
                return Poison("restart")
            if ival(v) is None:
                return None
            e = I(zsubst(ival(v), pz)) if pz else ival(v)
            d = tm.isub(e, ph.e)
            if not vdepends(mkint(d), ph_names):
                # accumulate
                def closed(upto):
                    j = fresh_int("j")
                    t = int_term(zsubst(d, [(k, j)])).sum(j, 0, upto) if isz(d) else int_term(d) * int_term(upto)
                    sm = lgm.normalise(t)
                    r = term_to_int(Term(sm))
                    if r is None:
                        return None
                    return tm.iadd(ival(v0), r)
                at = closed(k)
                fin = closed(n)
                if at is None or fin is None:
                    t0 = num(v0).t
                    j = fresh_int("j")
                    dt = int_term(zsubst(d, [(k, j)])) if isz(d) else T(d)
                    return Num(t0 + dt.sum(j, 0, n), "i")
                pz.append((ph.e, zi(at)))
                if not lg_entails_outer(self, ile(0, n)):
                    fin = tm.iite(ile(0, n), fin, ival(v0))
                return mkint(fin)
            if not vdepends(mkint(e), ph_names):
                # last value
                prev = I(zsubst(e, [(k, k - 1)])) if isz(e) else e
                pz.append((ph.e, zi(tm.iite(ieq(k, 0), ival(v0), prev))))
                lastv = I(zsubst(e, [(k, zi(tm.isub(n, 1)))])) if isz(e) else e
                return mkint(tm.iite(ilt(0, n), lastv, ival(v0)))
            # product
            if z3.is_mul(e) or True:
                t = int_term(e)
                r = self.product(t, ph, v0, nm)
                if r is not None:
                    return r
            return None
        if isinstance(ph, SBool):
            if isinstance(v, (bool, SBool)):
                e = bool_of(v)
                if not (isz(e) and zdecls(e) & ph_names):
                    lastv = zsubst(e, [(k, zi(tm.isub(n, 1)))]) if isz(e) else e
                    return vmerge([(ilt(0, n), mkbool(lastv)), (Not(ilt(0, n)), v0)])
            return None
        if isinstance(ph, Num):
            if not isnumlike(v):
                return None
            nv = num(v)
            if KORD[nv.k] > KORD[ph.k]:
                self.entry[nm] = Num(num(v0).t, nv.k)
                self.need_restart = True
                return Poison("restart")
            t = nv.t
            if pz:
                t = t.subst(pz)
            if ph_heads:
                t = t.map_atoms(lambda a: ph_heads[a.head] if isinstance(a, El) and a.head in ph_heads else None)
            d = t - ph.t
            if tdepends(d, ph_names):
                d = self.cancel_ph(d, ph.t.s[0].f[0][0].head, ())
            if tdepends(d, ph_names):
                d = Term(lgm.normalise(d))
            k0 = num(v0)
            if not tdepends(d, ph_names):
                j = fresh_int("j")
                at = k0.t + d.subst([(k, j)]).sum(j, 0, k)
                h = ph.t.s[0].f[0][0].head
                ph_heads[h] = at
                return Num(k0.t + d.sum(k, 0, n), kjoin(k0.k, nv.k))
            if not tdepends(t, ph_names):
                lastv = t.subst([(k, zi(tm.isub(n, 1)))])
                return Num(lastv.guard(ilt(0, n)) + k0.t.guard(Not(ilt(0, n))), kjoin(k0.k, nv.k))
            return self.product(t, ph, v0, nm)
        if hasattr(ph, "_qv_arr"):
            if not hasattr(v, "_qv_arr"):
                return None
            from . import npmodel
            if KORD[v.kind] > KORD[ph.kind]:
                if not hasattr(self, "ph_kind"):
                    self.ph_kind = {}
                self.ph_kind["L_" + nm] = v.kind
                e0 = self.entry[nm]
                self.entry[nm] = e0.astype_kind(v.kind)
                self.need_restart = True
                return Poison("restart")
            if not npmodel.same_shape(v.shape, ph.shape):
                return None
            x = tuple(fresh_int("x") for _ in v.shape)
            lg.push()
            for xi, ni in zip(x, v.shape):
                lg.assume(And(ile(0, xi), ilt(xi, npmodel.dimval(ni))))
            t = v.get(x)
            if pz:
                t = t.subst(pz)
            if ph_heads:
                t = t.map_atoms(lambda a: ph_heads[a.head] if isinstance(a, El) and a.head in ph_heads else None)
            d = Term(lgm.normalise(t - ph.get(x)))
            lg.pop()
            e0 = self.entry[nm]
            g0 = e0.frozen()
            if not tdepends(d, ph_names):
                def fin(idx):
                    return g0(idx) + d.subst(list(zip(x, [zi(i) for i in idx]))).sum(k, 0, n)
                return npmodel.SArr.fresh(e0.shape, kjoin(e0.kind, v.kind), fin)
            return None
        return None

    def product(self, t, ph, v0, nm):
        """x' = x * G(k)"""
        k, n = self.k, self.n
        pht = num(ph).t
        if len(t.s) != 1 or t.s[0].g or t.s[0].b:
            return None
        G = t / pht
        names = set(self.level.names) - {k.decl().name()}
        if tdepends(G, names):
            return None
        k0 = num(v0)
        kd = kjoin(k0.k, num(ph).k)
        if not tdepends(G, {k.decl().name()}):
            return Num(k0.t * G.powi(n), kd)
        e = term_to_int(G)
        if e is not None and isz(e):
            d, c = tm.linear(e)
            if d == {ZK(k): 1} and c >= 1:
                r = mk_fn("factorial", [tm.iadd(n, c - 1)])
                return Num(k0.t * r * Fraction(1, math.factorial(c - 1)), kd)
        return None

    def solve_storage(self, loc, h, alts, names, ph_names, resolve):
        from . import npmodel
        k, n = self.k, self.n
        lg = ENG.logic
        x = tuple(fresh_int("x") for _ in loc.shape)
        lg.push()
        for xi, ni in zip(x, loc.shape):
            lg.assume(And(ile(0, xi), ilt(xi, npmodel.dimval(ni))))
        try:
            t = ZERO
            for g, c in alts:
                t = t + c(x).guard(g)
            t = resolve(t)
            phx = atom_term(El(h, x))
            d = Term(lgm.normalise(t - phx))
            d = Term([s for s in d.s if not (s.g and lg.unsat(s.g))])
            # merge PH[x] parts: -PH[x](G1) and +PH[x](G2) cancellation
            d = self.cancel_ph(d, h, x)
            old = loc.content
            other_ph = {nm for nm in ph_names if nm != h.name}
            if tdepends(d, other_ph):
                raise Unsupp("loop body result depends on other loop-carried state")
            if not any(hh is h for hh in d.heads()):
                def acc(idx):
                    return old(idx) + d.subst(list(zip(x, [zi(i) for i in idx]))).sum(k, 0, n)
                return npmodel.Content(acc)
            # touched region
            T_parts = []
            for s in d.s:
                bs = {ZK(v) for v in s.b}
                T_parts.append(And(*[g for g in s.g if not (zvars(g) & bs)]))
            Tk = Or(*T_parts)
            k1 = fresh_int("k")
            uniq = False
            if isz(Tk) and ZK(k) in zvars(Tk):
                T1 = zsubst(Tk, [(k, k1)])
                uniq = lg.entails(ieq(k, k1), given=[And(Tk), And(T1), And(ile(0, k1), ilt(k1, n))])
            if uniq:
                # reads of PH at other cells must not have been touched before iteration k
                for s in d.s:
                    for a, q in s.f:
                        for el in els_of(a):
                            if el.head is h:
                                T2 = zsubst(Tk, [(k, k1)] + list(zip(x, [zi(i) for i in el.idx]))) if isz(Tk) else Tk
                                if all(z3.eq(zi(i), xi) for i, xi in zip(el.idx, x)):
                                    continue
                                if not lg.unsat(list(s.g) + [T2, And(ile(0, k1), k1 < k)]):
                                    raise Unsupp("loop body reads a cell written by an earlier iteration")

                def fin(idx):
                    dd = d.map_atoms(lambda a: (old(a.idx) if not a.cj else old(a.idx).conj())
                                     if isinstance(a, El) and a.head is h else None)
                    r = old(idx) + dd.subst(list(zip(x, [zi(i) for i in idx]))).sum(k, 0, n)
                    return Term(lgm.normalise(r))
                return npmodel.Content(fin)
            if not (isz(Tk) and ZK(k) in zvars(Tk)):
                # same region in every iteration: last value
                tt = Term([s for s in lgm.normalise(t.guard(Tk)) if not (s.g and lg.unsat(s.g))])
                if any(hh is h for hh in tt.heads()):
                    raise Unsupp("loop-carried array cell without closed form")
                lastv = tt.subst([(k, zi(tm.isub(n, 1)))])

                def fin(idx):
                    p = list(zip(x, [zi(i) for i in idx]))
                    c = And(ilt(0, n), zsubst(Tk, p) if isz(Tk) else Tk)
                    return lastv.subst(p).guard(ilt(0, n)) + old(idx).guard(Not(c))
                return npmodel.Content(fin)
            raise Unsupp("array cell written by several iterations")
        finally:
            lg.pop()

    def cancel_ph(self, d, h, x):
        """drop PH[x] summands whose total coefficient vanishes"""
        lg = ENG.logic
        ph, rest = [], []
        for s in d.s:
            if len(s.f) == 1 and isinstance(s.f[0][0], El) and s.f[0][0].head is h and s.f[0][1] == 1 and not s.b \
                    and (not s.f[0][0].cj or h.real) and all(z3.eq(zi(i), xi) for i, xi in zip(s.f[0][0].idx, x)):
                ph.append(s)
            else:
                rest.append(s)
        if ph and lgm.coeff_zero([(s.c, None, And(*s.g)) for s in ph]) is True:
            return Term(rest)
        if len(ph) > 1 and all(s.c.im == 0 for s in ph):
            # overwritten cells: the coefficients add up to -1 where the cell is overwritten, 0 elsewhere
            C = z3.Sum([z3.If(zb(And(*s.g)), z3.RealVal(str(s.c.re)), z3.RealVal(0)) for s in ph])
            if rest and lg.entails(z3.Or(C == 0, C == -1)):
                W = Or(*[And(*[g for g in s.g if not (zvars(g) & {ZK(v) for v in s.b})]) for s in rest])
                if not lg.entails(C == z3.If(zb(W), z3.RealVal(-1), z3.RealVal(0))):
                    W = Bz(C == -1)
                return Term(rest) - atom_term(El(h, x)).guard(W)
        return d

    def solve_list(self, loc, contents, ph_names, resolve):
        k, n = self.k, self.n
        segs = []
        for g, c in contents:
            if c is None:
                raise Unsupp("list appended only on some paths")
            pre, tail = c
            if pre or not tail or not isinstance(tail[0], PHSeg):
                raise Unsupp("list rebuilt in a loop")
            segs.append((g, tail[1:]))
        m = len(segs[0][1])
        if any(len(s) != m for _, s in segs):
            raise Unsupp("number of appended elements depends on the path")
        old_pre, old_tail = loc._loc_get()
        if m == 0:
            return (old_pre, old_tail)
        if m == 1:
            el = segs[0][1][0]
            if isinstance(el, Seg):
                if len(segs) > 1:
                    raise Unsupp("path-dependent nested append")
                ln, f = el.n, el.fn
                if isz(ln) and ZK(k) in zvars(ln):
                    raise Unsupp("ragged nested append")

                def fn(i, f=f, ln=ln):
                    q = tm.idiv(i, ln)
                    r = tm.imod(i, ln)
                    return vsubst(f(r), [(k, zi(q))])
                if vdepends(f(fresh_int("i")), ph_names):
                    raise Unsupp("appended value depends on loop-carried state")
                seg = Seg(tm.imul(ln, n), fn)
            else:
                v = vmerge([(g, s[0]) for g, s in segs])
                v = self.fix(v, resolve, ph_names)
                seg = Seg(n, lambda i, v=v: vsubst(v, [(k, zi(i))]))
            return (old_pre, tuple(old_tail) + (seg,))
        vs = [self.fix(vmerge([(g, s[j]) for g, s in segs]), resolve, ph_names) for j in range(m)]

        def fn(i):
            q, r = tm.idiv(i, m), tm.imod(i, m)
            return vmerge([(ieq(r, j), vsubst(vs[j], [(k, zi(q))])) for j in range(m)])
        return (old_pre, tuple(old_tail) + (Seg(tm.imul(m, n), fn),))

    def fix(self, v, resolve, ph_names):
        if isinstance(v, Num):
            v = Num(resolve(v.t), v.k)
        if isinstance(v, tuple):
            v = tuple(self.fix(x, resolve, ph_names) for x in v)
        if vdepends(v, ph_names):
            raise Unsupp("appended value depends on loop-carried state")
        return v

    def solve_attr(self, loc, contents, ph_names):
        v0 = loc._loc_get()
        ph = None
        raise Unsupp("attribute %s rebound in a symbolic loop" % loc.n)

    def results(self):
        out = []
        for n in self.names:
            v = self.res[n]
            out.append(Unbound("unbound") if v is UNBOUND else v)
        return tuple(out)


def MaybeUnbound(v, cond):
    if ENG.logic.entails(cond):
        return v
    return v     # value only meaningful after a non-empty loop; reading it after an empty loop raises in CPython


def lg_entails_outer(frame, f):
    """entailment without the frame's own assumptions"""
    fr = ENG.logic.frames
    saved = fr[frame.depth:]
    del fr[frame.depth:]
    try:
        return ENG.logic.entails(f)
    finally:
        fr.extend(saved)


def els_of(a):
    if isinstance(a, El):
        yield a
    elif isinstance(a, PowI) and not isinstance(a.b, int):
        yield from els_of(a.b)
    else:
        for t in a.terms():
            for s in t.s:
                for b, q in s.f:
                    yield from els_of(b)


class NativeLoop:
    sym = False

    def __init__(self, it):
        self.it = iter(it)

    def enter(self, loc, names, rbw):
        pass

    def more(self, loc):
        try:
            self.cur = next(self.it)
            return True
        except StopIteration:
            return False

    def item(self):
        return self.cur

    def brk(self):
        pass

    def exc(self, e):
        raise e


def qv_for(it):
    n = sym_len(it)
    if n is None:
        return NativeLoop(it)
    if isinstance(n, int):
        return NativeLoop([sym_at(it, i) for i in range(n)] if not isinstance(it, SList) else it)
    e = n.e
    if ENG.logic.entails(e <= 0):
        return NativeLoop(())
    return LoopFrame(e, lambda k: sym_at(it, k))


def sym_map(n, fn):
    """[fn(k) for k < n] as a function of k: runs fn once per local path with a generic index.
    returns element function idx -> value"""
    fr = LoopFrame(n, lambda k: k)
    loc = {}
    fr.enter(loc, ("r",), ())
    while fr.more(loc):
        loc = {}
        try:
            loc["r"] = fn(mkint(fr.k))
        except BaseException as e:
            fr.exc(e)
            continue
    # value as function of k
    k = fr.k
    v = vmerge([(g, vals["r"]) for g, vals, _ in fr.passes]) if fr.passes else None
    if isinstance(v, Poison):
        v._u()
    return lambda i: vsubst(v, [(k, zi(i))])


# ----------------------------------------------------------------------------------------------
# while loops


class WhileFrame:
    """while with a symbolic condition: carried integers must follow polynomial recurrences.

    native iterations -> 5 sample iterations -> fit -> verification of the induction step at a generic
    iteration K -> evaluation of the condition at K, K+1, X-1, X (X: the exit iteration)"""

    def __init__(self):
        self.mode = "native"
        self.count = 0
        self.setv = False
        self.skip = False

    def enter(self, loc, names):
        self.names = names

    def brk(self):
        if self.mode != "native":
            raise Unsupp("break/return out of a while loop with a symbolic condition")

    def more(self, loc, cond):
        if self.mode == "native":
            c = cond()
            if isinstance(c, SBool):
                lg = ENG.logic
                if lg.entails(c.e):
                    c = True
                elif lg.entails(Not(c.e)):
                    c = False
            if not isinstance(c, SBool):
                self.count += 1
                if self.count > 5000:
                    raise Unsupp("while loop does not terminate within 5000 native iterations")
                return bool(c)
            if len(ENG.levels) > 1:
                raise Unsupp("symbolic while loop inside a symbolic loop body (needs a contract)")
            self.mode = "sample"
            self.samples = [self.snap(loc)]
            self.level_n = len(ENG.levels)
            self.undo_n = len(ENG.undo)
            ENG.levels.append(Level(self.level_n))
            ENG.logic.push()
            return True
        if self.mode == "sample":
            self.samples.append(self.snap(loc))
            if ENG.levels[-1].trace or len(ENG.undo) != self.undo_n:
                raise Unsupp("while body with branches or stores on symbolic state")
            if len(self.samples) < 6:
                return True
            self.fit()
            self.mode = "verify"
            self.setv = True
            self.pos = self.K
            ENG.logic.assume(self.K >= 0)
            ENG.levels[-1].names.add(self.K.decl().name())
            return True
        if self.mode == "verify":
            self.check_step(loc)
            ENG.levels.pop()
            ENG.logic.pop()
            self.exit_K = fresh_int("K")
            self.gen_K = self.K
            self.skip = True
            self.queue = [self.K, self.K + 1, self.exit_K - 1, self.exit_K]
            self.conds = []
            self.mode = "cond"
            self.pos = self.queue[0]
            return True
        if self.mode == "cond":
            c = cond()
            if bool_of(c) is None:
                raise Unsupp("while condition is not a comparison")
            self.conds.append(c)
            if len(self.conds) < 4:
                self.pos = self.queue[len(self.conds)]
                return True
            self.finish(self.conds[3], self.conds[2], self.conds[0], self.conds[1])
            self.mode = "done"
            return False
        return False

    def snap(self, loc):
        return {n: loc.get(n, UNBOUND) for n in self.names}

    def fit(self):
        self.K = fresh_int("K")
        self.model = {}
        self.aux = []
        for n in self.names:
            vs = [s[n] for s in self.samples]
            if all(v is UNBOUND for v in vs[:1]) and not all(v is UNBOUND for v in vs):
                self.model[n] = None       # temporary
                continue
            if all(veq_ident(v, vs[0]) for v in vs):
                self.model[n] = ("const", vs[0])
                continue
            if any(ival(v) is None for v in vs):
                raise Unsupp("while loop carries %s" % n)
            xs = [ival(v) for v in vs]
            rows = [xs]
            while len(rows) < 5 and not all(x == 0 if isinstance(x, int) else False for x in rows[-1]):
                r = rows[-1]
                rows.append([tm.isub(r[i + 1], r[i]) for i in range(len(r) - 1)])
            if not all(isinstance(x, int) and x == 0 for x in rows[-1]):
                raise Unsupp("no polynomial recurrence for %s" % n)
            self.model[n] = ("poly", [r[0] for r in rows[:-1]])

    def poly_at(self, n, K):
        kind, data = self.model[n]
        if kind == "const":
            return data
        # newton: sum d_j * C(K, j)
        e = 0
        f = 1
        for j, dj in enumerate(data):
            if j == 0:
                e = zi(dj)
                continue
            b = self.binom(K, j)
            e = e + zi(dj) * b
        return mkint(e)

    def binom(self, K, j):
        K = zi(K)
        if j == 1:
            return K
        p = z3.IntVal(1)
        for i in range(j):
            p = p * (K - i)
        key = (ZK(z3.simplify(K, som=True)), j)
        for k2, v in self.aux:
            if k2 == key:
                return v
        v = fresh_int("binom")
        self.aux.append((key, v))
        ENG.logic.note_fact(math.factorial(j) * v == p)
        return v

    def values(self):
        out = []
        for n in self.names:
            m = self.model[n]
            out.append(Unbound("unbound") if m is None else self.poly_at(n, self.pos))
        return tuple(out)

    def check_step(self, loc):
        if ENG.levels[-1].trace:
            raise Unsupp("while body branches on symbolic state")
        now = self.snap(loc)
        for n in self.names:
            if self.model[n] is None:
                continue
            want = self.poly_at(n, self.K + 1)
            # binomial recurrences: C(K+1,j) = C(K,j) + C(K,j-1)
            got = now[n]
            if self.model[n][0] == "const":
                if not veq_ident(got, want):
                    raise Unsupp("while invariant for %s" % n)
                continue
            if not ENG.logic.entails(ieq(ival(got), ival(want))):
                raise Unsupp("while recurrence for %s not inductive" % n)

    def finish(self, c_exit, c_prev, c_gen, c_gen1):
        """c_*: conditions at exit_K, exit_K - 1, generic K and K+1"""
        lg = ENG.logic
        K = self.exit_K
        li = len(lg.frames) - 1
        lv = ENG.levels[-1]
        if li:
            raise Unsupp("symbolic while loop inside a symbolic loop body (needs a contract)")
        lg.assume(K >= 0, li)
        lg.assume(Not(bool_of(c_exit)), li)
        lg.assume(Or(ieq(K, 0), bool_of(c_prev)), li)
        fs = [K >= 0, Not(bool_of(c_exit)), Or(ieq(K, 0), bool_of(c_prev))]
        for e in lg.polylate:
            lg.poly_arg(e)
        old = list(lg.polyargs)
        lg.poly_arg(K)
        m = lg.model([K >= 0]) if old else None
        for e in old if m is not None else ():
            c = m.eval(K - e, model_completion=True)
            if z3.is_int_value(c) and abs(c.as_long()) <= 3 and lg.entails(K == e + c.as_long()):
                fs.append(Bz(K == e + c.as_long()))     # derived, kept to make later queries linear
                lg.assume(fs[-1], li)
                break
        for f in fs:
            lv.pc.append(f)
        # termination: the gap of the comparison shrinks
        g0, g1 = gap(bool_of(c_gen)), gap(bool_of(c_gen1))
        G = self.gen_K
        if g0 is None or not lg.entails(g1 <= g0 - 1, given=[G >= 0, bool_of(c_gen)]):
            raise Unsupp("termination of the while loop not established")


def gap(c):
    """for c: a <= b, a < b (or mirrored/negated) return b - a"""
    if z3.is_not(c):
        h = c.arg(0)
        k = h.decl().kind()
        a, b = h.arg(0), h.arg(1)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            return a - b
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            return b - a
        return None
    k = c.decl().kind()
    if c.num_args() != 2:
        return None
    a, b = c.arg(0), c.arg(1)
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
        return b - a
    if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
        return a - b
    return None
