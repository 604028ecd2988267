"""Scalar terms of the verifier: guarded finite sums of products of atoms over the Gaussian rationals.

A Term is a tuple of summands; a summand is  coef * SUM_{binders} [guards] * prod atom^exponent.
Integer index expressions are z3 Int terms (or python ints); guards are z3 Bools.
All arithmetic is exact: machine floats are treated as mathematical reals/complex numbers.
"""
from fractions import Fraction
import itertools
import math
import z3

# ----------------------------------------------------------------------------------------------
# z3 helpers


class ZK:
    """hashable wrapper of a z3 expression (structural equality)"""
    __slots__ = ("e", "h")

    def __init__(self, e):
        self.e = e
        self.h = e.hash()

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return isinstance(o, ZK) and self.e.eq(o.e)

    def __lt__(self, o):
        return str(self.e) < str(o.e)

    def __repr__(self):
        return str(self.e)


def isz(x):
    return isinstance(x, z3.ExprRef)


def is_zint(x):
    return isinstance(x, z3.ArithRef) and x.is_int()


_simp_cache = {}


def zsimp(e):
    k = ZK(e)
    r = _simp_cache.get(k)
    if r is None:
        r = z3.simplify(e)
        _simp_cache[k] = r
        if len(_simp_cache) > 400000:
            _simp_cache.clear()
    return r


def I(e):
    """normalise an int-like value"""
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, int):
        return e
    if isinstance(e, z3.ArithRef):
        s = zsimp(e)
        if z3.is_int_value(s):
            return s.as_long()
        return s
    if isinstance(e, z3.BoolRef):
        return I(z3.If(e, z3.IntVal(1), z3.IntVal(0)))
    raise TypeError("not int-like: %r" % (e,))


def Bz(e):
    """normalise a bool-like value"""
    if isinstance(e, bool):
        return e
    if isinstance(e, z3.BoolRef):
        s = zsimp(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return s
    raise TypeError("not bool-like: %r" % (e,))


def zi(e):
    return z3.IntVal(e) if isinstance(e, int) else e


def zb(e):
    return z3.BoolVal(e) if isinstance(e, bool) else e


def And(*xs):
    out = []
    for x in xs:
        x = Bz(x)
        if x is False:
            return False
        if x is True:
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def Or(*xs):
    out = []
    for x in xs:
        x = Bz(x)
        if x is True:
            return True
        if x is False:
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def Not(x):
    x = Bz(x)
    if isinstance(x, bool):
        return not x
    return Bz(z3.Not(x))


def ieq(a, b):
    a, b = I(a), I(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return Bz(zi(a) == zi(b))


def ile(a, b):
    a, b = I(a), I(b)
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return Bz(zi(a) <= zi(b))


def ilt(a, b):
    a, b = I(a), I(b)
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    return Bz(zi(a) < zi(b))


def iadd(a, b):
    return I(a + b)


def isub(a, b):
    return I(a - b)


def imul(a, b):
    return I(a * b)


def iite(c, a, b):
    c = Bz(c)
    if c is True:
        return I(a)
    if c is False:
        return I(b)
    a, b = I(a), I(b)
    return I(z3.If(c, zi(a), zi(b)))


def idiv(a, c):
    """floor division, c > 0"""
    a, c = I(a), I(c)
    if isinstance(a, int) and isinstance(c, int):
        return a // c
    if c == 1 if isinstance(c, int) else False:
        return a
    if not isinstance(c, int):
        q, r = _divmod_sym(a, c)
        if q is not None:
            return q
        return qdivmod(a, c)[0]
    q, r = _divmod_const(a, c)
    if q is not None:
        return q
    if c == 2:
        e = triangular(a)
        if e is not None:
            LOGIC[0].polylate.append(e)
            return TRI(e)
    return I(zi(a) / zi(c))


TRI = z3.Function("tri", z3.IntSort(), z3.IntSort())      # k(k-1)/2 (axiom in logic.AXIOMS)


def triangular(a):
    """e with a = e (e - 1), or None"""
    if LOGIC[0] is None or not isz(a):
        return None
    todo = [a]
    cand = []
    while todo:
        x = todo.pop()
        if z3.is_mul(x):
            fs = [y for y in x.children() if not z3.is_int_value(y)]
            if len(fs) >= 2 or any(z3.is_add(y) or z3.is_mul(y) for y in fs):
                cand += fs
            todo += [y for y in fs if z3.is_add(y) or z3.is_mul(y)]
        elif z3.is_add(x):
            todo += x.children()
        elif z3.is_app_of(x, z3.Z3_OP_POWER):
            cand.append(x.arg(0))
    for f in cand:
        for e in (f, f + 1):
            d = z3.simplify(a - e * (e - 1), som=True)
            if z3.is_int_value(d) and d.as_long() == 0:
                return z3.simplify(e)
    return None


def first_ite(e):
    if not isz(e) or not z3.is_app(e):
        return None
    for c in e.children():
        r = first_ite(c)
        if r is not None:
            return r
    return e.arg(0) if z3.is_app_of(e, z3.Z3_OP_ITE) else None


def _divmod_const(a, c):
    """(quotient, remainder) of a by the literal c > 0 when a = c*A + R with 0 <= R < c evident, else (None, None)"""
    if not isz(a) or c <= 0:
        return None, None
    d, c0 = linear(a)
    A = {k: v // c for k, v in d.items() if v % c == 0}
    if not A:
        return None, None
    R = {k: v for k, v in d.items() if v % c}
    if not R:
        return from_linear(A, c0 // c), c0 % c
    r = from_linear(R, c0)
    lg = LOGIC[0]
    if lg is not None and len(R) == 1 and lg.entails(z3.And(zi(r) >= 0, zi(r) < c)):
        return from_linear(A, 0), r
    return None, None


def imod(a, c):
    a, c = I(a), I(c)
    if isinstance(a, int) and isinstance(c, int):
        return a % c
    if isinstance(c, int) and c == 1:
        return 0
    if not isinstance(c, int):
        q, r = _divmod_sym(a, c)
        if q is not None:
            return r
        return qdivmod(a, c)[1]
    q, r = _divmod_const(a, c)
    if q is not None:
        return r
    return I(zi(a) % zi(c))


# floor division by a symbolic positive divisor: uninterpreted functions with the facts that matter
# (native non-linear division makes the solver slow); see logic.split_divmod for the exact elimination
QDIV = z3.Function("qdiv", z3.IntSort(), z3.IntSort(), z3.IntSort())
QMOD = z3.Function("qmod", z3.IntSort(), z3.IntSort(), z3.IntSort())


def qdivmod(a, c):
    a, c = zi(a), zi(c)
    q, r = QDIV(a, c), QMOD(a, c)
    lg = LOGIC[0]
    if lg is not None:
        lg.note_fact(z3.Implies(c > 0, z3.And(0 <= r, r < c, z3.Implies(a >= 0, q >= 0),
                                              z3.Implies(z3.And(a >= 0, a < c), z3.And(q == 0, r == a)))))
    return q, r


_qd_cache = {}


def has_qdiv(e):
    if not isz(e) or not z3.is_app(e) or e.num_args() == 0:
        return False      # quantified formulas are left alone
    k = ZK(e)
    r = _qd_cache.get(k)
    if r is None:
        r = e.decl().eq(QDIV) or e.decl().eq(QMOD) or e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or \
            any(has_qdiv(c) for c in e.children())
        if len(_qd_cache) > 200000:
            _qd_cache.clear()
        _qd_cache[k] = r
    return r


def qresimp(e):
    """re-simplify divisions by symbolic divisors after a substitution"""
    if not has_qdiv(e):
        return e
    ch = [qresimp(c) for c in e.children()]
    if e.decl().eq(QDIV):
        return zi(idiv(I(ch[0]), I(ch[1])))
    if e.decl().eq(QMOD):
        return zi(imod(I(ch[0]), I(ch[1])))
    if e.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        return zi((idiv if e.decl().kind() == z3.Z3_OP_IDIV else imod)(I(ch[0]), ch[1].as_long()))
    if all(a.eq(b) for a, b in zip(ch, e.children())):
        return e
    return e.decl()(*ch)


def mono(e):
    """monomial -> (coefficient, {ZK(factor): power}) """
    co, fs = 1, {}
    todo = [e]
    while todo:
        x = todo.pop()
        if z3.is_int_value(x):
            co *= x.as_long()
        elif z3.is_mul(x):
            todo += x.children()
        elif x.decl().kind() == z3.Z3_OP_UMINUS:
            co = -co
            todo.append(x.arg(0))
        elif z3.is_app_of(x, z3.Z3_OP_POWER) and z3.is_int_value(x.arg(1)):
            k = ZK(x.arg(0))
            fs[k] = fs.get(k, 0) + x.arg(1).as_long()
        else:
            k = ZK(x)
            fs[k] = fs.get(k, 0) + 1
    return co, fs


def mono_div(p_, c):
    """p_ / c for monomials when exact, else None"""
    cc, cf = mono(z3.simplify(c, som=True))
    pc, pf = mono(p_)
    if cc == 0 or pc % cc:
        return None
    for k, n in cf.items():
        if pf.get(k, 0) < n:
            return None
    r = z3.IntVal(pc // cc)
    for k, n in pf.items():
        for _ in range(n - cf.get(k, 0)):
            r = r * k.e
    return z3.simplify(r)


def _divmod_sym(a, c):
    """(q, r) with a = q*c + r, 0<=r<c, when syntactically evident and entailed by the current logic"""
    if isinstance(a, int) or not isz(c):
        return None, None
    e = z3.simplify(a, som=True)
    parts = e.children() if z3.is_add(e) else [e]
    q, r = z3.IntVal(0), z3.IntVal(0)
    found = False
    for p_ in parts:
        t = mono_div(p_, c)
        if t is None:
            r = r + p_
        else:
            found = True
            q = q + t
    r = I(r)
    lg = LOGIC[0]
    if lg is not None and lg.entails(And(ile(0, r), ilt(r, c))):
        return (I(q) if found else 0), r
    return None, None


LOGIC = [None]  # current logic context (set by logic.Logic)

_fresh = itertools.count(1)


def fresh_int(prefix="k"):
    return z3.Int("%s!%d" % (prefix, next(_fresh)))


_fv_cache = {}


def zvars(e):
    """frozenset of ZK of uninterpreted int/real/bool constants in a z3 expr"""
    if not isz(e):
        return frozenset()
    k = ZK(e)
    r = _fv_cache.get(k)
    if r is not None:
        return r
    if z3.is_quantifier(e):
        r = zvars(e.body())
    elif z3.is_var(e):
        r = frozenset()
    elif z3.is_const(e):
        if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = frozenset([k])
        else:
            r = frozenset()
    else:
        r = frozenset().union(*[zvars(c) for c in e.children()]) if e.num_args() else frozenset()
    if len(_fv_cache) > 400000:
        _fv_cache.clear()
    _fv_cache[k] = r
    return r


def zsubst(e, pairs):
    if not isz(e):
        return e
    r = z3.substitute(e, *[(a, zi(b)) for a, b in pairs])
    if has_qdiv(r):
        r = qresimp(r)
    if isinstance(r, z3.BoolRef):
        return Bz(r)
    if is_zint(r):
        return I(r)
    return r


def linear(e):
    """linear form of int expr: ({ZK(atom): coef}, const). Non-linear parts are atoms."""
    if isinstance(e, int):
        return {}, e
    e = z3.simplify(e, som=True)
    parts = e.children() if z3.is_add(e) else [e]
    d, c = {}, 0
    for p_ in parts:
        if z3.is_int_value(p_):
            c += p_.as_long()
            continue
        co, at = 1, p_
        if z3.is_mul(p_):
            ch = p_.children()
            if z3.is_int_value(ch[0]):
                co = ch[0].as_long()
                at = ch[1]
                for x in ch[2:]:
                    at = at * x
        elif p_.decl().kind() == z3.Z3_OP_UMINUS:
            co, at = -1, p_.arg(0)
        k = ZK(at)
        d[k] = d.get(k, 0) + co
        if d[k] == 0:
            del d[k]
    return d, c


def from_linear(d, c):
    e = z3.IntVal(c)
    for k, v in d.items():
        e = e + v * k.e
    return I(e)


_sum_cache = {}


def canon_sum(e):
    """integer sum with its summands in a fixed order"""
    if isinstance(e, int):
        return e
    k = ZK(e)
    r = _sum_cache.get(k)
    if r is None:
        d, c = linear(e)
        ites = {}
        for x in list(d):
            if z3.is_app_of(x.e, z3.Z3_OP_ITE):
                q, a, b = x.e.children()
                if z3.is_not(q):
                    q, a, b = q.arg(0), b, a
                ites.setdefault(ZK(q), []).append((d.pop(x), a, b))
        for q, l in ites.items():
            # sums of if-then-else over one condition become one if-then-else
            A, B = (canon_sum(I(sum((v[0] * v[i] for v in l), z3.IntVal(0)))) for i in (1, 2))
            if ikey(A) == ikey(B):
                dA, cA = linear(A)
                for x, v in dA.items():
                    d[x] = d.get(x, 0) + v
                c += cA
                continue
            x = ZK(z3.If(q.e, zi(A), zi(B)))
            d[x] = d.get(x, 0) + 1
        r = from_linear({x: d[x] for x in sorted(d, key=lambda x: (len(str(x.e)), str(x.e))) if d[x]}, c)
        if len(_sum_cache) > 50000:
            _sum_cache.clear()
        _sum_cache[k] = r
    return r


def split_const(e):
    """e = r + c with c the constant part"""
    if isinstance(e, int):
        return 0, e
    d, c = linear(e)
    return from_linear(d, 0), c


# ----------------------------------------------------------------------------------------------
# Gaussian rationals


class GQ:
    __slots__ = ("re", "im")

    def __init__(self, re, im=0):
        self.re = re if type(re) is Fraction else Fraction(re)
        self.im = im if type(im) is Fraction else Fraction(im)

    def __add__(s, o):
        return GQ(s.re + o.re, s.im + o.im)

    def __neg__(s):
        return GQ(-s.re, -s.im)

    def __mul__(s, o):
        if s.im == 0 and o.im == 0:
            return GQ(s.re * o.re, Fraction(0))
        return GQ(s.re * o.re - s.im * o.im, s.re * o.im + s.im * o.re)

    def inv(s):
        n = s.re * s.re + s.im * s.im
        return GQ(s.re / n, -s.im / n)

    def conj(s):
        return GQ(s.re, -s.im)

    def zero(s):
        return s.re == 0 and s.im == 0

    def isone(s):
        return s.re == 1 and s.im == 0

    def __eq__(s, o):
        return s.re == o.re and s.im == o.im

    def __hash__(s):
        return hash((s.re, s.im))

    def __repr__(s):
        if s.im == 0:
            return str(s.re)
        if s.re == 0:
            return "%si" % s.im
        return "(%s+%si)" % (s.re, s.im)


ONE = GQ(1)
F0, F1 = Fraction(0), Fraction(1)

# ----------------------------------------------------------------------------------------------
# Atoms


class Head:
    """tensor symbol (rank >= 0)"""
    __slots__ = ("name", "rank", "real", "pos", "nonneg", "integer", "defn", "meta", "serial")
    _n = itertools.count(1)

    def __init__(self, name, rank, real=False, pos=False, nonneg=False, integer=False, defn=None, meta=None):
        self.name, self.rank, self.real = name, rank, real or pos or nonneg
        self.pos, self.nonneg, self.integer = pos, nonneg or pos, integer
        self.serial = next(Head._n)
        self.defn = defn  # optional idx -> Term (definition, unfolded on demand)
        self.meta = meta

    def __repr__(self):
        return self.name


def ikey(e):
    return e if isinstance(e, int) else ZK(e)


class Atom:
    __slots__ = ("_key",)
    real = False
    pos = False

    def key(self):
        k = getattr(self, "_key", None)
        if k is None:
            k = self._mk()
            self._key = k
        return k

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Atom) and self.key() == o.key()


class El(Atom):
    __slots__ = ("head", "idx", "cj")

    def __init__(self, head, idx=(), cj=False):
        self.head, self.idx = head, tuple(idx)
        self.cj = cj and not head.real

    def _mk(self):
        return ("el", self.head.name, id(self.head), self.cj) + tuple(ikey(i) for i in self.idx)

    @property
    def real(self):
        return self.head.real

    @property
    def pos(self):
        return self.head.pos

    def conj(self):
        return [(El(self.head, self.idx, not self.cj), F1)] if not self.head.real else [(self, F1)]

    def ints(self):
        return list(self.idx)

    def terms(self):
        return []

    def rebuild(self, ints, terms):
        return El(self.head, ints, self.cj)

    def sym(self):
        return ("el", self.head.name, id(self.head), self.cj)

    def __repr__(self):
        s = self.head.name
        if self.idx:
            s += "[%s]" % ",".join(str(i).replace("\n", " ") for i in self.idx)
        return ("conj " + s) if self.cj else s


class Fn(Atom):
    """uninterpreted / special function of int-like and Term arguments (args tagged)"""
    __slots__ = ("name", "args", "_real", "cj", "_pos")

    def __init__(self, name, args, real=True, cj=False, pos=False):
        self.name, self._real, self._pos = name, real, pos
        self.args = tuple(canon_sum(a) if isz(a) and a.num_args() else a for a in args)
        self.cj = cj and not real

    def _mk(self):
        out = ["fn", self.name, self.cj]
        for a in self.args:
            out.append(a.key() if isinstance(a, Term) else (ikey(a) if (isinstance(a, int) or isz(a)) else ("c", a)))
        return tuple(out)

    @property
    def real(self):
        return self._real

    @property
    def pos(self):
        return self._pos

    def conj(self):
        if self._real:
            return [(self, F1)]
        return [(Fn(self.name, self.args, False, not self.cj), F1)]

    def ints(self):
        return [a for a in self.args if isinstance(a, int) and not isinstance(a, bool) or isz(a)]

    def terms(self):
        return [a for a in self.args if isinstance(a, Term)]

    def rebuild(self, ints, terms):
        ints, terms = list(ints), list(terms)
        out = []
        for a in self.args:
            if isinstance(a, Term):
                out.append(terms.pop(0))
            elif isinstance(a, int) and not isinstance(a, bool) or isz(a):
                out.append(ints.pop(0))
            else:
                out.append(a)
        return Fn(self.name, out, self._real, self.cj, self._pos)

    def sym(self):
        return ("fn", self.name, self.cj, len(self.args))

    def __repr__(self):
        s = "%s(%s)" % (self.name, ",".join(str(a) for a in self.args))
        return ("conj " + s) if self.cj else s


class IntA(Atom):
    """an integer expression used as a number"""
    __slots__ = ("e",)
    real = True

    def __init__(self, e):
        self.e = e

    def _mk(self):
        return ("int", ZK(self.e))

    def conj(self):
        return [(self, F1)]

    def ints(self):
        return [self.e]

    def terms(self):
        return []

    def sym(self):
        return ("int",)

    def __repr__(self):
        return "<%s>" % self.e


class Base(Atom):
    """a multi-summand term raised to a power that is not a positive integer"""
    __slots__ = ("t", "_real")

    def __init__(self, t):
        self.t = t
        self._real = t.is_real()

    def _mk(self):
        return ("base", self.t.key())

    @property
    def real(self):
        return self._real

    def conj(self):
        return [(self, F1)] if self._real else [(Base(self.t.conj()), F1)]

    def ints(self):
        return []

    def terms(self):
        return [self.t]

    def sym(self):
        return ("base",)

    def __repr__(self):
        return "{%s}" % (self.t,)


class Prime(Atom):
    """a prime number, only with exponent in (0,1)"""
    __slots__ = ("p",)
    real = True
    pos = True

    def __init__(self, p):
        self.p = p

    def _mk(self):
        return ("prime", self.p)

    def conj(self):
        return [(self, F1)]

    def ints(self):
        return []

    def terms(self):
        return []

    def sym(self):
        return ("prime", self.p)

    def __repr__(self):
        return "%d" % self.p


class PowI(Atom):
    """base ** e with symbolic integer exponent; base: Atom or int (prime or -1)"""
    __slots__ = ("b", "e")

    def __init__(self, b, e):
        self.b, self.e = b, canon_sum(e) if isz(e) and e.num_args() else e

    def _mk(self):
        return ("powi", self.b if isinstance(self.b, int) else self.b.key(), ZK(self.e))

    @property
    def real(self):
        return True if isinstance(self.b, int) else self.b.real

    @property
    def pos(self):
        return (self.b > 0) if isinstance(self.b, int) else self.b.pos

    def conj(self):
        if self.real:
            return [(self, F1)]
        (a, q), = self.b.conj()
        return [(PowI(a, self.e), F1)]

    def ints(self):
        return [self.e] + ([] if isinstance(self.b, int) else self.b.ints())

    def terms(self):
        return [] if isinstance(self.b, int) else self.b.terms()

    def sym(self):
        return ("powi", self.b if isinstance(self.b, int) else self.b.sym())

    def __repr__(self):
        return "(%s)**(%s)" % (self.b, self.e)


class ExpA(Atom):
    """exp(mono) with mono a coefficient-free single-summand term (or i * that)"""
    __slots__ = ("t", "_real")

    def __init__(self, t):
        self.t = t
        self._real = t.is_real()

    def _mk(self):
        return ("exp", self.t.key())

    @property
    def real(self):
        return self._real

    @property
    def pos(self):
        return self._real

    def conj(self):
        if self._real:
            return [(self, F1)]
        t = exp_term(self.t.conj())
        (s,) = t.s
        assert not s.b and not s.g and s.c.isone()
        return list(s.f)

    def ints(self):
        return []

    def terms(self):
        return [self.t]

    def sym(self):
        return ("exp",)

    def __repr__(self):
        return "exp(%s)" % (self.t,)


# ----------------------------------------------------------------------------------------------
# Summands and terms


class Sm:
    __slots__ = ("c", "b", "g", "f", "_k")

    def __init__(self, c, b=(), g=(), f=()):
        self.c, self.b, self.g, self.f = c, b, g, f
        self._k = None

    def bodykey(self):
        k = self._k
        if k is None:
            k = (tuple(ZK(v) for v in self.b), frozenset(ZK(g) for g in self.g),
                 frozenset((a.key(), q) for a, q in self.f))
            self._k = k
        return k

    def __repr__(self):
        s = "" if self.c.isone() and self.f else repr(self.c)
        if self.b:
            s += " SUM{%s}" % ",".join(str(v) for v in self.b)
        for g in self.g:
            s += "[%s]" % str(g).replace("\n", " ")
        s += " " + " ".join(("%r" % a) if q == 1 else "%r^%s" % (a, q) for a, q in self.f)
        return s.strip()


def known_positive(a):
    """integer (or quotient of integers) atom known to be positive in the current context"""
    lg = LOGIC[0]
    if lg is None or not isinstance(a, (Base, IntA)):
        return False
    if isinstance(a, Base) and not all(isinstance(x, IntA) for s in a.t.s for x, _ in s.f):
        return False
    try:
        z = to_z3(a.t) if isinstance(a, Base) else a.e
    except Unsupp:
        return False
    return lg.entails(z > 0)


class Term:
    __slots__ = ("s", "_key", "_real")

    def __init__(self, s):
        self.s = tuple(s)
        self._key = None
        self._real = None

    # -- construction
    @staticmethod
    def const(x):
        if isinstance(x, GQ):
            c = x
        elif isinstance(x, complex):
            c = GQ(frac(x.real), frac(x.imag))
        else:
            c = GQ(frac(x))
        return Term(()) if c.zero() else Term((Sm(c),))

    def key(self):
        if self._key is None:
            self._key = ("T", frozenset((s.bodykey(), s.c) for s in self.s))
        return self._key

    def is_real(self):
        if self._real is None:
            self._real = all(s.c.im == 0 and all(a.real for a, q in s.f) for s in self.s)
        return self._real

    def is_const(self):
        return all(not s.f and not s.g and not s.b for s in self.s)

    def const_val(self):
        c = GQ(0)
        for s in self.s:
            c = c + s.c
        return c

    def __bool__(self):
        raise TypeError("truth value of a symbolic term")

    # -- arithmetic
    def __add__(self, o):
        o = T(o)
        if not o.s:
            return self
        if not self.s:
            return o
        d = {}
        order = []
        for s in self.s + o.s:
            k = s.bodykey()
            if k in d:
                d[k] = Sm(d[k].c + s.c, s.b, s.g, s.f)
            else:
                d[k] = s
                order.append(k)
        return Term([d[k] for k in order if not d[k].c.zero()])

    __radd__ = __add__

    def __neg__(self):
        return Term([Sm(-s.c, s.b, s.g, s.f) for s in self.s])

    def __sub__(self, o):
        return self + (-T(o))

    def __rsub__(self, o):
        return T(o) + (-self)

    def __mul__(self, o):
        o = T(o)
        if not self.s or not o.s:
            return ZERO
        out = ZERO
        acc = []
        for a in self.s:
            for b in o.s:
                acc.extend(mul_sm(a, b))
        return collect(acc)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * T(o).inv()

    def __rtruediv__(self, o):
        return T(o) * self.inv()

    def inv(self):
        return self.powq(Fraction(-1))

    def __pow__(self, n):
        if isinstance(n, bool):
            n = int(n)
        if isinstance(n, int):
            if n >= 0:
                r = T(1)
                for _ in range(n):
                    r = r * self
                return r
            return self.powq(Fraction(n))
        if isinstance(n, Fraction):
            if n.denominator == 1:
                return self ** int(n)
            return self.powq(n)
        if isz(n):
            return self.powi(n)
        if isinstance(n, Term):
            if n.is_const():
                c = n.const_val()
                if c.im == 0:
                    return self ** c.re
            if len(n.s) == 1 and not n.s[0].b and not n.s[0].g:
                pass
            ie = term_to_int(n)
            if ie is not None:
                return self ** ie
            if self.is_real():
                return mk_fn("pow", [self, n])
        if isinstance(n, float):
            return self ** frac(n)
        raise Unsupp("power with exponent %r" % (n,))

    def powq(self, q):
        """self ** q, q rational, not a nonneg integer"""
        if not self.s:
            raise Unsupp("0 ** %s" % q)
        if len(self.s) == 1:
            s = self.s[0]
            if not s.b:
                # guards: [g]*x to a negative power is only meaningful where g holds
                out = const_powq(s.c, q)
                if out is not None:
                    rest = []
                    for a, e in s.f:
                        ne = e * q
                        if q.denominator == 1 or a.pos or (isinstance(a, El) and a.head.nonneg and q > 0) \
                                or known_positive(a):
                            out = out * mono1(a, ne)
                        elif e.denominator == 1 and e % 2 == 0 and a.real and q.denominator == 2:
                            out = out * abs_term(atom_term(a)) ** (ne)
                        else:
                            rest.append((a, e))
                    if rest:
                        bt = T(1)
                        for a, e in rest:
                            bt = bt * mono1(a, e)
                        out = out * raw_mono(Base(bt), q)
                    if s.g:
                        out = out.guard(And(*s.g))
                    return out
        # multi-summand
        r = root_of(self)
        if r is not None:
            a, e, c = r
            cc = const_powq(c, q)
            if cc is not None:
                return cc * base_pow(a.t, (e + 1) * q)
        # factor out common guard-free content? keep canonical: Base(self)^q with q in (-1,0) or negative int
        norm, t = content(self)
        if norm is not None:
            return norm.powq(q) * t.powq(q)
        return base_pow(self, q)

    def powi(self, e):
        e = I(e)
        if isinstance(e, int):
            return self ** e
        if not self.s:
            return T(1).guard(ieq(e, 0))
        if len(self.s) == 1 and not self.s[0].b:
            s = self.s[0]
            out = const_powi(s.c, e)
            if out is not None:
                for a, q in s.f:
                    out = out * atom_powi(a, q, e)
                if s.g:
                    out = out.guard(And(*s.g)) + T(1).guard(And(Not(And(*s.g)), ieq(e, 0)))
                return out
        r, c = split_const(e)
        return raw_mono(PowI(Base(self), r), F1) * (self ** c)

    def conj(self):
        out = []
        acc = ZERO
        for s in self.s:
            if all(a.real for a, q in s.f):
                out.append(Sm(s.c.conj(), s.b, s.g, s.f))
                continue
            t = Term((Sm(s.c.conj(), s.b, s.g),))
            fs = []
            for a, q in s.f:
                for a2, q2 in a.conj():
                    fs.append((a2, q * q2))
            m = T(1)
            for a2, q2 in fs:
                m = m * mono1(a2, q2)
            # re-attach binders
            out.extend(Sm(t.s[0].c * x.c, s.b + x.b, s.g + x.g, x.f) for x in m.s)
        return collect(out)

    def re(self):
        if self.is_real():
            return self
        return (self + self.conj()) * Fraction(1, 2)

    def im(self):
        if self.is_real():
            return ZERO
        return (self - self.conj()) * T(GQ(0, Fraction(-1, 2)))

    def guard(self, c):
        c = Bz(c)
        if c is True:
            return self
        if c is False:
            return ZERO
        cs = flat_and(c)
        out = []
        for s in self.s:
            have = {ZK(g) for g in s.g}
            new = [g for g in cs if ZK(g) not in have]
            out.append(Sm(s.c, s.b, s.g + tuple(new), s.f))
        return Term(out)

    def sum(self, v, lo, hi):
        """SUM_{lo <= v < hi} self"""
        g = [x for x in (ile(lo, v), ilt(v, hi)) if x is not True]
        if any(x is False for x in g):
            return ZERO
        return Term([Sm(s.c, (v,) + s.b, tuple(g) + s.g, s.f) for s in self.s])

    def subst(self, pairs):
        """substitute z3 int variables"""
        if not pairs or not self.s:
            return self
        vs = {ZK(a) for a, _ in pairs}
        if not (vs & self.fvs()):
            return self
        acc = []
        for s in self.s:
            acc.extend(subst_sm(s, pairs))
        return collect(acc)

    def fvs(self):
        out = set()
        for s in self.s:
            o = set()
            for g in s.g:
                o |= zvars(g)
            for a, q in s.f:
                o |= atom_fvs(a)
            out |= o - {ZK(v) for v in s.b}
        return out

    def heads(self):
        out = set()
        for s in self.s:
            for a, q in s.f:
                out |= atom_heads(a)
        return out

    def map_atoms(self, fn):
        """rebuild with fn(atom) -> Term or None (None: descend)"""
        acc = []
        for s in self.s:
            m = Term((Sm(s.c),))
            for a, q in s.f:
                t = atom_map(a, fn)
                if isinstance(t, Atom):
                    m = m * mono1(t, q)
                else:
                    m = m * (t ** q)
            acc.extend(Sm(x.c, s.b + x.b, s.g + x.g, x.f) for x in m.s)
        return collect(acc)

    def __repr__(self):
        if not self.s:
            return "0"
        return " + ".join(repr(s) for s in self.s[:12]) + (" + ...(%d)" % len(self.s) if len(self.s) > 12 else "")


class Unsupp(BaseException):
    """construct outside the verifier's subset"""


ZERO = Term(())


def frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupp("non-finite float")
        return Fraction(repr(x))
    raise TypeError("frac %r" % (x,))


def T(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, (bool, int, float, Fraction, complex, GQ)):
        return Term.const(x)
    if isinstance(x, z3.BoolRef):
        return Term((Sm(ONE),)).guard(x)
    if is_zint(x):
        return int_term(x)
    raise TypeError("cannot make a term of %r" % (x,))


def collect(sms):
    d = {}
    order = []
    for s in sms:
        k = s.bodykey()
        if k in d:
            o = d[k]
            d[k] = Sm(o.c + s.c, o.b, o.g, o.f)
            d[k]._k = k
        else:
            d[k] = s
            order.append(k)
    return Term([d[k] for k in order if not d[k].c.zero()])


def flat_and(c):
    if isinstance(c, bool):
        return [] if c else [z3.BoolVal(False)]
    if z3.is_and(c):
        out = []
        for x in c.children():
            out.extend(flat_and(x))
        return out
    if z3.is_not(c) and z3.is_or(c.arg(0)):
        out = []
        for x in c.arg(0).children():
            out.extend(flat_and(z3.simplify(z3.Not(x))))
        return out
    return [c]


def parity_sign(c):
    """the Term that is 1 where c holds and -1 elsewhere, when c says that an integer is even (odd), else None"""
    neg = False
    while z3.is_not(c):
        neg, c = not neg, c.arg(0)
    if not z3.is_eq(c):
        return None
    for a, b in (c.children(), c.children()[::-1]):
        if not (z3.is_int_value(b) and z3.is_app_of(a, z3.Z3_OP_MOD) and z3.is_int_value(a.arg(1))
                and a.arg(1).as_long() == 2 and b.as_long() in (0, 1)):
            continue
        t = neg_one_pow(a.arg(0))
        return t if (b.as_long() == 0) != neg else -t
    return None


def int_term(e):
    """int-like z3 expr -> Term (polynomial in IntA atoms; If -> guards)"""
    e = I(e)
    if isinstance(e, int):
        return Term.const(e)
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        c, a, b = e.children()
        s = parity_sign(c)
        if s is not None and z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() == -b.as_long():
            return s * a.as_long()
        return int_term(a).guard(c) + int_term(b).guard(Not(c))
    if z3.is_add(e):
        t = ZERO
        for x in e.children():
            t = t + int_term(x)
        return t
    if z3.is_mul(e):
        t = T(1)
        for x in e.children():
            t = t * int_term(x)
        return t
    if e.decl().kind() == z3.Z3_OP_UMINUS:
        return -int_term(e.arg(0))
    if z3.is_sub(e):
        ch = e.children()
        t = int_term(ch[0])
        for x in ch[1:]:
            t = t - int_term(x)
        return t
    return Term((Sm(ONE, (), (), ((IntA(e), F1),)),))


def has_ite(e):
    if not isz(e):
        return False
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return True
    return any(has_ite(c) for c in e.children())


def resolve_ites(e):
    """replace if-then-else subterms whose condition is decided by the context"""
    lg = LOGIC[0]
    if lg is None or not isz(e) or not has_ite(e):
        return e
    seen = {}

    def walk(x):
        if z3.is_app_of(x, z3.Z3_OP_ITE):
            c = x.arg(0)
            if ZK(c) not in seen:
                seen[ZK(c)] = True if lg.entails(c) else (False if lg.entails(Not(c)) else None)
            v = seen[ZK(c)]
            if v is True:
                return walk(x.arg(1))
            if v is False:
                return walk(x.arg(2))
            if x.arg(1).sort() == z3.IntSort():
                k = (ZK(c), ZK(x.arg(1)), ZK(x.arg(2)))
                if k not in seen:
                    seen[k] = lg.entails(x.arg(1) == x.arg(2), given=[c])
                if seen[k]:
                    return walk(x.arg(2))
        if x.num_args() == 0:
            return x
        ch = [walk(y) for y in x.children()]
        if all(a.eq(b) for a, b in zip(ch, x.children())):
            return x
        return x.decl()(*ch)
    return Bz(walk(e)) if z3.is_bool(e) else I(walk(e))


def term_to_int(t):
    """Term -> int-like if it is a polynomial with integer coefficients in IntA atoms; else None"""
    e = 0
    den = 1
    for s in t.s:
        if s.b or s.c.im != 0:
            return None
        den = den * s.c.re.denominator // math.gcd(den, s.c.re.denominator)
    for s in t.s:
        m = int(s.c.re * den)
        x = m
        for a, q in s.f:
            if isinstance(a, PowI) and a.b == -1 and q == 1:
                x = x * z3.If(a.e % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
                continue
            if not isinstance(a, IntA) or q.denominator != 1 or q < 0:
                return None
            for _ in range(int(q)):
                x = x * a.e
        if s.g:
            lg = LOGIC[0]
            if lg is not None and lg.unsat(s.g):
                continue
            if lg is None or not lg.entails(And(*s.g)):
                x = z3.If(zb(And(*s.g)), zi(I(x)), z3.IntVal(0))
        e = e + x
    e = resolve_ites(I(e))
    if den == 1:
        return e
    lg = LOGIC[0]
    if isinstance(e, int):
        return e // den if e % den == 0 else None
    if lg is not None and lg.entails(zi(e) % den == 0):
        return I(zi(e) / den)
    return None


def atom_term(a):
    return Term((Sm(ONE, (), (), ((a, F1),)),))


def raw_mono(a, q):
    return Term((Sm(ONE, (), (), ((a, Fraction(q)),)),))


def mono1(a, q):
    """atom ** q as a normalised Term"""
    q = Fraction(q)
    if q == 0:
        return T(1)
    if isinstance(a, Base):
        return base_pow(a.t, q)
    if isinstance(a, Prime):
        return const_powq(GQ(a.p), q)
    if isinstance(a, PowI) and a.b == -1:
        if q.denominator == 1:
            return T(1) if q % 2 == 0 else raw_mono(a, 1)
    return raw_mono(a, q)


def base_pow(t, q):
    """(multi-summand t)**q canonical: integer part >= 0 expanded; fractional exponent kept in (-1,0)"""
    q = Fraction(q)
    if q.denominator == 1:
        if q >= 0:
            return t ** int(q)
        return raw_mono(Base(t), q)
    k = math.floor(q) + 1  # q - k in (-1,0)
    if k <= 0:
        return raw_mono(Base(t), q)
    return raw_mono(Base(t), q - k) * (t ** k)


def root_of(t):
    """t = c * D * Base(D)^e with fractional e: a positive fractional power of D in expanded form -> (Base, e, c)"""
    for a, e in t.s[0].f:
        if not isinstance(a, Base) or e.denominator == 1 or len(a.t.s) != len(t.s):
            continue
        out = []
        for s in t.s:
            f = [(x, q) for x, q in s.f if x != a]
            if len(f) == len(s.f) or dict(s.f).get(a) != e:
                break
            out.append(Sm(s.c, s.b, s.g, tuple(f)))
        else:
            r = collect(out)
            c = None
            for s in r.s:
                for u in a.t.s:
                    if Term((Sm(ONE, s.b, s.g, s.f),)).key() == Term((Sm(ONE, u.b, u.g, u.f),)).key():
                        c = s.c * u.c.inv()
                break
            if c is not None and (r - a.t * c).s == ():
                return a, e, c
    return None


def content(t):
    """extract a common scalar content from a multi-summand term: returns (content Term, rest) or (None, t)"""
    if len(t.s) < 2:
        return None, t
    common = None
    for s in t.s:
        d = {}
        for a, q in s.f:
            if (a.pos and not isinstance(a, Prime)) or (isinstance(a, IntA)):
                d[a.key()] = (a, q)
        if common is None:
            common = d
        else:
            nc = {}
            for k, (a, q) in common.items():
                if k in d:
                    q2 = d[k][1]
                    nc[k] = (a, min(q, q2))
            common = nc
        if not common:
            break
    c0 = t.s[0].c
    ct = None
    common = {k: v for k, v in (common or {}).items() if v[0].pos and v[1] != 0}
    # rational content: make leading (deterministic) coefficient positive unit where real
    g = None
    if all(s.c.im == 0 for s in t.s):
        num = 0
        den = 1
        for s in t.s:
            num = math.gcd(num, abs(s.c.re.numerator))
            den = den * s.c.re.denominator // math.gcd(den, s.c.re.denominator)
        g = Fraction(num, den)
        if g == 1:
            g = None
    if not common and g is None:
        return None, t
    ct = T(1)
    for a, q in common.values():
        ct = ct * mono1(a, q)
    inv = T(1)
    for a, q in common.values():
        inv = inv * mono1(a, -q)
    if g is not None:
        ct = ct * g
        inv = inv * (1 / g)
    return ct, t * inv


def factorize(n):
    out = {}
    d = 2
    while d * d <= n:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def const_powq(c, q):
    """rational/gaussian constant ** q -> Term or None"""
    if q.denominator == 1:
        r = ONE
        cc = c if q > 0 else c.inv()
        for _ in range(abs(int(q))):
            r = r * cc
        return Term.const(r)
    if c.im != 0 or c.re < 0:
        if c.im == 0 and c.re < 0:
            return None
        return None
    r = c.re
    if r.numerator > 10 ** 12 or r.denominator > 10 ** 12:
        return raw_mono(Base(Term.const(c)), q)
    ex = {}
    for p_, k in factorize(r.numerator).items():
        ex[p_] = ex.get(p_, 0) + k * q
    for p_, k in factorize(r.denominator).items():
        ex[p_] = ex.get(p_, 0) - k * q
    coef = Fraction(1)
    fs = []
    for p_, e in sorted(ex.items()):
        fl = math.floor(e)
        coef *= Fraction(p_) ** fl
        if e - fl != 0:
            fs.append((Prime(p_), e - fl))
    return Term((Sm(GQ(coef), (), (), tuple(fs)),))


def const_powi(c, e):
    """const ** symbolic int"""
    if c.isone():
        return T(1)
    if c.im != 0:
        return None
    out = T(1)
    r = c.re
    if r < 0:
        out = neg_one_pow(e)
        r = -r
    for p_, k in factorize(r.numerator).items():
        out = out * int_powi(p_, I(k * e))
    for p_, k in factorize(r.denominator).items():
        out = out * int_powi(p_, I(-k * e))
    return out


def neg_one_pow(e):
    e = I(e)
    if isinstance(e, int):
        return T(1 if e % 2 == 0 else -1)
    d, c = linear(e)
    d2 = {k: v % 2 for k, v in d.items() if v % 2}
    r = from_linear(d2, 0)
    s = 1 if c % 2 == 0 else -1
    if isinstance(r, int):
        return T(s)
    return raw_mono(PowI(-1, r), 1) * s


def int_powi(p_, e):
    r, c = split_const(e)
    if isinstance(r, int):
        return Term.const(Fraction(p_) ** (c + r))
    return raw_mono(PowI(p_, r), 1) * (Fraction(p_) ** c)


def atom_powi(a, q, e):
    e = I(q.numerator * e) if q.denominator == 1 else e
    if q.denominator != 1:
        r, c = split_const(e)
        return raw_mono(PowI(a, r), q) * mono1(a, q * c)
    r, c = split_const(e)
    out = mono1(a, c)
    if isinstance(a, PowI):
        if a.b == -1:
            return neg_one_pow(I(a.e * e))
        raise Unsupp("tower of powers")
    if not isinstance(r, int):
        out = out * raw_mono(PowI(a, r), 1)
    elif r != 0:
        out = out * mono1(a, r)
    return out


def powi_join(e1, q1, e2, q2):
    """b^(e1 q1) b^(e2 q2) = b^(e q) for positive b, with e of content 1 and positive leading coefficient"""
    den = q1.denominator * q2.denominator // math.gcd(q1.denominator, q2.denominator)
    d, c = linear(zi(e1) * int(q1 * den) + zi(e2) * int(q2 * den))
    d = {k: v for k, v in d.items() if v}
    g = abs(c)
    for v in d.values():
        g = math.gcd(g, abs(v))
    if not g:
        return 0, F1
    if d:
        lead = d[min(d, key=lambda k: (len(str(k.e)), str(k.e)))]
    else:
        lead = c
    if lead < 0:
        g = -g
    return from_linear({k: v // g for k, v in d.items()}, c // g), Fraction(g, den)


def merge_factors(fs):
    """multiply factor lists; returns (list, Term multiplier or None)"""
    d = {}
    order = []
    extra = None
    powi = {}
    for a, q in fs:
        if isinstance(a, PowI):
            if (a.b > 0 if isinstance(a.b, int) else a.b.pos):
                bk = (a.b if isinstance(a.b, int) else a.b.key(), None)
                if bk in powi:
                    powi[bk] = (a.b,) + powi_join(powi[bk][1], powi[bk][2], a.e, q)
                else:
                    powi[bk] = (a.b,) + powi_join(0, F1, a.e, q)
                continue
            bk = (a.b if isinstance(a.b, int) else a.b.key(), q)
            if bk in powi:
                powi[bk] = (a.b, I(powi[bk][1] + a.e), q)
            else:
                powi[bk] = (a.b, a.e, q)
            continue
        k = a.key()
        if k in d:
            d[k] = (a, d[k][1] + q)
        else:
            d[k] = (a, q)
            order.append(k)
    out = []
    for k in order:
        a, q = d[k]
        if q == 0:
            continue
        if isinstance(a, Base) and not (q.denominator == 1 and q < 0) and not (-1 < q < 0) and not (q.denominator != 1 and q < 0):
            t = base_pow(a.t, q)
            extra = t if extra is None else extra * t
            continue
        if isinstance(a, Base) and q.denominator == 1 and q > 0:
            t = a.t ** int(q)
            extra = t if extra is None else extra * t
            continue
        if isinstance(a, Prime) and not (0 < q < 1):
            t = const_powq(GQ(a.p), q)
            extra = t if extra is None else extra * t
            continue
        out.append((a, q))
    for bk, (b, e, q) in powi.items():
        if isinstance(e, int):
            if isinstance(b, int):
                t = const_powq(GQ(b), q * e) if b > 0 else T(1 if (e % 2 == 0) else -1)
            else:
                t = mono1(b, q * e)
            extra = t if extra is None else extra * t
        elif b == -1:
            t = neg_one_pow(e)
            if len(t.s) == 1 and t.s[0].c.isone() and len(t.s[0].f) == 1 and isinstance(t.s[0].f[0][0], PowI):
                out.append(t.s[0].f[0])
            else:
                extra = t if extra is None else extra * t
        else:
            out.append((PowI(b, e), q))
    return out, extra


def rename_binders(s):
    if not s.b:
        return s
    pairs = [(v, fresh_int("b")) for v in s.b]
    r = subst_sm(Sm(s.c, (), s.g, s.f), pairs)
    assert len(r) == 1, "binder renaming changed structure"
    r = r[0]
    return Sm(r.c, tuple(n for _, n in pairs) + r.b, r.g, r.f)


def mul_sm(a, b):
    if not b.b and not b.g and not b.f:
        return [Sm(a.c * b.c, a.b, a.g, a.f)]
    if not a.b and not a.g and not a.f:
        return [Sm(a.c * b.c, b.b, b.g, b.f)]
    if a.b and b.b:
        av = {ZK(v) for v in a.b}
        if any(ZK(v) in av for v in b.b):
            b = rename_binders(b)
    g = a.g
    if b.g:
        if a.g:
            have = {ZK(x) for x in a.g}
            g = a.g + tuple(x for x in b.g if ZK(x) not in have)
        else:
            g = b.g
    if not a.f or not b.f:
        return [Sm(a.c * b.c, a.b + b.b, g, a.f or b.f)]
    fs, extra = merge_factors(a.f + b.f)
    s = Sm(a.c * b.c, a.b + b.b, g, tuple(fs))
    if extra is None:
        return [s]
    out = []
    for x in extra.s:
        out.extend(mul_sm(s, x))
    return out


def atom_fvs(a):
    out = set()
    for e in a.ints():
        out |= zvars(e)
    for t in a.terms():
        out |= t.fvs()
    return out


def atom_heads(a):
    if isinstance(a, El):
        return {a.head}
    out = set()
    if isinstance(a, PowI) and not isinstance(a.b, int):
        return atom_heads(a.b)
    for t in a.terms():
        out |= t.heads()
    return out


def subst_sm(s, pairs):
    bound = {ZK(v) for v in s.b}
    pairs = [(a, b) for a, b in pairs if ZK(a) not in bound]
    if not pairs:
        return [s]
    vs = {ZK(a) for a, _ in pairs}
    # capture avoidance: replacement exprs mentioning a binder of s
    if s.b:
        rv = set()
        for _, b in pairs:
            rv |= zvars(b)
        if rv & bound:
            s = rename_binders(s)
    g = []
    for x in s.g:
        if vs & zvars(x):
            x = zsubst(x, pairs)
            if x is True:
                continue
            if x is False:
                return []
            g.extend(flat_and(x))
        else:
            g.append(x)
    changed = False
    m_f = []
    for a, q in s.f:
        if vs & atom_fvs(a):
            changed = True
            m_f.append((a, q, True))
        else:
            m_f.append((a, q, False))
    if not changed:
        return [Sm(s.c, s.b, tuple(g), s.f)]
    m = Term((Sm(s.c, (), (), tuple((a, q) for a, q, ch in m_f if not ch)),))
    for a, q, ch in m_f:
        if ch:
            t = subst_atom(a, pairs)
            m = m * (t ** q if isinstance(t, Term) else mono1(t, q))
    return [Sm(x.c, s.b + x.b, tuple(g) + x.g, x.f) for x in m.s]


def subst_atom(a, pairs):
    """-> Atom or Term"""
    if isinstance(a, El):
        return El(a.head, [zsubst(i, pairs) for i in a.idx], a.cj)
    if isinstance(a, IntA):
        return int_term(zsubst(a.e, pairs))
    if isinstance(a, Fn):
        return mk_fn(a.name, [x.subst(pairs) if isinstance(x, Term) else (zsubst(x, pairs) if isz(x) else x) for x in a.args],
                     a._real, a.cj, a._pos)
    if isinstance(a, Base):
        t = a.t.subst(pairs)
        return _BaseT(t)
    if isinstance(a, PowI):
        e = zsubst(a.e, pairs)
        if a.b == -1:
            return neg_one_pow(e)
        if isinstance(a.b, int):
            return int_powi(a.b, e)
        b = subst_atom(a.b, pairs)
        if isinstance(b, Atom):
            b = mono1(b, 1)
        return b.powi(e)
    if isinstance(a, ExpA):
        return exp_term(a.t.subst(pairs))
    return a


class _BT(Term):
    pass


def _BaseT(t):
    return t


def atom_map(a, fn):
    r = fn(a)
    if r is not None:
        return r
    if isinstance(a, Fn):
        if not a.terms():
            return a
        return mk_fn(a.name, [x.map_atoms(fn) if isinstance(x, Term) else x for x in a.args], a._real, a.cj, a._pos)
    if isinstance(a, Base):
        return a.t.map_atoms(fn)
    if isinstance(a, ExpA):
        return exp_term(a.t.map_atoms(fn))
    if isinstance(a, PowI) and not isinstance(a.b, int):
        b = atom_map(a.b, fn)
        if isinstance(b, Atom):
            return PowI(b, a.e)
        return b.powi(a.e)
    return a


# ----------------------------------------------------------------------------------------------
# functions


def exp_term(t):
    """exp(t) as product of ExpA(mono)^rational"""
    t = T(t)
    out = T(1)
    for s in t.s:
        if s.b:
            c = s.c
            body = Term((Sm(ONE, s.b, s.g, s.f),))
            if c.im == 0:
                out = out * raw_mono(ExpA(body), c.re)
            elif c.re == 0:
                out = out * raw_mono(ExpA(body * T(GQ(0, 1))), c.im)
            else:
                out = out * raw_mono(ExpA(body), c.re) * raw_mono(ExpA(body * T(GQ(0, 1))), c.im)
            continue
        if not s.f:
            # numeric constant
            base = Term((Sm(ONE, (), (), ()),))
        else:
            base = Term((Sm(ONE, (), (), s.f),))
        c = s.c
        piece = T(1)
        if c.re != 0:
            piece = piece * _exp_piece(base, c.re, False)
        if c.im != 0:
            piece = piece * _exp_piece(base, c.im, True)
        if s.g:
            G = And(*s.g)
            piece = piece.guard(G) + T(1).guard(Not(G))
        out = out * piece
    return out


def _exp_piece(base, q, imag):
    if not imag and len(base.s) == 1 and len(base.s[0].f) == 1:
        a, e = base.s[0].f[0]
        if e == 1 and isinstance(a, Fn) and a.name == "log":
            return T(a.args[0]) ** q
        if e == 1 and isinstance(a, Fn) and a.name == "logfact":
            return mk_fn("factorial", [a.args[0]]).powq(q)
        if e == 1 and isinstance(a, Fn) and a.name == "lgamma2":
            return raw_mono(Fn("gamma2", [a.args[0]], True, False, True), q)
    if not imag and len(base.s) == 1 and len(base.s[0].f) == 2 and not base.s[0].b and not base.s[0].g:
        # exp(q e log c) = (c^e)^q
        for (a, x), (b_, y) in (base.s[0].f, base.s[0].f[::-1]):
            if x == 1 and y == 1 and isinstance(a, IntA) and isinstance(b_, Fn) and b_.name == "log" \
                    and T(b_.args[0]).is_const() and base.s[0].c.isone():
                return T(b_.args[0]).powi(a.e).powq(q)
    b = base * T(GQ(0, 1)) if imag else base
    return raw_mono(ExpA(b), q)


EVEN_FNS = set()


def mk_fn(name, args, real=True, cj=False, pos=False):
    """function application with simplifications; returns Term"""
    if name == "factorial":
        e = args[0]
        if isinstance(e, Term):
            e2 = term_to_int(e)
            e = e2 if e2 is not None else e
        if isinstance(e, int):
            return T(math.factorial(e))
        if not isinstance(e, Term):
            r, c = split_const(e)
            if c > 0 and LOGIC[0] is not None and LOGIC[0].entails(ile(0, r)):
                t = atom_term(Fn("factorial", [r], True, False, True))
                for k in range(1, c + 1):
                    t = t * int_term(I(r + k))
                return t
        return atom_term(Fn("factorial", [e], True, False, True))
    if name == "abs":
        return abs_term(args[0])
    if name == "lgamma":
        e = term_to_int(T(args[0]) * 2)
        if e is not None and isz(e):
            return mk_fn("lgamma2", [e])      # log Gamma(e/2)
    if name in ("lgamma2", "gamma2"):
        e = args[0]
        d, c = linear(e)
        if c % 2 == 0 and all(v % 2 == 0 for v in d.values()):
            x = from_linear({k: v // 2 for k, v in d.items()}, c // 2 - 1)
            if isinstance(x, int) and x >= 0 or isz(x) and LOGIC[0] is not None and LOGIC[0].entails(ile(0, x)):
                return mk_fn("logfact" if name == "lgamma2" else "factorial", [x])
        return atom_term(Fn(name, [e], True, False, name == "gamma2"))
    if name == "logfact" and isz(args[0]) and LOGIC[0] is not None and LOGIC[0].entails(ile(args[0], 1)):
        return ZERO
    if name == "logfact" and isinstance(args[0], int):
        return mk_fn("log", [T(math.factorial(args[0]))]) if args[0] > 1 else ZERO
    if name == "log":
        t = T(args[0])
        if t.is_const():
            c = t.const_val()
            if c.isone():
                return ZERO
            if c.im == 0 and c.re > 0:
                out = ZERO
                for p_, k in factorize(c.re.numerator).items():
                    out = out + atom_term(Fn("log", [T(p_)])) * k
                for p_, k in factorize(c.re.denominator).items():
                    out = out - atom_term(Fn("log", [T(p_)])) * k
                return out
        return atom_term(Fn("log", [t]))
    if name == "sinc":
        t = T(args[0])
        if not t.s:
            return T(1)
        return _even_fn("sinc", t)
    if name in ("sin", "cos"):
        t = T(args[0])
        if not t.s:
            return T(0 if name == "sin" else 1)
        n, sgn = canon_sign(t)
        r = atom_term(Fn(name, [n]))
        return r * sgn if name == "sin" else r
    return atom_term(Fn(name, args, real, cj, pos))


def canon_sign(t):
    """t = sgn * n with a deterministic choice of sign"""
    ks = sorted(((repr(s), s) for s in t.s), key=lambda x: x[0].lstrip("-"))
    s = ks[0][1]
    if s.c.re < 0 or (s.c.re == 0 and s.c.im < 0):
        return -t, -1
    return t, 1


def _even_fn(name, t):
    n, _ = canon_sign(t)
    return atom_term(Fn(name, [n]))


def abs_term(t):
    t = T(t)
    if not t.s:
        return ZERO
    if t.is_const():
        c = t.const_val()
        if c.im == 0:
            return T(abs(c.re))
        return T(c.re * c.re + c.im * c.im).powq(Fraction(1, 2))
    if not t.is_real():
        c = t.conj()
        return atom_term(Fn("cabs", [min((t, -t, c, -c), key=lambda x: str(x.key()))], True))
    lg = LOGIC[0]
    if lg is not None:
        try:
            z = to_z3(t)
        except Unsupp:
            z = None
        if z is not None:
            if lg.entails(z >= 0):
                return t
            if lg.entails(z <= 0):
                return -t
        e = term_to_int(t)
        if e is not None and not isinstance(e, int):
            return int_term(z3.If(e >= 0, e, -e))
    if len(t.s) == 1 and not t.s[0].b:
        s = t.s[0]
        out = T(abs(s.c.re)) if s.c.im == 0 else None
        if out is not None:
            rest = []
            for a, q in s.f:
                if a.pos or (q.denominator == 1 and q % 2 == 0 and a.real):
                    out = out * mono1(a, q)
                else:
                    rest.append((a, q))
            if s.g:
                out = out.guard(And(*s.g))
            if not rest:
                return out
            m = T(1)
            for a, q in rest:
                m = m * mono1(a, q)
            n, _ = canon_sign(m)
            return out * atom_term(Fn("abs", [n], True))
    n, _ = canon_sign(t)
    return atom_term(Fn("abs", [n], True))


def sqrt_term(t):
    t = T(t)
    if not t.s:
        return ZERO
    return t.powq(Fraction(1, 2))


# ----------------------------------------------------------------------------------------------
# translation of real terms to z3 reals (for branch conditions and coefficient checks)

_ufs = {}


def uf(name, rank):
    k = (name, rank)
    if k not in _ufs:
        if rank == 0:
            _ufs[k] = z3.Real(name)
        else:
            _ufs[k] = z3.Function(name, *([z3.IntSort()] * rank + [z3.RealSort()]))
    return _ufs[k]


ZNAME_HEADS = {}      # z3 symbol name -> names of the heads (and integer variables) it stands for
_opaque = {}
_opq_n = itertools.count(1)


def head_z3(head, idx):
    nm = "el_%s_%d" % (head.name, head.serial)
    if nm not in ZNAME_HEADS:
        ZNAME_HEADS[nm] = frozenset([head.name])
    f = uf(nm, len(idx))
    return f(*[zi(i) for i in idx]) if idx else f


def to_z3(t):
    tot = None
    for s in t.s:
        if s.b:
            z = _opq(Term((Sm(ONE, s.b, s.g, s.f),)))
            if s.c.im != 0:
                raise Unsupp("complex value in a real context")
            z = q2z(s.c.re) * z
        else:
            if s.c.im != 0:
                raise Unsupp("complex value in a real context")
            z = q2z(s.c.re)
            for a, q in s.f:
                z = z * atom_z3(a, q)
            if s.g:
                z = z3.If(zb(And(*s.g)), z, z3.RealVal(0))
        tot = z if tot is None else tot + z
    return z3.RealVal(0) if tot is None else tot


def q2z(q):
    return z3.RealVal(str(q))


def atom_z3(a, q=F1):
    q = Fraction(q)
    if q.denominator != 1:
        # x^(k + f), f in (0,1)
        k = math.floor(q)
        b = _opq(raw_mono(a, q - k))
        LOGIC[0] and LOGIC[0].note_fact(b >= 0)
        base = atom_z3(a, F1) if k != 0 else None
        r = b
        for _ in range(abs(k)):
            r = r * base if k > 0 else r / base
        return r
    n = int(q)
    if not a.real:
        raise Unsupp("complex atom %r in a real context" % (a,))
    if isinstance(a, El):
        x = head_z3(a.head, a.idx)
    elif isinstance(a, IntA):
        x = z3.ToReal(a.e)
    elif isinstance(a, PowI) and a.b == -1:
        x = z3.If(a.e % 2 == 0, z3.RealVal(1), z3.RealVal(-1))
    elif isinstance(a, Base):
        x = to_z3(a.t)
    elif isinstance(a, Fn) and a.name == "abs":
        y = to_z3(a.args[0])
        x = z3.If(y >= 0, y, -y)
    elif isinstance(a, Fn) and not a.terms() and all(isz(i) or isinstance(i, int) for i in a.args):
        f = uf("fn_%s" % a.name, len(a.args))
        x = f(*[zi(i) for i in a.args]) if a.args else f
    else:
        x = _opq(atom_term(a))
    if a.pos and LOGIC[0] is not None:
        LOGIC[0].note_fact(x > 0)
    elif isinstance(a, El) and a.head.nonneg and LOGIC[0] is not None:
        LOGIC[0].note_fact(x >= 0)
    r = x
    if n > 0:
        for _ in range(n - 1):
            r = r * x
        return r
    d = x
    for _ in range(-n - 1):
        d = d * x
    return z3.RealVal(1) / d


def _opq(t):
    """opaque real constant for a term (only valid when t has no binder-captured variables)"""
    k = t.key()
    fv = sorted(t.fvs(), key=lambda z: str(z.e))
    if k not in _opaque:
        n = next(_opq_n)
        vs = [z.e for z in fv]
        nm = "opq_%d" % n
        ZNAME_HEADS[nm] = frozenset(h.name for h in t.heads())
        f = uf(nm, len(vs))
        _opaque[k] = f(*vs) if vs else f
    return _opaque[k]


# ----------------------------------------------------------------------------------------------
# differentiation with respect to a scalar head


def diff(t, head):
    """d t / d head, head a real scalar"""
    out = ZERO
    for s in t.s:
        if head not in Term((s,)).heads():
            continue
        for i, (a, q) in enumerate(s.f):
            da = diff_atom(a, head)
            if not da.s:
                continue
            rest = Term((Sm(s.c * GQ(q), (), s.g, tuple(x for j, x in enumerate(s.f) if j != i)),))
            r = rest * mono1(a, q - 1) * da
            out = out + Term([Sm(x.c, s.b + x.b, x.g, x.f) for x in r.s])
    return out


def diff_atom(a, head):
    if isinstance(a, El):
        return T(1) if a.head is head else ZERO
    if head not in atom_heads(a):
        return ZERO
    if isinstance(a, Base):
        return diff(a.t, head)
    if isinstance(a, ExpA):
        return diff(a.t, head) * atom_term(a)
    if isinstance(a, Fn):
        if a.name == "log":
            return diff(a.args[0], head) / a.args[0]
        if a.name == "sin":
            return diff(a.args[0], head) * mk_fn("cos", [a.args[0]])
        if a.name == "cos":
            return -diff(a.args[0], head) * mk_fn("sin", [a.args[0]])
    raise Unsupp("derivative of %r" % (a,))
