"""Symbolic side of the contract language (see contracts/README in DESIGN.md).

A contract case is a python function case(ctx).  Here ctx stands for *all* inputs: dimensions are
symbolic integers, tensors are uninterpreted symbols; the functions of /repo called by the case are the
real ones, executed symbolically, and every ctx.ensure* becomes a proof obligation on every path.
"""
import traceback
from fractions import Fraction
import z3

from . import engine as en
from . import logic as lgm
from . import npmodel as npm
from . import terms as tm
from .engine import SInt, SBool, Num, mkint, mkbool, ival, num, bool_of
from .terms import (And, Or, Not, ieq, ile, ilt, zi, zb, isz, T, ZERO, El, Head, Term, Sm, atom_term, fresh_int,
                    mk_fn, Unsupp, Bz, F1, GQ)


class Rec:
    def __init__(self, case):
        self.case = case
        self.done = 0
        self.names = {}
        self.failed = []
        self.unsupported = []
        self.paths = 0
        self.live_paths = 0

    def ok(self, name):
        self.done += 1
        self.names[name] = self.names.get(name, 0) + 1

    def fail(self, name, why, model=None, choices=None):
        if len(self.failed) < 40:
            self.failed.append({"obligation": name, "why": why[:4000], "model": model or {}, "choices": choices or {}})


def model_dict(m):
    out = {}
    if m is None:
        return out
    for d in m.decls():
        if d.arity() == 0 and "!" not in d.name():
            v = m[d]
            try:
                out[d.name()] = v.as_long()
            except Exception:
                try:
                    out[d.name()] = float(v.as_fraction())
                except Exception:
                    out[d.name()] = str(v)
    return out


class SymCtx:
    sym = True

    def __init__(self, loader, rec):
        self.loader = loader
        self.rec = rec
        self.np = loader.models["numpy"]
        self.choices = {}
        self.prefix = ""
        self.pi = Num(npm.PI_T, "f")
        self.notes = []

    # -- inputs
    def mod(self, name):
        return self.loader.load(name)

    def dim(self, name, lo=1, hi=4, far=None):
        e = z3.Int(name)
        en.ENG.assume(e >= lo)
        return SInt(e)

    def int(self, name, lo=None, hi=None, chi=None, clo=None, far=None):
        """integer; lo/hi are real bounds (inclusive), clo/chi only bound concrete samples"""
        e = z3.Int(name)
        if lo is not None:
            en.ENG.assume(ile(ival(lo), e))
        if hi is not None:
            en.ENG.assume(ile(e, ival(hi)))
        return SInt(e)

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        h = Head(name, 0, real=True, pos=pos, nonneg=nonneg)
        return Num(atom_term(El(h)), "f")

    def cplx(self, name):
        return Num(atom_term(El(Head(name, 0))), "c")

    def tensor(self, name, shape, real=False):
        h = Head(name, len(shape), real=real)
        return npm.SArr.fresh(tuple(shape), "f" if real else "c", lambda idx: atom_term(El(h, idx)))

    def herm(self, name, n, real=False):
        h = Head(name, 2, real=real)
        return npm.SArr.fresh((n, n), "f" if real else "c",
                              lambda i: atom_term(El(h, i)) + atom_term(El(h, (i[1], i[0]), True)))

    def exch(self, name, n, real=False):
        """two-body elements with particle-exchange symmetry (every such tensor has this form)"""
        h = Head(name, 4, real=real)
        return npm.SArr.fresh((n,) * 4, "f" if real else "c",
                              lambda i: atom_term(El(h, i)) + atom_term(El(h, (i[1], i[0], i[3], i[2]))))

    def function(self, name, real=True, wild=False):
        """arbitrary function of one real variable"""
        def f(x):
            def one(v):
                return Num(mk_fn(name, [num(v).t], real), "f" if real else "c")
            if npm.is_arr(x):
                g = x.efrozen()
                return npm.SArr.fresh(x.shape, "f" if real else "c", lambda i: one(g(i)).t)
            return one(x)
        f.__name__ = name
        return f

    def choice(self, name, opts):
        opts = list(opts)
        i = en.ENG.choose(len(opts), 0)
        self.choices[name] = i
        return opts[i]

    def split(self, *conds):
        """case distinction: explore both truth values of every condition"""
        for c in conds:
            bool(c)

    def assume(self, c):
        b = bool_of(c)
        if b is None:
            b = bool(c)
        en.ENG.assume(b)

    def spin_pair(self, name="spin"):
        """arbitrary orthonormal pair of spin vectors: a with |a|=1, b = g(-a1*, a0*), |g|=1"""
        a0, a1, g = (Head(name + s, 0) for s in ("_a0", "_a1", "_g"))
        A0, A1, G = (atom_term(El(h)) for h in (a0, a1, g))
        self.unit_rule([(a1, T(1) - A0 * A0.conj()), (g, T(1))])

        def arr(x, y):
            return npm.SArr.fresh((2,), "c", lambda i: x.guard(ieq(i[0], 0)) + y.guard(ieq(i[0], 1)))
        return arr(A0, A1), arr(-G * A1.conj(), G * A0.conj())

    def unit_rule(self, specs):
        def rule(s):
            for h, rhs in specs:
                p = c = None
                for j, (a, q) in enumerate(s.f):
                    if isinstance(a, El) and a.head is h and q >= 1 and q.denominator == 1:
                        if a.cj:
                            c = j
                        else:
                            p = j
                if p is None or c is None:
                    continue
                f = []
                for j, (a, q) in enumerate(s.f):
                    if j in (p, c):
                        q = q - 1
                    if q != 0:
                        f.append((a, q))
                return Term((Sm(s.c, s.b, s.g, tuple(f)),)) * rhs
            return None
        en.ENG.rules.append(rule)

    def orthonormal(self, name, n, m, real=False):
        """arbitrary n x m matrix with orthonormal columns (C^dagger C = 1)"""
        h = Head(name, 2, real=real)
        C = npm.SArr.fresh((n, m), "f" if real else "c", lambda i: atom_term(El(h, i)))
        N = ival(n)

        def rule(s):
            for v in s.b:
                k = tm.ZK(v)
                hit = [(j, a) for j, (a, q) in enumerate(s.f) if k in tm.atom_fvs(a)]
                if len(hit) == 1:
                    a, q = s.f[hit[0][0]]
                    if real and q == 2 and isinstance(a, El) and a.head is h and zi(a.idx[0]).eq(v):
                        pair = (a, a)
                    else:
                        continue
                elif len(hit) == 2:
                    (j1, x), (j2, y) = hit
                    if s.f[j1][1] != 1 or s.f[j2][1] != 1:
                        continue
                    pair = (x, y)
                else:
                    continue
                x, y = pair
                if not (isinstance(x, El) and isinstance(y, El) and x.head is h and y.head is h):
                    continue
                if not real and x.cj == y.cj:
                    continue
                if not (zi(x.idx[0]).eq(v) and zi(y.idx[0]).eq(v)):
                    continue
                if k in tm.zvars(x.idx[1]) or k in tm.zvars(y.idx[1]):
                    continue
                gs = [g for g in s.g if k in tm.zvars(g)]
                # the guards on v must be exactly the full range
                lg = tm.LOGIC[0]
                rng = And(ile(0, v), ilt(v, N))
                if not (lg.entails(rng, given=list(s.g)) and
                        lg.entails(And(*gs), given=[rng] + [g for g in s.g if k not in tm.zvars(g)])):
                    continue
                js = {j for j, _ in hit}
                f = tuple(z for j, z in enumerate(s.f) if j not in js)
                g2 = tuple(g for g in s.g if k not in tm.zvars(g))
                eqg = ieq(x.idx[1], y.idx[1])
                if eqg is False:
                    return ZERO
                if eqg is not True:
                    g2 = g2 + (eqg,)
                return Term((Sm(s.c, tuple(b for b in s.b if not b.eq(v)), g2, f),))
            return None
        en.ENG.rules.append(rule)
        return C

    # -- scalar helpers usable in postconditions
    def el(self, a, *idx):
        if isinstance(a, Num) and not idx:
            return a
        t = a.get(tuple(ival(i) for i in idx))
        return npm.elem(t, a.kind)

    def sum(self, n, f, lo=0):
        if isinstance(ival(n), int) and isinstance(ival(lo), int) and ival(n) - ival(lo) <= 4:
            r = 0
            for i in range(ival(lo), ival(n)):
                r = r + f(i)
            return num(r)
        k = fresh_int("s")
        lg = en.ENG.logic
        lg.push()
        lg.assume(And(ile(ival(lo), k), ilt(k, ival(n))))
        try:
            v = num(f(SInt(k)))
        finally:
            lg.pop()
        return Num(v.t.sum(k, ival(lo), ival(n)), v.k)

    def conj(self, x):
        return num(x).conjugate()

    def re(self, x):
        return num(x).real

    def sqrt(self, x):
        return Num(tm.sqrt_term(num(x).t), "f")

    def exp(self, x):
        n = num(x)
        return Num(tm.exp_term(n.t), en.kjoin(n.k, "f"))

    def fn(self, name, *args):
        """named library function (factorial, sin, cos, ...)"""
        from . import libmodel as lb
        if name == "factorial":
            return Num(mk_fn("factorial", [ival(args[0]) if ival(args[0]) is not None else num(args[0]).t]), "f")
        if name == "genlaguerre":
            n, k, x = args
            return Num(lb.laguerre_t(ival(n), ival(k), num(x).t), "f")
        if name == "hermite":
            n, x = args
            return Num(lb.hermite_t(ival(n), num(x).t), "f")
        if name == "abs":
            return abs(args[0])
        if name == "logfact":
            return Num(mk_fn("logfact", [ival(args[0])]), "f")
        if name == "gamma":
            return lb.gamma(args[0])
        return Num(mk_fn(name, [num(a).t for a in args]), "f")

    def ite(self, c, a, b):
        c = bool_of(c) if not isinstance(c, bool) else c
        if c is True:
            return a
        if c is False:
            return b
        if ival(a) is not None and ival(b) is not None:
            return mkint(tm.resolve_ites(tm.iite(c, ival(a), ival(b))))
        x, y = num(a), num(b)
        return Num(x.t.guard(c) + y.t.guard(Not(c)), en.kjoin(x.k, y.k))

    def delta(self, a, b):
        return mkint(tm.iite(ieq(ival(a), ival(b)), 1, 0))

    def ind(self, c):
        return self.ite(c, 1, 0)

    def all_(self, *cs):
        return mkbool(And(*[bool_of(c) for c in cs]))

    def any_(self, *cs):
        return mkbool(Or(*[bool_of(c) for c in cs]))

    def not_(self, c):
        return mkbool(Not(bool_of(c)))

    def iabs(self, x):
        return mkint(tm.resolve_ites(z3.If(zi(ival(x)) >= 0, zi(ival(x)), -zi(ival(x)))))

    def powi(self, b, e):
        return num(b) ** e

    def diff(self, value, var):
        h = num(var).t.s[0].f[0][0].head
        return Num(tm.diff(num(value).t, h), "f")

    def other_module(self):
        """an array module other than NumPy (same functions, its own array type)"""
        return npm.make_module("othernp", "other")

    def module_of(self, a):
        return a.mod or "numpy"

    def ensure_deriv(self, name, d, f, var):
        """d is the derivative of f at var"""
        return self.ensure_eq(name, d, self.diff(f(var), var))

    def is_array(self, a):
        return npm.is_arr(a)

    def kind(self, a):
        if npm.is_arr(a) or isinstance(a, Num):
            return a.kind if npm.is_arr(a) else a.k
        return {bool: "b", int: "i", float: "f", complex: "c"}.get(type(a), "i" if isinstance(a, SInt) else "?")

    def snap(self, a):
        return None if a is None else a.copy()

    def same_storage(self, a, b):
        return a.st is b.st

    # -- obligations
    def _fail(self, name, why, model=None):
        lg = en.ENG.logic
        md = model_dict(model) if model is not None else model_dict(lg.model())
        pc = "; ".join(str(f).replace("\n", " ") for f in lg.formulas())[:1500]
        self.rec.fail(self.prefix + name, "%s\n  path: %s" % (why, pc), md, dict(self.choices))

    def ensure(self, name, c):
        b = bool_of(c)
        if b is None:
            b = bool(c)
        lg = en.ENG.logic
        if lg.entails_split(b):
            self.rec.ok(self.prefix + name)
            return True
        if not lg.feasible():
            self.rec.ok(self.prefix + name)
            return True
        self._fail(name, "cannot prove: %s" % (b,), lg.model([Not(b)]))
        return False

    def prove(self, name, t):
        lg = en.ENG.logic
        r = lgm.prove_zero(t, tuple(en.ENG.rules))
        if r is None or not lg.feasible():
            self.rec.ok(self.prefix + name)
            return True
        self._fail(name, str(r), r.model)
        return False

    def ensure_eq(self, name, a, b):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            return self.ensure(name, a == b if not (a is None or b is None) else a is b)
        ia, ib = ival(a), ival(b)
        if ia is not None and ib is not None:
            return self.ensure(name, mkbool(ieq(ia, ib)))
        try:
            x, y = num(a), num(b)
        except TypeError as e:
            self._fail(name, "value is not a number: %r" % (e,))
            return False
        return self.prove(name, x.t - y.t)

    def ensure_close(self, name, a, b, tol):
        """exact here; within tol on the real code"""
        return self.ensure_eq(name, a, b)

    def ensure_shape(self, name, a, shape):
        if not npm.is_arr(a):
            if isinstance(a, Num) and not shape:
                return True
            self._fail(name, "not an array: %r" % (a,))
            return False
        if len(a.sh) != len(shape):
            self._fail(name, "array has %d axes, expected %d" % (len(a.sh), len(shape)))
            return False
        for j, (x, y) in enumerate(zip(a.sh, shape)):
            if not self.ensure("%s.shape[%d]" % (name, j), mkbool(ieq(x, ival(y)))):
                return False
        return True

    def ensure_arr(self, name, a, shape, f, kind=None):
        if not self.ensure_shape(name, a, shape):
            return False
        if kind is not None:
            k = self.kind(a)
            if not self.ensure(name + ".kind", k in kind):
                return False
        lg = en.ENG.logic
        x = tuple(fresh_int("x") for _ in shape)
        lg.push()
        try:
            for xi, ni in zip(x, shape):
                lg.assume(And(ile(0, xi), ilt(xi, ival(ni))))
            got = a.get(x) if npm.is_arr(a) else num(a).t
            want = f(*[SInt(xi) for xi in x])
            if npm.is_arr(a) and a.kind == "b":
                return self.ensure(name, mkbool(Bz(zb(got) == zb(bool_of(want)))))
            return self.prove(name, got - num(want).t)
        finally:
            lg.pop()

    # -- 2D oscillator ghosts
    def use_contracts(self, *names):
        """replace callees by their contracts (each verified against its body by its own case)"""
        for n in names:
            if n == "coulomb lemmas":
                en.ENG.rules.append(_coulomb_lemmas)
                continue
            en.ENG.summaries[n] = SUMMARIES[n]
            if n == "coulomb_ho" and _coulomb_selection not in en.ENG.rules:
                en.ENG.rules.append(_coulomb_selection)

    def nm(self, p):
        return tuple(mkint(e) for e in numbering(ival(p)))

    def coulomb(self, *nm):
        return coulomb_value([ival(x) for x in nm])

    def radial(self, f):
        """integral of f(r) over r from 0 to infinity"""
        from . import libmodel as lb
        h = tm.Head("rho", 0, real=True)
        return Num(lb.integrate_t(num(f(Num(tm.atom_term(tm.El(h)), "f"))).t, h), "f")

    def angular(self, what, k):
        """integral of what(theta) exp(-i k theta) over a full turn (closed forms, derived in DESIGN.md)"""
        k = ival(k)
        pi = npm.PI_T
        j = tm.T(tm.GQ(0, 1))
        d = lambda v: tm.T(1).guard(ieq(k, v))
        if what == "cos":
            return Num(pi * (d(1) + d(-1)), "f")
        if what == "sin":
            return Num(j * pi * (d(-1) - d(1)), "c")
        even = tm.Bz(tm.ieq(tm.imod(k, 2), 0))
        kt = tm.int_term(k)
        t = (T(4) / (T(1) - kt * kt)).guard(even)
        if what == "abs cos":
            t = t * tm.neg_one_pow(tm.idiv(k, 2))
        return Num(t, "f")

    def file_cache(self):
        return SymCache()

    def pyscf(self):
        from . import libmodel as lb
        return lb.pyscf

    def molecule(self, closed=True):
        """(atom, basis, further build keywords), passed on unread"""
        return "<any atom>", "<any basis>", {}

    def spectrum(self, n, f):
        """ghost: the eigenvalues, ascending with multiplicity, of the Hermitian n x n matrix f"""
        lg = en.ENG.logic
        for A, w, V, m in en.ENG.eigs:
            if not lg.entails(ieq(ival(n), m)):
                continue
            i, j = fresh_int("i"), fresh_int("j")
            lg.push()
            try:
                lg.assume(And(ile(0, i), ilt(i, ival(n)), ile(0, j), ilt(j, ival(n))))
                ok = lgm.prove_zero(A((i, j)) - num(f(SInt(i), SInt(j))).t, tuple(en.ENG.rules)) is None
            finally:
                lg.pop()
            if ok:
                return lambda p: Num(tm.atom_term(tm.El(w, (ival(p),))), "f")
        raise Unsupp("no diagonalisation of the specified matrix was performed")

    def for_all(self, shape, f):
        """run f on generic indices within shape (obligations inside hold for all indices)"""
        lg = en.ENG.logic
        x = tuple(fresh_int("x") for _ in shape)
        lg.push()
        try:
            for xi, ni in zip(x, shape):
                lg.assume(And(ile(0, xi), ilt(xi, ival(ni))))
            f(*[SInt(xi) for xi in x])
        finally:
            lg.pop()

    def unchanged(self, name, a, snap):
        if snap is None:
            return self.ensure(name + ".unset", a is None)
        return self.ensure_arr(name + ".unchanged", a, snap.shape, lambda *i: self.el(snap, *i), kind=snap.kind)

    def ensure_same(self, name, a, b):
        b = self.snap(b)
        return self.ensure_arr(name, a, b.shape, lambda *i: self.el(b, *i), kind=b.kind)

    def raises(self, f, *exc):
        exc = exc or (Exception,)
        try:
            r = f()
        except exc as e:
            return e, None
        return None, r

    def raises_iff(self, name, f, cond, exc=(Exception,)):
        e, r = self.raises(f, *exc)
        if e is not None:
            self.ensure(name + ".refused_only_if_invalid", cond)
        else:
            self.ensure(name + ".accepted_only_if_valid", self.not_(cond))
        return e, r


NQ = z3.Function("NQ", z3.IntSort(), z3.IntSort())
MQ = z3.Function("MQ", z3.IntSort(), z3.IntSort())


def numbering(p):
    """the energy-ordered numbering of 2D oscillator states: characterised (uniquely) by C13"""
    if isinstance(p, int):
        from . import oracle
        return oracle.numbering(p)
    p = zi(p)
    en.ENG.logic.axiom(NQ, lambda x: z3.Implies(x.arg(0) >= 0, x >= 0))
    return NQ(p), MQ(p)


def coulomb_value(nm):
    nm = [tm.I(x) for x in nm]
    return Num(tm.mk_fn("coulomb_ho", list(nm)), "f")


def _coulomb_selection(s):
    """proved in C14: zero unless m_p + m_q = m_r + m_s"""
    for a, w in s.f:
        if isinstance(a, tm.Fn) and a.name == "coulomb_ho":
            v = list(a.args)
            c = ieq(tm.iadd(v[1], v[3]), tm.iadd(v[5], v[7]))
            if c is not True and not any(str(g) == str(c) for g in s.g):
                return tm.Term((tm.Sm(s.c, s.b, s.g + (c,), s.f),)) if c is not False else T(0)
    return None


def _coulomb_lemmas(s):
    """proved in C14: exchange_symmetry, hermiticity, and zero unless m_p + m_q = m_r + m_s"""
    for i, (a, w) in enumerate(s.f):
        if not (isinstance(a, tm.Fn) and a.name == "coulomb_ho"):
            continue
        v = list(a.args)
        p, q, r, t = v[0:2], v[2:4], v[4:6], v[6:8]
        n = min((p + q + r + t, q + p + t + r, r + t + p + q, t + r + q + p), key=str)
        c = ieq(tm.iadd(n[1], n[3]), tm.iadd(n[5], n[7]))
        if str(n) == str(v) and any(str(g) == str(c) for g in s.g):
            continue
        return tm.Term((tm.Sm(s.c, s.b, s.g + (c,), s.f[:i] + ((tm.Fn("coulomb_ho", n), w),) + s.f[i + 1:]),))
    return None


def _sum_indices(f, p):
    e = ival(p)
    if e is None:
        e = en.as_index(p)
    if not en.ENG.logic.entails(ile(0, e)):
        raise Unsupp("precondition of get_indices_nm (p >= 0) not established")
    return tuple(mkint(x) for x in numbering(e))


def _sum_coulomb(f, *a):
    v = []
    for i, x in enumerate(a):
        e = ival(x)
        if e is None:
            e = tm.term_to_int(num(x).t)
        if e is None:
            raise Unsupp("quantum number is not an integer")
        if i % 2 == 0 and not en.ENG.logic.entails(ile(0, e)):
            raise Unsupp("precondition of coulomb_ho (n >= 0) not established")
        v.append(e)
    if len(v) != 8:
        raise Unsupp("coulomb_ho arguments")
    return coulomb_value(v)


def _sum_logfact(f, n):
    e = ival(n)
    if e is None:
        e = tm.term_to_int(num(n).t)
    if e is None:
        raise Unsupp("log_factorial of a non-integer")
    if not en.ENG.logic.entails(ile(0, e)):
        raise Unsupp("precondition of log_factorial (n >= 0) not established")
    return Num(tm.mk_fn("logfact", [e]), "f")


def _sum_dataframe(f, n_array, m_array, omega_c=0, omega=1):
    from . import libmodel as lb
    lg = en.ENG.logic
    n_array, m_array = npm.asarray(n_array), npm.asarray(m_array)
    if len(n_array.shape) != 1 or len(m_array.shape) != 1:
        raise Unsupp("construct_dataframe arguments")
    K, M = (en.as_index(x) for x in (n_array.shape[0], m_array.shape[0]))
    x = fresh_int("x")
    lo = tm.term_to_int(m_array.get((0,)))
    if lo is None:
        raise Unsupp("precondition of construct_dataframe: consecutive integers")

    def holds(t, n):
        lg.push()
        try:
            lg.assume(And(ile(0, x), ilt(x, n)))
            return lgm.prove_zero(t, tuple(en.ENG.rules)) is None
        finally:
            lg.pop()
    if not (holds(n_array.get((x,)) - tm.int_term(x), K) and holds(m_array.get((x,)) - tm.int_term(tm.iadd(lo, x)), M)):
        raise Unsupp("precondition of construct_dataframe: n = 0, 1, ... and m consecutive")
    if not lg.entails(And(ile(zi(lo), 1 - zi(K)), ile(zi(K) - 1, zi(lo) + zi(M) - 1))):
        raise Unsupp("precondition of construct_dataframe: |m| < number of n values within the box")
    FN, FM = (z3.Function(str(fresh_int(a)), z3.IntSort(), z3.IntSort()) for a in ("FN", "FM"))

    def n_of(p):
        lg.axiom(FN, lambda x: z3.Implies(x.arg(0) >= 0, x >= 0))
        return mkint(FN(zi(p)))

    def m_of(p):
        return mkint(FM(zi(p)))

    def e_of(p):
        n, m = n_of(p), m_of(p)
        return omega * (2 * n + abs(m) + 1) - omega_c * m / 2
    return lb.SymDF(K, {"n": n_of, "m": m_of, "E": e_of}, strict=False)


def _sum_ho(f, self, x, n):
    """an (unspecified) real function of the quantum number, the frequency and the position (C19 gives its value)"""
    e = ival(n)
    if e is None:
        e = tm.term_to_int(num(n).t)
    if e is None or not en.ENG.logic.entails(ile(0, e)):
        raise Unsupp("precondition of ho_function (n >= 0) not established")
    lg = en.ENG.logic
    om = num(self.omega).t
    if not (npm.is_arr(x) and len(x.shape) == 1):
        raise Unsupp("ho_function contract: positions must form a 1D array")
    get = x.efrozen()
    N = en.as_index(x.shape[0])
    i = fresh_int("i")
    lg.push()
    try:
        lg.assume(And(ile(0, i), ilt(i, N)))
        xi = num(get((i,))).t
        fv = sorted({v for v in (xi.fvs() | om.fvs()) if str(v.e) != str(i)}, key=lambda v: str(v.e))
        h = None
        for fv2, om2, x2, h2 in en.ENG.ho_grids:
            if fv2 == fv and lgm.prove_zero(om2 - om, tuple(en.ENG.rules)) is None \
                    and lgm.prove_zero(x2((i,)) - xi, tuple(en.ENG.rules)) is None:
                h = h2
    finally:
        lg.pop()
    if h is None:
        h = tm.Head("phi", 2 + len(fv), real=True)
        en.ENG.ho_grids.append((fv, om, lambda j, g=get: num(g(j)).t, h))
    return npm.SArr.fresh((N,), "f", lambda j: tm.atom_term(tm.El(h, (e, j[0]) + tuple(v.e for v in fv))))


SUMMARIES = {"ODHO.ho_function": _sum_ho, "construct_dataframe": _sum_dataframe, "get_indices_nm": _sum_indices, "coulomb_ho": _sum_coulomb, "log_factorial": _sum_logfact}


class SymCache:
    def enable(self, value="1"):
        en.ENG.env["QS_CACHE_TDHO"] = value

    def disable(self):
        en.ENG.env.pop("QS_CACHE_TDHO", None)

    def names(self):
        return [n for n, _ in en.ENG.fs]

    def files(self):
        return list(en.ENG.fs)

    def poison(self):
        en.ENG.fs[:] = [(n, npm.full(a.shape, 7.25)) for n, a in en.ENG.fs]

    def state(self):
        return list(en.ENG.fs), len(en.ENG.events)

    def untouched(self, st):
        fs, n = st
        return (len(fs) == len(en.ENG.fs) and all(a is c and b is d for (a, b), (c, d) in zip(fs, en.ENG.fs))
                and not [e for e in en.ENG.events[n:] if e[0] in ("save", "load", "exists", "makedirs")])


def run_case(loader, case, max_s=None):
    """explore all paths of one contract case; returns Rec"""
    eng = en.ENG
    rec = Rec(case.name)
    eng.called = set()

    def body():
        rec.paths += 1
        ctx = SymCtx(loader, rec)
        n0 = rec.done + len(rec.failed)
        try:
            eng.summaries = {}
            eng.ho_grids = []
            case.fn(ctx)
        except en.PathAbort:
            raise
        except Unsupp as e:
            if not eng.logic.feasible():
                return
            msg = "%s" % (e,)
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if "/quantum_systems/" in f.filename]
            if where:
                msg += "  (%s:%d %s)" % (where[-1].filename, where[-1].lineno, where[-1].name)
            if len(rec.unsupported) < 20:
                rec.unsupported.append({"why": msg, "choices": dict(ctx.choices),
                                        "tb": "".join(traceback.format_tb(e.__traceback__)[-8:])})
            return
        except RecursionError as e:
            rec.unsupported.append({"why": "recursion limit", "choices": dict(ctx.choices), "tb": ""})
            return
        except Exception as e:
            if not eng.logic.feasible():
                return
            ctx._fail("no exception", "%s: %s\n%s" % (type(e).__name__, e,
                                                       "".join(traceback.format_tb(e.__traceback__)[-6:])))
            return
        if rec.done + len(rec.failed) > n0 and eng.logic.feasible():
            rec.live_paths += 1
    try:
        eng.explore(body)
    except Unsupp as e:
        rec.unsupported.append({"why": str(e), "choices": {}, "tb": ""})
    rec.called = sorted(eng.called)
    return rec
