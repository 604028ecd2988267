"""Logical context (assumptions, entailment) and the equality prover for Terms.

prove_zero(t) shows that a Term denotes 0 for every interpretation of its tensor symbols and every
value of its integer variables allowed by the assumptions.  Steps: normalise each summand (one-point
elimination of bound variables, splitting of v//c, v%c, counting sums), intern atoms as
function symbols applied to integer leaves, group summands by their multiset of symbols, purify leaves
with slot variables, and ask z3 whether the resulting integer-indexed coefficient function vanishes.
"""
import itertools
import math
import os
import time
from fractions import Fraction
import z3

from . import terms as tm
from .terms import (Term, Sm, T, ZERO, El, Fn, IntA, Base, Prime, PowI, ExpA, GQ, ONE, F0, F1, ZK, I, Bz,
                    And, Or, Not, ieq, ile, ilt, zi, zb, isz, zvars, zsubst, linear, from_linear, flat_and,
                    fresh_int, int_term, term_to_int, atom_term, mono1, raw_mono, collect, subst_sm, mk_fn, Unsupp)

STATS = {"queries": 0, "time": 0.0, "unknown": 0, "unsat_log": []}
KEEP_LOG = os.environ.get("QV_KEEP_SMT") == "1"


_za_cache = {}


def zapps(e):
    """applications of uninterpreted functions in e"""
    k = ZK(e)
    r = _za_cache.get(k)
    if r is None:
        if not z3.is_app(e):
            return frozenset()
        r = frozenset().union(*[zapps(c) for c in e.children()]) if e.num_args() else frozenset()
        if e.num_args() and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = r | {k}
        if len(_za_cache) > 200000:
            _za_cache.clear()
        _za_cache[k] = r
    return r


# functions the models introduce, with the facts that characterise them
AXIOMS = {"tri": lambda x: z3.And(2 * x == x.arg(0) * (x.arg(0) - 1), x >= 0)}


class Logic:
    def __init__(self, timeout_ms=4000):
        self.solver = z3.Solver()
        self.timeout = timeout_ms
        self.solver.set("timeout", timeout_ms)
        self.frames = [[]]      # list of lists of (formula, literal)
        self.lit_of = {}
        self.facts = set()
        self.cache = {}
        self.nlit = 0
        self.ver = 0
        self.axioms = dict(AXIOMS)      # function name -> its (conservative) axiom, instantiated at every application
        self.polylate = []
        self.polyargs = []      # integer expressions at which quadratic closed forms were evaluated

    def install(self):
        tm.LOGIC[0] = self
        return self

    # -- assumptions
    def note_fact(self, f):
        k = ZK(f)
        if k in self.facts:
            return
        self.facts.add(k)
        self.solver.add(f)
        # facts only strengthen: cached positive answers stay valid, negative ones may be stale (harmless)

    def entails_split(self, b, depth=6):
        """entails, with a case split on the conditions of if-then-else subterms"""
        if self.entails(b):
            return True
        b = Bz(b)
        if depth == 0 or not isz(b):
            return False
        c = tm.first_ite(b)
        if c is None:
            return False
        for v in (c, Not(c)):
            self.push()
            try:
                self.assume(v)
                if self.feasible() and not self.entails_split(Bz(tm.qresimp(tm.resolve_ites(b))), depth - 1):
                    return False
            finally:
                self.pop()
        return True

    def poly_arg(self, e, name=None):
        """register e; adds instances of the tautology a >= 0 and b >= 0 => a b >= 0 that order squares"""
        e = tm.resolve_ites(I(e))
        if not isz(e) or tm.has_ite(e):
            return
        if any(e.eq(x) for x in self.polyargs) or len(self.polyargs) > 8:
            return
        for x in self.polyargs:
            for a, b in ((x, e), (e, x)):
                u, v = b - a - 1, a + b
                self.note_fact(z3.Implies(z3.And(u >= 0, v >= 0), z3.simplify(u * v, som=True) >= 0))
        self.polyargs.append(e)

    def axiom(self, fn, ax):
        self.axioms[fn.name()] = ax

    def _lit(self, f):
        k = ZK(f)
        r = self.lit_of.get(k)
        if r is None:
            for x in zapps(f):
                ax = self.axioms.get(x.e.decl().name())
                if ax is not None and not any(z3.is_var(c) for c in x.e.children()):
                    self.note_fact(ax(x.e))
            self.nlit += 1
            r = z3.Bool("a!%d" % self.nlit)
            self.lit_of[k] = r
            self.solver.add(z3.Implies(r, f))
        return r

    def push(self):
        self.frames.append([])

    def pop(self):
        self.frames.pop()

    def assume(self, f, level=-1):
        f = Bz(f)
        if f is True:
            return
        if f is False:
            f = z3.BoolVal(False)
        self.frames[level].append((f, self._lit(f)))

    def frame_key(self):
        return tuple(l.get_id() for fr in self.frames for (_, l) in fr)

    def active(self):
        return [l for fr in self.frames for (_, l) in fr]

    def formulas(self):
        return [f for fr in self.frames for (f, _) in fr]

    def _check(self, extra):
        lits = self.active()
        ex = []
        for e in extra:
            e = Bz(e)
            if e is True:
                continue
            if e is False:
                return z3.unsat
            ex.append(e)
        key = (frozenset(ZK(l) for l in lits), frozenset(ZK(e) for e in ex))
        r = self.cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        els = [self._lit(e) for e in ex]
        r = self.solver.check(*(lits + els))
        if r == z3.unknown:
            s = z3.Then("simplify", "solve-eqs", "smt").solver() if False else z3.Solver()
            s.set("timeout", self.timeout)
            rel = set().union(*[zvars(e) for e in ex]) if ex else set()
            fs = self.formulas()
            for f in fs:
                s.add(f)
                rel |= zvars(f)
            for k in self.facts:
                if zvars(k.e) <= rel or not rel:
                    s.add(k.e)
            for e in ex:
                s.add(e)
            r2 = s.check()
            if r2 == z3.unsat:
                r = r2
            if r == z3.unknown:
                STATS["unknown"] += 1
        STATS["queries"] += 1
        STATS["time"] += time.time() - t0
        if KEEP_LOG and r == z3.unsat:
            s = z3.Solver()
            for f in self.formulas():
                s.add(f)
            for k in self.facts:
                s.add(k.e)
            for e in ex:
                s.add(e)
            STATS["unsat_log"].append(s.sexpr())
        self.cache[key] = r
        return r

    def entails(self, f, given=()):
        f = Bz(f)
        if f is True:
            return True
        return self._check(list(given) + [Not(f)]) == z3.unsat

    def unsat(self, given=()):
        return self._check(list(given)) == z3.unsat

    def feasible(self, given=()):
        """False only if proven infeasible"""
        return self._check(list(given)) != z3.unsat

    def model(self, given=()):
        s = z3.Solver()
        s.set("timeout", self.timeout)
        for f in self.formulas():
            s.add(f)
        for k in self.facts:
            s.add(k.e)
        for e in given:
            e = Bz(e)
            if e is True:
                continue
            s.add(zb(e))
        if s.check() == z3.sat:
            return s.model()
        return None


def LG():
    return tm.LOGIC[0]


# ----------------------------------------------------------------------------------------------
# normalisation of summands

MAXEXP = 20000


def sm_with(s, **kw):
    return Sm(kw.get("c", s.c), kw.get("b", s.b), kw.get("g", s.g), kw.get("f", s.f))


def factors_fvs(s):
    o = set()
    for a, q in s.f:
        o |= tm.atom_fvs(a)
    return o


def sm_fvs(s):
    o = set(factors_fvs(s))
    for g in s.g:
        o |= zvars(g)
    return o - {ZK(b) for b in s.b}


def eq_sides(g):
    """if g is an integer equation lhs == rhs return (lhs - rhs) linear form"""
    if z3.is_eq(g) and tm.is_zint(g.arg(0)):
        return linear(g.arg(0) - g.arg(1))
    return None


def solve_for(g, v):
    """from equation g solve for z3 var v: returns (expr, sidecondition) or None"""
    lf = eq_sides(g)
    if lf is None:
        return None
    d, c = lf
    k = ZK(v)
    if k not in d:
        return None
    co = d[k]
    rest = {kk: vv for kk, vv in d.items() if kk != k}
    for kk in rest:
        if k in zvars(kk.e):
            return None
    if abs(co) == 1:
        # co*v + rest + c = 0  -> v = -(rest+c)/co
        return from_linear({kk: -vv * co for kk, vv in rest.items()}, -c * co), True
    e = from_linear({kk: (-vv if co > 0 else vv) for kk, vv in rest.items()}, (-c if co > 0 else c))
    ac = abs(co)
    if isinstance(e, int):
        if e % ac:
            return None, False
        return e // ac, True
    return I(zi(e) / ac), Bz(zi(e) % ac == 0)


def find_divmod(e, v, out):
    """collect (a, c) for subterms a//c, a%c of e whose a mentions v"""
    if not isz(e):
        return
    k = e.decl().kind()
    if (k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) or (e.num_args() == 2 and (e.decl().eq(tm.QDIV) or e.decl().eq(tm.QMOD)))) \
            and ZK(v) in zvars(e.arg(0)):
        out.append((e.arg(0), e.arg(1)))
    for c in e.children():
        if ZK(v) in zvars(c):
            find_divmod(c, v, out)


def sm_ints(s):
    for a, q in s.f:
        yield from atom_all_ints(a)


def atom_all_ints(a):
    for e in a.ints():
        if isz(e):
            yield e
    for t in a.terms():
        for s in t.s:
            for g in s.g:
                yield g
            for b, q in s.f:
                yield from atom_all_ints(b)


def normalise(t, rules=(), depth=0):
    """normalise a Term; returns list of Sm"""
    work = list(t.s)
    out = []
    n = 0
    while work:
        n += 1
        if n > MAXEXP:
            raise Unsupp("normalisation budget exceeded")
        s = work.pop()
        r = step(s, rules)
        if r is None:
            out.append(s)
        else:
            fv = sm_fvs(s)
            for x in r:
                if not sm_fvs(x) <= fv:      # self-check: a step never frees a bound variable
                    raise Unsupp("internal: dangling bound variable")
            work.extend(r)
    out = [s for s in out if not s.c.zero()]
    return list(collect(out).s)


def step(s, rules):
    """one rewriting step: None if normal, else list of Sm"""
    # flatten guards
    ng, ch = [], False
    seen = set()
    for g in s.g:
        fl = flat_and(g)
        if len(fl) != 1 or fl[0] is not g:
            ch = True
        for x in fl:
            x = Bz(x)
            if x is True:
                ch = True
                continue
            if x is False:
                return []
            k = ZK(x)
            if k in seen:
                ch = True
                continue
            seen.add(k)
            ng.append(x)
    if ch:
        s = Sm(s.c, s.b, tuple(ng), s.f)
    # user rules
    for r in rules:
        t = r(s)
        if t is not None:
            return list(t.s)
    # one-point elimination
    for v in s.b:
        for g in s.g:
            if ZK(v) in zvars(g) and z3.is_eq(g):
                sol = solve_for(g, v)
                if sol is None:
                    continue
                e, side = sol
                if side is False:
                    return []
                # the remaining binders are kept out of the substitution: e may mention them in the same scope
                keep = tuple(x for x in s.b if not x.eq(v))
                rest = Sm(s.c, (), tuple(x for x in s.g if not x.eq(g)), s.f)
                res = subst_sm(rest, [(v, zi(e))])
                return [Sm(x.c, keep + x.b, x.g + ((side,) if side is not True else ()), x.f) for x in res]
    # equality between free variables: substitute in the rest, keep the guard
    for g in s.g:
        if z3.is_eq(g) and tm.is_zint(g.arg(0)):
            vs = sorted(zvars(g), key=lambda z: (len(str(z.e)), str(z.e)))
            bset = {ZK(x) for x in s.b}
            for k in reversed(vs):
                if k in bset:
                    continue
                v = k.e
                if not tm.is_zint(v):
                    continue
                sol = solve_for(g, v)
                if sol is None or sol[1] is not True:
                    continue
                others = Sm(s.c, s.b, tuple(x for x in s.g if not x.eq(g)), s.f)
                used = set(factors_fvs(others))
                for x in others.g:
                    used |= zvars(x)
                if k not in used:
                    break       # never the other way round: would cycle
                res = subst_sm(Sm(s.c, (), others.g, s.f), [(v, zi(sol[0]))])
                return [Sm(x.c, s.b + x.b, x.g + (g,), x.f) for x in res]
    # parities: x % 2 = (1 - (-1)^x)/2
    for i, (a, q) in enumerate(s.f):
        if isinstance(a, IntA) and q == 1 and z3.is_app_of(a.e, z3.Z3_OP_MOD) and z3.is_int_value(a.e.arg(1)) \
                and a.e.arg(1).as_long() == 2 and len(zvars(a.e)) > 1:
            t = (tm.T(1) - tm.neg_one_pow(a.e.arg(0))) * Fraction(1, 2)
            return [Sm(s.c * x.c, s.b + x.b, s.g + x.g, x.f)
                    for x in (Term((Sm(ONE, (), (), s.f[:i] + s.f[i + 1:]),)) * t).s]
    # split binders under // and %
    for v in s.b:
        dm = []
        for e in itertools.chain(s.g, sm_ints(s)):
            if ZK(v) in zvars(e):
                find_divmod(e, v, dm)
        for a, c in dm:
            r = split_divmod(s, v, a, c)
            if r is not None:
                return r
    # disjunctive guards / ite inside equations that determine a binder
    for v in s.b:
        for g in s.g:
            if ZK(v) not in zvars(g):
                continue
            if z3.is_or(g):
                if any(_mentions_eq(x, v) for x in g.children()):
                    rest = tuple(x for x in s.g if not x.eq(g))
                    first = g.arg(0)
                    others = Or(*g.children()[1:])
                    return [Sm(s.c, s.b, rest + (first,), s.f),
                            Sm(s.c, s.b, rest + tuple(flat_and(And(others, Not(first)))), s.f)]
            it = find_ite(g)
            if it is not None:
                rest = tuple(x for x in s.g if not x.eq(g))
                c, a, b = it.children()
                g1 = Bz(z3.substitute(g, (it, a)))
                g2 = Bz(z3.substitute(g, (it, b)))
                o = []
                if g1 is not False:
                    o.append(Sm(s.c, s.b, rest + (c,) + ((g1,) if g1 is not True else ()), s.f))
                if g2 is not False:
                    o.append(Sm(s.c, s.b, rest + (Not(c),) + ((g2,) if g2 is not True else ()), s.f))
                return [x for x in o if all(y is not False for y in x.g)]
    # counting sums
    if s.b:
        fv = factors_fvs(s)
        for v in s.b:
            k = ZK(v)
            if k not in fv:
                r = count_binder(s, v)
                if r is not None:
                    return r
            else:
                r = poly_binder(s, v)
                if r is not None:
                    return r
    if ch:
        return [s]
    return None


def find_ite(g):
    """innermost integer ite subterm"""
    if not isz(g):
        return None
    for c in g.children():
        r = find_ite(c)
        if r is not None:
            return r
    if z3.is_app_of(g, z3.Z3_OP_ITE) and not isinstance(g, z3.BoolRef):
        return g
    return None


def _mentions_eq(x, v):
    for y in flat_and(x):
        if z3.is_eq(y) and ZK(v) in zvars(y):
            return True
        if z3.is_or(y) and any(_mentions_eq(w, v) for w in y.children()):
            return True
    return False


def split_divmod(s, v, a, c):
    d, k0 = linear(a)
    kv = ZK(v)
    if kv not in d:
        return None
    co = d[kv]
    for kk in d:
        if kk != kv and kv in zvars(kk.e):
            return None
    if z3.is_int_value(c):
        cc = c.as_long()
        if cc <= 1:
            return None
        if co % cc == 0:
            return None  # z3 simplification should have removed it; avoid looping
        if cc > 12:
            return None
        w = fresh_int("w")
        out = []
        for b in range(cc):
            rest = Sm(s.c, tuple(x for x in s.b if not x.eq(v)), s.g, s.f)
            for r in subst_sm(rest, [(v, cc * w + b)]):
                out.append(_simp_div(Sm(r.c, (w,) + r.b, r.g, r.f), w, cc))
        return out
    # symbolic divisor: only when a is v itself (plus multiples of c)
    if abs(co) != 1 or co != 1 or any(kk != kv for kk in d) or k0 != 0:
        return None
    lg = LG()
    if not lg.entails(c > 0, given=s.g):
        return None
    w, b = fresh_int("w"), fresh_int("b")
    rest = Sm(s.c, tuple(x for x in s.b if not x.eq(v)), s.g, s.f)
    newe = c * w + b
    rng = (z3.IntVal(0) <= b, b < c)

    def rew(e):
        if not isz(e):
            return e
        return z3.substitute(e, (v / c, w), (v % c, b), (tm.QDIV(v, c), w), (tm.QMOD(v, c), b))
    # rewrite v/c and v%c first, then v
    g2 = []
    for g in rest.g:
        lo = match_range(g, v)
        if lo is not None:
            kind, bound = lo
            if kind == "ge0":
                g2.append(w >= 0)
                continue
            if kind == "lt":
                m = div_exact(bound, c)
                if m is not None:
                    g2.append(w < m)
                    continue
        g2.append(rew(g))
    base = Sm(rest.c, rest.b, tuple(g2), rest.f)
    m_atoms = Term((base,)).subst([]) if False else Term((base,))
    mapped = map_ints(m_atoms, rew)
    res = mapped.subst([(v, newe)])
    return [Sm(x.c, (w, b) + x.b, x.g + rng, x.f) for x in res.s]


def match_range(g, v):
    """v >= 0 -> ('ge0',0);  v < B -> ('lt', B)"""
    k = g.decl().kind()
    if k == z3.Z3_OP_GE and g.arg(0).eq(v) and z3.is_int_value(g.arg(1)) and g.arg(1).as_long() == 0:
        return "ge0", 0
    if k == z3.Z3_OP_LE and g.arg(1).eq(v) and z3.is_int_value(g.arg(0)) and g.arg(0).as_long() == 0:
        return "ge0", 0
    if k == z3.Z3_OP_LT and g.arg(0).eq(v):
        return "lt", g.arg(1)
    if k == z3.Z3_OP_GT and g.arg(1).eq(v):
        return "lt", g.arg(0)
    if z3.is_not(g):
        h = g.arg(0)
        k = h.decl().kind()
        if k == z3.Z3_OP_LE and h.arg(1).eq(v):
            return "lt", h.arg(0)
        if k == z3.Z3_OP_GE and h.arg(0).eq(v):
            return "lt", h.arg(1)
    return None


def div_exact(e, c):
    """e / c if e is syntactically a multiple of c"""
    x = z3.simplify(e, som=True)
    q = z3.IntVal(0)
    for p in (x.children() if z3.is_add(x) else [x]):
        r = tm.mono_div(p, c)
        if r is None:
            return None
        q = q + r
    return z3.simplify(q)


def map_ints(t, fn):
    """apply fn to every integer expression of a term (indices, IntA, Fn int args), recursively"""
    def on_atom(a):
        if isinstance(a, El):
            return atom_term(El(a.head, [I(fn(i)) if isz(i) else i for i in a.idx], a.cj))
        if isinstance(a, IntA):
            return int_term(fn(a.e))
        if isinstance(a, Fn):
            return mk_fn(a.name, [map_ints(x, fn) if isinstance(x, Term) else (I(fn(x)) if tm.is_zint(x) else x) for x in a.args],
                         a._real, a.cj, a._pos)
        if isinstance(a, PowI):
            e = I(fn(a.e))
            if a.b == -1:
                return tm.neg_one_pow(e)
            if isinstance(a.b, int):
                return tm.int_powi(a.b, e)
            b = on_atom(a.b)
            if b is None:
                b = atom_term(a.b)
            return b.powi(e)
        if isinstance(a, Base):
            return map_ints(a.t, fn)
        if isinstance(a, ExpA):
            return tm.exp_term(map_ints(a.t, fn))
        return atom_term(a)
    acc = []
    for s in t.s:
        m = Term((Sm(s.c),))
        for a, q in s.f:
            m = m * (on_atom(a) ** q)
        g = []
        dead = False
        for x in s.g:
            y = Bz(fn(x))
            if y is True:
                continue
            if y is False:
                dead = True
                break
            g.append(y)
        if dead:
            continue
        acc.extend(Sm(x.c, s.b + x.b, tuple(g) + x.g, x.f) for x in m.s)
    return collect(acc)


def _simp_div(s, w, cc):
    """simplify (cc*w + e)/cc style leftovers via z3 simplification (done by I) and exact rewriting"""
    def rew(e):
        return simp_divmod(e)
    t = map_ints(Term((s,)), rew)
    if len(t.s) == 1:
        return t.s[0]
    if not t.s:
        return Sm(GQ(0), (), (), ())
    return s


_sd_cache = {}


def simp_divmod(e):
    """rewrite (c*x + y) / c -> x + y/c and (c*x+y) % c -> y % c for integer constants c"""
    if not isz(e) or e.num_args() == 0:
        return e
    k0 = ZK(e)
    r = _sd_cache.get(k0)
    if r is not None:
        return r
    ch = [simp_divmod(c) for c in e.children()]
    k = e.decl().kind()
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(ch[1]) and ch[1].as_long() > 0:
        c = ch[1].as_long()
        d, c0 = linear(ch[0])
        hi = {a: v // c for a, v in d.items() if v % c == 0}
        lo = {a: v for a, v in d.items() if v % c != 0}
        qc, rc = c0 // c, c0 % c
        if not lo:
            if k == z3.Z3_OP_IDIV:
                res = zi(from_linear(hi, qc))
            else:
                res = z3.IntVal(rc)
        else:
            y = zi(from_linear(lo, rc))
            if k == z3.Z3_OP_IDIV:
                res = zi(from_linear(hi, qc)) + y / c
            else:
                res = y % c
        r = z3.simplify(res)
    else:
        r = e.decl()(*ch) if any(not a.eq(b) for a, b in zip(ch, e.children())) else e
        if r is not e:
            r = z3.simplify(r)
    _sd_cache[k0] = r
    return r


def bounds_of(s, v):
    """range of v from guards: (lo list, hi list, others) with lo <= v < hi"""
    lo, hi, oth = [], [], []
    kv = ZK(v)
    for g in s.g:
        if kv not in zvars(g):
            continue
        r = lin_ineq(g)
        if r is None:
            oth.append(g)
            continue
        d, c = r   # d.v + c >= 0
        if kv not in d or abs(d[kv]) != 1 or any(kk != kv and kv in zvars(kk.e) for kk in d):
            oth.append(g)
            continue
        rest = {kk: vv for kk, vv in d.items() if kk != kv}
        if d[kv] == 1:      # v >= -(rest + c)
            lo.append((g, from_linear({kk: -vv for kk, vv in rest.items()}, -c)))
        else:               # v <= rest + c
            hi.append((g, from_linear(rest, c + 1)))
    return lo, hi, oth


def lin_ineq(g):
    """integer inequality as (d, c) meaning d + c >= 0"""
    neg = False
    if z3.is_not(g):
        g = g.arg(0)
        neg = True
    k = g.decl().kind()
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or not tm.is_zint(g.arg(0)):
        return None
    a, b = g.arg(0), g.arg(1)
    if k == z3.Z3_OP_LE:
        d, c = linear(b - a)
    elif k == z3.Z3_OP_LT:
        d, c = linear(b - a - 1)
    elif k == z3.Z3_OP_GE:
        d, c = linear(a - b)
    else:
        d, c = linear(a - b - 1)
    if neg:   # not (e >= 0)  ->  -e - 1 >= 0
        d = {kk: -vv for kk, vv in d.items()}
        c = -c - 1
    return d, c


def pick_bound(lst, s, v, upper):
    """choose the binding bound among several when the logic can order them; else None"""
    if len(lst) == 1:
        return lst[0][1]
    lg = LG()
    gs = [g for g in s.g if ZK(v) not in zvars(g)]
    for i, (_, e) in enumerate(lst):
        ok = True
        for j, (_, f) in enumerate(lst):
            if i == j:
                continue
            if not lg.entails(ile(e, f) if upper else ile(f, e), given=gs):
                ok = False
                break
        if ok:
            return e
    return None


def simple_range(s, v):
    lo, hi, oth = bounds_of(s, v)
    if not lo or not hi:
        return None
    l = pick_bound(lo, s, v, False)
    h = pick_bound(hi, s, v, True)
    if l is None or h is None:
        return None
    return l, h, oth


def count_binder(s, v):
    r = simple_range(s, v)
    if r is None:
        return None
    lo, hi, oth = r
    kv = ZK(v)
    keep = tuple(g for g in s.g if kv not in zvars(g))
    nb = tuple(x for x in s.b if not x.eq(v))
    ne = []
    for g in oth:
        if z3.is_not(g) and z3.is_eq(g.arg(0)):
            sol = solve_for(g.arg(0), v)
            if sol is None or sol[1] is not True:
                return None
            ne.append((g, sol[0]))
        else:
            return None
    if len(ne) > 1:
        return None
    base = Term((Sm(s.c, nb, keep, s.f),))
    cnt = int_term(tm.isub(hi, lo))
    res = (base * cnt).guard(ilt(lo, hi))
    if ne:
        e = ne[0][1]
        res = res - base.guard(And(ile(lo, e), ilt(e, hi)))
    return list(res.s)


def poly_binder(s, v):
    """SUM_v v^k (Faulhaber), SUM_v log v"""
    kv = ZK(v)
    dep = [(a, q) for a, q in s.f if kv in tm.atom_fvs(a)]
    if len(dep) != 1:
        return None
    a, q = dep[0]
    if isinstance(a, Fn) and a.name == "log" and q == 1:
        e = tm.term_to_int(a.args[0])
        if e is None or not isz(e):
            return None
        lf, c = linear(e)
        if set(lf) != {kv} or lf[kv] != 1:
            return None
        r = simple_range(s, v)
        if r is None or r[2] or not isinstance(r[0], int) or r[0] + c not in (1, 2):
            return None
        lo, hi, _ = r
        keep = tuple(g for g in s.g if kv not in zvars(g))
        nb = tuple(y for y in s.b if not y.eq(v))
        rest = Term((Sm(s.c, nb, keep, tuple(p for p in s.f if p[0] is not a)),))
        n = tm.iadd(tm.isub(hi, 1), c)
        # empty range gives 0; log(0!) = log(1!) = 0
        if LG().entails(ile(0, n), given=keep):
            return list((rest * mk_fn("logfact", [n])).s)
        return list((rest * mk_fn("logfact", [n])).guard(ile(1, n)).s)
    if isinstance(a, IntA) and q.denominator == 1 and q in (1, 2, 3):
        lf, c = linear(a.e)
        if kv not in lf or lf[kv] != 1 or any(kk != kv and kv in zvars(kk.e) for kk in lf):
            return None
        r = simple_range(s, v)
        if r is None or r[2]:
            return None
        lo, hi, _ = r
        keep = tuple(g for g in s.g if kv not in zvars(g))
        nb = tuple(y for y in s.b if not y.eq(v))
        rest = Term((Sm(s.c, nb, keep, tuple(p for p in s.f if p[0] is not a)),))
        off = from_linear({kk: vv for kk, vv in lf.items() if kk != kv}, c)
        A, B = int_term(tm.iadd(lo, off)), int_term(tm.iadd(hi, off))
        if not (zvars(tm.iadd(hi, off)) & {ZK(x) for x in s.b}):
            LG().poly_arg(tm.iadd(hi, off))

        def F(N):   # sum_{k<N} k^q
            if q == 1:
                return N * (N - 1) * Fraction(1, 2)
            if q == 2:
                return N * (N - 1) * (N * 2 - 1) * Fraction(1, 6)
            return (N * (N - 1) * Fraction(1, 2)) ** 2
        return list((rest * (F(B) - F(A))).guard(ilt(lo, hi)).s)
    return None


# ----------------------------------------------------------------------------------------------
# interning of atoms as symbols with integer leaves

_canon_cache = {}


def skeleton_leaves(a):
    """distinct maximal integer leaf expressions of a complex atom (non-constant)"""
    out = []
    seen = set()

    def add(e):
        if isz(e) and ZK(e) not in seen:
            seen.add(ZK(e))
            out.append(e)

    def walk_atom(x, bound):
        if isinstance(x, PowI):
            addb(x.e, bound)
            if not isinstance(x.b, int):
                walk_atom(x.b, bound)
            return
        for e in x.ints():
            addb(e, bound)
        for t in x.terms():
            walk(t, bound)

    def addb(e, bound):
        if not isz(e):
            return
        if bound and (zvars(e) & bound):
            # leaf depends on an inner binder: its free variables are the leaves
            for z in sorted(zvars(e) - bound, key=lambda z: str(z.e)):
                add(z.e)
            return
        add(e)

    def walk(t, bound):
        for s in t.s:
            b2 = bound | {ZK(v) for v in s.b}
            for g in s.g:
                for z in sorted(zvars(g) - b2, key=lambda z: str(z.e)):
                    add(z.e)
            for x, q in s.f:
                walk_atom(x, b2)
    walk_atom(a, frozenset())
    return out


_param = [z3.Int("leaf!%d" % i) for i in range(12)]


def replace_leaves(a, pairs):
    def fn(e):
        for x, p in pairs:
            if isz(e) and e.eq(x):
                return p
        # inside guards or binder-dependent leaves: plain variable substitution
        return z3.substitute(e, *[(x, p) for x, p in pairs]) if isz(e) else e
    t = map_ints(atom_term(a), fn)
    return t


def canon_repr(t):
    """string canonical under bound variable naming (bound names replaced by order of appearance) """
    def rs(s, env, depth):
        env = dict(env)
        for i, v in enumerate(s.b):
            env[ZK(v)] = z3.Int("B%d_%d" % (depth, i))

        def ze(e):
            if not isz(e):
                return str(e)
            if env:
                e = z3.substitute(e, *[(k.e, v) for k, v in env.items()])
            return z3.simplify(e, som=True).sexpr()
        fs = []
        for a, q in s.f:
            fs.append(ra(a, env, depth, ze) + "^" + str(q))
        gs = sorted(ze(g) for g in s.g)
        return "%r{%d}[%s](%s)" % (s.c, len(s.b), ";".join(gs), "*".join(sorted(fs)))

    def ra(a, env, depth, ze):
        if isinstance(a, El):
            return "%s#%d%s[%s]" % (a.head.name, id(a.head), "*" if a.cj else "", ",".join(ze(i) for i in a.idx))
        if isinstance(a, IntA):
            return "i<%s>" % ze(a.e)
        if isinstance(a, PowI):
            return "pw(%s,%s)" % (a.b if isinstance(a.b, int) else ra(a.b, env, depth, ze), ze(a.e))
        if isinstance(a, Prime):
            return "p%d" % a.p
        if isinstance(a, Fn):
            return "%s%s(%s)" % (a.name, "*" if a.cj else "", ",".join(
                rt(x, env, depth + 1) if isinstance(x, Term) else (ze(x) if isz(x) else str(x)) for x in a.args))
        if isinstance(a, Base):
            return "{%s}" % rt(a.t, env, depth + 1)
        if isinstance(a, ExpA):
            return "exp(%s)" % rt(a.t, env, depth + 1)
        raise Unsupp("repr")

    def rt(t, env, depth):
        return "+".join(sorted(rs(s, env, depth) for s in t.s)) or "0"
    return rt(t, {}, 0)


def intern(a):
    """-> (symbol string, [leaf orderings])"""
    k = a.key()
    r = _canon_cache.get(k)
    if r is not None:
        return r
    if isinstance(a, El):
        r = ("%s#%d%s" % (a.head.name, id(a.head), "*" if a.cj else ""), [tuple(a.idx)])
    elif isinstance(a, Prime):
        r = ("p%d" % a.p, [()])
    elif isinstance(a, IntA):
        r = ("int", [(a.e,)])
    elif isinstance(a, PowI) and isinstance(a.b, int):
        r = ("powc%d" % a.b, [(a.e,)])
    elif isinstance(a, Fn) and not a.terms():
        r = ("fn:%s%s:%s" % (a.name, "*" if a.cj else "", ",".join(str(x) for x in a.args if not (isz(x) or isinstance(x, int)))),
             [tuple(x for x in a.args if isz(x) or isinstance(x, int) and not isinstance(x, bool))])
    else:
        lv = skeleton_leaves(a)
        if not lv:
            r = ("sk:" + canon_repr(atom_term(a)), [()])
        else:
            n = len(lv)
            # invariant signature per leaf to cut permutations
            if n > 6:
                raise Unsupp("atom with %d integer leaves" % n)
            best, ords = None, []
            for perm in itertools.permutations(range(n)):
                pairs = [(lv[i], _param[perm[i]]) for i in range(n)]
                s = canon_repr(replace_leaves(a, pairs))
                if best is None or s < best:
                    best, ords = s, []
                if s == best:
                    o = [None] * n
                    for i in range(n):
                        o[perm[i]] = lv[i]
                    ords.append(tuple(o))
            r = ("sk%d:%s" % (n, best), ords)
    _canon_cache[k] = r
    if len(_canon_cache) > 50000:
        _canon_cache.clear()
    return r


def decompose(s):
    """Sm -> (coefpoly z3 Real or python Fraction, list of (symbol, orderings))"""
    syms = []
    poly = None
    for a, q in s.f:
        if isinstance(a, IntA) and q.denominator == 1 and q > 0:
            p = zi(a.e)
            for _ in range(int(q)):
                poly = p if poly is None else poly * p
            continue
        if isinstance(a, PowI) and a.b == -1 and q.denominator == 1:
            if q % 2:
                p = z3.If(a.e % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
                poly = p if poly is None else poly * p
            continue
        sy, ords = intern(a)
        if q.denominator == 1 and q > 0 and not isinstance(a, Prime) and q <= 6:
            for _ in range(int(q)):
                syms.append((sy, ords))
        else:
            syms.append((sy + "^" + str(q), ords))
    syms.sort(key=lambda x: x[0])
    return poly, syms


class Residual:
    def __init__(self, sms, model=None, why=""):
        self.sms, self.model, self.why = sms, model, why

    def __str__(self):
        r = self.why + "\n" if self.why else ""
        r += "residual: " + repr(Term(self.sms[:8]))[:3000]
        return r


def prove_zero(t, rules=(), budget=None):
    """None if t == 0 is proven, else Residual"""
    t = T(t)
    if not t.s:
        return None
    sms = normalise(t, rules)
    lg = LG()
    sms = [s for s in sms if not (s.g and lg.unsat(s.g))]
    if not sms:
        return None
    groups = {}
    for s in sms:
        poly, syms = decompose(s)
        key = tuple(x[0] for x in syms)
        groups.setdefault(key, []).append((s, poly, syms))
    bad = []
    model = None
    why = ""
    for key, items in groups.items():
        r = check_group(items)
        if r is not True:
            bad.extend(x[0] for x in items)
            model = model or r
    if not bad:
        return None
    # shift summation variables to a common origin and retry
    t1 = shift_binders(bad)
    if t1 is not None:
        return prove_zero(t1, rules, budget)
    # peel first and last summands off until the ranges agree, and retry
    t1 = align_ranges(bad)
    if t1 is not None:
        return prove_zero(t1, rules, budget)
    # clear denominators and retry
    t2 = clear_denoms(Term(bad))
    if t2 is not None:
        r = prove_zero(t2, rules, budget)
        if r is None:
            return None
    depth = 5 if budget is None else budget
    if depth > 0 and prove_cases(bad, rules, depth):
        return None
    return Residual(bad, model if isinstance(model, z3.ModelRef) else None, why)


def case_condition(sms):
    """an undecided condition on free variables that the summands depend on: an equality between indices that guards
    some of them, or the condition of an if-then-else; None if there is none"""
    lg = LG()
    bound = set().union(*[{ZK(v) for v in s.b} for s in sms])
    ites = []
    for s in sms:
        for g in s.g:
            c = g.arg(0) if z3.is_not(g) else g
            if zvars(c) & bound:
                continue
            if z3.is_eq(c) and c.arg(0).sort() == z3.IntSort() and any(
                    z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in c.children()) \
                    and not lg.entails(c) and not lg.unsat([c]):
                return c
            i = tm.first_ite(c)
            if i is not None:
                ites.append(i)
    for s in sms:
        for a, q in s.f:
            for e in atom_exprs(a):
                i = tm.first_ite(e)
                if i is not None and not zvars(i) & bound:
                    ites.append(i)
    for i in ites[:6]:
        if not lg.entails(i) and not lg.entails(Not(i)):
            return i
    return None


def atom_exprs(a):
    out = []
    map_ints(tm.atom_term(a), lambda e: out.append(e) or e)
    return out


def prove_cases(sms, rules, depth):
    """the sum of sms is zero in both cases of an undecided condition"""
    c = case_condition(sms)
    if c is None:
        return False
    lg = LG()
    t = Term(tuple(sms))
    for v in (c, Not(c)):
        lg.push()
        try:
            lg.assume(v)
            if not lg.feasible():
                continue
            t1 = t
            if v is c and z3.is_eq(c):
                for a, b in (c.children(), c.children()[::-1]):
                    if z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED and ZK(a) not in zvars(b):
                        t1 = t1.subst([(a, b)])
                        break
            t1 = map_ints(t1, lambda e: tm.resolve_ites(e))
            if prove_zero(t1, rules, depth - 1) is not None:
                return False
        finally:
            lg.pop()
    return True


def shift_binders(sms):
    """substitute v -> v - c where v + c is the least-shifted occurrence of the binder v as a tensor index;
    None if nothing changes"""
    out, changed = [], False
    for s in sms:
        pairs, ren = [], []
        for v in s.b:
            least = None
            for a, q in s.f:
                if not isinstance(a, El):
                    continue
                for e in a.idx:
                    if isz(e) and ZK(v) in zvars(e):
                        c = z3.simplify(zi(e) - v)
                        if z3.is_int_value(c):
                            c = c.as_long()
                            least = c if least is None or c < least else least
            if least:
                w = fresh_int("s")
                pairs.append((v, zi(w) - least))
                ren.append((v, w))
        if not pairs:
            out.append(s)
            continue
        changed = True
        d = {ZK(v): w for v, w in ren}
        b = tuple(d.get(ZK(v), v) for v in s.b)
        for y in tm.subst_sm(Sm(s.c, (), s.g, s.f), pairs):
            out.append(Sm(y.c, b + y.b, y.g, y.f))
    return Term(tuple(out)) if changed else None


def align_ranges(sms):
    """split off boundary summands so that ranges differing by constants become equal; None if they are already"""
    los, his = set(), {}

    def rng(s, v):
        r = simple_range(s, v)
        if r is None:
            return None
        d, c = tm.linear(zi(r[1]))
        dl, cl = tm.linear(zi(r[0]))
        return (cl if not dl else None), (tuple(sorted((str(k), x) for k, x in d.items())), c), r
    for s in sms:
        for v in s.b:
            r = rng(s, v)
            if r is None:
                continue
            if r[0] is not None:
                los.add(r[0])
            his.setdefault(r[1][0], set()).add(r[1][1])
    lo_c = max(los) if los and 0 < max(los) - min(los) <= 3 else None
    hi_c = {k: min(x) for k, x in his.items() if 0 < max(x) - min(x) <= 3 and k}
    if lo_c is None and not hi_c:
        return None
    out, todo = [], list(sms)
    n = 0
    while todo:
        s = todo.pop()
        n += 1
        if n > 600:
            return None
        for v in s.b:
            r = rng(s, v)
            if r is None:
                continue
            rest = tuple(x for x in s.b if not x.eq(v))
            if lo_c is not None and r[0] is not None and r[0] < lo_c:
                at, more = r[2][0], ile(tm.iadd(r[2][0], 1), v)
            elif r[1][0] in hi_c and r[1][1] > hi_c[r[1][0]]:
                at = tm.isub(r[2][1], 1)
                more = ilt(v, at)
            else:
                continue
            y = Sm(s.c, (), s.g, s.f)
            for z in tm.subst_sm(y, [(v, zi(at))]):
                todo.append(Sm(z.c, rest + z.b, z.g, z.f))
            todo.append(Sm(s.c, s.b, s.g + (more,), s.f))
            break
        else:
            out.append(s)
    return Term(tuple(out))


def clear_denoms(t):
    """multiply by the (nonzero) denominators: every power of such a base ends up in [0, 1) times a polynomial"""
    den = {}
    for s in t.s:
        bset = {ZK(v) for v in s.b}
        for a, q in s.f:
            if isinstance(a, (Base, IntA)) and q < 0:
                if tm.atom_fvs(a) & bset:
                    continue
                k = a.key()
                m = math.ceil(-q)
                if k not in den or den[k][1] < m:
                    den[k] = (a, m)
    if not den:
        return None
    out = tm.ZERO
    for s in t.s:
        f = []
        mult = dict(den)
        extra = tm.T(1)
        for a, q in s.f:
            k = a.key() if isinstance(a, (Base, IntA)) else None
            if k in mult:
                q = q + mult.pop(k)[1]
                w = math.floor(q)
                if w > 0:
                    extra = extra * ((a.t if isinstance(a, Base) else atom_term(a)) ** w)
                q = q - w
            if q != 0:
                f.append((a, q))
        for a, m in mult.values():
            extra = extra * ((a.t if isinstance(a, Base) else atom_term(a)) ** m)
        out = out + Term((Sm(s.c, s.b, s.g, tuple(f)),)) * extra
    return out


def solve_binders(binders, eqs, guards):
    """eliminate binders with equations (leaf == slot). returns (guards, left binders, subst fn pairs)"""
    eqs = list(eqs)
    guards = list(guards)
    left = list(binders)
    pairs = []
    progress = True
    while left and progress:
        progress = False
        for v in list(left):
            hit = None
            for i, g in enumerate(eqs):
                if isz(g) and ZK(v) in zvars(g) and z3.is_eq(g):
                    sol = solve_for(g, v)
                    if sol is not None and sol[0] is not None:
                        hit = (i, sol)
                        break
            if hit is None:
                for g in guards:
                    if isz(g) and ZK(v) in zvars(g) and z3.is_eq(g):
                        sol = solve_for(g, v)
                        if sol is not None and sol[0] is not None:
                            hit = (None, sol)
                            eqs.append(g)
                            hit = (len(eqs) - 1, sol)
                            break
            if hit is None:
                continue
            i, (e, side) = hit
            eqs.pop(i)
            p = [(v, zi(e))]
            eqs = [zsubst(g, p) if isz(g) else g for g in eqs]
            guards = [zsubst(g, p) if isz(g) else g for g in guards]
            if side is not True:
                guards.append(side)
            pairs = [(a, zi(zsubst(b, p))) for a, b in pairs] + p
            left = [x for x in left if not x.eq(v)]
            progress = True
    return And(*guards, *eqs), left, pairs


def arrangements(syms, full):
    """yield leaf lists (concatenated) for the arrangement choices of symbols; syms sorted by name"""
    groups = []
    for k, g in itertools.groupby(syms, key=lambda x: x[0]):
        groups.append(list(g))
    if not full:
        out = []
        for g in groups:
            for sy, ords in sorted(g, key=lambda x: tuple(str(e) for e in x[1][0])):
                out.extend(ords[0])
        yield out
        return
    per_group = []
    for g in groups:
        opts = []
        for perm in itertools.permutations(g):
            for ch in itertools.product(*[x[1] for x in perm]):
                opts.append([e for o in ch for e in o])
        per_group.append(opts)
    for combo in itertools.product(*per_group):
        yield [e for o in combo for e in o]


def n_arrangements(syms):
    n = 1
    for k, g in itertools.groupby(syms, key=lambda x: x[0]):
        g = list(g)
        n *= math.factorial(len(g))
        for x in g:
            n *= len(x[1])
    return n


_slots = [z3.Int("slot!%d" % i) for i in range(200)]


def check_group(items):
    """True if the group sums to zero, else model or None"""
    lg = LG()
    # pure guards, no symbols at all or symbols without leaves handled by the same path
    nl = sum(len(o[0]) for _, o in items[0][2])
    na = n_arrangements(items[0][2])
    r = None
    canon_done = False
    if na > 24 and len(items) > 1:
        canon_done = True
        sms = canon_collect([s for s, _, _ in items])
        if not sms:
            return True
        if len(sms) < len(items):
            items = [(s,) + decompose(s) for s in sms]
    for full in ([False, True] if na > 1 else [False]):
        if full and na * len(items) > 6000:
            break
        cond = []   # (GQ coef, poly, guard)
        ok = True
        for s, poly, syms in items:
            if sum(len(o[0]) for _, o in syms) != nl:
                return None
            arrs = list(arrangements(syms, full))
            for leaves in arrs:
                eqs = []
                dead = False
                for x, e in zip(_slots, leaves):
                    q = Bz(x == zi(e))
                    if q is False:
                        dead = True
                    if q is True:
                        continue
                    eqs.append(q)
                if dead:
                    continue
                G, left, pairs = solve_binders(s.b, eqs, s.g)
                if G is False:
                    continue
                c = s.c * GQ(Fraction(1, len(arrs)))
                p = zsubst(poly, pairs) if poly is not None and isz(poly) and pairs else poly
                if left:
                    cond.append((c, p, G, tuple(left)))
                else:
                    cond.append((c, p, G, ()))
        res = check_coeffs(cond)
        if res is True:
            return True
        r = res
    if not canon_done and len(items) > 1 and any(s.b for s, _, _ in items):
        if not canon_collect([s for s, _, _ in items]):
            return True
    # fallback: pointwise comparison with bound variables identified
    if all(s.b for s, _, _ in items) and len({len(s.b) for s, _, _ in items}) == 1:
        if pointwise(items):
            return True
    return r


def check_coeffs(cond):
    lg = LG()
    # summands with unsolved binders: try to count them, else identify bound variables
    solved, unsolved = [], []
    for c, p, G, left in cond:
        if left:
            unsolved.append((c, p, G, left))
        else:
            solved.append((c, p, G))
    if unsolved:
        # treat as Terms in counting form
        extra = []
        for c, p, G, left in unsolved:
            f = int_term(p) if p is not None else T(1)
            t = Term([Sm(x.c * c, tuple(left) + x.b, tuple(flat_and(G)) + x.g, x.f) for x in f.s])
            sm = normalise(t)
            for x in sm:
                if x.b:
                    extra.append(x)
                    continue
                poly = None
                good = True
                for a, q in x.f:
                    if isinstance(a, IntA) and q.denominator == 1 and q > 0:
                        for _ in range(int(q)):
                            poly = a.e if poly is None else poly * a.e
                    elif isinstance(a, PowI) and a.b == -1:
                        pp = z3.If(a.e % 2 == 0, z3.IntVal(1), z3.IntVal(-1))
                        poly = pp if poly is None else poly * pp
                    else:
                        good = False
                if not good:
                    return None
                solved.append((x.c, poly, And(*x.g)))
        if extra:
            # identify bound variables by order
            n = {len(x.b) for x in extra}
            if len(n) != 1:
                return None
            nb = n.pop()
            com = [fresh_int("q") for _ in range(nb)]
            if nb > 4:
                return None
            base = extra[0]
            conds = []
            for x in extra:
                best = None
                for perm in itertools.permutations(range(nb)):
                    pr = [(x.b[i], com[perm[i]]) for i in range(nb)]
                    y = subst_sm(Sm(x.c, (), x.g, x.f), pr)
                    sig = sorted(str(g) for z in y for g in z.g)
                    if best is None or sig < best[0]:
                        best = (sig, y)
                conds.extend(best[1])
            for x in conds:
                poly = None
                for a, q in x.f:
                    if isinstance(a, IntA) and q.denominator == 1 and q > 0:
                        for _ in range(int(q)):
                            poly = a.e if poly is None else poly * a.e
                    else:
                        return None
                solved.append((x.c, poly, And(*x.g)))
    return coeff_zero(solved)


def coeff_zero(solved):
    lg = LG()
    # merge syntactically equal guards
    d = {}
    order = []
    for c, p, G in solved:
        if G is False:
            continue
        k = (ZK(zb(G)), ZK(p) if isz(p) else p)
        if k in d:
            d[k] = (d[k][0] + c, p, G)
        else:
            d[k] = (c, p, G)
            order.append(k)
    lst = [d[k] for k in order if not d[k][0].zero()]
    if not lst:
        return True
    # drop infeasible
    lst = [x for x in lst if not lg.unsat([x[2]])]
    if not lst:
        return True
    # pairwise cancellation
    changed = True
    while changed:
        changed = False
        for i in range(len(lst)):
            for j in range(i + 1, len(lst)):
                ci, pi, gi = lst[i]
                cj, pj, gj = lst[j]
                if not (ci + cj).zero():
                    continue
                if (pi is None) != (pj is None):
                    continue
                if lg.entails(Bz(zb(gi) == zb(gj))) and (pi is None or lg.entails(Or(Not(gi), ieq(pi, pj)))):
                    lst = [x for k, x in enumerate(lst) if k not in (i, j)]
                    changed = True
                    break
            if changed:
                break
    if not lst:
        return True
    out = True
    for part in ("re", "im"):
        den = 1
        tot = z3.IntVal(0)
        cs = [getattr(c, part) for c, _, _ in lst]
        for q in cs:
            den = den * q.denominator // math.gcd(den, q.denominator)
        any_ = False
        for q, (c, p, G) in zip(cs, lst):
            if q == 0:
                continue
            any_ = True
            v = z3.IntVal(int(q * den)) * (p if p is not None else z3.IntVal(1))
            tot = tot + z3.If(zb(G), v, z3.IntVal(0))
        if not any_:
            continue
        if not lg.entails(tot == 0):
            return lg.model([tot != 0])
    return out


def prune_guards(s):
    """drop guards entailed by the context and the remaining guards"""
    lg = LG()
    gs = sorted(s.g, key=lambda g: (-len(str(g)), str(g)))
    keep = list(gs)
    for g in gs:
        rest = [x for x in keep if x is not g]
        if lg.entails(g, given=rest):
            keep = rest
    return Sm(s.c, s.b, tuple(keep), s.f)


def canon_guard(g):
    r = lin_ineq(g)
    if r is not None:
        d, c = r
        return zi(from_linear(d, c)) >= 0
    return g


def canon_binders(s):
    """(key, coefficient): key identifies the summand up to naming of its bound variables"""
    gs = tuple(canon_guard(g) for g in s.g)
    n = len(s.b)
    body = lambda order: canon_repr(Term((Sm(GQ(1), tuple(order), gs, s.f),)))
    if n == 0:
        return body(())
    color = [0] * n
    parts = [Term((Sm(GQ(1), (), (g,), ()),)) for g in gs] + [Term((Sm(GQ(1), (), (), ((a, q),)),)) for a, q in s.f]
    pv = []
    for p in parts:
        fv = set()
        for x in p.s:
            fv |= sm_fvs(x)
        pv.append(fv)
    rounds = 0
    while True:
        prof = []
        for i, v in enumerate(s.b):
            k = ZK(v)
            l = []
            for p, fv in zip(parts, pv):
                if k not in fv:
                    continue
                pr = [(w, z3.Int("@self" if j == i else "@c%d" % color[j])) for j, w in enumerate(s.b) if ZK(w) in fv]
                l.append(canon_repr(p.subst(pr)))
            prof.append((color[i], tuple(sorted(l))))
        ranks = {x: r for r, x in enumerate(sorted(set(prof)))}
        new = [ranks[x] for x in prof]
        rounds += 1
        if len(set(new)) == len(set(color)) and rounds > 1 or rounds > 4:
            color = new
            break
        color = new
        if len(set(color)) == n:
            break
    classes = {}
    for v, c in zip(s.b, color):
        classes.setdefault(c, []).append(v)
    tot = 1
    for c in classes.values():
        tot *= math.factorial(len(c))
    if tot > 720:
        return None
    best = None
    for combo in itertools.product(*[itertools.permutations(classes[c]) for c in sorted(classes)]):
        k = body([v for grp in combo for v in grp])
        if best is None or k < best:
            best = k
    return best


def canon_collect(sms):
    d = {}
    for s in sms:
        s = prune_guards(s)
        k = canon_binders(s)
        if k is None:
            k = "#%d" % len(d)
        if k in d:
            d[k] = Sm(d[k].c + s.c, d[k].b, d[k].g, d[k].f)
        else:
            d[k] = s
    return [s for s in d.values() if not s.c.zero()]


def pointwise(items):
    nb = len(items[0][0].b)
    com = [fresh_int("q") for _ in range(nb)]
    if nb > 5:
        return False
    t = ZERO
    ref = None
    acc = []
    for s, poly, syms in items:
        best = None
        for perm in itertools.permutations(range(nb)):
            pr = [(s.b[i], com[perm[i]]) for i in range(nb)]
            y = subst_sm(Sm(s.c, (), s.g, s.f), pr)
            sig = sorted(repr(a) for z in y for a, q in z.f)
            if best is None or sig < best[0]:
                best = (sig, y)
        acc.extend(best[1])
    tt = collect(acc)
    lg = LG()
    if not tt.s:
        return True
    groups = {}
    for s in tt.s:
        poly, syms = decompose(s)
        groups.setdefault(tuple(x[0] for x in syms), []).append((s, poly, syms))
    for key, it in groups.items():
        if check_group(it) is not True:
            return False
    return True
