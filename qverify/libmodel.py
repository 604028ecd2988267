"""Models (assumed contracts) of the libraries other than NumPy that the verified code imports."""
import math
import types
import z3
from fractions import Fraction

from . import engine as en
from . import terms as tm
from . import npmodel as npm
from . import loader as ld
from .engine import SInt, SBool, Num, SymStr, SList, mkint, mkbool, ival, num, isnumlike
from .terms import T, ZERO, Term, El, Fn, Head, atom_term, mk_fn, Unsupp, term_to_int, And, ieq, ile, ilt, I, zi


def mod(name, **d):
    m = types.ModuleType(name)
    m.__dict__.update(d)

    def ga(n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupp("%s.%s has no model" % (name, n))
    m.__dict__["__getattr__"] = ga
    return m


# ---------------------------------------------------------------- numba


def njit(*a, **k):
    if a and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


numba = mod("numba", njit=njit, jit=njit, prange=ld.b_range, vectorize=njit, guvectorize=njit, stencil=njit,
            generated_jit=njit, int64=None, float64=None, complex128=None)

# ---------------------------------------------------------------- math


def scalar(x):
    if isinstance(x, npm.SArr):
        return num(x._qv_scalar())
    return num(x)


def m_floor(x):
    if isinstance(x, (int, SInt)):
        return x
    if isinstance(x, float):
        return math.floor(x)
    return en.floor_num(scalar(x), "i")


def m_ceil(x):
    r = m_floor(-x)
    return -r


def m_sqrt(x):
    x = scalar(x)
    if x.k == "c":
        raise TypeError("must be real number, not complex")
    if not x.t.is_const() or x.t.s:
        if x.t.is_const() and x.t.const_val().re < 0:
            raise ValueError("math domain error")
    return npm.s_sqrt(x)


def intfn(name):
    """special function of an integer-valued argument"""
    def f(x, *a, **k):
        if isinstance(x, (npm.SArr, list)):
            return npm.unary(x, f, name)
        n = num(x)
        e = term_to_int(n.t)
        if e is None:
            raise Unsupp("%s of a non-integer" % name)
        return Num(mk_fn(name, [e]), "f")
    return f


factorial = intfn("factorial")


def m_factorial(x):
    v = ival(x)
    if v is None:
        e = term_to_int(num(x).t)
        if e is None:
            raise Unsupp("factorial of a non-integer")
        v = e
    if isinstance(v, int):
        return math.factorial(v)
    return Num(mk_fn("factorial", [v]), "i")


def lgamma(x):
    if isinstance(x, (npm.SArr, list)):
        return npm.unary(x, lgamma, "lgamma")
    t = num(x).t
    if not t.s or (len(t.s) == 1 and not t.s[0].f and not t.s[0].g and not t.s[0].b):
        # lgamma(k) = log((k-1)!)
        e = term_to_int(t)
        if e is not None:
            if e <= 0:
                raise ValueError("math domain error")
            return Num(mk_fn("log", [T(math.factorial(e - 1))]), "f")
    return Num(mk_fn("lgamma", [t]), "f")


def gamma(x):
    return npm.s_exp(lgamma(x)) if not isinstance(x, (npm.SArr, list)) else npm.unary(x, gamma, "gamma")


def m_exp(x):
    return npm.s_exp(scalar(x))


def m_log(x, b=None):
    r = npm.s_log(scalar(x))
    return r if b is None else r / npm.s_log(scalar(b))


def m_comb(n, k):
    return m_factorial(n) / (m_factorial(k) * m_factorial(n - k))


def m_pow(a, b):
    r = num(a) ** num(b)
    return Num(r.t, "f")


math_m = mod("math", floor=m_floor, ceil=m_ceil, sqrt=m_sqrt, exp=m_exp, log=m_log, lgamma=lgamma, gamma=gamma,
             factorial=m_factorial, pi=Num(npm.PI_T, "f"), inf=math.inf, nan=math.nan, e=Num(tm.exp_term(T(1)), "f"),
             fabs=lambda x: abs(num(x)), comb=m_comb, pow=m_pow, sin=lambda x: npm.s_fn("sin")(num(x)),
             cos=lambda x: npm.s_fn("cos")(num(x)), isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0:
             abs(num(a) - num(b)) <= ld.b_max(num(rel_tol) * ld.b_max(abs(num(a)), abs(num(b))), num(abs_tol)),
             trunc=lambda x: ld.b_int(x), log2=lambda x: m_log(x, 2), prod=lambda xs: npm.np_prod(xs),
             isqrt=lambda x: (_ for _ in ()).throw(Unsupp("isqrt")))

# ---------------------------------------------------------------- scipy.special


def laguerre_t(n, k, x):
    """associated Laguerre polynomial L_n^k(x)"""
    if isinstance(n, int) and n == 0:
        return T(1)
    return mk_fn("laguerre", [n, k, T(x)])


def toint(x):
    v = ival(x)
    if v is not None:
        return v
    e = term_to_int(num(x).t)
    if e is None:
        raise Unsupp("integer expected")
    return e


def assoc_laguerre(x, n, k=0.0):
    n, k = toint(n), toint(k)
    return npm.unary(x, lambda y: Num(laguerre_t(n, k, num(y).t), num(y).k if num(y).k != "i" else "f"), "laguerre", "f")


def hermite_t(n, x):
    if isinstance(n, int) and n == 0:
        return T(1)
    return mk_fn("hermite", [n, T(x)])


def eval_hermite(n, x):
    n = toint(n)
    return npm.unary(x, lambda y: Num(hermite_t(n, num(y).t), "f"), "hermite", "f")


def hermite(n, monic=False):
    if monic:
        raise Unsupp("monic hermite")
    return lambda x: eval_hermite(n, x)


def sp_factorial(n, exact=False):
    r = factorial(n)
    if exact and isinstance(r, Num):
        return Num(r.t, "i")
    return r


special = mod("scipy.special", factorial=sp_factorial, assoc_laguerre=assoc_laguerre, hermite=hermite,
              eval_hermite=eval_hermite, eval_genlaguerre=lambda n, k, x: assoc_laguerre(x, n, k),
              genlaguerre=lambda n, k: (lambda x: assoc_laguerre(x, n, k)), gammaln=lgamma, gamma=gamma, loggamma=lgamma,
              binom=m_comb, comb=lambda n, k, exact=False: m_comb(n, k))
sparse = mod("scipy.sparse")
sparse_la = mod("scipy.sparse.linalg")
sparse.__dict__["linalg"] = sparse_la
splinalg = mod("scipy.linalg", eigh=lambda A, **k: npm.eigh(A) if not k else (_ for _ in ()).throw(Unsupp("scipy eigh options")))
scipy = mod("scipy", special=special, sparse=sparse, linalg=splinalg)

# ---------------------------------------------------------------- sympy

RHEADS = {}


def sy_symbol(name, **assume):
    if name not in RHEADS:
        RHEADS[name] = Head("sym_" + name, 0, real=True)
    return Num(atom_term(El(RHEADS[name])), "f")


INTVAR = Head("intvar", 0, real=True)


def integrate_t(t, head, lo="0", hi="oo"):
    """linear functional: integral of t over head from lo to hi; constants pulled out"""
    out = ZERO
    for s in t.s:
        if s.b:
            raise Unsupp("integral of a sum")
        inner, outer = [], []
        for a, q in s.f:
            (inner if head in tm.atom_heads(a) else outer).append((a, q))
        body = T(1)
        for a, q in inner:
            body = body * tm.raw_mono(a, q)
        # the integration variable is bound: one fixed name
        body = body.map_atoms(lambda a: atom_term(El(INTVAR)) if isinstance(a, El) and a.head is head else None)
        f = mk_fn("integral:%s:%s" % (lo, hi), [body])
        r = f * Term((tm.Sm(s.c, (), s.g, tuple(outer)),))
        out = out + r
    return out


def sy_integrate(e, lim):
    if not isinstance(lim, tuple) or len(lim) != 3:
        raise Unsupp("indefinite integral")
    v, lo, hi = lim
    h = num(v).t.s[0].f[0][0].head

    def nm(x):
        if x is OO:
            return "oo"
        if isinstance(x, NegOO):
            return "-oo"
        t = num(x).t
        if t.is_const():
            return str(t.const_val().re)
        raise Unsupp("symbolic integration limit")
    return Num(integrate_t(num(e).t, h, nm(lo), nm(hi)), "f")


class NegOO:
    pass


class _OO:
    def __neg__(self):
        return NegOO()


OO = _OO()

sympy = mod("sympy", Symbol=sy_symbol, symbols=sy_symbol, Float=lambda x, *a: Num(num(x).t, "f"), oo=OO,
            integrate=sy_integrate, assoc_laguerre=lambda n, k, x: Num(laguerre_t(toint(n), toint(k), num(x).t), "f"),
            exp=lambda x: npm.s_exp(num(x)), sqrt=lambda x: npm.s_sqrt(num(x)), pi=Num(npm.PI_T, "f"),
            Integer=lambda x: x, Rational=lambda a, b=1: Num(num(a).t / num(b).t, "f"), N=lambda x, *a: x,
            conjugate=lambda x: x.conjugate(), Abs=lambda x: abs(x))

# ---------------------------------------------------------------- pandas


class SymRow:
    def __init__(self, vals):
        self.vals = vals

    @property
    def values(self):
        return npm.asarray(SList(self.vals))

    def __iter__(self):
        return iter(self.vals)

    def __getitem__(self, k):
        return self.vals[k]

    def to_numpy(self):
        return self.values


class SymDF:
    """a data frame with integer columns n, m and real column E given as functions of the row"""
    _qv_opaque = True

    def __init__(self, rows, cols, strict=True):
        self.rows, self.cols, self.strict = rows, cols, strict

    @property
    def loc(self):
        return self

    iloc = loc
    at = loc

    def cell(self, p, c):
        if c not in self.cols:
            raise KeyError(c)
        v = ival(p)
        if v is None:
            v = en.as_index(p)
        inside = And(ile(0, v), ilt(v, self.rows))
        if not self.strict:
            if not en.ENG.logic.entails(inside):
                raise Unsupp("data frame row beyond those its contract guarantees")
        elif not en.ENG.decide(inside):
            raise KeyError("row label out of range")
        return self.cols[c](v)

    def __getitem__(self, key):
        if isinstance(key, tuple) and len(key) == 2:
            p, c = key
            if isinstance(c, (list, tuple)):
                return SymRow([self.cell(p, x) for x in c])
            return self.cell(p, c)
        if isinstance(key, str):
            return SymCol(self, key)
        raise Unsupp("data frame access")

    def _qv_len(self):
        return mkint(self.rows)

    def __deepcopy__(self, memo):
        return self


class SymCol:
    def __init__(self, df, c):
        self.df, self.c = df, c

    def __getitem__(self, p):
        return self.df.cell(p, self.c)

    @property
    def loc(self):
        return self

    iloc = at = loc

    @property
    def values(self):
        f = self.df.cols[self.c]
        k = num(f(tm.fresh_int("k"))).k
        return npm.SArr.fresh((self.df.rows,), k, lambda i: num(f(i[0])).t)


pandas = mod("pandas")

# ---------------------------------------------------------------- os, sys, time, warnings


class Environ:
    def get(self, k, d=None):
        v = en.ENG.env.get(k)
        return v if v is not None else d

    def __getitem__(self, k):
        v = en.ENG.env.get(k)
        if v is None:
            raise KeyError(k)
        return v

    def __contains__(self, k):
        return en.ENG.env.get(k) is not None


def p_join(*ps):
    out = []
    for i, p in enumerate(ps):
        if i and not (isinstance(out[-1], str) and out[-1].endswith("/")):
            out.append("/")
        if isinstance(p, str) and p.startswith("/"):
            out = []
        out.append(p)
    if all(isinstance(p, str) for p in out):
        return "".join(out)
    return SymStr(out)


def p_exists(p):
    en.ENG.events.append(("exists", p))
    return npm.fs_find(p) is not None


def p_basename(p):
    if isinstance(p, str):
        return p.rpartition("/")[2]
    raise Unsupp("basename of a symbolic path")


ospath = mod("os.path", join=p_join, exists=p_exists, isfile=p_exists, basename=p_basename,
             abspath=lambda p: p, expanduser=lambda p: p)
os_m = mod("os", environ=Environ(), path=ospath, makedirs=lambda *a, **k: en.ENG.events.append(("makedirs", a[0])),
           getenv=lambda k, d=None: Environ().get(k, d), getcwd=lambda: "/qv-cwd", sep="/",
           replace=lambda a, b: npm.fs_rename(a, b), rename=lambda a, b: npm.fs_rename(a, b))
sys_m = mod("sys", path=["/qv-storage"], maxsize=2 ** 63 - 1, version_info=(3, 12), modules={})
_tick = [0]


def t_time():
    _tick[0] += 1
    return Num(atom_term(El(Head("time!%d" % _tick[0], 0, real=True))), "f")


time_m = mod("time", time=t_time, perf_counter=t_time, monotonic=t_time)
warnings_m = mod("warnings", warn=lambda *a, **k: en.ENG.events.append(("warn", a[0])),
                 simplefilter=lambda *a, **k: None, filterwarnings=lambda *a, **k: None)


def it_product(*its, repeat=1):
    its = list(its) * repeat
    ns = [en.sym_len(x) for x in its]
    if all(n is None or isinstance(n, int) for n in ns):
        import itertools
        return itertools.product(*[list(en.sym_iter(x)) for x in its])
    raise Unsupp("itertools.product over symbolic ranges")


def _it(name):
    import itertools
    f = getattr(itertools, name)
    return lambda *a, **k: f(*[list(en.sym_iter(x)) if hasattr(x, "__iter__") else x for x in a], **k)


itertools_m = mod("itertools", product=it_product, chain=_it("chain"), combinations=_it("combinations"),
                  permutations=_it("permutations"), repeat=lambda x, n: [x] * n, count=__import__("itertools").count,
                  combinations_with_replacement=_it("combinations_with_replacement"), islice=_it("islice"))

# ---------------------------------------------------------------- pyscf


IGNORED_MOL = ("verbose", "symmetry", "output", "max_memory", "dump_input", "parse_arg", "incore_anyway")


class MolData:
    """what PySCF returns for one (atom, basis, unit, charge, spin, cart, ...): sizes and uninterpreted real tensors"""

    def __init__(self, i):
        self.i, self.heads = i, {}
        self.nao, self.nelec, self.natm = (z3.Int("%s_%d" % (a, i)) for a in ("nao", "nelec", "natm"))
        en.ENG.logic.assume(And(ile(1, self.nao), ile(0, self.nelec), ile(1, self.natm)))

    def head(self, name, rank, **k):
        if name not in self.heads:
            self.heads[name] = Head("%s_%d" % (name, self.i), rank, real=True, **k)
        return self.heads[name]

    def arr(self, name, shape, kind="f", **k):
        h = self.head(name, len(shape), **k)
        return npm.SArr.fresh(shape, kind, lambda i: atom_term(El(h, i)))


def mol_data(d):
    key = repr(sorted((k, repr(v)) for k, v in d.items() if k not in IGNORED_MOL))
    st = en.ENG.pyscf
    if key not in st:
        st[key] = MolData(len(st))
    return st[key]


class MolModel:
    """PySCF molecule: integrals depend on atom, basis, unit, charge, spin, cart and further keywords at the time
    of build; position integrals on the common origin O as r - O times the overlap"""
    _qv_opaque = True

    def __init__(self, **kw):
        self.unit = "angstrom"
        self.charge = 0
        self.cart = False
        self.spin = 0
        self.atom = []
        self.basis = "sto-3g"
        self.verbose = 3
        self._d = None
        self._origin = None
        for k, v in kw.items():
            setattr(self, k, v)

    def build(self, *a, **kw):
        if a:
            raise Unsupp("positional mol.build arguments")
        for k, v in kw.items():
            setattr(self, k, v)
        d = {k: v for k, v in self.__dict__.items() if not k.startswith("_")}
        self._d = mol_data(d)
        return self

    @property
    def data(self):
        if self._d is None:
            raise RuntimeError("molecule not built")
        return self._d

    def energy_nuc(self):
        return Num(atom_term(El(self.data.head("enuc", 0))), "f")

    get_enuc = energy_nuc

    @property
    def nelectron(self):
        return mkint(self.data.nelec)

    def tot_electrons(self):
        return self.nelectron

    @property
    def nao(self):
        return mkint(self.data.nao)

    def nao_nr(self):
        return self.nao

    @property
    def natm(self):
        return mkint(self.data.natm)

    def intor_symmetric(self, name, *a, **k):
        return self.intor(name, *a, **k)

    def intor(self, name, *a, **k):
        d = self.data
        if a or k:
            raise Unsupp("mol.intor options")
        l = d.nao
        for suffix, cart in (("_sph", False), ("_cart", True)):
            if name.endswith(suffix):
                if self.cart is not cart:
                    raise Unsupp("integral %s with cart=%s" % (name, self.cart))
                name = name[:-len(suffix)]
        shapes = {"int1e_ovlp": (l, l), "int1e_kin": (l, l), "int1e_nuc": (l, l), "int2e": (l, l, l, l), "int1e_r": (3, l, l)}
        if name not in shapes:
            raise Unsupp("integral " + name)
        if name == "int1e_r" and self._origin is not None:
            O = self._origin
            r, o = d.head("int1e_r", 3), d.head("int1e_ovlp", 2)
            return npm.SArr.fresh(shapes[name], "f",
                                  lambda i: atom_term(El(r, i)) - O.get(i[:1]) * atom_term(El(o, i[1:])))
        return d.arr(name, shapes[name])

    def atom_charges(self):
        return self.data.arr("charges", (self.data.natm,), "i", integer=True)

    def atom_coords(self, *a, **k):
        if a or k:
            raise Unsupp("mol.atom_coords options")
        return self.data.arr("coords", (self.data.natm, 3))

    def set_common_orig_(self, c):
        c = npm.asarray(c)
        if len(c.shape) != 1 or not en.ENG.logic.entails(ieq(en.as_index(c.shape[0]), 3)):
            raise Unsupp("common origin")
        self._origin = c.copy()
        return self

    set_common_orig = set_common_origin = set_common_origin_ = set_common_orig_


def get_hcore(mol):
    k, v = mol.intor("int1e_kin"), mol.intor("int1e_nuc")
    return k + v + mol.data.arr("ecp", (mol.data.nao,) * 2)     # effective core potential, if any


class RHFModel:
    """PySCF's RHF: orbital coefficients are uninterpreted; its energy is that of the closed-shell determinant"""
    _qv_opaque = True

    def __init__(self, mol):
        self.mol = mol
        self._ran = False
        self.verbose = 0

    def kernel(self, *a, **k):
        if a or k:
            raise Unsupp("RHF.kernel options")
        self._ran = True
        return self.e_tot

    def run(self):
        self.kernel()
        return self

    scf = kernel

    @property
    def converged(self):
        return mkbool(z3.Bool("rhf_converged_%d" % self.mol.data.i)) if self._ran else False

    @property
    def e_tot(self):
        if not self._ran:
            return 0
        np = npm.make_module("numpy")
        C = self.mo_coeff[:, : self.mol.nelectron // 2]
        D = 2 * np.einsum("pi,qi->pq", C, C)
        g = self.mol.intor("int2e")
        J, X = np.einsum("pqrs,rs->pq", g, D), np.einsum("psrq,rs->pq", g, D)
        return (np.einsum("pq,pq->", get_hcore(self.mol), D) + np.einsum("pq,pq->", J - X / 2, D) / 2
                + self.mol.energy_nuc())

    @property
    def mo_coeff(self):
        if not self._ran:
            return None
        l = self.mol.data.nao
        return self.mol.data.arr("mo_coeff", (l, l))

    def get_hcore(self, mol=None):
        return get_hcore(mol or self.mol)

    def get_ovlp(self, mol=None):
        return (mol or self.mol).intor("int1e_ovlp")


hf = mod("pyscf.scf.hf", get_hcore=get_hcore, RHF=RHFModel)
scf = mod("pyscf.scf", hf=hf, RHF=RHFModel)
gto = mod("pyscf.gto", Mole=MolModel, M=lambda **k: MolModel().build(**k))
pyscf = mod("pyscf", gto=gto, scf=scf)


def all_models():
    np = npm.make_module("numpy")
    d = {"numpy": np, "numpy.linalg": np.linalg, "numpy.random": np.random, "numba": numba, "math": math_m,
         "scipy": scipy, "scipy.special": special, "scipy.sparse": sparse, "scipy.sparse.linalg": sparse_la,
         "scipy.linalg": splinalg, "sympy": sympy, "pandas": pandas, "os": os_m, "os.path": ospath, "sys": sys_m,
         "time": time_m, "warnings": warnings_m, "itertools": itertools_m, "pyscf": pyscf, "pyscf.gto": gto,
         "pyscf.scf": scf, "pyscf.scf.hf": hf}
    return d
