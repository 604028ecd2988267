"""Concrete side of the contract language: the same contract text run on the real code with real NumPy
and sampled inputs.  Used to replay failed obligations and to cross-check contracts and library models;
it never counts as a proof.  Runs under the repository's own interpreter (no z3 here)."""
import cmath
import math
import importlib
import random
import time
import numpy as np


class Skip(Exception):
    pass


class ContractViolation(Exception):
    pass


class OtherArray(np.ndarray):
    """array type of the stand-in array module"""


MOLECULES = [("h 0 0 0; h 0 0 1.4", "sto-3g"), ("h 0.3 -0.2 0.5; h 0 0.4 2", "6-31g"), ("li 0 0 1; h 0 0.5 3.6", "sto-3g"),
             ("he 0.1 0.2 0.7", "6-31g"), ("be 0 0 0.5", "sto-3g"), ("o 0 0 0.1; h 0 1.5 1.2; h 0 -1.4 1.1", "sto-3g"),
             ("h 0 0 0; f 0.2 0 1.7", "6-31g"),
             ("na 0 0 0.2; h 0 0 3.6", "lanl2dz", {"ecp": "lanl2dz"})]


class ConCtx:
    sym = False

    def __init__(self, seed, hints=None, choices=None, big=False):
        self.rng = random.Random(seed)
        self.nrng = np.random.default_rng(seed)
        self.hints = hints or {}
        self.fixed_choices = choices or {}
        self.np = np
        self.pi = math.pi
        self.log = {}
        self.bad = []
        self.n_ok = 0
        self.prefix = ""
        self.big = big
        self.choices = {}
        self.ordinal = seed
        self._cleanup = []

    def cleanup(self):
        while self._cleanup:
            self._cleanup.pop()()

    def mod(self, name):
        return importlib.import_module(name)

    # -- inputs
    def dim(self, name, lo=1, hi=4, far=None):
        v = self.hints.get(name)
        if not (isinstance(v, int) and lo <= v <= (far or hi + 2)):
            v = self.rng.randint(lo, hi)
            if far is not None and self.rng.random() < 0.25:
                v = self.rng.randint(hi, far)
        self.log[name] = v
        return v

    def int(self, name, lo=None, hi=None, chi=None, clo=None, far=None):
        a = lo if lo is not None else (clo if clo is not None else -3)
        b = hi if hi is not None else (chi if chi is not None else a + 6)
        if chi is not None:
            b = min(b, chi)
        v = self.hints.get(name)
        if not (isinstance(v, int) and a <= v <= max(b, far or b)):
            if b < a:
                raise Skip()
            v = self.rng.randint(a, b)
            if far is not None and self.rng.random() < 0.5:
                # far out: around the triangular numbers, their midpoints and the powers of ten
                t = int(10 ** self.rng.uniform(0, math.log10(far) / 2 + 0.1))
                v = self.rng.choice([t * (t + 1) // 2, t * (t + 1) // 2 + t // 2, int(10 ** self.rng.uniform(0, math.log10(far)))])
                v = min(max(v + self.rng.choice([-2, -1, 0, 1, 2]), a), far)
        self.log[name] = v
        return v

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None):
        if lo is None:
            lo = 0.2 if (pos or nonneg) else -2.0
        if hi is None:
            hi = 2.5
        v = self.rng.uniform(lo, hi)
        h = self.hints.get(name)
        if isinstance(h, (int, float)) and self.rng.random() < 0.3:
            v = float(h)
        self.log[name] = v
        return v

    def cplx(self, name):
        v = complex(self.rng.gauss(0, 1), self.rng.gauss(0, 1))
        self.log[name] = str(v)
        return v

    def tensor(self, name, shape, real=False):
        a = self.nrng.normal(size=tuple(shape))
        if not real:
            a = a + 1j * self.nrng.normal(size=tuple(shape))
        self.log[name] = "random %s array of shape %s" % ("real" if real else "complex", tuple(shape))
        return a

    def herm(self, name, n, real=False):
        g = self.tensor(name, (n, n), real)
        return g + g.conj().T

    def exch(self, name, n, real=False):
        g = self.tensor(name, (n,) * 4, real)
        return g + g.transpose(1, 0, 3, 2)

    def function(self, name, real=True, wild=False):
        """wild: values of very different orders of magnitude are sampled as well"""
        k = 10 ** self.rng.uniform(-3, 5) if wild and self.rng.random() < 0.5 else 1
        cs = [(k * self.rng.gauss(0, 1), self.rng.uniform(0.3, 2), self.rng.uniform(0, 6)) for _ in range(3)]
        c0 = k * self.rng.gauss(0, 1)

        def f(x):
            r = c0 + 0 * x
            for a, w, p in cs:
                r = r + a * np.sin(w * x + p)
                if not real:
                    r = r + 1j * a * np.cos(w * x * 0.7 + p)
            return r
        f.__name__ = name
        return f

    def choice(self, name, opts):
        opts = list(opts)
        i = self.fixed_choices.get(name)
        if i is None or not (0 <= i < len(opts)):
            i = self.rng.randrange(len(opts))
        self.choices[name] = i
        self.log["choice " + name] = i
        return opts[i]

    def split(self, *conds):
        pass

    def assume(self, c):
        if not c:
            raise Skip()

    def spin_pair(self, name="spin"):
        v = self.nrng.normal(size=(2, 2)) + 1j * self.nrng.normal(size=(2, 2))
        q, _ = np.linalg.qr(v)
        self.log[name] = repr(q.tolist())
        return q[:, 0].copy(), q[:, 1].copy()

    def orthonormal(self, name, n, m, real=False):
        if m > n:
            raise Skip()
        v = self.tensor(name, (n, m), real)
        q, _ = np.linalg.qr(v)
        return q

    # -- 2D oscillator ghosts
    def use_contracts(self, *names):
        """callees replaced by their (separately verified) contracts; concretely the real bodies run"""

    def stub_coulomb_B(self):
        """the expensive two-body elements are left out (set to zero) where they are not what is checked"""
        m = importlib.import_module("quantum_systems.quantum_dots.two_dim.two_dim_ho")
        f = getattr(m, "get_coulomb_elements_B", None)
        if f is not None:
            m.get_coulomb_elements_B = lambda n, *a, **k: np.zeros((n,) * 4)
            self._cleanup.append(lambda: setattr(m, "get_coulomb_elements_B", f))

    def nm(self, p):
        from . import oracle
        return oracle.numbering(int(p))

    def coulomb(self, *nm):
        from . import oracle
        return oracle.coulomb(*[int(x) for x in nm])

    def radial(self, f):
        from scipy.integrate import quad
        return quad(lambda r: float(np.real(f(r))), 0, np.inf, epsabs=1e-12, epsrel=1e-11, limit=400)[0]

    def angular(self, what, k):
        from scipy.integrate import quad
        k = int(k)
        f = {"cos": np.cos, "sin": np.sin, "abs cos": lambda x: abs(np.cos(x)), "abs sin": lambda x: abs(np.sin(x))}[what]
        g = lambda h: sum(quad(lambda x: f(x) * h(k * x), i * np.pi / 2, (i + 1) * np.pi / 2)[0] for i in range(4))
        re, im = g(np.cos), -g(np.sin)
        return re if what != "sin" else complex(re, im)

    def pyscf(self):
        import pyscf
        import pyscf.lib
        pyscf.lib.num_threads(1)
        pyscf.gto.Mole.verbose = 0
        return pyscf

    def molecule(self, closed=True):
        m = self.rng.choice(MOLECULES)
        self.log["molecule"] = m
        return m if len(m) == 3 else m + ({},)

    def file_cache(self):
        return ConCache(self)

    def spectrum(self, n, f):
        A = np.array([[complex(f(i, j)) for j in range(n)] for i in range(n)])
        w = np.linalg.eigvalsh(A)
        return lambda p: w[p]

    # -- helpers
    def el(self, a, *idx):
        return np.asarray(a)[tuple(idx)] if idx else (a if np.ndim(a) == 0 else np.asarray(a)[()])

    def sum(self, n, f, lo=0):
        r = 0
        for k in range(lo, n):
            r = r + f(k)
        return r

    def conj(self, x):
        return np.conj(x)

    def re(self, x):
        return np.real(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def exp(self, x):
        return cmath.exp(x) if isinstance(x, complex) or np.iscomplexobj(x) else math.exp(x)

    def fn(self, name, *args):
        if name == "factorial":
            return math.factorial(int(args[0]))
        if name == "genlaguerre":
            n, k, x = args
            from scipy.special import genlaguerre
            return float(genlaguerre(int(n), int(k))(float(x)))
        if name == "hermite":
            from scipy.special import eval_hermite
            return float(eval_hermite(int(args[0]), float(args[1])))
        if name == "abs":
            return abs(args[0])
        if name == "logfact":
            return math.lgamma(int(args[0]) + 1)
        if name == "sinc":
            return float(np.sinc(float(args[0])))
        return getattr(math, name)(*args)

    def ite(self, c, a, b):
        return a if c else b

    def delta(self, a, b):
        return 1 if a == b else 0

    def ind(self, c):
        return 1 if c else 0

    def all_(self, *cs):
        return all(bool(c) for c in cs)

    def any_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def iabs(self, x):
        return abs(x)

    def powi(self, b, e):
        return b ** e

    def other_module(self):
        import types
        m = types.ModuleType("othernp")
        m.__dict__.update({k: v for k, v in np.__dict__.items() if not k.startswith("__")})
        m.asarray = lambda a, *x, **k: np.asarray(a, *x, **k).view(OtherArray)
        m.array = lambda a, *x, **k: np.array(a, *x, **k).view(OtherArray)
        return m

    def module_of(self, a):
        return "other" if isinstance(a, OtherArray) else "numpy"

    def ensure_deriv(self, name, d, f, var):
        h = 1e-3 * max(1.0, abs(var))
        if abs(var) <= 2 * h:
            h = abs(var) / 4 or h

        def cd(h):
            return (f(var - 2 * h) - 8 * f(var - h) + 8 * f(var + h) - f(var + 2 * h)) / (12 * h)
        want = cd(h)
        if abs(d - want) > 1e-6 * max(1.0, abs(want), abs(d)):
            self._fail(name, "got %r, derivative is %r at %r" % (d, want, var))
        return self._ok()

    def is_array(self, a):
        return isinstance(a, np.ndarray)

    def kind(self, a):
        k = np.asarray(a).dtype.kind
        return {"u": "i"}.get(k, k)

    def snap(self, a):
        return None if a is None else np.array(a, copy=True)

    def same_storage(self, a, b):
        return np.shares_memory(a, b)

    # -- obligations
    def _fail(self, name, why):
        self.bad.append({"obligation": self.prefix + name, "why": why})
        raise ContractViolation(name)

    def _ok(self):
        self.n_ok += 1
        return True

    def ensure(self, name, c):
        if not bool(c):
            self._fail(name, "condition is false")
        return self._ok()

    def close(self, a, b, scale=0.0):
        return abs(a - b) <= 1e-7 * max(abs(a), abs(b), scale) + 1e-9

    def ensure_eq(self, name, a, b):
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))):
            if a is not b and a != b:
                self._fail(name, "%r != %r" % (a, b))
            return self._ok()
        if not self.close(complex(a), complex(b)):
            self._fail(name, "got %r, contract says %r" % (a, b))
        return self._ok()

    def ensure_close(self, name, a, b, tol):
        if not abs(a - b) <= tol:
            self._fail(name, "got %r, contract says %r" % (a, b))
        return self._ok()

    def ensure_shape(self, name, a, shape):
        if tuple(np.shape(a)) != tuple(shape) or (shape and not isinstance(a, np.ndarray)):
            self._fail(name + ".shape", "got shape %r, contract says %r" % (np.shape(a), tuple(shape)))
        return self._ok()

    def ensure_arr(self, name, a, shape, f, kind=None):
        self.ensure_shape(name, a, shape)
        if kind is not None and self.kind(a) not in kind:
            self._fail(name + ".kind", "dtype %s" % np.asarray(a).dtype)
        A = np.asarray(a)
        mx = float(np.max(np.abs(A))) if A.size else 0.0
        idxs = list(np.ndindex(*A.shape))
        if len(idxs) > 1500:
            idxs = self.rng.sample(idxs, 1500)
        elif len(idxs) > 40:
            self.rng.shuffle(idxs)
        t0 = time.time()
        for k, i in enumerate(idxs):
            if k > 40 and time.time() - t0 > 1.0:
                break
            want = f(*i)
            if not self.close(complex(A[i]), complex(want), 1e-3 * mx):
                self._fail(name, "at index %r: got %r, contract says %r" % (i, A[i], want))
        return self._ok()

    def for_all(self, shape, f):
        idxs = list(np.ndindex(*[int(s) for s in shape]))
        if len(idxs) > 200:
            idxs = self.rng.sample(idxs, 200)
        for i in idxs:
            f(*i)

    def unchanged(self, name, a, snap):
        if snap is None:
            return self.ensure(name + ".unset", a is None)
        if a is None or np.shape(a) != np.shape(snap) or not np.array_equal(np.asarray(a), snap) \
                or self.kind(a) != self.kind(snap):
            self._fail(name + ".unchanged", "value was modified")
        return self._ok()

    def ensure_same(self, name, a, b):
        """equal up to the last bits"""
        if np.shape(a) != np.shape(b) or self.kind(a) != self.kind(b):
            self._fail(name, "shape or kind differs: %r, %r" % (np.shape(a), np.shape(b)))
        d = np.abs(np.asarray(a) - np.asarray(b))
        if not np.all(d <= 1e-13 * np.abs(np.asarray(b))):
            self._fail(name, "differs by up to %.3g" % d.max())
        return self._ok()

    def raises(self, f, *exc):
        exc = exc or (Exception,)
        try:
            r = f()
        except ContractViolation:
            raise
        except exc as e:
            return e, None
        return None, r

    def raises_iff(self, name, f, cond, exc=(Exception,)):
        e, r = self.raises(f, *exc)
        if e is not None:
            if not cond:
                self._fail(name + ".refused_only_if_invalid", "raised %s: %s on a valid input" % (type(e).__name__, e))
        else:
            if cond:
                self._fail(name + ".accepted_only_if_valid", "accepted an invalid input")
        self._ok()
        return e, r


class ConCache:
    """the storage directory of the real code, redirected to a scratch directory"""

    def __init__(self, ctx):
        import os
        import shutil
        import sys
        import tempfile
        self.d = d = tempfile.mkdtemp(prefix="qvcache_")
        cwd = os.getcwd()
        sys.path.insert(0, d)
        os.chdir(d)

        def undo():
            os.environ.pop("QS_CACHE_TDHO", None)
            os.chdir(cwd)
            if d in sys.path:
                sys.path.remove(d)
            shutil.rmtree(d, ignore_errors=True)
        ctx._cleanup.append(undo)

    def enable(self, value="1"):
        import os
        os.environ["QS_CACHE_TDHO"] = value

    def disable(self):
        import os
        os.environ.pop("QS_CACHE_TDHO", None)

    def names(self):
        import os
        return sorted(f for f in os.listdir(self.d) if os.path.isfile(os.path.join(self.d, f)))

    def files(self):
        import os
        return [(f, np.load(os.path.join(self.d, f))) for f in self.names() if f.endswith(".npy")]

    def poison(self):
        """replace the contents of every stored file"""
        import os
        for f, a in self.files():
            np.save(os.path.join(self.d, f), np.full(a.shape, 7.25))

    def state(self):
        import os
        return [(f, os.stat(os.path.join(self.d, f)).st_mtime_ns, os.stat(os.path.join(self.d, f)).st_atime_ns * 0)
                for f in self.names()]

    def untouched(self, st):
        return self.state() == st
