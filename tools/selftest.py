#!/usr/bin/env python3
"""Cross-check of the assumed NumPy contracts (qverify/npmodel.py) against the installed NumPy: every expression below is
evaluated once by the model and once by NumPy on the same random integer data; shapes, kinds and values must agree.
   python3-vt tools/selftest.py"""
import os, random, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
sys.setrecursionlimit(20000)
import numpy
if not hasattr(numpy, "trapz"):
    numpy.trapz = numpy.trapezoid
from qverify import engine as en
en.init()
from qverify import libmodel, logic as lgm, npmodel as npm, terms as tm
snp = libmodel.all_models()["numpy"]


def data(shape, cplx, rnd):
    if not shape:
        v = rnd.randint(-4, 4)
        return complex(v, rnd.randint(-4, 4)) if cplx else float(v)
    return [data(shape[1:], cplx, rnd) for _ in range(shape[0])]


def same(got, want):
    """the model's element is provably the number NumPy computed"""
    want = complex(want)
    t = (got if isinstance(got, tm.Term) else npm.num(got).t) - tm.Term.const(complex(round(want.real * 2 ** 20) / 2 ** 20, round(want.imag * 2 ** 20) / 2 ** 20))
    return lgm.prove_zero(t, ()) is None


# name -> (argument shapes, function of (np, *arrays)); c = complex, r = real
E = {
    "add": ("r32 c32", lambda np, a, b: a + b), "sub scalar": ("c32", lambda np, a: 2 - a),
    "mul broadcast": ("r3 c23", lambda np, a, b: a * b), "mul broadcast 2": ("r31 c24 ", lambda np, a, b: a[:, :, None] * b[None]),
    "conj": ("c23", lambda np, a: a.conj()), "T": ("c23", lambda np, a: a.T), "conj T": ("c23", lambda np, a: a.conj().T),
    "transpose4": ("c2322", lambda np, a: a.transpose(0, 3, 1, 2)), "transpose0213": ("c2322", lambda np, a: a.transpose(0, 2, 1, 3)),
    "np.transpose": ("r234", lambda np, a: np.transpose(a, (2, 0, 1))), "swapaxes": ("r234", lambda np, a: a.swapaxes(0, 2)),
    "moveaxis": ("r234", lambda np, a: np.moveaxis(a, 0, -1)),
    "dot": ("c23 r34", lambda np, a, b: np.dot(a, b)), "dot vec": ("c23 r3", lambda np, a, b: np.dot(a, b)),
    "matmul": ("c23 c32", lambda np, a, b: a @ b), "matmul batch": ("r423 c432", lambda np, a, b: a @ b),
    "tensordot1": ("c23 c24", lambda np, a, b: np.tensordot(a, b, axes=((0), (0)))),
    "tensordot2": ("c2322 c32", lambda np, a, b: np.tensordot(a, b, axes=(1, 0))),
    "tensordot3": ("c234 c43", lambda np, a, b: np.tensordot(a, b, axes=((1, 2), (1, 0)))),
    "tensordot int": ("c23 c34", lambda np, a, b: np.tensordot(a, b, axes=1)),
    "kron": ("c23 r22", lambda np, a, b: np.kron(a, b)), "kron4": ("r2222 r2222", lambda np, a, b: np.kron(a, b)),
    "outer": ("c3 r2", lambda np, a, b: np.outer(a, b)), "inner": ("c3 c3", lambda np, a, b: np.inner(a, b)),
    "vdot": ("c3 c3", lambda np, a, b: np.vdot(a, b)),
    "einsum pr,qs": ("c22 c33", lambda np, a, b: np.einsum("pr,qs->pqrs", a, b)),
    "einsum piqi": ("c3232", lambda np, a: np.einsum("piqi -> pq", a)), "einsum piiq": ("c3223", lambda np, a: np.einsum("piiq->pq", a)),
    "einsum implicit": ("c23 c34", lambda np, a, b: np.einsum("ij,jk", a, b)), "einsum trace": ("c33", lambda np, a: np.einsum("ii", a)),
    "einsum ellipsis": ("c233 c3", lambda np, a, b: np.einsum("...i,i->...", a, b)),
    "einsum big": ("c22 c22 c23 c23 r22", lambda np, a, b, c, d, u: np.einsum("bs,ar,bq,ap,ab->pqrs", a, b, c, d, u, optimize=True)),
    "trace": ("c33", lambda np, a: np.trace(a)), "trace axes": ("c3232", lambda np, a: np.trace(a, axis1=1, axis2=3)),
    "trace offset": ("c34", lambda np, a: np.trace(a, offset=1)),
    "diag of": ("c33", lambda np, a: np.diag(a)), "diag to": ("c3", lambda np, a: np.diag(a)), "diag k": ("r2", lambda np, a: np.diag(a, k=-1)),
    "diag k2": ("r2", lambda np, a: np.diag(a, k=2)), "diagflat": ("r22", lambda np, a: np.diagflat(a)),
    "diagonal": ("c3243", lambda np, a: np.diagonal(a, axis1=0, axis2=3)), "eye": ("", lambda np: np.eye(3)), "eye k": ("", lambda np: np.eye(2, 4, 1)),
    "zeros_like": ("c23", lambda np, a: np.zeros_like(a)), "ones": ("", lambda np: np.ones((2, 3))), "full": ("", lambda np: np.full((2, 2), 7)),
    "arange": ("", lambda np: np.arange(2, 9, 3)), "linspace": ("", lambda np: np.linspace(-2, 2, 5)),
    "sum": ("c23", lambda np, a: np.sum(a)), "sum axis": ("c234", lambda np, a: a.sum(axis=1)), "sum axes": ("c234", lambda np, a: a.sum(axis=(0, 2))),
    "sum keep": ("c23", lambda np, a: a.sum(axis=0, keepdims=True)), "prod": ("r23", lambda np, a: np.prod(a, axis=1)),
    "reshape": ("c23", lambda np, a: a.reshape(3, 2)), "reshape -1": ("c234", lambda np, a: a.reshape(-1, 4)), "ravel": ("c23", lambda np, a: a.ravel()),
    "reshape split": ("c42", lambda np, a: a.reshape(2, 2, 2)), "T reshape": ("c23", lambda np, a: a.T.reshape(2, 3)),
    "stack": ("c23 c23", lambda np, a, b: np.stack((a, b))), "stack axis": ("c23 c23", lambda np, a, b: np.stack((a, b), axis=1)),
    "concatenate": ("c23 r13", lambda np, a, b: np.concatenate((a, b))), "hstack": ("c23 c22", lambda np, a, b: np.hstack((a, b))),
    "array of": ("c23 c23", lambda np, a, b: np.array([a, b])), "repeat": ("c23", lambda np, a: np.repeat(a, 2, axis=0)),
    "tile": ("c2", lambda np, a: np.tile(a, 3)), "flip": ("r23", lambda np, a: np.flip(a, axis=1)), "expand": ("r23", lambda np, a: np.expand_dims(a, 1)),
    "broadcast_to": ("r3", lambda np, a: np.broadcast_to(a, (2, 3))), "squeeze": ("r213", lambda np, a: a.squeeze()),
    "slice": ("c44", lambda np, a: a[1:3, :2]), "slice step": ("c4", lambda np, a: a[::2]), "slice step 2": ("c4", lambda np, a: a[1::2]),
    "slice neg": ("c5", lambda np, a: a[1:-1]), "reverse": ("c4", lambda np, a: a[::-1]), "newaxis": ("r3", lambda np, a: a - a[:, None]),
    "ellipsis": ("c234", lambda np, a: a[..., 0]), "negative": ("c23", lambda np, a: a[-1, -2]), "fancy": ("c44", lambda np, a: a[np.array([0, 2]), np.array([1, 3])]),
    "fancy ix": ("c44", lambda np, a: a[np.arange(4), np.arange(4)]), "mask": ("r4", lambda np, a: np.where(a > 0, a, 0)),
    "trapz": ("c5 r5", lambda np, a, b: np.trapz(a, b)), "trapz dx": ("r5", lambda np, a: np.trapz(a, dx=0.5)),
    "trapz axis": ("c35", lambda np, a: np.trapz(a, dx=0.5, axis=1)),
    "meshgrid 0": ("r2 r3", lambda np, a, b: np.meshgrid(a, b)[0]), "meshgrid 1": ("r2 r3", lambda np, a, b: np.meshgrid(a, b)[1]),
    "meshgrid ij": ("r2 r3", lambda np, a, b: np.meshgrid(a, b, indexing="ij")[0]),
    "real": ("c23", lambda np, a: a.real), "imag": ("c23", lambda np, a: a.imag), "abs": ("r23", lambda np, a: abs(a)), "pow": ("c23", lambda np, a: a ** 2),
    "astype": ("r23", lambda np, a: a.astype(np.complex128)), "copy": ("c23", lambda np, a: a.copy()), "neg": ("c23", lambda np, a: -a),
    "div": ("c23", lambda np, a: a / 4), "heaviside": ("r5", lambda np, a: np.heaviside(a, 0.5)), "sign": ("r5", lambda np, a: np.sign(a)),
    "mod": ("", lambda np: np.arange(6) % 4), "floordiv": ("", lambda np: np.arange(6) // 4), "triu": ("r33", lambda np, a: np.triu(a)),
    "tril": ("r33", lambda np, a: np.tril(a, -1)), "indices": ("", lambda np: np.indices((2, 3))[1]),
    "add.outer": ("r2 c3", lambda np, a, b: np.add.outer(a, b)), "subtract.outer": ("r2 r3", lambda np, a, b: np.subtract.outer(a, b)),
    "multiply": ("r2 c2", lambda np, a, b: np.multiply(a, b)), "multi_dot": ("c22 c22 c22", lambda np, a, b, c: np.linalg.multi_dot([a, b, c])),
    "ndim": ("r23", lambda np, a: np.ndim(a)), "size": ("r23", lambda np, a: a.size), "len": ("r23", lambda np, a: len(a)),
}


def setting(np, a, key, v):
    a = a.copy()
    a[key] = v
    return a


def iadd(np, a, key, v):
    a = a.copy()
    a[key] += v
    return a


def fill_diagonal(np, a):
    a = a.copy()
    np.fill_diagonal(a, 0)
    return a


def overlap(np, a):
    a = a.copy()
    a += a.T
    return a


def view(np, a):
    b = a.copy()
    b.T[0] = 5
    return b


E.update({
    "set slice": ("c43 c23", lambda np, a, b: setting(np, a, slice(None, None, 2), b)), "set row": ("c43", lambda np, a: setting(np, a, 1, 7)),
    "set inner": ("c45 c43", lambda np, a, b: setting(np, a, (slice(None), slice(1, -1)), b)),
    "set diag": ("c33", lambda np, a: setting(np, a, (np.arange(3), np.arange(3)), 4)),
    "iadd diag": ("c33 r3", lambda np, a, b: iadd(np, a, (np.arange(3), np.arange(3)), b)),
    "set mask": ("r33", lambda np, a: setting(np, a, np.eye(3) > 0, 9)), "fill_diagonal": ("r33", fill_diagonal), "iadd transposed": ("r33", overlap),
    "write through view": ("c33", view), "set 4": ("c2222 r22", lambda np, a, b: setting(np, a, (np.array([0, 1]), np.array([1, 0]), np.array([0, 1]),
                                                                                             np.array([1, 0])), np.array([5, 6]))),
})


def concrete(a, shape, kind):
    return snp.array(a).astype(snp.complex128 if kind == "c" else snp.float64)


DIMS = {}


def symbolic(a, shape, kind):
    """the same array with axis lengths that are symbols n2, n3, ... (known to be 2, 3, ... only when elements are compared)"""
    g = concrete(a, shape, kind).frozen()

    def fn(idx):
        if all(isinstance(i, int) for i in idx):
            return g(tuple(idx))
        t = tm.ZERO
        for q in numpy.ndindex(*shape):
            t = t + g(q).guard(tm.And(*[tm.ieq(i, j) for i, j in zip(idx, q)]))
        return t
    return npm.SArr.fresh(tuple(n if n == 1 else DIMS[n] for n in shape), kind if kind == "c" else "f", fn)


def main():
    bad, refused, counts = [], [], {}

    def run(build, label, assume_dims):
        rnd = random.Random(5)
        for name, (spec, f) in E.items():
            shapes = [tuple(int(x) for x in s[1:]) for s in spec.split()]
            kinds = [s[0] for s in spec.split()]
            args = [data(sh, k == "c", rnd) for sh, k in zip(shapes, kinds)]
            if build is symbolic and not args:
                continue
            want = f(numpy, *[numpy.array(a, dtype=complex if k == "c" else float) for a, k in zip(args, kinds)])
            lg = en.ENG.logic
            lg.push()
            try:
                try:
                    got = f(snp, *[build(a, sh, k) for a, sh, k in zip(args, shapes, kinds)])
                    assume_dims(lg)
                    if npm.is_arr(got):
                        if len(got.shape) != numpy.ndim(want) or not all(
                                lg.entails(tm.ieq(tm.zi(en.as_index(x)), y)) for x, y in zip(got.shape, numpy.shape(want))):
                            bad.append((label, name, "shape %s, NumPy %s" % (got.shape, numpy.shape(want))))
                            continue
                        k = want.dtype.kind
                        if got.kind != k and not (got.kind in "iu" and k in "iu"):
                            bad.append((label, name, "kind %s, NumPy %s" % (got.kind, k)))
                        vals = {i: got.get(i) for i in numpy.ndindex(*numpy.shape(want))}
                    else:
                        vals = {(): got}
                    for i, v in vals.items():
                        if not same(v, numpy.asarray(want)[i]):
                            bad.append((label, name, "element %s is not %s" % (i, numpy.asarray(want)[i])))
                            break
                except (en.Unsupp, ValueError, IndexError) as e:      # e.g. axes whose lengths agree only by the assumption
                    refused.append((label, name, str(e)))
                    continue
                counts[label] = counts.get(label, 0) + 1
            finally:
                lg.pop()

    en.ENG.explore(lambda: run(concrete, "concrete sizes", lambda lg: None))

    def sym():
        for n in range(2, 6):
            DIMS[n] = en.mkint(en.fresh_int("n%d" % n).e if hasattr(en.fresh_int("q"), "e") else en.fresh_int("n%d" % n))
            en.ENG.logic.assume(tm.ile(2, tm.zi(en.as_index(DIMS[n]))))
        run(symbolic, "symbolic sizes", lambda lg: [lg.assume(tm.ieq(tm.zi(en.as_index(DIMS[n])), n)) for n in DIMS])
    if "-s" in sys.argv:
        en.ENG.explore(sym)
    for x in refused:
        print("outside the model (%s) %s: %s" % x)
    for x in bad:
        print("DIFFERS (%s) %s: %s" % x)
    print("compared: %s; differences: %d" % (counts, len(bad)))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
