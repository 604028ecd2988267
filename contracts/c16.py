"""C16: caching of the 2D Coulomb elements never changes what is returned."""
from .base import Contract

K = Contract("C16")
M = "quantum_systems.quantum_dots.two_dim.two_dim_helper"
K.assumptions = [
    "np.save then np.load of the same path returns the saved array; os.path.exists tells whether a file was stored; "
    "no other process changes the storage directory (assumed contracts of the dependencies)",
    "the elements themselves are the subject of C14: here get_indices_nm and coulomb_ho are used through their contracts",
    "histories: every sequence of three requests with arbitrary sizes and switches, from an empty directory and from one "
    "left by an earlier request; sizes are unbounded, longer histories are not explored separately"]


def elements(ctx, name, u, N):
    def val(p, q, r, s):
        a = []
        for x in (p, q, r, s):
            a += list(ctx.nm(x))
        return ctx.coulomb(*a)
    ctx.ensure_arr(name, u, (N,) * 4, val)


def stored_ok(ctx, c):
    for i, (f, a) in enumerate(c.files()):
        elements(ctx, "stored file %d" % i, a, a.shape[0])


@K.case(samples=12)
def requests(ctx):
    h = ctx.mod(M)
    ctx.use_contracts("get_indices_nm", "coulomb_ho")
    c = ctx.file_cache()
    sizes = [ctx.dim("N%d" % i, 1, 4) for i in range(3)]
    for i, N in enumerate(sizes):
        how = ctx.choice("cache %d" % i, ["1", None, ""][: 3 if i == 0 else 2])
        if how is None:
            c.disable()
        else:
            c.enable(how)
        st = c.state()
        kw = {"verbose": True} if i == 1 else {}
        u = h.get_coulomb_elements(N, **kw)
        elements(ctx, "request %d" % i, u, N)
        if how is None:
            ctx.ensure("request %d: nothing read or written" % i, c.untouched(st))
        stored_ok(ctx, c)
        # what the caller does with the result must not reach later requests
        u *= 2


@K.case(samples=6)
def disabled_ignores_files(ctx):
    """with caching disabled even existing files are not looked at"""
    h = ctx.mod(M)
    ctx.use_contracts("get_indices_nm", "coulomb_ho")
    c = ctx.file_cache()
    N = ctx.dim("N", 1, 4)
    c.enable()
    h.get_coulomb_elements(N)
    ctx.ensure("the elements were stored", len(c.files()) == 1)
    c.poison()
    c.disable()
    st = c.state()
    elements(ctx, "request", h.get_coulomb_elements(N), N)
    ctx.ensure("nothing read or written", c.untouched(st))


@K.case(samples=6)
def enabled_uses_files(ctx):
    """a stored file is found again: a second request of the same size does not store another file, and
    different sizes get different files"""
    h = ctx.mod(M)
    ctx.use_contracts("get_indices_nm", "coulomb_ho")
    c = ctx.file_cache()
    N, P = ctx.dim("N", 1, 3), ctx.dim("P", 1, 3)
    c.enable()
    h.get_coulomb_elements(N)
    h.get_coulomb_elements(P)
    c.disable()
    u = h.get_coulomb_elements(N)
    c.enable()
    ctx.ensure("one file per size", len(c.files()) == (1 if N == P else 2))
    ctx.ensure_same("cached and uncached elements agree", h.get_coulomb_elements(N), u)
    ctx.ensure("found again", len(c.files()) == (1 if N == P else 2))
    stored_ok(ctx, c)


@K.case(samples=4)
def through_the_basis(ctx):
    """the oscillator basis gets the elements of its own size whatever was cached before"""
    h = ctx.mod(M)
    ctx.use_contracts("get_indices_nm", "coulomb_ho")
    c = ctx.file_cache()
    N, l = ctx.dim("N", 1, 3), ctx.dim("l", 1, 3)
    if ctx.choice("cached", [True, False]):
        c.enable()
    h.get_coulomb_elements(N)
    b = ctx.mod("quantum_systems.quantum_dots.two_dim.two_dim_ho").TwoDimensionalHarmonicOscillator(l, 2, 3)
    elements(ctx, "u", b.u, l)
