"""C09: element setters accept exactly arrays with the basis size on every axis."""
from .base import Contract

K = Contract("C09")
NAMES = ["h", "s", "u", "spin_x", "spin_y", "spin_z", "spin_2", "spin_2_tb"]
ALL = ["_h", "_s", "_u", "_dipole_moment", "_spin_x", "_spin_y", "_spin_z", "_spin_2", "_spin_2_tb", "_spf", "_bra_spf",
       "_sigma_x", "_sigma_y", "_sigma_z", "_includes_spin", "_anti_symmetrized_u", "l", "dim"]


def fresh(ctx, l, spin, dim=1):
    return ctx.mod("quantum_systems.basis_set").BasisSet(l, dim=dim, includes_spin=spin)


def old_state(bs):
    return {k: getattr(bs, k) for k in ALL}


def same_state(ctx, tag, bs, old, but=()):
    for k in ALL:
        if k not in but:
            ctx.ensure(tag + k, getattr(bs, k) is old[k])


def try_set(bs, name, a):
    def f():
        setattr(bs, name, a)
    return f


@K.case(samples=24)
def elements(ctx):
    l = ctx.dim("l", 1, 4)
    spin = ctx.choice("spin", [True, False])
    bs = fresh(ctx, l, spin)
    name = ctx.choice("name", NAMES)
    rank = 4 if name in ("u", "spin_2_tb") else 2
    shape = tuple(ctx.int("n%d" % i, 0, None, chi=5) for i in range(rank))
    if ctx.choice("previously set", [False, True]) and (spin or "spin" not in name):
        setattr(bs, name, ctx.tensor("old", (l,) * rank))
    a = ctx.tensor("a", shape)
    snap = ctx.snap(a)
    old = old_state(bs)
    bad = ctx.not_(ctx.all_(*[x == l for x in shape]))
    if "spin" in name and not spin:
        bad = True
    e, _ = ctx.raises_iff("set", try_set(bs, name, a), bad)
    if e is None:
        ctx.ensure("stored", getattr(bs, name) is a)
        ctx.unchanged("value", a, snap)
        same_state(ctx, "rest", bs, old, ("_" + name,))
    else:
        same_state(ctx, "all", bs, old)


@K.case(samples=12)
def dipole(ctx):
    l = ctx.dim("l", 1, 4)
    dim = ctx.choice("dim", [1, 2, 3])
    bs = fresh(ctx, l, False, dim)
    if ctx.choice("previously set", [False, True]):
        bs.dipole_moment = ctx.tensor("old", (dim, l, l))
    how = ctx.choice("container", ["array", "list"])
    if how == "array":
        shape = tuple(ctx.int("n%d" % i, 0, None, chi=4) for i in range(3))
        a = ctx.tensor("a", shape)
        bad = ctx.not_(ctx.all_(shape[0] == dim, shape[1] == l, shape[2] == l))
    else:
        k = ctx.choice("entries", [1, 2, 3])
        shapes = [tuple(ctx.int("n%d_%d" % (j, i), 1, None, chi=4) for i in range(2)) for j in range(k)]
        a = [ctx.tensor("a%d" % j, s) for j, s in enumerate(shapes)]
        bad = True if k != dim else ctx.not_(ctx.all_(*[x == l for s in shapes for x in s]))
    old = old_state(bs)
    e, _ = ctx.raises_iff("set", try_set(bs, "dipole_moment", a), bad)
    if e is None:
        ctx.ensure("stored", bs.dipole_moment is a)
        same_state(ctx, "rest", bs, old, ("_dipole_moment",))
    else:
        same_state(ctx, "all", bs, old)


@K.case(samples=16)
def orbitals(ctx):
    l = ctx.dim("l", 1, 4)
    dim = ctx.choice("dim", [1, 2, 3])
    axes = ctx.choice("grid axes", [0, 1, 2, 3, 4])
    bs = fresh(ctx, l, False, dim)
    name = ctx.choice("name", ["spf", "bra_spf"])
    if ctx.choice("previously set", [False, True]):
        setattr(bs, name, ctx.tensor("old", (l,) + (2,) * dim))
    shape = (ctx.int("n0", 0, None, chi=5),) + tuple(ctx.int("g%d" % i, 0, None, chi=3) for i in range(axes))
    a = ctx.tensor("a", shape)
    old = old_state(bs)
    bad = True if axes != dim else ctx.not_(shape[0] == l)
    e, _ = ctx.raises_iff("set", try_set(bs, name, a), bad)
    if e is None:
        ctx.ensure("stored", getattr(bs, name) is a)
        same_state(ctx, "rest", bs, old, ("_" + name,))
    else:
        same_state(ctx, "all", bs, old)


@K.case(samples=6)
def orbitals_unset(ctx):
    """clearing orbitals is allowed; the duals are then unset as well"""
    l = ctx.dim("l", 1, 4)
    bs = fresh(ctx, l, False, 1)
    bs.spf = ctx.tensor("spf", (l, 3))
    bs.spf = None
    ctx.ensure("spf", bs.spf is None)
    ctx.ensure("bra_spf", bs.bra_spf is None)


@K.case(samples=6)
def pauli(ctx):
    """Pauli matrices only on spin-dependent bases"""
    l = ctx.dim("l", 1, 4)
    spin = ctx.choice("spin", [True, False])
    bs = fresh(ctx, l, spin)
    name = ctx.choice("name", ["sigma_x", "sigma_y", "sigma_z"])
    a = ctx.tensor("a", (2, 2))
    old = old_state(bs)
    e, _ = ctx.raises_iff("set", try_set(bs, name, a), not spin)
    if e is None:
        ctx.ensure("stored", getattr(bs, name) is a)
        same_state(ctx, "rest", bs, old, ("_" + name,))
    else:
        same_state(ctx, "all", bs, old)
