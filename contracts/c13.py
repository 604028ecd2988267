"""C13: the numbering of 2D oscillator orbitals is an energy-ordered bijection."""
from .base import Contract

K = Contract("C13")
M = "quantum_systems.quantum_dots.two_dim.two_dim_helper"


@K.case(samples=120)
def index_to_numbers_and_back(ctx):
    h = ctx.mod(M)
    p = ctx.int("p", 0, chi=400, far=4 * 10 ** 10)
    n, m = h.get_indices_nm(p)
    ctx.ensure("n >= 0", n >= 0)
    ctx.ensure("inverse", h.get_index_p(n, m) == p)


@K.case(samples=120)
def numbers_to_index_and_back(ctx):
    h = ctx.mod(M)
    n = ctx.int("n", 0, chi=12, far=60000)
    m = ctx.int("m", None, None, clo=-12, chi=12, far=60000)
    p = h.get_index_p(n, m)
    ctx.ensure("p >= 0", p >= 0)
    n2, m2 = h.get_indices_nm(p)
    ctx.ensure("n", n2 == n)
    ctx.ensure("m", m2 == m)


@K.case(samples=60)
def ordered(ctx):
    h = ctx.mod(M)
    p = ctx.int("p", 0, chi=100)
    q = ctx.int("q", 0, chi=120)
    ctx.assume(p < q)
    n, m = h.get_indices_nm(p)
    n2, m2 = h.get_indices_nm(q)
    e, e2 = h.get_shell_energy(n, m), h.get_shell_energy(n2, m2)
    ctx.ensure("energy", e == 2 * n + ctx.iabs(m) + 1)
    ctx.ensure("energy never decreases", e <= e2)
    ctx.ensure("m increases inside a shell", ctx.any_(e != e2, m < m2))
