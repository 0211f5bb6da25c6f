"""P13 Galerkin solutions reproduce solutions that lie in the space."""
import numpy as np

from checks import p08
from vlib import forms, one, spaces, systems, tp
from vlib.core import Inconclusive, Sub, check
from vlib.tp import drop_nyquist

TECH = 'property-based testing (Hypothesis): generated spaces, operators and solutions; the right-hand side of a known solution is computed independently'
NOTE = ('Random members of random spaces are the exact solutions; their right-hand sides come from reference quadrature of independently evaluated '
        'functions, the systems are assembled and solved by the package. Only problems whose independently computed matrix has a condition number '
        'below 1e7 count. Bounded sizes.')


def near(v, e, tol, what, *a):
    v, e = np.asarray(v), np.asarray(e)
    check(v.shape == e.shape, what+': shape %s instead of %s', *a, v.shape, e.shape)
    d = np.max(np.abs(v-e), initial=0)
    check(np.isfinite(d) and d <= tol, what+': off by %.2e (allowed %.1e, size %.1e)', *a, d, tol, np.abs(e).max(initial=0))


def problem(c, lim=1e7):
    t = c['t']
    p08.usable(t)
    pairs = systems.operator(t, c['op'])
    orth = [i for i, s in enumerate(t['b']) if s.get('basis') in (None, 'Orthogonal') and not s.get('bcd')]
    pairs = [(tt, forms.within(tt, te, orth)) for tt, te in pairs]
    A = systems.half(t, systems.dense(t, t, pairs))
    k = systems.cond(A, lim)
    return t, pairs, k, np.abs(A).max(), np.abs(np.linalg.inv(A)).sum(1).max()


def solve(T, A, how):
    """A callable b, u -> solution."""
    from shenfun import la, BlockMatrix
    if T.dimensions == 1:
        if how % 3 == 2 and len(A) == 1:
            return lambda b, u: A[0].solve(b, u)
        return la.Solver(A)
    n = len(T.get_nondiagonal_axes())
    if how % 4 == 1:
        return la.BlockMatrixSolver(A)
    if n == 0:
        return la.SolverDiagonal(A)
    if how % 4 == 2 or n > 2:
        if n == T.dimensions:
            return (la.Solver2D if n == 2 else la.Solver3D if n == 3 else la.SolverND)(A)
        return la.BlockMatrixSolver(A)
    if n == 1:
        return la.SolverGeneric1ND(A)
    if T.dimensions > 3:
        return la.BlockMatrixSolver(A)
    return la.SolverGeneric2ND(A)


def run(c):
    from shenfun import Function, TestFunction, TrialFunction, Array
    t, pairs, k, size, inv = problem(c)
    nd = len(t['b'])
    T = tp.build(t)
    A = systems.assemble(pairs, TestFunction(T), TrialFunction(T), nd)
    S = solve(T, A, c['how'])
    xs, ws = forms.grid(t, 10)
    d = p08.dims(t)
    for rep in range(c['reps']):
        f = Function(T)
        f[:] = drop_nyquist(t, tp.random_coef(t, c['seed']+rep))
        f.set_boundary_dofs()
        u = np.array(f)
        E, mag = systems.rhs(t, pairs, u, xs, ws)
        b = Function(T)
        b[tuple(slice(0, m) for m in d)] = E
        if c['inplace'] and 'BlockMatrix' not in type(S).__name__ and nd > 1:
            w = S(b)
        else:
            w = S(b, Function(T))
        tol = 1e-13*(mag*inv*30+k*max(1, np.abs(u).max()))
        if not np.isfinite(tol) or tol > 1e-4:
            raise Inconclusive()
        near(drop_nyquist(t, np.array(w)), u, tol, 'solution %d by %s', rep, type(S).__name__)


def gen(nds, fams, maxpoly, hi, kinds=None):
    def make():
        S = spaces.st()

        @S.composite
        def g(draw):
            t = draw(tp.specs(fams, ndims=nds, maxpoly=maxpoly, hi=hi, values=True).map(forms.gauss))
            p08.safe(t)
            poly = [s for s in t['b'] if s['fam'] != 'F']
            if any(s['fam'] in 'HJ' for s in poly):
                kk = ['mass']
            else:
                kk = kinds or ['mass', 'helm', 'helm', 'poisson', 'adv', 'var', 'biharm']
            return dict(t=t, op=draw(systems.ops(t, kk)), seed=draw(S.integers(0, 10**6)), how=draw(S.integers(0, 11)),
                        reps=draw(S.integers(1, 2)), inplace=draw(S.booleans()))
        return g()
    return make


def lab(c):
    return tp.labels(c['t'])+[c['op']['kind'], c['op']['form'], 'poly=%d' % sum(s['fam'] != 'F' for s in c['t']['b'])]


SUBS = [
    Sub('one', gen((2, 2, 3), 'F C L U Q', 1, 5), run, 350, 6000, 'operator other than the mass matrix', lambda c: c['op']['kind'] != 'mass', lab, (4, 8), (90, 1500)),
    Sub('two', gen((2, 2, 3), 'F C L U Q La', 2, 3), run, 250, 4000, 'operator other than the mass matrix', lambda c: c['op']['kind'] != 'mass', lab, (4, 8), (90, 1500)),
]

ASSUMPTIONS = ['Problems count as well-posed if the condition number of the independently assembled dense matrix is below 1e7.',
               'Gauss quadrature, and values of boundary conditions on at most one axis in three dimensions (two axes in two dimensions).',
               'Nyquist coefficients of Fourier series are not compared.']
