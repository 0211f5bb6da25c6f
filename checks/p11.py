"""P11 tensor-product and block solvers solve their systems."""
import numpy as np

from checks import p08, p13
from vlib import defs, forms, spaces, systems, tp
from vlib.core import Inconclusive, Sub, check
from vlib.tp import drop_nyquist

TECH = 'property-based testing (Hypothesis): generated systems of operators against dense matrices assembled independently and known solutions'
NOTE = ('Random sums of tensor-product operators with zero to three non-diagonal directions and random block systems over composite spaces; each '
        'solver has to return the coefficients of a known solution whose right-hand side is computed independently, repeatedly and for '
        'constraints on singular modes. Only systems with an independently computed condition number below 1e7 count.')
near = p13.near


def plain(t):
    return dict(t, b=[dict(s) if s['fam'] == 'F' else {k: v for k, v in s.items() if k in ('fam', 'N', 'quad', 'dom', 'dtype', 'alpha', 'beta')} | {'basis': None}
                      for s in t['b']])


def run_block(c):
    """Blocks between spaces with and without conditions, diagonal blocks elliptic."""
    from shenfun import BlockMatrix, CompositeSpace, Function, TestFunction, TrialFunction, VectorSpace, la
    t = c['t']
    p08.usable(t)
    nd = len(t['b'])
    n = c['n']
    T = tp.build(t)
    T2 = tp.build(plain(t))
    kinds = [0]*nd if c['vec'] else [k % 2 for k in c['which']][:n]
    n = len(kinds)
    ts = [[t, plain(t)][k] for k in kinds]
    V = VectorSpace(T) if c['vec'] else CompositeSpace([[T, T2][k] for k in kinds])
    blocks = []
    for i in range(n):
        op = dict(c['op'], kind='mass') if kinds[i] else c['op']
        blocks += [(i, i, tt, te) for tt, te in systems.operator(ts[i], op)]
    for i, j, tt, te in c['off']:
        i, j = i % n, j % n
        if i != j:
            blocks.append((i, j, tt, te))
    blocks = [(i, j, tt, forms.within(tt, te, range(nd))) for i, j, tt, te in blocks]
    D = {}
    for i, j, tt, te in blocks:
        D[i, j] = D.get((i, j), 0)+systems.half(ts[j], systems.dense(ts[i], ts[j], [(tt, te)]), ts[i])
    A = np.block([[D[i, j] if (i, j) in D else np.zeros((D[i, i].shape[0], D[j, j].shape[0])) for j in range(n)] for i in range(n)])
    k = systems.cond(A)
    inv = np.abs(np.linalg.inv(A)).sum(1).max()
    v, w = TestFunction(V), TrialFunction(V)
    mats = []
    for i, j, tt, te in blocks:
        mats += systems.assemble([(tt, te)], v[i], w[j], nd)
    S = la.BlockMatrixSolver(mats) if c['how'] % 2 else BlockMatrix(mats)
    xs, ws = forms.grid(t, 12)
    for rep in range(c['reps']):
        f = Function(V)
        for i in range(n):
            f[i] = drop_nyquist(t, tp.random_coef(ts[i], c['seed']+7*rep+i))
        f.set_boundary_dofs()
        u = np.array(f)
        b = Function(V)
        mag = 1
        for i, j, tt, te in blocks:
            e, m = systems.rhs(ts[i], [(tt, te)], u[j], xs, ws, ts[j])
            b[(i,)+tuple(slice(0, q) for q in p08.dims(ts[i]))] += e
            mag += m
        tol = 1e-13*(mag*inv*30+k*max(1, np.abs(u).max()))
        if not np.isfinite(tol) or tol > 1e-4:
            raise Inconclusive()
        x = np.array(S(b, Function(V)) if c['how'] % 2 else S.solve(b, Function(V)))
        for i in range(n):
            near(drop_nyquist(t, x[i]), u[i], tol, 'component %d of solution %d by %s', i, rep, type(S).__name__)


def gen_block():
    S = spaces.st()

    @S.composite
    def g(draw):
        t = draw(tp.specs('F F C L U', ndims=(2, 2, 3), maxpoly=2, hi=2, values=True).map(forms.gauss))
        p08.safe(t)
        tm = forms.gen_terms(t, maxk=0, maxp=0, maxterms=1)
        return dict(t=t, n=draw(S.integers(2, 3)), which=draw(S.lists(S.integers(0, 1), min_size=3, max_size=3)), vec=draw(S.booleans()),
                    op=draw(systems.ops(t, ['mass', 'helm', 'helm', 'adv', 'poisson'])), off=draw(S.lists(S.tuples(S.integers(0, 2), S.integers(0, 2), tm, tm).map(list), max_size=3)),
                    seed=draw(S.integers(0, 10**6)), how=draw(S.integers(0, 1)), reps=draw(S.integers(1, 2)))
    return g()


def run_all(c):
    """All applicable solvers, one after another on the same system; residual by the package's own matvec."""
    from shenfun import BlockMatrix, Function, TestFunction, TrialFunction, la
    t, pairs, k, size, inv = p13.problem(c)
    nd = len(t['b'])
    T = tp.build(t)
    v, w = TestFunction(T), TrialFunction(T)
    new = lambda: systems.assemble(pairs, v, w, nd)
    f = Function(T)
    f[:] = drop_nyquist(t, tp.random_coef(t, c['seed']))
    f.set_boundary_dofs()
    u = np.array(f)
    xs, ws = forms.grid(t, 12)
    E, mag = systems.rhs(t, pairs, u, xs, ws)
    b = Function(T)
    b[tuple(slice(0, m) for m in p08.dims(t))] = E
    tol = 1e-13*(mag*inv*30+k*max(1, np.abs(u).max()))
    if not np.isfinite(tol) or tol > 1e-4:
        raise Inconclusive()
    n = len(T.get_nondiagonal_axes())
    todo = {'BlockMatrixSolver': la.BlockMatrixSolver, 'BlockMatrix': lambda A: (lambda b, u: BlockMatrix(A).solve(b, u))}
    if n == 0:
        todo['SolverDiagonal'] = la.SolverDiagonal
    if n == 1 and nd <= 3:
        todo['SolverGeneric1ND'] = la.SolverGeneric1ND
        todo['slow SolverGeneric1ND'] = lambda A: (lambda b, u, S=la.SolverGeneric1ND(A): S(b, u, fast=False))
    if n == 2 and nd <= 3:
        todo['SolverGeneric2ND'] = la.SolverGeneric2ND
    if n == nd:
        todo[{2: 'Solver2D', 3: 'Solver3D'}[nd]] = {2: la.Solver2D, 3: la.Solver3D}[nd]
        todo['SolverND'] = la.SolverND
    for name in sorted(todo):
        S = todo[name](new())
        for rep in range(2):
            x = S(b.copy(), Function(T))
            near(drop_nyquist(t, np.array(x)), u, tol, 'solution %d by %s', rep, name)


def gen_all():
    S = spaces.st()

    @S.composite
    def g(draw):
        t = draw(tp.specs('F F C L U Q', ndims=(2, 2, 3), maxpoly=3, hi=2, values=True).map(forms.gauss))
        p08.safe(t)
        return dict(t=t, op=draw(systems.ops(t)), seed=draw(S.integers(0, 10**6)))
    return g()


def run_constraint(c):
    """Operators singular on the zero wavenumber, with the constraint that fixes it."""
    from shenfun import Function, TestFunction, TrialFunction, la
    t = c['t']
    p08.usable(t)
    nd = len(t['b'])
    pairs = systems.operator(t, c['op'])
    A = systems.half(t, systems.dense(t, t, pairs))
    T = tp.build(t)
    ax = [i for i, s in enumerate(t['b']) if s['fam'] != 'F']
    # independent system with the constraint row
    A = A.copy()
    n = tp.norm(t)['b']
    d = [m for m in p08.dims(t)]
    A[0] = 0
    A[0, 0] = 1
    s = np.linalg.svd(systems.half(t, systems.dense(t, t, pairs)), compute_uv=False)
    if len(s) < 2 or s[-1] > 1e-10*s[0] or s[-2] < 1e-6*s[0]:
        raise Inconclusive()        # exactly one singular mode
    k = systems.cond(A)
    inv = np.abs(np.linalg.inv(A)).sum(1).max()
    v, w = TestFunction(T), TrialFunction(T)
    mats = systems.assemble(pairs, v, w, nd)
    nn = len(T.get_nondiagonal_axes())
    how = c['how'] % 2 if nd <= 3 else 0
    if how == 0:
        S, con = la.BlockMatrixSolver(mats), lambda q: ((0, 0, q),)
    elif nn == 0:
        S, con = la.SolverDiagonal(mats), lambda q: ((0, q),)
    elif nn == 1:
        S, con = la.SolverGeneric1ND(mats), lambda q: ((0, q),)
    elif nn == 2 and (c['how'] > 1 or nn < nd):
        S, con = la.SolverGeneric2ND(mats), lambda q: ((0, q),)
    elif nn == nd:
        S, con = la.SolverND(mats), lambda q: ((0, q),)
    else:
        S, con = la.BlockMatrixSolver(mats), lambda q: ((0, 0, q),)
    xs, ws = forms.grid(t, 12)
    val = [0, c['val']][c['val'] != 0 and not (nn == 0 and how)]
    for rep in range(c['reps']):
        u = drop_nyquist(t, tp.random_coef(t, c['seed']+rep))
        u[(0,)*nd] = val
        E, mag = systems.rhs(t, pairs, u, xs, ws)
        b = Function(T)
        b[tuple(slice(0, m) for m in d)] = E
        x = S(b, Function(T), constraints=con(val))
        tol = 1e-13*(mag*inv*30+k*max(1, np.abs(u).max()))
        near(drop_nyquist(t, np.array(x)), u, tol, 'solution %d by %s with a constraint', rep, type(S).__name__)


def gen_constraint():
    S = spaces.st()

    @S.composite
    def g(draw):
        t = draw(tp.specs('F F C L', ndims=(2, 2, 3), maxpoly=2, hi=4, generic=False).map(forms.gauss))
        for s in t['b']:
            if s['fam'] != 'F':
                for q in ('bcd', 'bcv', 'bc'):
                    s.pop(q, None)
                s['basis'] = 'ShenNeumann' if s['fam'] in 'CL' else None
                s['N'] = max(s['N'], 4)
        return dict(t=t, op=draw(systems.ops(t, ['poisson'])), seed=draw(S.integers(0, 10**6)), how=draw(S.integers(0, 3)),
                    val=draw(S.sampled_from([0, 0, 0.5, -2])), reps=draw(S.integers(1, 2)))
    return g()


def lab(c):
    return tp.labels(c['t'])+[c['op']['kind'], c['op']['form'], 'poly=%d' % sum(s['fam'] != 'F' for s in c['t']['b'])]


SUBS = [
    Sub('block', gen_block, run_block, 250, 4000, 'two or three components', None, lab, (4, 8), (90, 1500)),
    Sub('all', gen_all, run_all, 200, 4000, 'operator other than the mass matrix', lambda c: c['op']['kind'] != 'mass', lab, (4, 8), (90, 1500)),
    Sub('constraint', gen_constraint, run_constraint, 150, 3000, 'a constrained singular system', None, lab, (2, 8), (80, 1500)),
]

ASSUMPTIONS = p13.ASSUMPTIONS+['Constraints fix the coefficient of the constant; the operator has exactly one singular mode.',
                               'Purely diagonal solvers set the constrained wavenumber to zero.']
