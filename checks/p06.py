"""P06 basis functions and their derivatives are the documented ones."""
import numpy as np

from vlib import defs, ref, spaces
from vlib.core import Inconclusive, Sub, check

FAMS = 'C L U Q J La H'


TECH = 'property-based testing (Hypothesis) against independent extended-precision definitions'
NOTE = ('Every named basis of every family and generated boundary condition combinations are evaluated (numerically, '
        'symbolically, through the stencil matrix) at generated points and derivative orders and compared with definitions '
        'computed without shenfun. Assumes the documented basis formulas; bounded sizes (N up to ~30).')


def pts(s, seed, n=5):
    r = spaces.rng(seed)
    if s['fam'] == 'La':
        return r.uniform(0, 20, n)
    if s['fam'] == 'H':
        return r.uniform(-4, 4, n)
    x = r.uniform(-1, 1, n)
    if seed % 3 == 0:
        x[0], x[-1] = -1, 1
    return x


def refspec(s):
    """The definition on the reference domain (basis evaluation functions take reference points)."""
    return {k: v for k, v in s.items() if k != 'dom'}


def ref_trial(s, x, k):
    """Definition evaluated at reference points, boundary functionals scaled to the reference domain."""
    S = defs.stencil(s)
    al, be = defs.params(s)
    B = ref.basis(s['fam'], s['N'], x, k, al, be)
    C = defs.lift(s) if defs.nbc(s) else np.zeros((0, s['N']))
    Bl = ref.basis(s['fam'], C.shape[1], x, k, al, be) if len(C) else np.zeros((len(x), 0))
    scale = np.abs(B) @ np.abs(S).T
    return (B @ S.T), (Bl @ C.T if len(C) else np.zeros((len(x), 0))), scale


def close(A, R, scale, tol, what, s):
    A = np.asarray(A, dtype=float)
    R = np.asarray(R, dtype=float)
    check(A.shape == R.shape, "%s: shape %s instead of %s", what, A.shape, R.shape)
    sc = np.maximum(np.asarray(scale, dtype=float), 1e-30)
    e = np.abs(A-R)/np.maximum(sc, np.max(sc)*1e-6)
    check(np.all(np.isfinite(A)), "%s: not finite", what)
    check(e.max(initial=0) < tol, "%s differs from the definition by %.2e (relative) at %s", what, e.max(),
          np.unravel_index(e.argmax(), e.shape))


def run_numeric(c):
    s, k = c['s'], c['k']
    if not spaces.ok(s):
        raise Inconclusive()
    x = pts(s, c['seed'])
    B = spaces.build(s)
    n = defs.nbc(s)
    d = s['N']-n
    R, Rb, sc = ref_trial(s, x, k)
    # differentiation amplifies rounding like N^(2k)
    tol = 1e-11*(1 if k == 0 else 10.0**k)*(50 if s['fam'] in ('La', 'H') else 1)
    check(B.dim() == d, "dim() is %s instead of %d", B.dim(), d)
    V = B.evaluate_basis_derivative_all(x.copy(), k=k)
    close(V[:, :d], R, sc+np.abs(R).max(initial=0)*(k > 0), tol, 'evaluate_basis_derivative_all(k=%d)' % k, s)
    if k == 0:
        V = B.evaluate_basis_all(x.copy())
        close(V[:, :d], R, sc, tol, 'evaluate_basis_all', s)
    i = c['i'] % d
    v = B.evaluate_basis_derivative(x.copy(), i=i, k=k)
    close(v, R[:, i], sc[:, i]+np.abs(R[:, i]).max()*(k > 0), tol, 'evaluate_basis_derivative(i=%d, k=%d)' % (i, k), s)
    if k == 0:
        v = B.evaluate_basis(x.copy(), i=i)
        close(v, R[:, i], sc[:, i], tol, 'evaluate_basis(i=%d)' % i, s)
    if n and s['fam'] != 'H':
        bb = B.get_bc_space()
        Vb = bb.evaluate_basis_derivative_all(x.copy(), k=k)
        close(Vb[:, :n], Rb, np.abs(Rb)+1, 1e-10, 'boundary functions, derivative %d' % k, s)
        j = c['i'] % n
        vb = B.evaluate_basis_derivative(x.copy(), i=d+j, k=k)
        close(vb, Rb[:, j], np.abs(Rb[:, j])+1, 1e-10, 'boundary function %d, derivative %d' % (j, k), s)
        T = B.evaluate_basis_derivative_all(x.copy(), k=k, argument=1)
        close(T[:, d:], Rb, np.abs(Rb)+1, 1e-10, 'trial boundary functions, derivative %d' % k, s)
        close(T[:, :d], R, sc+np.abs(R).max()*(k > 0), tol, 'trial functions, derivative %d' % k, s)


def run_symbolic(c):
    import sympy as sp
    s = c['s']
    if not spaces.ok(s):
        raise Inconclusive()
    x = pts(s, c['seed'], 3)
    B = spaces.build(s)
    n = defs.nbc(s)
    d = s['N']-n
    X = sp.Symbol('x', real=True)
    i = c['i'] % d
    R, Rb, sc = ref_trial(s, x, 0)
    f = B.basis_function(i=i, x=X)
    v = np.array([complex(sp.N(sp.sympify(f).subs(X, sp.Float(t, 30)), 25)) for t in x]).real
    close(v, R[:, i], sc[:, i], 1e-9, 'basis_function(%d)' % i, s)
    f = B.orthogonal_basis_function(i=i, x=X)
    v = np.array([complex(sp.N(sp.sympify(f).subs(X, sp.Float(t, 30)), 25)) for t in x]).real
    al, be = defs.params(s)
    P = ref.basis(s['fam'], s['N'], x, 0, al, be)
    close(v, P[:, i], np.abs(P[:, i])+1e-3, 1e-9, 'orthogonal_basis_function(%d)' % i, s)
    if n:
        j = c['i'] % n
        f = B.basis_function(i=d+j, x=X)
        v = np.array([complex(sp.N(sp.sympify(f).subs(X, sp.Float(t, 30)), 25)) for t in x]).real
        close(v, Rb[:, j], np.abs(Rb[:, j])+1, 1e-9, 'basis_function(%d) (boundary)' % (d+j), s)


def run_matrix(c):
    """stencil_matrix, norms and weight against independent definitions."""
    s = c['s']
    if not spaces.ok(s):
        raise Inconclusive()
    B = spaces.build(s)
    n = defs.nbc(s)
    N = s['N']
    d = N-n
    M = c.get('M') or N
    s2 = dict(s, N=M)
    if n:
        A = B.stencil_matrix(M) if M != N else B.stencil_matrix()
        A = A.diags().toarray()
        R = defs.stencil(s2).astype(float)
        close(A[:M-n], R, np.abs(R).max(axis=1)[:, None]+0*R, 1e-11, 'stencil_matrix', s)
        if s['fam'] != 'La' or True:
            # repeated and different sizes: nothing cached may leak
            A2 = B.stencil_matrix(N).diags().toarray()
            R2 = defs.stencil(s).astype(float)
            close(A2[:d], R2, np.abs(R2).max(axis=1)[:, None]+0*R2, 1e-11, 'stencil_matrix again', s)
    O = B.get_orthogonal() if n else B
    al, be = defs.params(s)
    h = np.array([defs.fnorm(s['fam'], i, al, be) for i in range(N)])
    # a Gauss-Lobatto rule is one degree short for the square of the last function
    H = np.zeros(N)
    H[:] = np.asarray(O.l2_norm_sq(), dtype=float)*np.ones(N)
    m = N-1 if s.get('quad') == 'GL' or (s['fam'] == 'U' and s.get('quad') == 'GC') else N
    close(H[:m], h[:m], h[:m], 1e-11, 'l2_norm_sq', s)
    if m == 0:
        return
    i = c['i'] % m
    hi = float(O.l2_norm_sq(i))
    close(hi, h[i], h[i], 1e-11, 'l2_norm_sq(%d)' % i, s)


def gen(**kw):
    def g():
        S = spaces.st()
        return S.fixed_dictionaries(dict(s=spaces.specs(FAMS, generic=True, **kw), k=S.integers(0, 4),
                                         i=S.integers(0, 40), seed=S.integers(0, 10**6)))
    return g


def gen_num():
    S = spaces.st()
    def fix(c):
        if c['s']['fam'] == 'H':            # third derivatives of Hermite functions: NotImplementedError by design
            c['k'] = min(c['k'], 2)
        return c
    return S.fixed_dictionaries(dict(s=spaces.specs(FAMS, generic=True, slow=False), k=S.integers(0, 4),
                                     i=S.integers(0, 40), seed=S.integers(0, 10**6))).map(fix)


def gen_lah():
    S = spaces.st()
    def fix(c):
        if c['s']['fam'] == 'H':
            c['k'] = min(c['k'], 2)
        return c
    return S.fixed_dictionaries(dict(s=spaces.specs('La H', generic=True, nmin=4), k=S.integers(0, 4),
                                     i=S.integers(0, 40), seed=S.integers(0, 10**6))).map(fix)


def gen_slow():
    S = spaces.st()
    only = {b for f, b in spaces.SLOW}
    return S.fixed_dictionaries(dict(s=spaces.specs('CUQL', slow=True, maxbc=12, only=only | {'Phi3'}, hi=8),
                                     k=S.integers(0, 3), i=S.integers(0, 40), seed=S.integers(0, 10**6)))


def gen_mat():
    S = spaces.st()
    return S.fixed_dictionaries(dict(s=spaces.specs('C L U Q J La', generic=True), i=S.integers(0, 40),
                                     M=S.one_of(S.none(), S.integers(10, 40))))


def nt(c):
    return c['s']['N']-defs.nbc(c['s']) > 1


L = lambda c: [spaces.label(c['s'])]
SUBS = [
    Sub('numeric', gen_num, run_numeric, 420, 6000, 'more than one basis function in the space', nt, L, (6, 8), (70, 1500)),
    Sub('unbounded', gen_lah, run_numeric, 90, 1500, 'more than one basis function in the space', nt, L, (2, 4), (50, 1000)),
    Sub('highorder', gen_slow, run_numeric, 24, 200, 'more than one basis function in the space', nt, L, (1, 4), (70, 1500)),
    Sub('symbolic', gen(hi=8), run_symbolic, 120, 1200, 'more than one basis function in the space', nt, L, (2, 8), (70, 1500)),
    Sub('stencil', gen_mat, run_matrix, 240, 3000, 'more than one basis function in the space', nt, L, (3, 8), (70, 1500)),
]
ASSUMPTIONS = [
    'reference values come from three-term recurrences and null spaces computed in extended precision',
    'basis evaluation functions take points of the reference domain',
]
