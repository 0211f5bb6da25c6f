"""P03 fast and reference transform algorithms agree."""
import numpy as np

from vlib import defs, one, spaces, tp
from vlib.core import Inconclusive, Sub, check

TECH = 'differential property-based testing (Hypothesis): every algorithm of a transform against the defining sum, line by line'
NOTE = ('Random spaces of all families, planned on arrays of 1 to 4 dimensions along any axis, real and complex; the fast, recursive and '
        'matrix algorithms of backward, forward and scalar product are compared with the sums that define them.')
KINDS = {'C': ['fast', 'recursive', 'vandermonde'], 'U': ['fast', 'recursive', 'vandermonde'],
         'L': ['fast', 'recursive', 'vandermonde'], 'Q': ['recursive', 'vandermonde'],
         'J': ['recursive', 'vandermonde'], 'La': ['vandermonde'], 'H': ['vandermonde'], 'F': ['fast', 'vandermonde']}


def close(a, b, tol, what, *args):
    a = np.asarray(a)
    check(a.shape == b.shape, what+': shape %s, expected %s', *args, a.shape, b.shape)
    e = np.max(np.abs(a-b), initial=0)
    check(np.isfinite(e) and e <= tol, what+': error %.2e (allowed %.1e)', *args, e, tol)


def lines(f, x, axis):
    """Apply f to every line along axis."""
    y = np.moveaxis(x, axis, 0)
    out = f(y.reshape(y.shape[0], -1))
    return np.moveaxis(out.reshape((out.shape[0],)+y.shape[1:]), 0, axis)


def real_lines(s, B, r, shape, cplx):
    """Random coefficients; lines of a real Fourier basis belong to real functions."""
    c = r.uniform(-1, 1, shape)
    if cplx or s['fam'] == 'F':
        c = c+1j*r.uniform(-1, 1, shape)
    return c


def run_lines(c):
    s, axis = c['s'], c['axis']
    if not spaces.ok(s) or s['N']-defs.nbc(s) < 1:
        raise Inconclusive()
    kap = one.cond(s)
    if kap > 1e8:
        raise Inconclusive()
    nd = len(c['others'])+1
    axis %= nd
    four = s['fam'] == 'F'
    real = four and s['dtype'] == 'd'
    dt = 'd' if real or not (c['cplx'] or four) else 'D'
    pf = c['pf'] if int(c['pf']*s['N']) > s['N'] and not (four or s['fam'] in ('La', 'H')) and s['N'] > 3 else 1
    if spaces.QUADS[s['fam']][0] and s['fam'] in ('J', 'La', 'H') and pf != 1:
        pf = 1
    kw = {} if four else dict(dtype=dt)
    if pf != 1:
        kw['padding_factor'] = pf
    B = spaces.build(s, **kw)
    r = spaces.rng(c['seed'])
    X = np.asarray(B.mesh(bcast=False, map_true_domain=False))
    M = len(X)
    sh = list(c['others'])
    sh.insert(axis, M)
    if nd > 1:
        B.plan(tuple(sh), axis, np.dtype(dt), {})
    n = s['N']//2+1 if real else s['N']
    d = n-defs.nbc(s)
    csh = list(sh)
    csh[axis] = n
    # coefficients: every line is a random vector of the space, with the dofs of its boundary values
    u = np.empty(csh, dtype=complex if dt == 'D' or four else float)
    um = np.moveaxis(u, axis, 0).reshape(n, -1)
    k = um.shape[1]
    um = np.array([one.random_coef(s, c['seed']+i, dt == 'D') for i in range(k)]).T
    ush = [n]+[q for i, q in enumerate(csh) if i != axis]
    u[...] = np.moveaxis(um.reshape(ush), 0, axis)
    V = defs.to_phys(s, X)
    a = one.amp(s, X)
    tol = 1e-13*(10+s['N'])*a
    R = lines(lambda z: np.array([one.backward(s, z[:, i], X) for i in range(z.shape[1])]).T, u, axis)
    # the scalar product with every basis function
    f = r.uniform(-1, 1, sh)+(1j*r.uniform(-1, 1, sh) if dt == 'D' else 0)
    xq, wq = B.points_and_weights(M, map_true_domain=False)
    wq = np.asarray(wq, dtype=float)/float(B.domain_factor())
    T = np.asarray(defs.orth(s, V) if four else defs.trial(s, V))
    SP = lines(lambda z: np.conj(T).T @ (wq[:, None]*z), f, axis)
    stol = 1e-13*(10+s['N'])*a*float(np.sum(np.abs(wq)))*(1 if s['fam'] not in ('La', 'H') else 10)
    keep = {}
    sl = [slice(None)]*nd
    sl[axis] = slice(0, d)
    sl = tuple(sl)
    kinds = [q for q in KINDS[s['fam']] if not (q == 'fast' and s['fam'] == 'L' and s['quad'] == 'GL')]
    kinds = kinds+[None, kinds[c['seed'] % len(kinds)]]
    for kind in kinds:
        kk = {'kind': kind} if kind else {}
        w = 'kind=%s, axis %d of %s' % (kind, axis, tuple(sh))
        u0, f0 = u.copy(), f.copy()
        close(np.array(B.backward(u.copy(), **kk)) if not c['out'] else
              np.array(B.backward(u0, np.full(sh, 7.0, dtype=R.dtype if dt == 'd' else complex), **kk)), R, tol, 'backward, '+w)
        check(np.array_equal(u, u0), 'backward, %s, changed its input', w)
        o = np.array(B.scalar_product(f0, np.full(csh, 7.0, dtype=u.dtype), **kk) if c['out'] else B.scalar_product(f0, **kk))
        close(o[sl], SP[sl] if SP.shape[axis] >= d else SP, stol, 'scalar product, '+w)
        check(np.array_equal(f, f0), 'scalar product, %s, changed its input', w)
        o = np.array(B.forward(f0, np.full(csh, 7.0, dtype=u.dtype), **kk) if c['out'] else B.forward(f0, **kk))
        if 'f' in keep:
            close(o, keep['f'], 10*stol*kap*keep['scale'], 'forward, '+w)
        else:
            al, be = (None, None) if four else defs.params(s)
            keep['f'] = o
            # inverse of the (quadrature) mass matrix amplifies by at most its condition over its size
            keep['scale'] = 1 if four else max(1, 1/min(defs.fnorm(s['fam'], i, al, be) for i in range(s['N'])))
        check(np.array_equal(f, f0), 'forward, %s, changed its input', w)
    if not four and s['fam'] not in ('La', 'H') and pf == 1:
        XU = np.asarray(B.mesh(bcast=False, map_true_domain=False, kind='uniform'))
        RU = lines(lambda z: np.array([one.backward(s, z[:, i], XU) for i in range(z.shape[1])]).T, u, axis)
        for kind in [q for q in kinds if q]:
            close(np.array(B.backward(u.copy(), kind=kind, mesh='uniform')), RU, 10*tol, 'backward on a uniform mesh, kind=%s, axis %d of %s',
                  kind, axis, tuple(sh))


def gen_lines():
    S = spaces.st()
    return S.fixed_dictionaries(dict(s=spaces.specs('C L U Q J La H F', generic=True, values=True, hi=14, big=True),
                                     others=S.lists(S.integers(1, 3), max_size=3), axis=S.integers(0, 3), cplx=S.booleans(), out=S.booleans(),
                                     pf=S.sampled_from([1, 1, 1, 1.5, 2]), seed=S.integers(0, 10**6)))


NAMES = {'C': 'chebyshev', 'U': 'chebyshevu', 'L': 'legendre', 'Q': 'ultraspherical', 'J': 'jacobi', 'La': 'laguerre', 'H': 'hermite'}


def run_tensor(c):
    from shenfun import Array, Function
    t = c['t']
    if not tp.ok(t):
        raise Inconclusive()
    kap = np.prod([one.cond(s) for s in t['b']])
    if kap > 1e6:
        raise Inconclusive()
    n = tp.norm(t)
    T = tp.build(t)
    r = spaces.rng(c['seed'])
    u = tp.random_coef(t, c['seed'])
    f = r.uniform(-1, 1, T.shape(False))
    if T.forward.input_array.dtype.kind == 'c':
        f = f+1j*r.uniform(-1, 1, f.shape)
    xs = [np.asarray(b.mesh(bcast=False, map_true_domain=True)) for b in T.bases]
    R = tp.evaluate(n, u, xs)
    SP = f
    ws = 1
    a = 1
    for i, (s, b) in enumerate(zip(n['b'], T.bases)):
        X, w = b.points_and_weights(len(xs[i]), map_true_domain=False)
        w = np.asarray(w, dtype=float)/float(b.domain_factor())
        P = np.asarray(defs.orth(s, xs[i]) if s['fam'] == 'F' else defs.trial(s, xs[i]))
        SP = np.moveaxis(np.tensordot(np.conj(P).T*w, SP, (1, i)), 0, i)
        a *= one.amp(s, X)
        ws *= np.abs(w).sum()
    sl = tuple(slice(0, m-(defs.nbc(s) if s['fam'] != 'F' else 0)) for m, s in zip(u.shape, n['b']))
    fw = None
    for kind in c['kinds']:
        kk = {'kind': {NAMES[q]: (k if k in KINDS[q] else 'vandermonde') for q, k in kind.items()}}
        if kk['kind'].get('legendre') == 'fast' and any(s['fam'] == 'L' and s['quad'] == 'GL' for s in t['b']):
            kk['kind']['legendre'] = 'recursive'
        close(T.backward(u.copy(), Array(T), **kk), R, 2e-12*a, 'backward, %s', kk)
        o = np.array(T.scalar_product(f.copy(), Function(T), **kk))
        close(o[sl], SP[sl], 2e-12*a*ws, 'scalar product, %s', kk)
        o = np.array(T.forward(f.copy(), Function(T), **kk))
        if fw is not None:
            close(o, fw, 2e-11*kap*max(1, np.abs(fw).max()), 'forward, %s', kk)
        fw = o


def gen_tensor():
    S = spaces.st()
    K = S.fixed_dictionaries({q: S.sampled_from(['fast', 'recursive', 'vandermonde']) for q in 'CULQJ'})
    return S.fixed_dictionaries(dict(t=tp.specs('F F C L U Q J', ndims=(2, 2, 3), maxpoly=2, hi=5), kinds=S.lists(K, min_size=2, max_size=3),
                                     seed=S.integers(0, 10**6)))


SUBS = [
    Sub('lines', gen_lines, run_lines, 900, 15000, 'more than one coefficient', lambda c: c['s']['N']-defs.nbc(c['s']) > 1,
        lambda c: [spaces.label(c['s']), '%dD' % (len(c['others'])+1)], (5, 8), (90, 1500)),
    Sub('tensor', gen_tensor, run_tensor, 200, 4000, 'at least two bases', None, lambda c: tp.labels(c['t']), (3, 8), (80, 1500)),
]
ASSUMPTIONS = ['the quadrature points and weights are right (decided by P04)', 'Legendre fast transforms are only used with Gauss points']
