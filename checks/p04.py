"""P04 quadrature rules are exact to their nominal degree."""
import numpy as np

from vlib import defs, ref, spaces, tp
from vlib.core import Inconclusive, Sub, check

TECH = 'property-based testing (Hypothesis): moments of all orthogonal polynomials up to the nominal degree, roots of the recurrence, affine image of the mesh'
NOTE = ('Every family and rule with random sizes (Gauss-Legendre up to 2e5 points), domains and parameters; weighted and unweighted '
        'weights; 1-D, padded and tensor product meshes.')
PI = np.pi


def moments(fam, deg, x, al, be):
    return np.asarray(ref.polys(fam, deg+1, x, 0, al, be), dtype=float)


def run_rule(c):
    s = c['s']
    B = spaces.build(s)
    fam, N, q = s['fam'], s['N'], s.get('quad')
    M = int(np.floor(N*s.get('pf', 1)+1e-8))
    k = {} if c['arg'] == 0 else dict(N=M)
    if c['arg'] == 2 and fam not in 'JQ' and c['M'] >= 3:
        M = c['M']
        k = dict(N=M)
    wt = c['weighted']
    if not wt:
        k['weighted'] = False
    x, w = [np.asarray(v, dtype=float) for v in B.points_and_weights(**k)]
    xt = np.asarray(B.points_and_weights(map_true_domain=True, **k)[0], dtype=float)
    check(x.shape == (M,), "%d points instead of %d", len(x), M)
    check(np.all(np.isfinite(x)) and np.all(np.isfinite(w)), "not finite")
    y = np.asarray(defs.to_phys(s, x), dtype=float)
    check(np.max(np.abs(y-xt)) < 1e-14*(1+np.max(np.abs(y)))*10, "points on the true domain are not the affine image")
    if fam == 'F':
        check(np.allclose(x, np.arange(M)*2*PI/M, atol=1e-13), "points of the Fourier rule")
        W = np.broadcast_to(w, M)
        L = 2*PI/M
        # weight function is one over the length of the true domain
        dl = float(defs.df(s))
        check(np.allclose(W, dl/M if wt else L, rtol=1e-13), "weights of the Fourier rule: %s", w[0])
        return
    check(w.shape == (M,), "%d weights", len(w))
    if fam in ('La', 'H'):
        check(np.all(np.diff(x) > 0), "points are not ordered")
        xr, wr = ref.gauss_laguerre(M) if fam == 'La' else ref.gauss_hermite(M)
        check(np.max(np.abs(x-xr)) < 1e-11*(1+np.max(np.abs(xr))), "points of the %s rule: error %.1e", fam, np.max(np.abs(x-xr)))
        wx = w*(np.exp(-x) if fam == 'La' else np.exp(-x*x)) if wt else w
        check(np.all(w > 0), "weights are not positive")
        # integral of every product of two functions
        n = min(M, 16)
        V = np.asarray(ref.polys('La' if fam == 'La' else 'Hn', n, x, 0), dtype=float)
        G = (V*wx[:, None]).T @ V
        e = np.max(np.abs(G-np.eye(n)))
        check(e < 1e-10*M, "the %s rule is not exact for products of functions: error %.1e", fam, e)
        return
    al, be = [float(v) for v in defs.params(s)]
    a, b = ref.weight_exponents(fam, al, be) if wt else (0.0, 0.0)
    up = {'C': -1, 'U': -1}.get(fam, 1)
    d = np.diff(x)
    check(np.all(d*up > 0), "points are not ordered")
    check(x.min() >= -1-1e-15 and x.max() <= 1+1e-15, "points outside the domain")
    if wt or fam in 'CUL':
        check(np.all(w > 0), "weights are not positive")
    if q == 'GL':
        check(abs(abs(x[0])-1) < 1e-15 and abs(abs(x[-1])-1) < 1e-15, "the Gauss-Lobatto rule lacks an end point")
    if wt or fam == 'L':
        deg = 2*M-1 if q not in ('GL',) and (fam, q) != ('U', 'GC') else 2*M-3
        mf = fam if fam in 'JQ' else {'C': 'C', 'U': 'U', 'L': 'L'}[fam]
    else:
        deg = M-1 if fam not in 'JQ' else min(M, N)-1
        mf = 'L'
    if mf in 'JQ':
        P = moments('J', deg, x, al, be if fam == 'J' else al)
        from math import lgamma, log, exp
        be2 = be if fam == 'J' else al
        mu = exp((al+be2+1)*log(2)+lgamma(al+1)+lgamma(be2+1)-lgamma(al+be2+2))
    else:
        P = moments(mf, deg, x, 0.0, 0.0)
        mu = {'C': PI, 'U': PI/2, 'L': 2.0}[mf]
    I = w @ P
    I[0] -= mu
    e = np.abs(I)/(np.sum(np.abs(w))*np.max(np.abs(P), axis=0).clip(1)*(1+1/M)**2)
    check(np.max(np.abs(e)) < 1e-13*(20+M), "the rule is not exact for polynomial %d of degree at most %d: error %.1e",
          int(np.argmax(e)), deg, np.max(np.abs(I)))


def gen_rule():
    S = spaces.st()

    @S.composite
    def gen(draw):
        s = draw(spaces.specs('C L U Q J La H F', only=['Orthogonal'], hi=draw(S.sampled_from([12, 12, 40])), nmin=1))
        c = dict(s=s, weighted=draw(S.booleans()), arg=draw(S.integers(0, 2)), M=draw(S.integers(1, 70)))
        if s['fam'] in ('La', 'H'):
            s['N'] = min(s['N'], 60)
            c['M'] = min(c['M'], 60)
        elif draw(S.integers(0, 3)) == 0 and s['fam'] not in 'JQ' and s['N'] > 3:
            s['pf'] = draw(S.sampled_from([1.5, 2]))
        if s['fam'] in 'JQ' and not c['weighted']:     # sympy integrates every polynomial
            s['N'] = min(s['N'], 9)
            s['alpha'] = int(abs(s['alpha']))
            if 'beta' in s:
                s['beta'] = int(abs(s['beta']))
        return c
    return gen()


def run_large(c):
    from shenfun.legendre import fastgl
    from shenfun.legendre.lobatto import legendre_lobatto_nodes_and_weights
    N = c['N']
    r = spaces.rng(c['seed'])
    if c['kind'] == 'lobatto':
        N = min(N, 2000) if N % 3 else min(N, 300)
        if N > 300:
            N = 2+N % 299
        N = max(N, 2)
        x, w = legendre_lobatto_nodes_and_weights(N)
        n = N-1
        deg = 2*N-3
    else:
        n = N
    if c['kind'] == 'all' and N <= 3000:
        x, w = fastgl.leggauss(N)
        check(x.shape == (N,) and np.all(np.diff(x) > 0), "points of leggauss(%d) are not ordered", N)
        check(abs(w.sum()-2) < 1e-13, "weights sum to %r", w.sum())
        check(np.max(np.abs(x+x[::-1])) < 1e-15 and np.max(np.abs(w-w[::-1])) < 1e-15, "the rule is not symmetric")
        k = np.unique(np.concatenate([[0, N-1, N//2], r.randint(0, N, 20)]))
        for j in k:
            p = fastgl.getGLPair(N, int(N-j))
            check(p[0] == x[j] and p[1] == w[j], "getGLPair(%d, %d) differs from leggauss", N, N-j)
    elif c['kind'] != 'lobatto':
        k = np.unique(np.concatenate([[1, N, (N+1)//2], r.randint(1, N+1, 20)]))
        z = [fastgl.getGLPair(N, int(j)) for j in k]
        x = np.array([p[0] for p in z])
        w = np.array([p[1] for p in z])
        check(np.all(np.diff(x) < 0), "points %s of the %d point rule are not ordered", k, N)
        # Tricomi: the k'th largest root
        th = np.pi*(4*k-1.0)/(4*N+2)
        t = np.arccos(x)
        check(np.all(np.abs(t-th) < 0.3*np.pi/N), "not the %s'th roots of %d", k, N)
    xl = np.asarray(x, dtype=np.longdouble)
    p0, p1 = np.ones_like(xl), xl.copy()
    for i in range(1, n):
        p0, p1 = p1, ((2*i+1)*xl*p1-i*p0)/(i+1)
    if n == 0:
        return
    if c['kind'] == 'lobatto':
        m = np.abs(xl) < 1
        d = n*(p0-xl*p1)        # (1-x^2) P'_n
        # derivative of it is -n(n+1) P_n
        e = np.abs(d[m]/(n*(n+1)*p1[m])).astype(float)
        check(np.all(np.diff(x) > 0) and x[0] == -1 and x[-1] == 1, "Gauss-Lobatto points %d are not ordered", N)
        check(np.max(e, initial=0) < 1e-14, "Gauss-Lobatto points of %d: error %.1e", N, np.max(e, initial=0))
        W = 2/(n*(n+1)*p1**2)
    else:
        dp = n*(p0-xl*p1)/(1-xl*xl)
        e = np.abs(p1/dp).astype(float)
        check(np.max(e) < 1e-15, "Gauss-Legendre points of %d: error %.1e", N, np.max(e))
        # weight at the root: 1-x^2 is known to absolute accuracy only near the ends
        W = 2/((1-xl*xl)*dp**2)
    W = np.asarray(W, dtype=float)
    e = np.abs(w-W)/W/(1e-12*(1+N/1e3)+4e-16/np.maximum(1-np.asarray(xl*xl, dtype=float), 1e-4 if c['kind'] == 'lobatto' else 1e-300))
    check(np.max(e) < 1, "weights of the %d point rule: error %.1e times the allowed one", N, np.max(e))


def gen_large():
    S = spaces.st()
    return S.fixed_dictionaries(dict(N=S.one_of(S.integers(1, 140), S.integers(90, 3000), S.integers(3000, 200000)),
                                     kind=S.sampled_from(['all', 'all', 'pair', 'lobatto']), seed=S.integers(0, 10**6)))


def run_sizes(c):
    """Every fourth size: the rules of up to 100 points come from tables."""
    for N in range(2+c['block'], 146, 4):
        for kind in ('all', 'lobatto'):
            run_large(dict(N=N, kind=kind, seed=N))


def gen_sizes():
    return spaces.st().fixed_dictionaries(dict(block=spaces.st().integers(0, 3), rep=spaces.st().integers(0, 10**6)))


def run_mesh(c):
    t = c['t']
    T = tp.build(t)
    n = tp.norm(t)
    nd = len(n['b'])
    pf = tuple(c['pf'][:nd])
    if c['padded'] and not any(s['fam'] in ('La', 'H') or s['N'] < 4 or int(p*s['N']) <= s['N'] for p, s in zip(pf, n['b'])):
        T = T.get_dealiased(pf)
        M = [int(np.floor(s['N']*p+1e-8)) for p, s in zip(pf, n['b'])]
    else:
        M = [s['N'] for s in n['b']]
    xs = []
    for i, (s, m) in enumerate(zip(n['b'], M)):
        if c['kind'] == 'uniform' and s['fam'] in ('La', 'H'):
            raise Inconclusive()
        if s['fam'] == 'F':
            lo, hi = [float(v) for v in defs.dom(s)]
            x = lo+np.arange(m)*(hi-lo)/m
        elif c['kind'] == 'uniform':
            x = np.linspace(*[float(v) for v in defs.dom(s)], m)
        else:
            b = spaces.build({k: s[k] for k in ('fam', 'N', 'quad', 'alpha', 'beta') if k in s})
            x = np.asarray(defs.to_phys(s, b.points_and_weights(m)[0]), dtype=float)
        xs.append(x)
    X = T.mesh(kind=c['kind'])
    A = T.local_mesh(bcast=c['bcast'], kind=c['kind'])
    for i, x in enumerate(xs):
        sh = [1]*nd
        sh[i] = len(x)
        tol = 1e-13*(1+np.max(np.abs(x)))
        for g, nm in ((X[i], 'mesh'), (A[i], 'local_mesh')):
            full = nm == 'local_mesh' and c['bcast']
            want = tuple(M) if full else tuple(sh)
            g = np.asarray(g, dtype=float)
            check(g.shape == want, "%s of axis %d has shape %s instead of %s", nm, i, g.shape, want)
            check(np.max(np.abs(g-x.reshape(sh))) < tol, "%s (%s) of axis %d is not the affine image of the points", nm, c['kind'], i)
        B = T.bases[i]
        for ref_ in (False, True):
            g = np.asarray(B.mesh(bcast=False, map_true_domain=not ref_, kind=c['kind']), dtype=float)
            want = np.asarray(defs.to_ref(n['b'][i], x), dtype=float) if ref_ else x
            check(g.shape == want.shape and np.max(np.abs(g-want)) < tol+1e-12, "mesh of basis %d", i)


def gen_mesh():
    S = spaces.st()
    return S.fixed_dictionaries(dict(t=tp.specs('F F C L U Q J La H', ndims=(2, 2, 3), maxpoly=2, hi=5),
                                     kind=S.sampled_from(['quadrature', 'uniform']), bcast=S.booleans(), padded=S.booleans(),
                                     pf=S.lists(S.sampled_from([1.5, 2]), min_size=3, max_size=3)))


SUBS = [
    Sub('rule', gen_rule, run_rule, 1500, 40000, 'at least three points', lambda c: c['s']['N'] > 2,
        lambda c: [c['s']['fam'], str(c['s'].get('quad')), 'weighted' if c['weighted'] else 'unweighted'], (2, 8), (80, 1200)),
    Sub('large', gen_large, run_large, 250, 4000, 'more than 100 points', lambda c: c['N'] > 100, lambda c: [c['kind']], (3, 8), (80, 1500)),
    Sub('sizes', gen_sizes, run_sizes, 32, 64, 'every block', None, lambda c: ['block %d' % c['block']], (2, 4), (60, 300)),
    Sub('mesh', gen_mesh, run_mesh, 300, 6000, 'at least two bases', None, lambda c: [c['kind'], 'padded' if c['padded'] else 'plain'], (3, 8), (80, 1200)),
]
ASSUMPTIONS = ['unweighted weights of J and Q spaces only for the number of points of the space']
