"""P24 coordinate systems satisfy the metric identities."""
from functools import lru_cache

import numpy as np

from vlib import spaces
from vlib.core import Inconclusive, Sub, check

TECH = 'property-based testing (Hypothesis): generated coordinate maps against numerical differential geometry'
NOTE = ('Random coordinate maps (curves, surfaces, volumes: classical systems, skewed, stretched, permuted and polynomial ones), histories of '
        'queries in any order with substitutions in between; every returned expression is evaluated at random points and compared with '
        'high-precision derivatives of the position vector. Vectors and meshes of spaces with these coordinates are compared with the same map.')

# name: (number of coordinates, position vector in u, v, w and the constants p, q, domain of the coordinates)
MAPS = {
    'line': (1, ['p*u', 'q*u+1'], [(-1, 1)]),
    'circle': (1, ['p*cos(u)', 'p*sin(u)'], [(0.1, 6)]),
    'parabola': (1, ['u', 'p*u**2'], [(0.2, 1)]),
    'helix': (1, ['p*cos(u)', 'p*sin(u)', 'q*u'], [(0, 6)]),
    'ellipse': (1, ['p*cos(u)', 'q*sin(u)'], [(0.1, 1.5)]),
    'cubic': (1, ['u', 'u**2', 'p*u**3'], [(0.2, 1)]),
    'cartesian2': (2, ['u', 'v'], [(-1, 1), (-1, 1)]),
    'scaled2': (2, ['p*u', 'q*v'], [(-1, 1), (-1, 1)]),
    'skew2': (2, ['u+p*v', 'q*v'], [(-1, 1), (-1, 1)]),
    'rotated2': (2, ['3*u/5-4*v/5', '4*u/5+3*v/5'], [(-1, 1), (-1, 1)]),
    'polar': (2, ['u*cos(v)', 'u*sin(v)'], [(0.2, 1), (0, 6)]),
    'polarswap': (2, ['v*cos(u)', 'v*sin(u)'], [(0, 6), (0.2, 1)]),
    'polarell': (2, ['p*u*cos(v)', 'q*u*sin(v)'], [(0.2, 1), (0.1, 1.4)]),
    'parabolic': (2, ['u*v', '(u**2-v**2)/2'], [(0.2, 1), (0.2, 1)]),
    'elliptic': (2, ['p*cosh(u)*cos(v)', 'p*sinh(u)*sin(v)'], [(0.2, 1), (0.2, 1.4)]),
    'logpolar': (2, ['exp(u)*cos(v)', 'exp(u)*sin(v)'], [(0.2, 1), (0, 6)]),
    'stretch': (2, ['u+p*u**2/4', 'v'], [(0.1, 1), (-1, 1)]),
    'shear': (2, ['u', 'v+p*u**2'], [(0.1, 1), (-1, 1)]),
    'sphere': (2, ['p*sin(u)*cos(v)', 'p*sin(u)*sin(v)', 'p*cos(u)'], [(0.3, 2.8), (0, 6)]),
    'torus': (2, ['(3+p*cos(u))*cos(v)', '(3+p*cos(u))*sin(v)', 'p*sin(u)'], [(0, 6), (0, 6)]),
    'cylindersurf': (2, ['p*cos(u)', 'p*sin(u)', 'v'], [(0, 6), (-1, 1)]),
    'cone': (2, ['u*cos(v)', 'u*sin(v)', 'q*u'], [(0.2, 1), (0, 6)]),
    'paraboloid': (2, ['u*cos(v)', 'u*sin(v)', 'u**2'], [(0.2, 1), (0, 6)]),
    'graph': (2, ['u', 'v', 'p*u*v'], [(0.2, 1), (0.2, 1)]),
    'cartesian3': (3, ['u', 'v', 'w'], [(-1, 1)]*3),
    'scaled3': (3, ['p*u', 'v', 'q*w'], [(-1, 1)]*3),
    'skew3': (3, ['u+p*v', 'v', 'w+q*u'], [(-1, 1)]*3),
    'cylinder': (3, ['u*cos(v)', 'u*sin(v)', 'w'], [(0.2, 1), (0, 6), (-1, 1)]),
    'cylinderperm': (3, ['v*cos(w)', 'v*sin(w)', 'u'], [(-1, 1), (0.2, 1), (0, 6)]),
    'helical': (3, ['u*cos(v)', 'u*sin(v)', 'w+p*v'], [(0.2, 1), (0, 6), (-1, 1)]),
    'spherical': (3, ['u*sin(v)*cos(w)', 'u*sin(v)*sin(w)', 'u*cos(v)'], [(0.2, 1), (0.3, 2.8), (0, 6)]),
    'paraboloidal': (3, ['u*v*cos(w)', 'u*v*sin(w)', '(u**2-v**2)/2'], [(0.2, 1), (0.2, 1), (0, 6)]),
}
CONST = ['1', '2', '1/2', '3/2', '3']


@lru_cache(None)
def build(name, p, q, perm, assume):
    import sympy as sp
    n, rv, dom = MAPS[name]
    pos = [d[0] >= 0 for d in dom]
    psi = tuple(sp.Symbol(s, real=True, positive=True) if (a and assume) else sp.Symbol(s, real=True) for s, a in zip('uvw', pos))
    loc = {s.name: s for s in psi}
    r = [sp.sympify(e, locals=dict(loc, p=sp.Rational(p), q=sp.Rational(q))) for e in rv]
    if perm:
        r = r[1:]+r[:1]
    return psi, tuple(r), dom


def geometry(psi, rv, pt):
    """Tangents and second derivatives at a point, by high-precision differentiation."""
    import mpmath as mp
    import sympy as sp
    mp.mp.dps = 40
    n, d = len(psi), len(rv)
    f = [sp.lambdify(psi, r, 'mpmath') for r in rv]
    x = [mp.mpf(float(v)) for v in pt]
    B = np.zeros((n, d))
    H = np.zeros((n, n, d))
    one = lambda k: k if n > 1 else k[0]
    for j in range(d):
        for i in range(n):
            o = [0]*n
            o[i] = 1
            B[i, j] = float(mp.diff(f[j], tuple(x) if n > 1 else x[0], one(tuple(o))))
            for k in range(i, n):
                o2 = list(o)
                o2[k] += 1
                H[i, k, j] = H[k, i, j] = float(mp.diff(f[j], tuple(x) if n > 1 else x[0], one(tuple(o2))))
    return B, H


def value(e, psi, pt):
    import sympy as sp
    e = np.array(e, dtype=object)
    out = np.zeros(e.shape)
    for i in np.ndindex(e.shape):
        v = sp.sympify(e[i]).subs(dict(zip(psi, [sp.Float(float(t), 30) for t in pt]))).evalf(20)
        out[i] = float(v)
    return out


def near(v, e, what, *a):
    v, e = np.asarray(v), np.asarray(e)
    check(v.shape == e.shape, what+': shape %s, not %s', *a, v.shape, e.shape)
    s = max(1, np.abs(e).max(initial=0))
    d = np.abs(v-e).max(initial=0)
    check(d <= 1e-10*s, what+': off by %.2e of %.2e', *a, d, s)


QUERIES = ['b', 'e', 'hi', 'sg', 'g', 'gt', 'gn', 'bt', 'ct', 'det', 'detinv', 'ortho', 'latex', 'sginv']


def query(co, q, psi, pt, B, H, what, *a):
    g = B@B.T
    G = np.linalg.inv(g)
    val = lambda e: value(e, psi, pt)
    h = np.sqrt(np.diag(g))
    n, d = B.shape
    ortho = np.abs(g-np.diag(np.diag(g))).max(initial=0) < 1e-12*np.abs(g).max()
    if q == 'b':
        near(val(co.b), B, what+' tangent vectors', *a)
        near(val(co.get_basis('covariant')), B, what+' covariant basis', *a)
    elif q == 'e':
        near(val(co.get_basis()), B/h[:, None], what+' normal basis', *a)
    elif q == 'hi':
        near(val(co.hi), h, what+' scaling factors', *a)
    elif q == 'sg':
        near(val(co.sg), np.sqrt(np.linalg.det(g)), what+' square root of determinant', *a)
        near(val(co.get_sqrt_det_g()), np.sqrt(np.linalg.det(g)), what+' square root of determinant', *a)
    elif q == 'sginv':
        near(val(co.get_sqrt_det_g(False)), np.sqrt(np.linalg.det(G)), what+' square root of contravariant determinant', *a)
        near(val(co.get_sqrt_det_g(True)), np.sqrt(np.linalg.det(g)), what+' square root of determinant', *a)
    elif q == 'g':
        near(val(co.get_metric_tensor('covariant')), g, what+' covariant metric', *a)
    elif q == 'gt':
        near(val(co.get_metric_tensor('contravariant')), G, what+' contravariant metric', *a)
    elif q == 'gn':
        near(val(co.get_metric_tensor('normal')), g/np.outer(h, h), what+' normal metric', *a)
    elif q == 'bt':
        near(val(co.get_contravariant_basis()), G@B, what+' contravariant basis', *a)
    elif q == 'ct':
        c = np.einsum('ijx,kx->kij', H, G@B)
        near(val(co.get_christoffel_second()), c, what+' Christoffel symbols', *a)
    elif q == 'det':
        near(val(co.get_det_g()), np.linalg.det(g), what+' determinant', *a)
    elif q == 'detinv':
        near(val(co.get_det_g(False)), np.linalg.det(G), what+' contravariant determinant', *a)
    elif q == 'ortho':
        # (the metric at one point decides one direction only)
        if not ortho:
            check(not co.is_orthogonal, what+': skewed coordinates are reported as orthogonal', *a)
        if n != d or np.abs(g-np.eye(n)).max() > 1e-12:
            check(not co.is_cartesian, what+': coordinates are reported as Cartesian', *a)
        near(np.array(co.get_cartesian_basis(), dtype=float), np.eye(d), what+' Cartesian basis', *a)
    elif q == 'latex':
        for kind in ('normal', 'covariant', 'contravariant'):
            check(isinstance(co.latex_basis_vectors(kind=kind), str), what+' latex', *a)


def run_coords(c):
    from shenfun.coordinates import Coordinates
    import sympy as sp
    psi, rv, dom = build(c['map'], c['p'], c['q'], c['perm'], c['assume'])
    co = Coordinates(psi, rv, sp.Q.positive(sp.sin(psi[0])) & sp.Q.positive(sp.sin(psi[-1])) if False else True)
    rng = np.random.default_rng(c['seed'])
    pt = np.array([rng.uniform(*d) for d in dom])
    B, H = geometry(psi, rv, pt)
    if np.linalg.det(B@B.T) < 1e-4:
        raise Inconclusive()
    for i, q in enumerate(c['q_']):
        query(co, q, psi, pt, B, H, 'query %d (%s) of %s p=%s q=%s at %s:', i, q, rv, c['p'], c['q'], pt.tolist())
    check(co.psi == psi and co.rv == rv, 'coordinates or position vector changed')


@lru_cache(None)
def space(name, p, q, fams):
    from shenfun import FunctionSpace, TensorProductSpace, comm
    psi, rv, dom = build(name, p, q, False, True)
    b = [FunctionSpace(5+i, f, domain=dom[i] if f != 'F' else (0, 2*np.pi), dtype='d') if f != 'F' else FunctionSpace(6+2*i, 'F', dtype='d') for i, f in enumerate(fams)]
    return TensorProductSpace(comm, b, coordinates=(psi, rv)), psi, rv


def run_spaces(c):
    from shenfun import Array, VectorSpace
    from shenfun.config import config
    import sympy as sp
    name = c['map']
    n, _, dom = MAPS[name]
    if n == 1:
        raise Inconclusive()
    fams = tuple(c['fams'][:n])
    T, psi, rv = space(name, c['p'], c['q'], fams)
    X = T.local_mesh(True, kind=c['kind'])
    f = [sp.lambdify(psi, r, 'numpy') for r in rv]
    E = np.array([np.broadcast_to(g(*X), T.shape()) for g in f])
    for what, M in (('local_cartesian_mesh', T.local_cartesian_mesh(kind=c['kind'])), ('cartesian_mesh', T.cartesian_mesh(kind=c['kind']))):
        check(len(M) == len(rv), what+' has %d directions, not %d', len(M), len(rv))
        near(np.array([np.broadcast_to(m, T.shape()) for m in M]), E, what+' of %s kind %s', rv, c['kind'])
    # Cartesian components of a vector
    V = VectorSpace(T)
    X = T.local_mesh(True)
    old = config['basisvectors']
    config['basisvectors'] = c['vectors']
    try:
        u = Array(V)
        u[:] = np.random.default_rng(c['seed']).uniform(-1, 1, u.shape)
        u0 = np.array(u)
        uc = u.get_cartesian_vector()
    finally:
        config['basisvectors'] = old
    J = [[sp.diff(r, s) for r in rv] for s in psi]
    B = np.array([[np.broadcast_to(sp.lambdify(psi, e, 'numpy')(*X), T.shape()).astype(float) for e in row] for row in J])
    if c['vectors'] == 'normal':
        B = B/np.sqrt((B**2).sum(axis=1))[:, None]
    near(np.array(uc), np.einsum('i...,ij...->j...', u0, B), 'Cartesian components of a vector in %s basis of %s', c['vectors'], rv)
    check(np.array_equal(np.array(u), u0), 'vector changed by get_cartesian_vector')


def _common(S):
    return dict(map=S.sampled_from(sorted(MAPS)), p=S.sampled_from(CONST), q=S.sampled_from(CONST), seed=S.integers(0, 999))


def gen_coords():
    S = spaces.st()
    return S.fixed_dictionaries(dict(_common(S), perm=S.booleans(), assume=S.booleans(), q_=S.lists(S.sampled_from(QUERIES), min_size=1, max_size=6)))


def gen_spaces():
    S = spaces.st()
    d = _common(S)
    d['map'] = S.sampled_from(sorted(k for k in MAPS if MAPS[k][0] > 1))
    return S.fixed_dictionaries(dict(d, fams=S.lists(S.sampled_from('LCLCU'), min_size=3, max_size=3), vectors=S.sampled_from(['normal', 'covariant']), kind=S.sampled_from(['quadrature', 'uniform'])))


SUBS = [
    Sub('coords', gen_coords, run_coords, 150, 4000, 'coordinates that are not Cartesian', lambda c: not c['map'].startswith('cartesian'),
        lambda c: [c['map']]+['query '+q for q in c['q_']], (6, 8), (45, 1200)),
    Sub('spaces', gen_spaces, run_spaces, 80, 2000, 'coordinates that are not Cartesian', lambda c: not c['map'].startswith('cartesian'),
        lambda c: [c['map'], 'vectors='+c['vectors']], (4, 8), (45, 900)),
]
ASSUMPTIONS = ['maps are smooth and regular at the sampled points', 'volume, surface and line elements through the determinant only']
