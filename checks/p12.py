"""P12 differential operators match vector calculus."""
from functools import lru_cache

import numpy as np

from checks import p24
from vlib import spaces
from vlib.core import Inconclusive, Sub, check

TECH = 'property-based testing (Hypothesis): generated expression trees against tensor calculus with independently derived metrics, and against Cartesian derivatives'
NOTE = ('Random trees of gradient, divergence, curl, Laplace, derivatives, products with functions of the coordinates, sums and components, on test, '
        'trial and solution functions of surfaces and volumes in Cartesian and curvilinear coordinates with both kinds of basis vectors; the resulting '
        'terms are applied to random analytic functions and compared at random points. Expressions used as operands must stay as they were.')

MAPS = sorted(k for k in p24.MAPS if p24.MAPS[k][0] > 1)
FAST = ['cartesian2', 'scaled2', 'skew2', 'rotated2', 'polar', 'polarswap', 'parabolic', 'stretch', 'shear', 'sphere', 'cylindersurf', 'cone',
        'cartesian3', 'scaled3', 'skew3', 'cylinder', 'cylinderperm', 'helical', 'spherical']


@lru_cache(None)
def geometry(name, p, q):
    import sympy as sp
    psi, rv, dom = p24.build(name, p, q, False, True)
    J = sp.Matrix([[sp.diff(r, s) for r in rv] for s in psi])
    g = (J*J.T).applyfunc(sp.simplify)
    G = g.inv().applyfunc(sp.simplify)
    n = len(psi)
    ch = [[[sp.simplify(sum(G[i, m]*(sp.diff(g[m, k], psi[l])+sp.diff(g[m, l], psi[k])-sp.diff(g[k, l], psi[m])) for m in range(n))/2)
            for l in range(n)] for k in range(n)] for i in range(n)]
    return psi, g, G, sp.sqrt(sp.simplify(g.det())), ch, dom, J


@lru_cache(None)
def space(name, p, q):
    from shenfun import FunctionSpace, TensorProductSpace, VectorSpace, comm
    psi, rv, dom = p24.build(name, p, q, False, True)
    b = [FunctionSpace(5, 'LCL'[i], domain=d) for i, d in enumerate(dom)]
    T = TensorProductSpace(comm, b, coordinates=(psi, rv))
    return T, VectorSpace(T)


def field(psi, k, seed):
    """An analytic function."""
    import sympy as sp
    r = spaces.rng(seed+31*k)
    a = [sp.Rational(int(r.randint(-6, 7)), 4) for _ in psi]
    b = [sp.Rational(int(r.randint(1, 5)), 4) for _ in psi]
    return sp.sin(sum(x*y for x, y in zip(a, psi))+k+1)*sp.exp(sum(-x*y for x, y in zip(b, psi))/3)+sum(int(r.randint(-2, 3))*s**2 for s in psi)


def snapshot(e):
    import copy
    return copy.deepcopy((e._terms, e._scales, e._indices))


def run(c):
    import sympy as sp
    from shenfun import Dx, Function, TestFunction, TrialFunction, curl, div, grad
    from shenfun.config import config
    from shenfun.forms.arguments import Expr
    name, p, q = c['map'], c['p'], c['q']
    psi, g, G, sg, ch, dom, J = geometry(name, p, q)
    T, V = space(name, p, q)
    n = len(psi)
    normal = c['vectors'] == 'normal'
    old = config['basisvectors']
    config['basisvectors'] = c['vectors']
    h = [sp.sqrt(g[i, i]) for i in range(n)]
    cart = name.startswith('cartesian')
    rank = c['rank']
    W = V if rank else T
    arg = {0: TestFunction, 1: TrialFunction, 2: Function}[c['arg']](W)
    fs = [field(psi, k, c['seed']) for k in range(n if rank else 1)]
    # values: contravariant components; expressions are in the basis chosen
    w = [h[i] if normal else sp.Integer(1) for i in range(n)]
    e = Expr(arg)
    val = list(fs) if not rank else [f/w[i] for i, f in enumerate(fs)]
    kept = []
    R = range(n)
    done = []
    try:
        for op, k in c['ops']:
            kept.append((e, snapshot(e), op))
            if op == 'grad' and rank == 0:
                e = grad(e)
                val = [sum(G[i, j]*sp.diff(val[0], psi[j]) for j in R) for i in R]
                rank = 1
            elif op == 'grad' and rank == 1:
                e = grad(e)
                val = [sum(G[l, j]*(sp.diff(val[i], psi[l])+sum(ch[i][m][l]*val[m] for m in R)) for l in R) for i in R for j in R]
                rank = 2
            elif op == 'div' and rank == 1:
                e = div(e)
                val = [sum(sp.diff(sg*val[i], psi[i]) for i in R)/sg]
                rank = 0
            elif op == 'div' and rank == 2:
                e = div(e)
                t = lambda i, j: val[i*n+j]
                val = [sum(sp.diff(t(i, j), psi[j])+sum(ch[i][m][j]*t(m, j)+ch[j][m][j]*t(i, m) for m in R) for j in R) for i in R]
                rank = 1
            elif op == 'curl' and rank == 1:
                e = curl(e)
                low = [sum(g[i, j]*val[j] for j in R) for i in R]
                if n == 3:
                    val = [(sp.diff(low[(i+2) % 3], psi[(i+1) % 3])-sp.diff(low[(i+1) % 3], psi[(i+2) % 3]))/sg for i in R]
                else:
                    val = [(sp.diff(low[1], psi[0])-sp.diff(low[0], psi[1]))/sg]
                    rank = 0
            elif op == 'curl' and rank == 0 and cart and n == 2:
                e = curl(e)
                val = [sp.diff(val[0], psi[1]), -sp.diff(val[0], psi[0])]
                rank = 1
            elif op == 'Dx' and (rank == 0 or cart):
                m = 1+k % 2
                if rank and m > 1 and False:
                    continue
                e = Dx(e, k % n, m)
                val = [sp.diff(v, psi[k % n], m) for v in val]
            elif op == 'mul':
                s = [sp.Integer(2), psi[k % n], psi[0]*psi[-1], sp.Rational(1, 2)+psi[k % n]**2][k % 4]
                e = e*s if k % 3 else s*e
                val = [s*v for v in val]
            elif op == 'add':
                e = e+e*3 if k % 2 else e*3+e
                val = [4*v for v in val]
            elif op == 'sub':
                e = e*psi[k % n]-e
                val = [v*(psi[k % n]-1) for v in val]
            elif op == 'neg':
                e = -e
                val = [-v for v in val]
            elif op == 'get' and rank == 1:
                i = k % n
                e = e[i]
                val = [val[i]*w[i]]
                rank = 0
            else:
                kept.pop()
                continue
            done.append(op)
        terms, scales, indices = e.terms(), e.scales(), e.indices()
        check(e.num_components() == n**rank, '%s of %s: %d components, not %d', done, name, e.num_components(), n**rank)
    finally:
        config['basisvectors'] = old
    for o, s, op in kept:
        check(snapshot(o) == s, 'operand of %s changed by later operations (%s)', op, done)
    r = spaces.rng(c['seed']+5)
    pts = [[float(x) for x in (r.uniform(a, b) for a, b in dom)] for _ in range(3)]
    base = {}
    for i in range(n**rank):
        got = 0
        for t, s, ix in zip(terms[i], scales[i], indices[i]):
            key = (tuple(int(x) for x in t), int(ix))
            if key not in base:
                d = fs[ix]
                for x, m in zip(psi, key[0]):
                    if m:
                        d = sp.diff(d, x, m)
                base[key] = d
            got = got+s*base[key]
        ww = 1 if rank == 0 else w[i] if rank == 1 else w[i//n]*w[i % n]
        f = sp.lambdify(psi, [got, val[i]*ww, sum(abs(sp.sympify(s)) for s in scales[i])+1], [{'DiracDelta': lambda *a: 0}, 'mpmath'])
        import mpmath
        mpmath.mp.dps = 30
        for pt in pts:
            a, b, m = f(*[mpmath.mpf(x) for x in pt])
            # names of the local symbols carry no assumptions that change the value
            a, b = complex(a), complex(b)
            check(abs(a-b) <= 1e-10*(1+abs(b)+abs(m)), '%s on rank %d in %s (%s basis), component %d at %s: %s instead of %s', done, c['rank'], name, c['vectors'], i, pt, a, b)


def gen():
    S = spaces.st()

    @S.composite
    def g(draw):
        return dict(map=draw(S.sampled_from(FAST)), p=draw(S.sampled_from(['1', '2'])), q=draw(S.sampled_from(['1', '3/2'])), vectors=draw(S.sampled_from(['normal', 'covariant'])),
                    rank=draw(S.integers(0, 1)), arg=draw(S.integers(0, 2)), seed=draw(S.integers(0, 999)),
                    ops=draw(S.lists(S.tuples(S.sampled_from(['grad', 'div', 'grad', 'div', 'curl', 'Dx', 'mul', 'add', 'sub', 'neg', 'get']), S.integers(0, 5)).map(list), min_size=1, max_size=4)))
    return g()


def trivial(c):
    return any(o in ('grad', 'div', 'curl', 'Dx') for o, _ in c['ops'])


SUBS = [
    Sub('trees', gen, run, 200, 4000, 'a differential operator is applied', trivial,
        lambda c: [c['map'], c['vectors'], 'rank=%d' % c['rank']]+[o for o, _ in c['ops']], (6, 8), (110, 1500)),
]

ASSUMPTIONS = ['Derivatives of tensors (Dx) and curl of higher order tensors in curvilinear coordinates are not implemented by design.',
               'Normal basis vectors: components along the tangents scaled to unit length.']
