"""P19 fast Legendre transforms agree with the direct ones."""
from functools import lru_cache

import numpy as np

from vlib import spaces
from vlib.core import Inconclusive, Sub, check

TECH = 'differential property testing (Hypothesis): every conversion algorithm against connection coefficients found by exact quadrature'
NOTE = ('Random algorithms, accuracy parameters, sizes, ranks, axes, layouts, element types and optimisation modes; histories of calls of one '
        'object (forward, transpose, with and without output) are compared with dense connection matrices from Gauss quadrature, and round trips with the input.')


@lru_cache(4)
def matrices(N):
    """Legendre to Chebyshev and back, from quadrature that is exact for these polynomials."""
    t = (np.arange(N)+0.5)*np.pi/N
    V = np.polynomial.legendre.legvander(np.cos(t), N-1)
    T = np.cos(np.outer(t, np.arange(N)))
    M = 2/N*T.T@V
    M[0] /= 2
    x, w = np.polynomial.legendre.leggauss(N)
    V = np.polynomial.legendre.legvander(x, N-1)
    T = np.cos(np.outer(np.arccos(x), np.arange(N)))
    L = (V*w[:, None]).T@T*(np.arange(N)+0.5)[:, None]
    return np.triu(M), np.triu(L)


def data(shape, dtype, layout, seed, decay, axis):
    r = np.random.default_rng(seed)
    u = r.uniform(-1, 1, shape)+(1j*r.uniform(-1, 1, shape) if dtype == 'D' else 0)
    s = [1]*len(shape)
    s[axis] = shape[axis]
    u *= ((np.arange(shape[axis])+1.)**-decay).reshape(s)
    if layout == 'F':
        return np.asfortranarray(u)
    if layout == 'S':
        v = np.zeros(tuple(2*n for n in shape), dtype=u.dtype)
        v[tuple(slice(None, None, 2) for _ in shape)] = u
        return v[tuple(slice(None, None, 2) for _ in shape)]
    return u


def apply(A, u, axis):
    return np.moveaxis(np.tensordot(A, u, (1, axis)), 0, axis)


def compare(v, e, A, u, axis, tol, what, *a):
    check(v.shape == e.shape, what+': shape %s', *a, v.shape)
    size = np.abs(apply(np.abs(A), np.abs(u), axis))
    size = max(size.max(initial=0), 1e-300)
    err = np.abs(v-e).max(initial=0)
    check(np.isfinite(v).all() and err <= tol*size, what+': off by %.2e of %.2e', *a, err, size)


def shape_of(c):
    s = list(c['rest'])[:c['rank']-1]
    ax = c['axis'] % c['rank']
    s.insert(ax, c['N'])
    return tuple(s), ax


def setmode(mode):
    from shenfun.config import config
    config['optimization']['mode'] = mode


def run_direct(c):
    from shenfun.legendre import dlt
    shape, ax = shape_of(c)
    M, L = matrices(c['N'])
    for i, o in enumerate(c['ops']):
        setmode(o['mode'])
        u = data(shape, c['dtype'], o['layout'], c['seed']+i, c['decay'], ax)
        u0 = u.copy()
        out = data(shape, c['dtype'], 'C', 99, 0, ax) if o['out'] else None
        ar = (i, o['f'], o['mode'], shape, ax, c['dtype'], o['layout'])
        what = 'call %d: %s mode %s shape %s axis %d dtype %s layout %s'
        kw = {'axis': ax} if (ax or o['kw']) else {}
        if o['f'] == 'leg2cheb':
            v, A = dlt.leg2cheb(u, out, **kw) if o['out'] else dlt.leg2cheb(u, **kw), M
        elif o['f'] == 'leg2chebT':
            v, A = dlt.leg2cheb(u, out, transpose=True, **kw) if o['out'] else dlt.leg2cheb(u, transpose=True, **kw), M.T
        else:
            v, A = dlt.cheb2leg(u, out, **kw) if o['out'] else dlt.cheb2leg(u, **kw), L
        compare(v, apply(A, u0, ax), A, u0, ax, 1e-12, what, *ar)
        check(np.array_equal(u, u0), what+': input changed', *ar)
        if o['out']:
            check(np.array_equal(out, v), what+': output array differs from what is returned', *ar)


def run_hier(c):
    from shenfun.legendre import dlt
    shape, ax = shape_of(c)
    N = c['N']
    M, L = matrices(N)
    seedu = lambda i: data(shape, c['dtype'], 'C', c['seed']+i, c['decay'], ax)
    pars = dict((k, c[k]) for k in ('levels', 'maxs', 'use_direct') if c[k] is not None)
    if c['domains'] is not None:
        pars['domains'] = c['domains'] if isinstance(c['domains'], int) else np.array(c['domains'])
        pars.pop('levels', None)
    f = c['f']
    if f == 'Hale':
        kw = dict(axis=ax)
        if c['fast']:
            if N < 200:
                raise Inconclusive()
            kw.update(Nmin=N-1)
    elif f in ('Leg2Cheb', 'Cheb2Leg'):
        kw = dict(axis=ax, **pars)
        if c['diagonals'] is not None and 4*c['diagonals'] < N:
            kw['diagonals'] = c['diagonals']
    else:
        kw = dict(axis=ax, **pars)
    what = '%s N=%d shape %s axis %d dtype %s %s'
    ar = (f, N, shape, ax, c['dtype'], {k: np.array(v).tolist() for k, v in kw.items() if k != 'axis'})
    setmode(c['mode'])
    Cl = {'Hale': 'Leg2chebHaleTownsend'}.get(f, f)
    X = getattr(dlt, Cl)(seedu(0).copy(), **kw)
    back = f.endswith('Cheb2Leg')
    tol = 1e-9
    what = 'call %d transpose %s: '+what
    for i, o in enumerate(c['calls']):
        u = seedu(i)
        u0 = u.copy()
        out = np.full(shape, 7., dtype=u.dtype) if o['out'] else None
        T = o['T'] and not back
        k = dict(transpose=True) if T else {}
        v = X(u, out, **k) if o['out'] else X(u, **k)
        A = L if back else M.T if T else M
        compare(np.array(v), apply(A, u0, ax), A, u0, ax, tol, what, i, T, *ar)
        check(np.array_equal(u, u0), what+': input changed', i, T, *ar)
        if o['out']:
            check(np.array_equal(out, v), what+': output array differs from what is returned', i, T, *ar)
    # round trip with the other one
    if f in ('Leg2Cheb', 'Cheb2Leg', 'FMMLeg2Cheb', 'FMMCheb2Leg'):
        Y = getattr(dlt, Cl[:-8]+('Leg2Cheb' if back else 'Cheb2Leg'))(seedu(0).copy(), **kw)
        u = seedu(7)
        v = np.array(Y(np.array(X(u))))
        A, B = (M, L) if back else (L, M)
        size = (np.abs(A)@(np.abs(B)@np.ones(N))).max()*np.abs(u).max()
        e = np.abs(u-v).max()
        check(e <= tol*size, what+': round trip off by %.2e of %.2e', 0, 0, *ar, e, size)


def gen_common(S, N):
    return dict(N=N, rest=S.lists(S.integers(1, 4), min_size=3, max_size=3), rank=S.sampled_from([1, 1, 2, 2, 3]), axis=S.integers(0, 3),
                dtype=S.sampled_from(['d', 'd', 'D']), seed=S.integers(0, 999), decay=S.sampled_from([0, 0, 1, 2]))


def gen_numba():
    return gen_direct(['numba'])


def gen_direct(modes=('python', 'cython')):
    S = spaces.st()
    op = S.fixed_dictionaries(dict(f=S.sampled_from(['leg2cheb', 'leg2chebT', 'cheb2leg']), mode=S.sampled_from(list(modes)),
                                   layout=S.sampled_from('CCFS'), out=S.booleans(), kw=S.booleans()))
    d = gen_common(S, S.integers(1, 70))
    d['rank'] = S.integers(1, 4)
    return S.fixed_dictionaries(dict(d, ops=S.lists(op, min_size=1, max_size=4)))


def gen_hier():
    S = spaces.st()
    none = S.none()
    call = S.fixed_dictionaries(dict(T=S.booleans(), out=S.booleans()))
    return S.fixed_dictionaries(dict(
        gen_common(S, S.one_of(S.integers(40, 400), S.integers(200, 1100))), f=S.sampled_from(['Hale', 'Leg2Cheb', 'Leg2Cheb', 'Cheb2Leg', 'Cheb2Leg', 'FMMLeg2Cheb', 'FMMLeg2Cheb', 'FMMCheb2Leg', 'FMMCheb2Leg']),
        mode=S.just('cython'), fast=S.booleans(), levels=S.one_of(none, S.integers(1, 3)), maxs=S.one_of(none, S.integers(16, 100)),
        use_direct=S.sampled_from([None, None, 100, 2000]), domains=S.one_of(none, S.integers(2, 5), S.lists(S.integers(2, 4), min_size=1, max_size=3)),
        diagonals=S.sampled_from([None, 4, 8, 16]), calls=S.lists(call, min_size=1, max_size=4)))


SUBS = [
    Sub('direct', gen_direct, run_direct, 400, 20000, 'more than one dimension or call', lambda c: len(c['ops']) > 1 or c['rank'] > 1,
        lambda c: ['rank=%d' % c['rank']]+[o['f']+'/'+o['mode'] for o in c['ops']], (2, 8), (30, 600)),
    Sub('numba', gen_numba, run_direct, 60, 5000, 'more than one dimension or call', lambda c: len(c['ops']) > 1 or c['rank'] > 1,
        lambda c: ['rank=%d' % c['rank']]+[o['f']+'/'+o['mode'] for o in c['ops']], (1, 8), (40, 600)),
    Sub('hier', gen_hier, run_hier, 200, 8000, 'every case', None, lambda c: [c['f'], 'mode='+c['mode'], 'rank=%d' % c['rank']], (5, 8), (40, 1200)),
]
ASSUMPTIONS = ['axes are not negative', 'the promised accuracy of the hierarchical and asymptotic algorithms is taken as 1e-9 of the row sums of moduli']
