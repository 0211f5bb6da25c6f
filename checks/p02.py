"""P02 evaluation equals the true series everywhere."""
import numpy as np

from vlib import defs, one, spaces, tp
from vlib.core import Inconclusive, Sub, check

TECH = 'property-based testing (Hypothesis): evaluation compared with an independent sum of the series'
NOTE = ('Random coefficients in random 1-D, tensor product, vector and mixed spaces, evaluated by every offered method at '
        'random points and on quadrature, uniform, other-space, padded and refined meshes; oracle is the explicit sum.')


def points(s, seed, n=5):
    r = spaces.rng(seed)
    lo, hi = [float(v) for v in tp.domain(s)]
    x = r.uniform(lo, hi, n)
    if seed % 4 == 0:
        x[0] = lo
        x[-1] = hi if s['fam'] not in ('La', 'H') else x[-1]
    return x


def small(e, tol, what):
    check(np.all(np.isfinite(e)), "%s: not finite", what)
    m = np.max(np.abs(e), initial=0)
    check(m <= tol, "%s: error %.2e (allowed %.1e)", what, m, tol)


def run_oned(c):
    from shenfun import Array, Dx, Function, FunctionSpace
    s = c['s']
    if not spaces.ok(s):
        raise Inconclusive()
    cplx = c['cplx'] if s['fam'] != 'F' else s['dtype'] == 'D'
    B = spaces.build(s, **({} if s['fam'] == 'F' else dict(dtype='D' if cplx else 'd')))
    u = one.random_coef(s, c['seed'], cplx)
    f = Function(B)
    f[:] = u
    x = points(s, c['seed'])
    X = np.asarray(defs.to_ref(s, x), dtype=float)
    a = one.amp(s, X)
    tol = 1e-13*(10+s['N'])*a
    w = c['how']
    if w == 'eval':
        small(f.eval(x)-one.backward(s, u, X), tol, 'Function.eval')
        small(f(x)-one.backward(s, u, X), tol, 'Function call')
        o = np.full(len(x), 7.0, dtype=complex if cplx else float)
        small(B.eval(x, u, o)-one.backward(s, u, X), tol, 'space.eval with output array')
    elif w == 'scalar':
        y = np.atleast_1d(f.eval(float(x[1])))
        small(y.ravel()[0]-one.backward(s, u, X)[1], tol, 'Function.eval of a number')
    elif w in ('uniform', 'othermesh'):
        if s['fam'] in ('La', 'H'):
            raise Inconclusive()
        if w == 'uniform':
            y = f.backward(mesh='uniform')
            x2 = np.linspace(*[float(v) for v in defs.dom(s)], s['N']) if s['fam'] != 'F' else None
            if x2 is None:
                x2 = np.asarray(B.mesh(kind='uniform'))
            small(np.asarray(B.mesh(kind='uniform'))-x2, 1e-12*(1+np.abs(x2).max()), 'uniform mesh')
        else:
            s2 = dict(fam=s['fam'], N=s['N'])
            for k in ('dom', 'alpha', 'beta', 'quad'):
                if k in s:
                    s2[k] = s[k]
            if s['fam'] in 'CLU':
                s2['quad'] = {'C': {'GC': 'GL', 'GL': 'GC'}, 'L': {'LG': 'GL', 'GL': 'LG'},
                              'U': {'GU': 'GC', 'GC': 'GU'}}[s['fam']][s['quad']]
            if s['fam'] == 'F':
                s2['dtype'] = s['dtype']
            if s['N'] < 3:
                raise Inconclusive()
            B2 = spaces.build(s2, **({} if s['fam'] == 'F' else dict(dtype='D' if cplx else 'd')))
            y = f.backward(mesh=B2)
            x2 = np.asarray(B2.mesh())
        X2 = np.asarray(defs.to_ref(s, x2), dtype=float)
        small(np.asarray(y)-one.backward(s, u, X2), tol+1e-13*(10+s['N'])*one.amp(s, X2), 'backward on mesh %s' % w)
    elif w == 'vander':
        V = np.asarray(B.evaluate_basis_all(x=X, argument=1))
        if s['fam'] == 'F' and s['dtype'] == 'd':
            y = ((V*tp.weights(s)) @ u).real
        else:
            y = V @ u[:V.shape[1]]
            if V.shape[1] < s['N'] and any(v != 0 for v in defs.bc_values(s)):
                raise Inconclusive()
        small(y-one.backward(s, u, X), tol, 'sum of evaluate_basis_all')
    elif w == 'refined':
        if s['fam'] in ('La', 'H') or s.get('basis') or s.get('bcd'):
            raise Inconclusive()
        if s['fam'] == 'F' and s['N'] % 2 == 0:     # the Nyquist mode is not the same function in a larger space
            u[s['N']//2] = 0
            f[:] = u
        g = f.refine(s['N']+3)
        small(g.eval(x)-one.backward(s, u, X), 10*tol, 'refined function')
    elif w == 'expr':
        k = c['k']
        if any(v != 0 for v in (defs.bc_values(s) if s['fam'] != 'F' else [])):
            raise Inconclusive()        # documented to leave out the boundary lifting
        e = Dx(f, 0, k) if k else 1*f
        a = one.amp(s, X, k)*float(defs.df(s))**k*(s['N']**k if s['fam'] == 'F' else 1)
        small(e.eval(x)-one.backward(s, u, X, k), 1e-13*(10+s['N'])*a, 'Expr.eval, derivative %d' % k)


def gen_oned():
    S = spaces.st()
    return S.fixed_dictionaries(dict(s=spaces.specs('C L U Q J La H F F', generic=True, values=True, hi=12, big=True),
                                     seed=S.integers(0, 10**6), cplx=S.booleans(), k=S.integers(0, 2),
                                     how=S.sampled_from(['eval', 'eval', 'scalar', 'uniform', 'othermesh', 'vander',
                                                         'refined', 'expr', 'expr'])))


def run_tensor(c):
    from shenfun import Array, CompositeSpace, Dx, Function, TensorProductSpace, VectorSpace
    t = c['t']
    if not tp.ok(t):
        raise Inconclusive()
    n = tp.norm(t)
    T = tp.build(t)
    w = c['how']
    nd = len(t['b'])
    pts = np.array([points(s, c['seed']+i) for i, s in enumerate(t['b'])])
    Xs = [np.asarray(defs.to_ref(s, p), dtype=float) for s, p in zip(n['b'], pts)]
    a = np.prod([one.amp(s, X) for s, X in zip(n['b'], Xs)])
    tol = 2e-12*a
    V = T
    k = 1
    if c['vec'] == 1:
        V = VectorSpace(T)
        k = nd
    elif c['vec'] == 2:
        V = CompositeSpace([T, T, T])
        k = 3
    cs = [tp.random_coef(t, c['seed']+i) for i in range(k)]
    f = Function(V)
    f[:] = cs[0] if c['vec'] == 0 else np.array(cs)
    if w in ('eval0', 'eval1', 'eval2', 'call', 'out'):
        R = np.array([tp.evaluate_at(t, q, pts) for q in cs])
        if w == 'call':
            y = f(pts) if c['seed'] % 2 else f.eval(pts)
        elif w == 'out':
            y = np.full(R.shape[1:] if c['vec'] == 0 else R.shape, 3.0, dtype=R.dtype if tp.is_complex(t) and tp.r2c(t) is None else float)
            r = V.eval(pts, f, y)
        else:
            y = V.eval(pts, f, method=int(w[-1]))
        small(np.asarray(y).reshape(R.shape)-R, tol, 'eval (%s)' % w)
    elif w == 'expr':
        ks = [0]*nd
        e = f if c['vec'] == 0 else f[c['seed'] % k]
        g = 1*e
        for d in c['dx']:
            g = Dx(g, d % nd, 1)
            ks[d % nd] += 1
        R = tp.evaluate_at(t, cs[0 if c['vec'] == 0 else c['seed'] % k], pts, ks)
        if (nd > 3) or (len(T.get_nonperiodic_axes()) > 1 and tp.is_complex(t) and nd == 2 and False):
            raise Inconclusive()
        y = g.eval(pts)
        a = np.prod([one.amp(s, X, q)*float(defs.df(s))**q*(s['N']**q if s['fam'] == 'F' else 1)
                     for s, X, q in zip(n['b'], Xs, ks)])
        small(np.asarray(y)-R, 2e-12*a, 'Expr.eval of derivative %s' % ks)
    elif w in ('uniform', 'other'):
        if w == 'uniform' and any(s['fam'] in ('La', 'H') for s in n['b']):
            raise Inconclusive()        # there is no uniform mesh of an infinite domain
        if w == 'uniform':
            y = f.backward(mesh='uniform')
            xs = [np.asarray(b.mesh(bcast=False, kind='uniform')) for b in T.bases]
        else:
            b2 = []
            for s in n['b']:
                q = {p: s[p] for p in ('fam', 'N', 'dom', 'alpha', 'beta', 'quad', 'dtype') if p in s}
                if s['fam'] in 'CLU':
                    q['quad'] = {'C': {'GC': 'GL', 'GL': 'GC'}, 'L': {'LG': 'GL', 'GL': 'LG'},
                                 'U': {'GU': 'GC', 'GC': 'GU'}}[s['fam']][s['quad']]
                b2.append(q)
            t2 = dict(t, b=b2)
            T2 = tp.build(t2)
            V2 = T2 if c['vec'] == 0 else VectorSpace(T2) if c['vec'] == 1 else CompositeSpace([T2]*3)
            if c['vec']:
                raise Inconclusive()
            y = f.backward(mesh=V2)
            xs = [np.asarray(b.mesh(bcast=False)) for b in T2.bases]
        a = np.prod([one.amp(s, np.asarray(defs.to_ref(s, x), dtype=float)) for s, x in zip(n['b'], xs)])
        R = np.array([tp.evaluate(n, q, xs) for q in cs])
        small(np.asarray(y).reshape(R.shape)-R, 2e-12*a, 'backward on %s mesh' % w)
    elif w == 'pads' and c['vec'] == 2:      # documented: not implemented for mixed spaces
        raise Inconclusive()
    elif w == 'pads':       # several padding factors of one function, one after the other
        for pf in c['pfs']:
            pfv = tuple(pf[:nd])
            if any(p != 1 and (s['fam'] in ('La', 'H') or int(p*s['N']) <= s['N'] or s['N'] < 4) for p, s in zip(pfv, n['b'])):
                continue
            y = f.backward(padding_factor=pfv)
            Td = T.get_dealiased(pfv)
            xs = [np.asarray(b.mesh(bcast=False)) for b in Td.bases]
            R = np.array([tp.evaluate(n, q, xs, sym=any(p != 1 for p in pfv)) for q in cs])
            if any(p != 1 for p in pfv) and not all(p != 1 for p in pfv):
                if any(p == 1 and s['fam'] == 'F' and s['N'] % 2 == 0 for p, s in zip(pfv, n['b'])):
                    continue
            a = np.prod([one.amp(s, b.mesh(bcast=False, map_true_domain=False)) for s, b in zip(n['b'], Td.bases)])
            check(np.asarray(y).shape == (R.shape[1:] if c['vec'] == 0 else R.shape),
                  "backward(padding_factor=%s) has shape %s instead of %s", pfv, np.asarray(y).shape, R.shape)
            small(np.asarray(y).reshape(R.shape)-R, 2e-12*a, 'backward with padding %s' % (pfv,))


def gen_tensor():
    S = spaces.st()
    return S.fixed_dictionaries(dict(t=tp.specs('F F C L U Q J La H', ndims=(2, 2, 3), maxpoly=2, hi=4),
                                     seed=S.integers(0, 10**6), vec=S.sampled_from([0, 0, 1, 2]),
                                     dx=S.lists(S.integers(0, 2), min_size=0, max_size=3),
                                     pfs=S.lists(S.lists(S.sampled_from([1, 1.5, 2]), min_size=3, max_size=3), min_size=2, max_size=3),
                                     how=S.sampled_from(['eval0', 'eval1', 'eval2', 'call', 'out', 'expr', 'expr', 'uniform', 'other', 'pads'])))


SUBS = [
    Sub('oned', gen_oned, run_oned, 700, 12000, 'more than one coefficient', lambda c: c['s']['N']-(defs.nbc(c['s']) if c['s']['fam'] != 'F' else 0) > 1,
        lambda c: [spaces.label(c['s']), c['how']], (4, 8), (80, 1500)),
    Sub('tensor', gen_tensor, run_tensor, 500, 8000, 'at least two bases', None, lambda c: tp.labels(c['t'])+[c['how']], (4, 8), (80, 1500)),
]
ASSUMPTIONS = ['random points stay in (0, 12) for Laguerre and (-3, 3) for Hermite']
