"""P14 projection and change of space keep functions intact."""
import numpy as np

from checks import p08, p16
from vlib import defs, forms, one, ref, spaces, tp
from vlib.core import Inconclusive, Sub, check
from vlib.tp import drop_nyquist

TECH = 'property-based testing (Hypothesis): generated pairs of spaces and data against independent evaluation and dense least-squares projections'
NOTE = ('Random pairs of source and target spaces of the same domain in one to three dimensions; representable data has to come back as the same '
        'function (evaluated independently at random points), other data as the solution of the dense reference projection. Bounded sizes; '
        'tolerances grow with the conditioning of the exact mass matrix.')


def near(v, e, tol, what, *a):
    v, e = np.asarray(v), np.asarray(e)
    check(v.shape == e.shape, what+': shape %s instead of %s', *a, v.shape, e.shape)
    d = np.max(np.abs(v-e), initial=0)
    check(np.isfinite(d) and d <= tol, what+': off by %.2e (allowed %.1e, size %.1e)', *a, d, tol, np.abs(e).max(initial=0))


KEEP = ('fam', 'N', 'quad', 'dom', 'dtype', 'alpha', 'beta')


def ortho(s):
    if s['fam'] == 'F':
        return dict(s)
    return dict({k: v for k, v in s.items() if k in KEEP}, basis=None)


def values(s, c, x):
    """Values at physical points x."""
    X = (np.asarray(x)-float(defs.to_phys(s, 0)))*float(defs.df(s)) if s['fam'] not in ('La', 'H') else x
    return one.backward(s, np.asarray(c), np.asarray(X, dtype=float))


def points(s, seed, n=5):
    a, b = [float(v) for v in defs.dom(s)]
    return np.sort(spaces.rng(seed+17).uniform(a, b, n))


def run_1d(c):
    """A function of one space in another space that holds it."""
    from shenfun import Dx, Function, project, Project
    s = c['s']
    if not spaces.ok(s) or one.cond(s) > 1e7:
        raise Inconclusive()
    nb = defs.nbc(s)
    t = ortho(s)
    t['fam'] = c['fam2'] if s['fam'] in 'CLU' and c['fam2'] else s['fam']
    if t['fam'] != s['fam']:
        t['quad'] = forms.GAUSS[t['fam']]
    t['N'] = s['N']+(c['more'] if s['fam'] in ('CLUF' if c['how'] == 'to' else 'CLU') else 0)
    if s['fam'] in 'JQ' and c['al']:
        t = dict(t, **c['al'])
    if t['fam'] != s['fam'] and t['N'] != s['N'] and False:
        raise Inconclusive()
    B, T = spaces.build(s), spaces.build(t)
    f = Function(B)
    u = one.random_coef(s, c['seed'])
    f[:] = u
    k = c['k']
    x = points(s, c['seed'])
    how = c['how']
    amp = one.amp(s, np.linspace(-1, 1, 9), k)*float(defs.df(s))**k if s['fam'] != 'F' else s['N']*(s['N']*float(defs.df(s)))**k
    tol = 1e-11*amp*max(s['N'], t['N'])*(one.cond(s) if how == 'back' else 1)
    if s['fam'] == 'F' and s['N'] % 2 == 0:
        u[s['N']//2] = 0
        f[:] = u
    if how == 'to':
        g = project(f, T)
        near(values(t, g, x), values(s, u, x), tol, 'project(u, %s)', spaces.label(t))
    elif how == 'dx' or how == 'Project':
        e = Dx(f, 0, k)
        g = project(e, T) if how == 'dx' else Project(e, T)()
        X = (x-float(defs.to_phys(s, 0)))*float(defs.df(s))
        near(values(t, g, x), one.backward(s, u, X, k), tol, "project of derivative %d onto %s", k, spaces.label(t))
    elif how == 'ortho' and s['fam'] != 'F':
        g = f.to_ortho()
        near(values(ortho(s), g, x), values(s, u, x), tol, 'to_ortho of %s', spaces.label(s))
    elif how == 'back' and nb == 0:
        raise Inconclusive()
    elif how == 'back':
        # the function as member of the orthogonal space, projected back on the constrained one
        O = spaces.build(ortho(s))
        o = f.to_ortho(Function(O))
        g = project(o, B)
        near(values(s, g, x), values(s, u, x), tol, 'projection of a function back to %s', spaces.label(s))
        g2 = project(o.backward(), B)
        near(values(s, g2, x), values(s, u, x), tol, 'projection of an array to %s', spaces.label(s))
    else:
        g = project(f, B)
        near(np.asarray(g), u, 0, 'projection on the own space')
        g = project(f.backward(), B)
        near(values(s, g, x), values(s, u, x), tol*one.cond(s), 'projection of the own values')
    check(np.array_equal(f, u), 'the projected function was changed')


def gen_1d():
    S = spaces.st()
    return S.fixed_dictionaries(dict(
        s=spaces.specs('CLUJQF', lo=2, hi=10, values=True, generic=True).map(g1),
        fam2=S.sampled_from([None, None, 'C', 'L', 'U']), more=S.sampled_from([0, 0, 1, 3]), seed=S.integers(0, 10**6), k=S.integers(0, 2),
        al=S.sampled_from([None, None]), how=S.sampled_from(['to', 'to', 'dx', 'Project', 'ortho', 'back', 'self'])))


def g1(s):
    if s['fam'] in forms.GAUSS and s.get('quad'):
        s = dict(s, quad=forms.GAUSS[s['fam']])
    return s


def run_residual(c):
    """Functions outside the space: orthogonal residual, and a projection projects once."""
    from shenfun import Array, Function, TestFunction, inner, project
    t = p08.safe(c['t'])
    if not tp.ok(t):
        raise Inconclusive()
    n = tp.norm(t)
    nd = len(n['b'])
    kap = np.prod([one.cond(s) for s in n['b']])
    if kap > 1e6:
        raise Inconclusive()
    o = dict(n, b=[ortho(s) for s in n['b']])
    T = p16.space(t)
    O = p16.space(o)
    u = p16.coefs(o, c['seed'])
    if nd > 1 or n['b'][0]['fam'] == 'F':
        u = drop_nyquist(n, u)
    f = Function(O)
    f[:] = u
    how = c['how']
    if how == 'array':
        g = project(f.backward(), T)
    elif how == 'ndarray':
        g = project(np.array(f.backward()), T)
    elif how == 'forward':
        g = T.forward(f.backward(), Function(T))
    else:
        g = project(f, T)
    check(np.array_equal(f, u), 'the projected function was changed')
    # residual
    xs, ws = forms.grid(t, 10)
    F = tp.evaluate(o, u, xs)
    G = tp.evaluate(n, np.asarray(g), xs)
    E, mag = forms.linear(n, [[1, [0]*nd, [0]*nd]], F-G, xs, ws)
    _, m2 = forms.linear(n, [[1, [0]*nd, [0]*nd]], np.abs(F)+np.abs(G), xs, ws)
    tol = 1e-12*kap*(1+m2)
    near(drop_nyquist(n, E), 0*drop_nyquist(n, E), tol, 'residual of the projection (%s) against the test functions', how)
    h = project(g.backward(), T)
    d = E.shape
    near(drop_nyquist(n, p08.cut(h, d)), drop_nyquist(n, p08.cut(g, d)), 1e-11*kap*(1+np.abs(g).max(initial=0)), 'second projection')
    if all(spaces.nb(s) == 0 if s['fam'] != 'F' else True for s in n['b']):
        near(drop_nyquist(n, np.asarray(g)), drop_nyquist(n, u), 1e-11*(1+np.abs(u).max(initial=0)), 'projection on the same space')


def gen_residual():
    S = spaces.st()
    return S.fixed_dictionaries(dict(
        t=S.one_of(p16.one_t('FCLUJQ', lo=3, hi=10, values=True), tp.specs('F F C L U J', ndims=(2, 2, 3), maxpoly=2, hi=4, values=True, maxbc=2)).map(forms.gauss),
        seed=S.integers(0, 10**6), how=S.sampled_from(['array', 'ndarray', 'forward', 'function'])))


def run_tensor(c):
    """Derivatives, orthogonal spaces, refinement and assignment in several dimensions."""
    from shenfun import Array, Dx, Function, Project, VectorSpace, div, grad, project
    t = p08.safe(c['t'])
    if not tp.ok(t):
        raise Inconclusive()
    n = tp.norm(t)
    nd = len(n['b'])
    o = dict(n, b=[ortho(s) for s in n['b']])
    T = tp.build(t)
    u = drop_nyquist(n, tp.random_coef(t, c['seed']))
    f = Function(T)
    f[:] = u
    xs = [points(s, c['seed']+i, 3) for i, s in enumerate(n['b'])]
    k = list(c['k'][:nd])
    amp = 1+np.abs(u).sum()*np.prod([max(1, float(defs.df(s)))**q*max(2, s['N'])**(2*q) for s, q in zip(n['b'], k)])*np.prod([1+np.abs(defs.trial(s, x)).max() if s['fam'] != 'F' else 1 for s, x in zip(n['b'], xs)])
    tol = 1e-11*amp
    how = c['how']
    if how == 'ortho':
        g = f.to_ortho()
        near(tp.evaluate(o, np.asarray(g), xs), tp.evaluate(n, u, xs), tol, 'to_ortho')
    elif how == 'toortho':
        g = project(f, T.get_orthogonal())
        near(tp.evaluate(o, np.asarray(g), xs), tp.evaluate(n, u, xs), tol, 'projection on the orthogonal space')
    elif how in ('dx', 'Project'):
        e = f
        for ax, q in enumerate(k):
            if q:
                e = Dx(e, ax, q)
        O = T.get_orthogonal()
        if how == 'Project':
            if not any(k):
                raise Inconclusive()
            P = Project(e, O)
            g = P()
            f[:] = 2*u
            g2 = np.array(P())
            near(tp.evaluate(o, g2, xs), 2*tp.evaluate(n, u, xs, ks=k) if not inhomog(n) else tp.evaluate(o, g2, xs), 2*tol, 'second call of Project')
            g = None if not inhomog(n) else g
            f[:] = u
            g = P()
        else:
            g = project(e, O)
        near(tp.evaluate(o, np.asarray(g), xs), tp.evaluate(n, u, xs, ks=k), tol, 'projection of a derivative %s', k)
    elif how == 'grad':
        V = VectorSpace(T.get_orthogonal())
        g = project(grad(f), V)
        for i in range(nd):
            kk = [1 if i == j else 0 for j in range(nd)]
            near(tp.evaluate(o, np.asarray(g[i]), xs), tp.evaluate(n, u, xs, ks=kk), tol*100*max(float(defs.df(s)) for s in n['b']), 'component %d of a projected gradient', i)
    elif how == 'refine':
        m = [s['N']+d for s, d in zip(n['b'], c['more'])]
        if inhomog(n):
            raise Inconclusive()
        g = f.refine(m)
        r = dict(n, b=[dict(s, N=q) for s, q in zip(n['b'], m)])
        near(tp.evaluate(r, np.asarray(g), xs), tp.evaluate(n, u, xs), tol, 'refined function')
        back = f.refine([s['N'] for s in n['b']])
        near(np.asarray(back), u, 1e-14*amp, 'function refined to its own size')
        h = g.refine([s['N'] for s in n['b']])
        near(drop_nyquist(n, np.asarray(h)), u, 1e-14*amp, 'refined function truncated again')
        z = project(f, T.get_refined(m))
        near(tp.evaluate(r, np.asarray(z), xs), tp.evaluate(n, u, xs), tol, 'function projected on the refined space')
        w = Function(T.get_refined(m))
        f.assign(w)
        near(np.asarray(w), np.asarray(g), 1e-14*amp, 'assigned function')
    else:
        V = VectorSpace(T)
        F = Function(V)
        for i in range(nd):
            F[i] = (i+1)*u if not inhomog(n) else u
        g = F.to_ortho() if how == 'vortho' else project(F, V.get_orthogonal())
        for i in range(nd):
            near(tp.evaluate(o, np.asarray(g[i]), xs), tp.evaluate(n, np.asarray(F[i]), xs), tol*nd, 'component %d in the orthogonal vector space', i)
    check(np.array_equal(f, u), 'the function was changed')


def inhomog(n):
    return any(any(defs.bc_values(s)) for s in n['b'] if s['fam'] != 'F' and defs.nbc(s))


def gen_tensor():
    S = spaces.st()
    return S.fixed_dictionaries(dict(
        t=tp.specs('F F C L U', ndims=(2, 2, 3), maxpoly=2, hi=4, values=True, generic=True, maxbc=3).map(forms.gauss),
        seed=S.integers(0, 10**6), k=S.lists(S.integers(0, 2), min_size=3, max_size=3), more=S.lists(S.integers(0, 3), min_size=3, max_size=3),
        how=S.sampled_from(['ortho', 'toortho', 'dx', 'dx', 'Project', 'grad', 'refine', 'vortho', 'vproject'])))


def lab(c):
    return ([spaces.label(c['s'])] if 's' in c else tp.labels(c['t']))+[c['how']]


SUBS = [
    Sub('oned', gen_1d, run_1d, 300, 8000, 'random coefficients', None, lab, (3, 8), (60, 900)),
    Sub('residual', gen_residual, run_residual, 200, 5000, 'random coefficients', None, lab, (3, 8), (60, 900)),
    Sub('tensor', gen_tensor, run_tensor, 200, 5000, 'random coefficients', None, lab, (3, 8), (60, 900)),
]
ASSUMPTIONS = ['basis functions and quadrature rules as decided by P04 to P06']
