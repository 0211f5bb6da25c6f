"""P16 integrals and linear forms are exact."""
import numpy as np

from checks import p08
from vlib import defs, forms, ref, spaces, tp
from vlib.core import Inconclusive, Sub, check
from vlib.tp import drop_nyquist

TECH = 'property-based testing (Hypothesis): generated integrands and linear forms against reference quadrature of independently evaluated functions'
NOTE = ('Random arrays, functions, sympy expressions and vectors on 1- to 3-dimensional spaces of all families, domains, rules and axes orders, '
        'and on curvilinear coordinates; integrals and scalar products with all test functions are compared with reference rules on finer '
        'meshes. Integrands are within the degree the documented rule integrates exactly (curvilinear ones: analytic, resolved to 1e-9).')


def near(v, e, tol, what, *a):
    v, e = np.asarray(v), np.asarray(e)
    check(v.shape == e.shape, what+': shape %s instead of %s', *a, v.shape, e.shape)
    d = np.max(np.abs(v-e), initial=0)
    check(np.isfinite(d) and d <= tol, what+': off by %.2e (allowed %.1e, size %.1e)', *a, d, tol, np.abs(e).max(initial=0))


def plain_grid(t, extra=4):
    """Mesh and weights of the unweighted integral over the physical domain."""
    xs, ws = [], []
    for s in tp.norm(t)['b']:
        a, b = [float(v) for v in defs.dom(s)]
        n = s['N']+extra
        if s['fam'] == 'F':
            x, w = a+(b-a)*np.arange(2*n)/(2*n), np.full(2*n, (b-a)/(2*n))
        else:
            X, w = ref.gauss(n)
            x, w = a+(X+1)*(b-a)/2, w*(b-a)/2
        xs.append(x)
        ws.append(w)
    return xs, ws


def total(F, ws):
    for w in reversed(ws):
        F = np.tensordot(F, w, (F.ndim-1, 0))
    return F


def space(t):
    n = tp.norm(t)
    return tp.build(t) if len(n['b']) > 1 else spaces.build(n['b'][0], **({'dtype': 'D'} if t.get('cplx') and n['b'][0]['fam'] != 'F' else {}))


def coefs(t, seed):
    n = tp.norm(t)
    if len(n['b']) == 1 and n['b'][0]['fam'] != 'F':
        from vlib import one
        return one.random_coef(n['b'][0], seed, bool(t.get('cplx')))
    return tp.random_coef(t, seed)


def run_number(c):
    """Integrals over the domain."""
    from shenfun import Array, CompositeSpace, Function, VectorSpace, dx, inner
    t = c['t']
    if not tp.ok(t):
        raise Inconclusive()
    n = tp.norm(t)
    nd = len(n['b'])
    T = space(t)
    xs, ws = plain_grid(t)
    us = [coefs(t, c['seed']+i) for i in range(nd)]
    vals = [tp.evaluate(n, u, xs) for u in us]
    ex = [total(v, ws) for v in vals]
    tol = [1e-11*(1+total(np.abs(v), ws)) for v in vals]
    f = Function(T)
    f[:] = us[0]
    k = c['num']
    if c['what'] == 'function':
        r = inner(k, f) if c['order'] else inner(f, k)
        near(r, k*ex[0], tol[0]*abs(k), 'integral of a function times %s', k)
        near(np.asarray(f), us[0], 0, 'a function after integration')
    elif c['what'] == 'padded' and all(s['fam'] in 'FCLU' and s['N'] > 3 for s in n['b']):
        Tp = T.get_dealiased(1.5)
        a = Array(Tp)
        a = Tp.backward(drop_nyquist(n, us[0]) if nd > 1 or n['b'][0]['fam'] == 'F' else us[0], a)
        e = total(tp.evaluate(n, drop_nyquist(n, us[0]) if nd > 1 or n['b'][0]['fam'] == 'F' else us[0], xs), ws)
        near(inner(k, a), k*e, tol[0]*abs(k), 'integral of a padded array times %s', k)
    elif c['what'] == 'vector' and nd > 1:
        V = VectorSpace(T) if c['order'] else CompositeSpace([T]*nd)
        a = Array(V)
        ks = tuple([k, 1, 2][:nd])
        for i in range(nd):
            a[i] = T.backward(us[i].copy(), Array(T))
        near(inner(ks, a), sum(q*e for q, e in zip(ks, ex)), sum(tol)*max(map(abs, ks)), 'integral of a vector with a tuple of numbers')
        for i in range(nd):
            near(inner(1, a[i]), ex[i], tol[i], 'integral of component %d of a vector', i)
    else:
        a = Array(T)
        a = T.backward(us[0].copy(), a)
        b = np.array(a)
        r = inner(k, a) if c['order'] else inner(a, k)
        near(r, k*ex[0], tol[0]*abs(k), 'integral of an array times %s', k)
        df = np.prod([float(defs.df(s)) for s in n['b']])
        near(dx(a), ex[0]*df, tol[0]*df, 'dx of an array (reference domain)')
        near(np.asarray(a), b, 0, 'an array after integration')


def one_t(fams, **kw):
    S = spaces.st()
    kw.setdefault('lo', 1)
    return S.builds(lambda s, z: dict(b=[dict(s, dtype='d') if s['fam'] == 'F' else s], cplx=z), spaces.specs(fams, **kw), S.booleans())


def gen_number():
    S = spaces.st()
    return S.fixed_dictionaries(dict(
        t=S.one_of(one_t('F C L U J Q'.replace(' ', ''), lo=2, hi=10, values=True), tp.specs('F F C L U J Q', ndims=(2, 2, 3), maxpoly=3, hi=4, values=True, maxbc=3).map(p08.safe)),
        seed=S.integers(0, 10**6), what=S.sampled_from(['array', 'array', 'function', 'padded', 'vector']), order=S.booleans(),
        num=S.sampled_from([1, 1, 2, -1, 0.5, 3])))


def run_linear(c):
    """Scalar products of data with all test functions."""
    import sympy as sp
    from shenfun import Array, Function, TestFunction, VectorSpace, inner
    t = c['t']
    if not tp.ok(t):
        raise Inconclusive()
    n = tp.norm(t)
    nd = len(n['b'])
    T = space(t)
    u = coefs(t, c['seed'])
    if nd > 1 or n['b'][0]['fam'] == 'F':
        u = drop_nyquist(n, u)
    xs, ws = forms.grid(t, 10)
    F = tp.evaluate(n, u, xs) if nd > 1 or n['b'][0]['fam'] == 'F' else tp.evaluate(n, u, xs)
    one_ = [[1, [0]*nd, [0]*nd]]
    E, mag = forms.linear(n, one_, F, xs, ws)
    tol = 1e-11*(1+mag)
    d = E.shape
    f = Function(T)
    f[:] = u
    a = Array(T)
    a = T.backward(f, a)
    b = np.array(a)
    v = TestFunction(T)
    how = c['how']
    if how == 'array':
        r = inner(v, a) if c['order'] else inner(a, v)
    elif how == 'ndarray':
        r = inner(v, b.copy()) if c['order'] else inner(b.copy(), v)
    elif how == 'strided':
        big = np.zeros(tuple(2*m for m in b.shape), dtype=b.dtype)
        s = big[tuple(slice(0, None, 2) for _ in b.shape)]
        s[...] = b
        r = inner(v, s)
    elif how == 'output':
        r = Function(T)
        r[:] = 3
        r2 = inner(v, a, output_array=r)
        check(r2 is r or np.array_equal(r2, r), 'the output array given is not filled')
    elif how == 'space':
        r = T.scalar_product(a, Function(T))
    elif how == 'vector' and nd > 1:
        V = VectorSpace(T)
        av = Array(V)
        for i in range(nd):
            av[i] = (i+1)*b
        rv = inner(TestFunction(V), av)
        for i in range(nd):
            near(drop(n, p08.cut(rv[i], d)), (i+1)*drop(n, E), (i+1)*tol, 'component %d of the scalar product of a vector', i)
        r = np.asarray(rv)[0]
    else:
        r = inner(v, f)
    near(drop(n, p08.cut(r, d)), drop(n, E), tol, 'scalar product (%s)', how)
    near(np.asarray(a), b, 0, 'the array after the scalar product')
    check(np.array_equal(f, u), 'the function was changed by a scalar product')


def drop(n, E):
    return drop_nyquist(n, E)


def gen_linear():
    S = spaces.st()
    return S.fixed_dictionaries(dict(
        t=S.one_of(one_t('FCLUJQ', hi=10), one_t('LaH'.replace('LaH', 'FCLU'), hi=12), tp.specs('F F C L U J Q La H', ndims=(2, 2, 3), maxpoly=3, hi=4, values=True, maxbc=3).map(p08.safe)).map(forms.gauss),
        seed=S.integers(0, 10**6), order=S.booleans(),
        how=S.sampled_from(['array', 'ndarray', 'strided', 'output', 'space', 'vector', 'function'])))


EXPR = ['1', 'x', 'x**2', '2-x', 'x**3+x', 'x*(1-x)']
TRIG = ['1', 'cos(K)', 'sin(K)+2', 'cos(2*K)']


def run_sympy(c):
    """Scalar products and integrals of expressions."""
    import sympy as sp
    from shenfun import Array, Function, TestFunction, inner
    t = c['t']
    if not tp.ok(t):
        raise Inconclusive()
    n = tp.norm(t)
    nd = len(n['b'])
    T = space(t)
    X = [sp.Symbol(s, real=True) for s in 'xyz'[:nd]]
    e = sp.Integer(1)
    for ax, (s, w) in enumerate(zip(n['b'], c['e'])):
        if s['fam'] == 'F':
            a, b = defs.dom(s)
            K = sp.nsimplify(float(defs.df(s)), rational=False) if False else 2*sp.pi*(X[ax]-sp.nsimplify(float(a), [sp.pi]))/(sp.nsimplify(float(b)-float(a), [sp.pi]))
            m = (s['N']-1)//2
            q = TRIG[w % (4 if m >= 2 else 3)]
            e = e*sp.sympify(q, locals=dict(K=K))
        else:
            q = EXPR[w % len(EXPR)]
            if {'x**2': 2, 'x**3+x': 3, 'x*(1-x)': 2}.get(q, 1) > s['N']-1:
                q = '1'
            e = e*sp.sympify(q, locals=dict(x=X[ax]))
    fn = sp.lambdify(X, e, 'numpy')
    mesh = lambda xs: np.broadcast_to(np.asarray(fn(*np.meshgrid(*xs, indexing='ij')), dtype=float), tuple(map(len, xs)))
    if c['how'] == 'integral':
        xs, ws = plain_grid(t, 6)
        E = total(mesh(xs), ws)
        m = total(np.abs(mesh(xs)), ws)
        r = inner(1, Array(T, buffer=e))
        near(r, E, 1e-11*(1+m), 'integral of %s', e)
        return
    xs, ws = forms.grid(t, 12)
    E, mag = forms.linear(n, [[1, [0]*nd, [0]*nd]], mesh(xs).astype(float), xs, ws)
    tol = 1e-10*(1+mag)
    v = TestFunction(T)
    kw = {}
    if c['how'] == 'fixed':
        kw['fixed_resolution'] = [s['N']+3 for s in n['b']] if nd > 1 else n['b'][0]['N']+3
    if c['how'] in ('exact', 'adaptive') and nd == 1 and n['b'][0]['fam'] in 'CL' and n['b'][0]['N'] <= 8:
        kw['assemble'] = c['how']
        tol *= 1e3 if c['how'] == 'adaptive' else 1
    r = inner(v, e, **kw) if c['order'] else inner(e, v, **kw)
    near(drop(n, p08.cut(r, E.shape)), drop(n, E), tol, 'scalar product with %s (%s)', e, c['how'])


def gen_sympy():
    S = spaces.st()
    return S.fixed_dictionaries(dict(
        t=S.one_of(one_t('FCLU', hi=8), tp.specs('F F C L U', ndims=(2, 2, 3), maxpoly=2, hi=4)).map(forms.gauss).map(lambda t: dict(t, cplx=False)),
        e=S.lists(S.integers(0, 5), min_size=3, max_size=3), order=S.booleans(), how=S.sampled_from(['integral', 'quad', 'fixed', 'exact', 'adaptive'])))


def run_curved(c):
    """Measures of curvilinear coordinates."""
    import sympy as sp
    from shenfun import Array, Function, TestFunction, inner
    if c['map'] == 'skewunit':
        p08.CURV.setdefault('skewunit', (2, ['x+3*y/5', '4*y/5'], [(-1, 1), None]))
    psi, r, dom, _ = p08.curv(c['map'])
    t = p08.curved_spec(c)
    n = tp.norm(t)
    nd = len(psi)
    T = tp.build(t, coordinates=(psi, r, sp.Q.positive(sp.sin(psi[p08.SINE[c['map']]]))) if c['map'] in p08.SINE else (psi, r))
    u = drop_nyquist(t, p08.low(n, tp.random_coef(t, c['seed'])))
    f = Function(T)
    f[:] = u
    a = T.backward(f, Array(T))
    b = np.array(a)
    if c['how'] == 'integral':
        xs, ws = plain_grid(t, 8)
        _, _, sg = p08.metric(c['map'], xs)
        F = tp.evaluate(n, u, xs)*sg
        tol = 1e-9*(1+total(np.abs(F), ws))
        near(inner(1, a), total(F, ws), tol, 'integral of an array in %s coordinates', c['map'])
        near(inner(2, f), 2*total(F, ws), 2*tol, 'integral of a function in %s coordinates', c['map'])
        near(inner(1, Array(T, val=1)), total(sg, ws), 1e-9*(1+total(sg, ws)), 'volume of %s coordinates', c['map'])
    else:
        xs, ws = forms.grid(t, 10)
        _, _, sg = p08.metric(c['map'], xs)
        E, mag = forms.linear(n, [[1, [0]*nd, [0]*nd]], tp.evaluate(n, u, xs)*sg, xs, ws)
        d = tuple(min(6, m) if s['fam'] != 'F' else m for m, s in zip(E.shape, n['b']))
        r = inner(TestFunction(T), a)
        near(drop(n, p08.cut(r, d)), drop(n, p08.cut(E, d)), 1e-9*(1+mag), 'scalar product of an array in %s coordinates', c['map'])
        near(drop(n, p08.cut(inner(TestFunction(T), f), d)), drop(n, p08.cut(E, d)), 1e-9*(1+mag), 'scalar product of a function in %s coordinates', c['map'])
    near(np.asarray(a), b, 0, 'the array after integration')


def gen_curved():
    S = spaces.st()
    return S.fixed_dictionaries(dict(map=S.sampled_from(list(p08.CURV)+['skewunit']), N=S.sampled_from([18, 20]), nf=S.integers(4, 6),
                                     fam=S.sampled_from('LC'), bc=S.booleans(), how=S.sampled_from(['integral', 'linear']), seed=S.integers(0, 10**6)))


def lab(c):
    return tp.labels(c['t']) if 't' in c else [c['map']]


SUBS = [
    Sub('number', gen_number, run_number, 300, 6000, 'random data', None, lab, (3, 8), (60, 900)),
    Sub('linear', gen_linear, run_linear, 300, 6000, 'random data', None, lab, (3, 8), (60, 900)),
    Sub('sympy', gen_sympy, run_sympy, 150, 2500, 'a sympy expression', None, lab, (3, 8), (60, 900)),
    Sub('curved', gen_curved, run_curved, 60, 1500, 'random data', None, lab, (2, 8), (60, 800)),
]
ASSUMPTIONS = p08.ASSUMPTIONS+['unweighted rules integrate what P04 decides they integrate']
