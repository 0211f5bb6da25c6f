"""P08 multidimensional forms are the true integrals."""
import numpy as np

from vlib import defs, forms, one, spaces, tp
from vlib.core import Inconclusive, Sub, check
from vlib.tp import drop_nyquist

TECH = 'property-based testing (Hypothesis): generated weak forms applied to random functions against integrals on a finer reference mesh'
NOTE = ('Random tensor, vector and mixed spaces of 2 and 3 dimensions, random sums of differential terms with coordinate-dependent '
        'coefficients on either side, domains, axes orders and inhomogeneous conditions, and forms in curvilinear coordinates; the operators '
        'are applied to random coefficients and compared with the integrals of independently evaluated functions. Sizes and degrees are bounded.')


def dims(t):
    return tuple(m-(defs.nbc(s) if s['fam'] != 'F' else 0) for m, s in zip(tp.shape(t), tp.norm(t)['b']))


def cut(a, d):
    return np.asarray(a)[tuple(slice(0, m) for m in d)]


def near(t, v, e, tol, what, *a):
    v, e = np.asarray(v), np.asarray(e)
    if v.shape == e.shape and e.ndim == len(t['b']):
        v, e = drop_nyquist(t, v), drop_nyquist(t, e)
    check(v.shape == e.shape, what+': shape %s instead of %s', *a, v.shape, e.shape)
    d = np.max(np.abs(v-e), initial=0)
    check(np.isfinite(d) and d <= tol, what+': off by %.2e (allowed %.1e, size %.1e)', *a, d, tol, np.abs(e).max(initial=0))


def apply(A, f, out):
    A = A if isinstance(A, list) else [A]
    r = 0
    for a in A:
        out[:] = 0
        r = r+np.array(a.matvec(f, out))
    return r if np.ndim(r) else np.zeros(out.shape, dtype=out.dtype)


def usable(t, lim=1e6):
    if not tp.ok(t) or np.prod([one.cond(s) for s in t['b']]) > lim:
        raise Inconclusive()


def run_scalar(c):
    from shenfun import Function, TestFunction, TrialFunction, inner
    t, tt, te = c['t'], c['test'], c['trial']
    usable(t)
    nd = len(t['b'])
    te = forms.within(tt, te, [i for i, s in enumerate(t['b']) if s.get('basis') in (None, 'Orthogonal') and not s.get('bcd')])
    T = tp.build(t)
    u = drop_nyquist(t, tp.random_coef(t, c['seed']))
    xs, ws = forms.grid(t, 10)
    n = tp.norm(t)
    E, mag = forms.linear(n, tt, forms.value(n, te, u, xs), xs, ws)
    _, mag2 = forms.linear(n, tt, forms.magnitude(n, te, np.abs(u), xs), xs, ws)
    tol = 1e-11*(mag+mag2+1)
    f = Function(T)
    f[:] = u
    v, w = TestFunction(T), TrialFunction(T)
    ev, ew = forms.build(tt, v, nd), forms.build(te, w, nd)
    if c['order']:
        A = inner(ev, ew)
    else:
        A = inner(ew, ev)
    r = apply(A, f, Function(T))
    d = dims(t)
    near(t, cut(r, d), E, tol, 'bilinear form applied to a function')
    check(np.array_equal(f, u), 'applying the form changed its argument')
    if c['twice']:
        near(t, cut(apply(inner(ev, ew), f, Function(T)), d), E, tol, 'bilinear form assembled again')
        near(t, cut(inner(ev, forms.build(te, f, nd)), d), E, tol, 'linear form of the same terms')
        check(np.array_equal(f, u), 'the linear form changed its argument')


def safe(t):
    """Values of conditions on one axis only (in three dimensions)."""
    k = [s for s in t['b'] if any(s.get('bcv') or []) or any(v for q in (s.get('bcd') or {}).values() for v in q.values())]
    rob = any(q in 'RW' for s in k for q in str(s.get('bc', '')) + ''.join(''.join(v) for v in (s.get('bcd') or {}).values()))
    for s in k[1 if len(t['b']) > 2 or rob else 2:]:
        if s.get('bcv'):
            s['bcv'] = [0.0]*len(s['bcv'])
        if s.get('bcd'):
            s['bcd'] = {a: {b: 0 if not isinstance(v, (list, tuple)) else [v[0], 0] for b, v in q.items()} for a, q in s['bcd'].items()}
    return t


def gen_scalar():
    S = spaces.st()

    @S.composite
    def gen(draw):
        t = draw(tp.specs('F F C L U J La H', ndims=(2, 2, 3), maxpoly=2, hi=4, values=True).map(forms.gauss))
        safe(t)     # values on two axes are implemented in two dimensions only
        return dict(t=t, test=draw(forms.gen_terms(t)), trial=draw(forms.gen_terms(t)), seed=draw(S.integers(0, 10**6)),
                    order=draw(S.booleans()), twice=draw(S.booleans()))
    return gen()


OPS = ['mass', 'gradgrad', 'lap', 'laplap', 'divgradf', 'minus']


def laplace_terms(nd):
    return [[1, [0]*nd, [2 if i == j else 0 for j in range(nd)]] for i in range(nd)]


def unit(nd, i, q=1):
    return [q if i == j else 0 for j in range(nd)]


def run_ops(c):
    """grad, div and laplace on scalars and vectors of a Cartesian space."""
    from shenfun import Function, TestFunction, TrialFunction, VectorSpace, div, grad, inner
    from shenfun.forms.arguments import Expr
    t = c['t']
    usable(t)
    nd = len(t['b'])
    n = tp.norm(t)
    T = tp.build(t)
    xs, ws = forms.grid(t, 10)
    z = [0]*nd
    m = [[1, z, z]]
    D = [[[1, z, unit(nd, i)]] for i in range(nd)]
    L = laplace_terms(nd)
    d = dims(t)
    op = c['op']
    vec = op.startswith('v')
    V = VectorSpace(T) if vec else T
    us = [drop_nyquist(t, tp.random_coef(t, c['seed']+i)) for i in range(nd if vec else 1)]
    f = Function(V)
    if vec:
        for i in range(nd):
            f[i] = us[i]
    else:
        f[:] = us[0]
    v, w = TestFunction(V), TrialFunction(V)

    def lin(tt, te, u):
        E, a = forms.linear(n, tt, forms.value(n, te, u, xs), xs, ws)
        _, b = forms.linear(n, tt, forms.magnitude(n, te, np.abs(u), xs), xs, ws)
        lin.mag += a+b
        return E
    lin.mag = 1
    if op == 'gradgrad':
        E = [sum(lin(D[i], D[i], us[0]) for i in range(nd))]
        form = lambda g: inner(grad(v), grad(g))
    elif op == 'lap':
        E = [lin(m, L, us[0])]
        form = lambda g: inner(v, div(grad(g)))
    elif op == 'testlap':
        E = [lin(L, m, us[0])]
        form = lambda g: inner(div(grad(v)), g)
    elif op == 'laplap':
        E = [lin(L, L, us[0])]
        form = lambda g: inner(div(grad(v)), div(grad(g)))
    elif op == 'helm':
        E = [2*lin(m, m, us[0])-lin(m, L, us[0])]
        form = lambda g: inner(v, (2*Expr(g) if hasattr(g, 'shape') else 2*g)-div(grad(g)))
    elif op == 'vmass':
        E = [lin(m, m, u) for u in us]
        form = lambda g: inner(v, g)
    elif op == 'vgrad':
        E = [sum(lin(D[j], D[j], u) for j in range(nd)) for u in us]
        form = lambda g: inner(grad(v), grad(g))
    elif op == 'vlap':
        E = [lin(m, L, u) for u in us]
        form = lambda g: inner(v, div(grad(g)))
    else:       # vdiv: grad-div
        E = [sum(lin(D[i], D[j], us[j]) for j in range(nd)) for i in range(nd)]
        form = lambda g: inner(div(v), div(g))
    tol = 1e-11*lin.mag
    A = form(w)
    if vec:
        from shenfun import BlockMatrix
        M = BlockMatrix(A if isinstance(A, list) else [A])
        r = np.array(M.matvec(f, Function(V)))
    else:
        r = apply(A, f, Function(V))[None]
    g = form(f)
    g = np.array(g) if vec else np.array(g)[None]
    for i, e in enumerate(E):
        near(t, cut(r[i], d), e, tol, '%s: component %d of the applied form', op, i)
        near(t, cut(g[i], d), e, tol, '%s: component %d of the linear form', op, i)


def gen_ops():
    S = spaces.st()
    return S.fixed_dictionaries(dict(
        t=tp.specs('F F C L U', ndims=(2, 2, 3), maxpoly=2, hi=3, values=False).map(forms.gauss),
        op=S.sampled_from(['gradgrad', 'lap', 'testlap', 'laplap', 'helm', 'vmass', 'vgrad', 'vlap', 'vdiv']), seed=S.integers(0, 10**6)))


def run_mixed(c):
    """Blocks between different spaces: sum over a random list of (test, trial, terms)."""
    from shenfun import BlockMatrix, CompositeSpace, Function, TestFunction, TrialFunction, extract_bc_matrices, inner
    t = c['t']
    t2 = dict(t, b=[dict(s) if s['fam'] == 'F' else {k: v for k, v in s.items() if k in ('fam', 'N', 'quad', 'dom', 'dtype', 'alpha', 'beta')} | {'basis': None}
                    for s in t['b']])
    usable(t)
    nd = len(t['b'])
    ts = [t, t2, t][:c['nsp']]
    spaces_ = [tp.build(t), tp.build(t2)]
    V = CompositeSpace([spaces_[0], spaces_[1], spaces_[0]][:c['nsp']])
    xs, ws = forms.grid(t, 10)
    us = [drop_nyquist(q, tp.random_coef(q, c['seed']+i)) for i, q in enumerate(ts)]
    f = Function(V)
    for i in range(len(ts)):
        f[i] = us[i]
    v, w = TestFunction(V), TrialFunction(V)
    mats = []
    E = [0]*len(ts)
    mag = 1
    rows = set()
    for i, j, tt, te in c['blocks']:
        i, j = i % len(ts), j % len(ts)
        te = forms.within(tt, te, range(nd))
        A = inner(forms.build(tt, v[i], nd), forms.build(te, w[j], nd))
        mats += A if isinstance(A, list) else [A]
        e, a = forms.linear(tp.norm(ts[i]), tt, forms.value(tp.norm(ts[j]), te, us[j], xs), xs, ws)
        _, b = forms.linear(tp.norm(ts[i]), tt, forms.magnitude(tp.norm(ts[j]), te, np.abs(us[j]), xs), xs, ws)
        E[i] = E[i]+e
        mag += a+b
        rows.add(i)
    if not mats:        # every block is zero
        raise Inconclusive()
    M = BlockMatrix(mats)
    r = np.array(M.matvec(f, Function(V)))
    for i in range(len(ts)):
        e = E[i] if i in rows else np.zeros(dims(ts[i]))
        near(ts[i], cut(r[i], dims(ts[i])), e, 1e-11*mag, 'block row %d of the applied form', i)


def gen_mixed():
    S = spaces.st()

    @S.composite
    def gen(draw):
        t = draw(tp.specs('F F C L', ndims=(2, 2, 3), maxpoly=2, hi=3, generic=False).map(forms.gauss))
        tm = forms.gen_terms(t, maxk=1, maxp=1, maxterms=2)
        return dict(t=t, nsp=draw(S.integers(2, 3)), seed=draw(S.integers(0, 10**6)),
                    blocks=draw(S.lists(S.tuples(S.integers(0, 2), S.integers(0, 2), tm, tm).map(list), min_size=1, max_size=4)))
    return gen()


# name: (psi names, rv, domains of the non-periodic axes (None: periodic))
CURV = {    # the package wants the coordinates to be called x, y, z
    'polar': (2, ['x*cos(y)', 'x*sin(y)'], [(1, 2), None]),
    'polarswap': (2, ['y*cos(x)', 'y*sin(x)'], [None, (1, 2)]),
    'cylinder': (3, ['x*cos(y)', 'x*sin(y)', 'z'], [(1, 2), None, None]),
    'sphere': (2, ['sin(x)*cos(y)', 'sin(x)*sin(y)', 'cos(x)'], [(0.8, 2.2), None]),
    'spherical': (3, ['x*sin(y)*cos(z)', 'x*sin(y)*sin(z)', 'x*cos(y)'], [(1, 2), (0.8, 2.2), None]),
    'skew': (2, ['x+y/2', 'y'], [(-1, 1), None]),
    'skew2': (2, ['x+y/2', '3*y/4'], [None, (-1, 1)]),
    'stretch': (2, ['2*x', '3*y'], [(-1, 1), None]),
    'shear': (2, ['x', 'y+x**2/2'], [(0, 1), None]),
    'torus': (2, ['(3+cos(x))*cos(y)', '(3+cos(x))*sin(y)', 'sin(x)'], [(0.5, 1.5), None]),
    'helical': (3, ['x*cos(y)', 'x*sin(y)', 'z+y/2'], [(1, 2), None, None]),
}
SINE = {'sphere': 0, 'spherical': 1}


_cache = {}


def curv(name):
    if name not in _cache:
        import sympy as sp
        ps, rv, dom = CURV[name]
        psi = sp.symbols('x y z', real=True, positive=True)[:ps]
        loc = {p.name: p for p in psi}
        r = tuple(sp.sympify(e, locals=loc) for e in rv)
        J = sp.Matrix([[sp.diff(e, p) for e in r] for p in psi])
        _cache[name] = psi, r, dom, sp.lambdify(psi, J, 'numpy')
    return _cache[name]


def metric(name, xs):
    """g_ij, g^ij and sqrt(g) on the mesh."""
    psi, r, dom, J = curv(name)
    X = np.meshgrid(*xs, indexing='ij')
    flat = [x.ravel() for x in X]
    g = np.zeros((len(flat[0]), len(psi), len(psi)))
    for i, p in enumerate(zip(*flat)):
        B = np.array(J(*p), dtype=float)
        g[i] = B@B.T
    sh = X[0].shape
    n = len(psi)
    G = np.linalg.inv(g)
    sg = np.sqrt(np.linalg.det(g)).reshape(sh)
    g, G = [np.moveaxis(a, 0, -1).reshape((n, n)+sh) for a in (g, G)]
    return g, G, sg


def divergence_factors(name, xs):
    """d_i (sqrt(g)/h_i) and sum_i d_i (sqrt(g) g^ij) on the mesh."""
    import sympy as sp
    psi, r, dom, _ = curv(name)
    if name not in _div:
        J = sp.Matrix([[sp.diff(e, p) for e in r] for p in psi])
        g = (J*J.T).applyfunc(sp.simplify)
        sg = sp.sqrt(sp.simplify(g.det()))
        G = g.inv()
        n = len(psi)
        a = [sp.diff(sg/sp.sqrt(g[i, i]), psi[i]) for i in range(n)]
        b = [[sp.diff(sg*G[i, j], psi[i]) for j in range(n)] for i in range(n)]
        _div[name] = [sp.lambdify(psi, e, 'numpy') for e in a], [[sp.lambdify(psi, e, 'numpy') for e in r_] for r_ in b]
    fa, fb = _div[name]
    X = np.meshgrid(*xs, indexing='ij')
    one_ = np.ones(X[0].shape)
    return [f(*X)*one_ for f in fa], [[f(*X)*one_ for f in r_] for r_ in fb]


_div = {}


def curved_spec(c):
    psi, r, dom, _ = curv(c['map'])
    b = []
    for d in dom:
        if d is None:
            b.append(dict(fam='F', N=c['nf'], dtype='d', dom=[0, 2*np.pi]) if False else dict(fam='F', N=c['nf'], dtype='d'))
        else:
            s = dict(fam=c['fam'], N=c['N'], quad={'L': 'LG', 'C': 'GC'}[c['fam']], dom=list(d))
            if c['bc']:
                s['basis'] = 'ShenDirichlet'
            else:
                s['basis'] = None
            b.append(s)
    return dict(b=b)


def low(t, u, m=4):
    """Keep only low modes on the polynomial axes."""
    u = u.copy()
    for i, s in enumerate(t['b']):
        if s['fam'] != 'F':
            sl = [slice(None)]*u.ndim
            sl[i] = slice(m, None)
            u[tuple(sl)] = 0
    return u


def run_curved(c):
    import sympy as sp
    from shenfun import BlockMatrix, Function, TestFunction, TrialFunction, VectorSpace, div, grad, inner
    from shenfun.forms.arguments import Expr
    psi, r, dom, _ = curv(c['map'])
    t = curved_spec(c)
    n = tp.norm(t)
    nd = len(psi)
    T = tp.build(t, coordinates=(psi, r, sp.Q.positive(sp.sin(psi[SINE[c['map']]]))) if c['map'] in SINE else (psi, r))
    xs, ws = forms.grid(t, 10)
    g, G, sg = metric(c['map'], xs)
    z = [0]*nd
    op = c['op']
    vec = op.startswith('v')
    us = [drop_nyquist(t, low(n, tp.random_coef(t, c['seed']+i))) for i in range(nd if vec else 1)]
    V = VectorSpace(T) if vec else T
    f = Function(V)
    if vec:
        for i in range(nd):
            f[i] = us[i]
    else:
        f[:] = us[0]
    v, w = TestFunction(V), TrialFunction(V)
    val = lambda u, k=z: tp.evaluate(n, u, xs, ks=k)
    con = lambda F, k=z: forms.contract(n, xs, ws, F, k)
    h = [np.sqrt(g[i, i]) for i in range(nd)]
    if op == 'mass':
        E = [con(sg*val(us[0]))]
        form = lambda q: inner(v, q)
    elif op == 'gradgrad':
        E = [sum(con(sg*G[i, j]*val(us[0], unit(nd, j)), unit(nd, i)) for i in range(nd) for j in range(nd))]
        form = lambda q: inner(grad(v), grad(q))
    elif op == 'coef':
        i = next(k for k in range(nd) if dom[k] is not None)
        x = coordinate_of(i, xs)
        E = [con(sg*x*val(us[0]))]
        form = lambda q: inner(v, psi[i]*(Expr(q) if hasattr(q, 'shape') else q))
    elif op == 'vmass':
        # components along the unit (normalised covariant) vectors
        E = [sum(con(sg*g[i, j]/h[i]/h[j]*val(us[j])) for j in range(nd)) for i in range(nd)]
        form = lambda q: inner(v, q)
    elif op == 'sgrad':
        E = [con(sg/h[i]*val(us[0], unit(nd, i))) for i in range(nd)]
        V2 = VectorSpace(T)
        v2 = TestFunction(V2)
        form = lambda q: inner(v2, grad(q))
    elif op == 'lap':
        # -(grad v, grad u) holds for functions vanishing at the ends only; use the definition
        dd = divergence_factors(c['map'], xs)
        F = 0
        for i in range(nd):
            for j in range(nd):
                F = F+sg*G[i, j]*val(us[0], [a+b for a, b in zip(unit(nd, i), unit(nd, j))])+dd[1][i][j]*val(us[0], unit(nd, j))
        E = [con(F)]
        form = lambda q: inner(v, div(grad(q)))
    else:       # vdiv
        dd = divergence_factors(c['map'], xs)[0]
        f1 = Function(T)
        q0 = drop_nyquist(t, low(n, tp.random_coef(t, c['seed']+7)))
        f1[:] = q0
        f = f1
        E = [con(val(q0)*dd[i])+con(val(q0)*sg/h[i], unit(nd, i)) for i in range(nd)]
        w = TrialFunction(T)
        V2 = V
        form = lambda q: inner(div(v), q)
    block = op in ('sgrad', 'vdiv')
    scale = max([np.abs(e).max(initial=0) for e in E])
    tol = 1e-9*(1+scale)
    A = form(w)
    if block:
        R = np.zeros((nd,)+f.shape, dtype=f.dtype)
        for a in A if isinstance(A, list) else [A]:
            i, j = a.global_index
            R[i] += a.matvec(f, Function(T))
    elif vec:
        M = BlockMatrix(A if isinstance(A, list) else [A])
        R = np.array(M.matvec(f, Function(V)))
    else:
        R = apply(A, f, Function(V))[None]
    Lf = np.array(form(f))
    Lf = Lf if vec or block else Lf[None]
    for i, e in enumerate(E):
        d = [min(6, m) if s['fam'] != 'F' else m for m, s in zip(dims(t), n['b'])]
        near(t, cut(R[i], d), cut(e, d), tol, '%s in %s coordinates: component %d of the applied form', op, c['map'], i)
        near(t, cut(Lf[i], d), cut(e, d), tol, '%s in %s coordinates: component %d of the linear form', op, c['map'], i)


def coordinate_of(i, xs):
    return forms.coordinate([1 if k == i else 0 for k in range(len(xs))], xs)


def gen_curved():
    S = spaces.st()
    return S.fixed_dictionaries(dict(map=S.sampled_from(list(CURV)), N=S.sampled_from([18, 20]), nf=S.integers(4, 6), fam=S.sampled_from('LC'),
                                     bc=S.booleans(), op=S.sampled_from(['mass', 'gradgrad', 'coef', 'vmass', 'sgrad', 'vdiv', 'lap']), seed=S.integers(0, 10**6)))


def lab(c):
    return tp.labels(c['t']) if 't' in c else [c['map'], c['op']]


SUBS = [
    Sub('scalar', gen_scalar, run_scalar, 200, 5000, 'random coefficients', None, lab, (3, 8), (70, 1200)),
    Sub('ops', gen_ops, run_ops, 150, 4000, 'random coefficients', None, lambda c: lab(c)+[c['op']], (3, 8), (70, 1000)),
    Sub('mixed', gen_mixed, run_mixed, 100, 3000, 'at least one block', None, lab, (2, 8), (60, 900)),
    Sub('curved', gen_curved, run_curved, 60, 1500, 'random coefficients', None, lab, (4, 8), (70, 1200)),
]
ASSUMPTIONS = ['basis functions, stencils and quadrature weights as decided by P04 to P06',
               'Fourier inner products are averages over the period (the package\'s convention)']
