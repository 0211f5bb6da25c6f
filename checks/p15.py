"""P15 padding and dealiasing neither lose nor invent content."""
import numpy as np

from vlib import defs, ref, spaces, tp
from vlib.core import Inconclusive, Sub, check

TECH = 'property-based testing (Hypothesis): generated products, convolutions and dealiasing histories against exact projections'
NOTE = ('Random coefficients on Fourier and mixed spaces of 1 to 3 dimensions; products formed on padded meshes and convolutions are compared '
        'with exact projections or direct sums, dealiased spaces requested in any order with the mask of kept wavenumbers, energies with the '
        'values on a fine mesh. Sizes are bounded; the Nyquist coefficient of even sizes is fixed by its documented treatment only.')


def near(v, e, tol, what, *a):
    v, e = np.asarray(v), np.asarray(e)
    check(v.shape == e.shape, what+': shape %s instead of %s', *a, v.shape, e.shape)
    d = np.max(np.abs(v-e), initial=0)
    check(np.isfinite(d) and d <= tol, what+': off by %.2e (allowed %.1e)', *a, d, tol)


def wavenumbers(s):
    return np.asarray(defs.wavenumbers(s)).astype(int)


def drop_nyquist(t, u):
    u = u.copy()
    for i, s in enumerate(t['b']):
        if s['fam'] == 'F' and s['N'] % 2 == 0:
            sl = [slice(None)]*u.ndim
            sl[i] = s['N']//2
            u[tuple(sl)] = 0
    return u


def fine(t, m):
    """Meshes (physical) fine enough for products and the matrices projecting values there to coefficients."""
    xs, Ps = [], []
    for s in t['b']:
        n = m*s['N']+2
        if s['fam'] == 'F':
            a, b = defs.dom(s)
            x = np.arange(n)/n
            k = wavenumbers(s)
            P = np.exp(-2j*np.pi*np.outer(k, x))/n
            xs.append(float(a)+(float(b)-float(a))*x)
        else:
            al, be = ref.weight_exponents(s['fam'], s.get('alpha', 0), s.get('beta', 0))
            X, w = ref.gauss(n, al, be)
            x = np.asarray(defs.to_phys(s, X), dtype=float)
            V = np.asarray(defs.trial(s, x), dtype=float)
            P = np.linalg.solve(V.T@(w[:, None]*V), V.T*w)
            xs.append(x)
        Ps.append(P)
    return xs, Ps


def project(t, f, Ps):
    for i, P in enumerate(Ps):
        f = np.moveaxis(np.tensordot(P, f, (1, i)), 0, i)
    return f


def amp(t, u):
    return 1+np.abs(u).sum()


def run_product(c):
    from shenfun import Array, Function, VectorSpace
    t = c['t']
    if not tp.ok(t):
        raise Inconclusive()
    n = tp.norm(t)
    nd = len(n['b'])
    T = tp.build(t) if nd > 1 else spaces.build(n['b'][0])
    pf = [c['pf']]*nd
    for s in n['b']:
        M = int(np.floor(c['pf']*s['N']))
        if M <= s['N'] or (M < (3*s['N']+1)/2 if s['fam'] != 'F' else M < 1.5*s['N']):
            raise Inconclusive()
    if c['how'] == 0 or nd == 1:
        Tp = T.get_dealiased(c['pf'])
    else:
        Tp = T.get_dealiased(tuple(pf))
    a = drop_nyquist(n, tp.random_coef(t, c['seed']))
    b = drop_nyquist(n, tp.random_coef(t, c['seed']+1))
    xs, Ps = fine(n, 3)
    va, vb = tp.evaluate(n, a, xs), tp.evaluate(n, b, xs)
    E = project(n, va*vb, Ps)
    fa, fb = Function(T), Function(T)
    fa[:] = a
    fb[:] = b
    ua, ub = Tp.backward(fa, Array(Tp)), Tp.backward(fb, Array(Tp))
    V = VectorSpace(T) if (nd > 1 and c['vec']) else None
    tol = 1e-11*amp(n, np.abs(va).max())*amp(n, np.abs(vb).max())*a.size
    if V is not None:
        Vp = V.get_dealiased(c['pf'])
        fv = Function(V)
        for i in range(nd):
            fv[i] = a if i % 2 == 0 else b
        vv = Vp.backward(fv, Array(Vp))
        for i in range(nd):
            near(np.asarray(vv[i]), np.asarray(ua if i % 2 == 0 else ub), tol, 'component %d on the padded mesh', i)
    for rep in range(2):
        h = Tp.forward(ua*ub, Function(T))
        got = np.asarray(h)
        sl = []
        for s, m in zip(n['b'], got.shape):
            sl.append(slice(0, m-(defs.nbc(s) if s['fam'] != 'F' else 0)))
        got = got[tuple(sl)]
        near(drop_nyquist(n, got), drop_nyquist(n, E), tol, 'truncated product of two functions')
        ua, ub = ub, ua


def ok_product(t):
    return t


def gen_product():
    S = spaces.st()
    one = S.builds(lambda s: dict(b=[dict(s, dtype='d')], cplx=s['dtype'] == 'D'), spaces.specs('F', lo=3, hi=14))
    # products of composite bases: homogeneous conditions only
    return S.fixed_dictionaries(dict(
        t=S.one_of(one, tp.specs('F F C L', ndims=(2, 2, 3), maxpoly=2, hi=4, generic=False, domain=True)),
        seed=S.integers(0, 10**6), pf=S.sampled_from([1.5, 1.6, 2, 2, 2.5]), how=S.integers(0, 1), vec=S.booleans()))


def full(s, u):
    """All coefficients -K..K of a 1-D Fourier function whose Nyquist coefficient is shared by both ends."""
    N = s['N']
    K = N//2
    c = np.zeros(2*K+1, dtype=complex)
    if s['dtype'] == 'D':
        for k, v in zip(wavenumbers(s), u):
            c[k+K] += v
    else:
        for k, v in enumerate(u):
            c[K+k] = v
            c[K-k] = np.conj(v)
    if N % 2 == 0:
        h = (u[N//2])/2 if s['dtype'] == 'D' else u[-1].real/2
        c[0] = c[-1] = h
    return c


def run_convolve(c):
    """1-D convolution: all coefficients of the product (slow), and its truncation (fast)."""
    from shenfun import Function
    s = c['s']
    N = s['N']
    t = dict(b=[dict(s, dtype='d')], cplx=s['dtype'] == 'D')
    B = spaces.build(s)
    a, b = tp.random_coef(t, c['seed']), tp.random_coef(t, c['seed']+1)
    if c['nyq']:
        a, b = drop_nyquist(t, a), drop_nyquist(t, b)
    fa, fb = full(s, a), full(s, b)
    K = N//2
    E = np.convolve(fa, fb)              # -2K..2K
    tol = 1e-13*(1+np.abs(a).sum())*(1+np.abs(b).sum())*N
    a0, b0 = a.copy(), b.copy()
    r = B.convolve(a, b, fast=False)
    check(np.array_equal(a, a0) and np.array_equal(b, b0), 'convolve changed its input')
    if s['dtype'] == 'D':
        # the documented 2*N coefficients; negative wavenumbers count from the end
        R = np.zeros(2*N, dtype=complex)
        for i, v in enumerate(E):
            R[i-2*K] += v
        near(r, R, tol, 'slow convolution of size %d', N)
    else:
        near(r[:2*K+1], E[2*K:], tol, 'slow convolution of size %d', N)
    P = B.get_dealiased(2)
    f = np.asarray(P.convolve(a, b, fast=True))
    k = wavenumbers(s)
    sel = np.abs(k) < N/2
    near(f[sel], E[2*K+k][sel], tol, 'fast convolution of size %d', N)
    if N % 2 == 0 and s['dtype'] == 'D':
        near(f[K], E[3*K]+E[K], tol, 'Nyquist coefficient of the fast convolution of size %d', N)
    elif N % 2 == 0:
        near(f[K], 2*E[3*K].real, tol, 'Nyquist coefficient of the fast convolution of size %d', N)


def gen_convolve():
    S = spaces.st()
    return S.fixed_dictionaries(dict(s=spaces.specs('F', lo=3, hi=16), seed=S.integers(0, 10**6), nyq=S.booleans()))


def run_class(c):
    """Convolve: the product without truncation."""
    from shenfun import Array, Function
    from shenfun.tensorproductspace import Convolve
    t = c['t']
    n = tp.norm(t)
    nd = len(n['b'])
    T = tp.build(t)
    Tp = T.get_dealiased(tuple([2.0]*nd))
    a, b = drop_nyquist(n, tp.random_coef(t, c['seed'])), drop_nyquist(n, tp.random_coef(t, c['seed']+1))
    fa, fb = Function(T), Function(T)
    fa[:] = a
    fb[:] = b
    C = Convolve(Tp)
    if c['out']:
        out = Function(C.newspace)
        r = C(fa, fb, out)
    else:
        r = C(fa, fb)
    check(np.array_equal(fa, a) and np.array_equal(fb, b), 'Convolve changed its input')
    big = dict(t, b=[dict(s, N=2*s['N']) for s in n['b']])
    xs, Ps = fine(big, 2)
    va, vb = tp.evaluate(n, a, xs), tp.evaluate(n, b, xs)
    E = project(big, va*vb, Ps)
    tol = 1e-11*amp(n, np.abs(va).max())*amp(n, np.abs(vb).max())*a.size
    near(drop_nyquist(big, np.asarray(r)), E, tol, 'convolution without truncation')
    # as a function of its own space
    pts = tp.random_points(t, c['seed'])
    v = np.asarray(r.function_space().eval(pts, r))
    e = tp.evaluate_at(n, a, pts)*tp.evaluate_at(n, b, pts)
    near(v, e, tol, 'value of the convolution in its function space')


def gen_class():
    S = spaces.st()
    return S.fixed_dictionaries(dict(t=tp.specs('F', ndims=(2, 2, 3), hi=3, cplx=True, maxpoly=0), seed=S.integers(0, 10**6), out=S.booleans()))


def kept(s):
    """Wavenumbers surely kept and surely removed by direct dealiasing (upper third)."""
    if s['fam'] != 'F':
        i = np.arange(s['N'])
        m = i < s['N']-defs.nbc(s)
        return m & (i < 2*s['N']//3), m & (i >= 2*s['N']/3)
    k = np.abs(wavenumbers(s))
    return k < s['N']//3, k >= s['N']/3


def run_history(c):
    """Dealiased spaces asked for in any order and way."""
    from shenfun import Array, Function
    t = c['t']
    n = tp.norm(t)
    nd = len(n['b'])
    T = tp.build(t) if nd > 1 else spaces.build(n['b'][0])
    u = drop_nyquist(n, tp.random_coef(t, c['seed']))
    f = Function(T)
    f[:] = u
    a = 1e-12*(1+np.abs(u).sum())*u.size
    for j, (p, direct, form) in enumerate(c['ops']):
        pf = [1, 1.5, 2][p]
        vec = form > 0 and nd > 1
        pfs = [pf]*nd
        if vec and form == 2:
            pfs[-1] = 1
        if any(q != 1 and int(q*s['N']) <= s['N'] for q, s in zip(pfs, n['b'])):
            continue
        d = direct and pf == 1         # documented: used only if padding_factor is 1
        Tp = T.get_dealiased(tuple(pfs) if vec else pf, dealias_direct=d)
        bases = Tp.bases if nd > 1 else [Tp]
        for b, q, s in zip(bases, pfs, n['b']):
            check(b.shape(False) == int(np.floor(q*s['N']+0.5)) or b.shape(False) == int(np.floor(q*s['N'])),
                  'step %d: padded mesh has %d points for size %d and factor %s', j, b.shape(False), s['N'], q)
            check(bool(b.dealias_direct) == bool(d), 'step %d: dealias_direct is %s instead of %s', j, b.dealias_direct, d)
        xs = [np.asarray(b.mesh(bcast=False, map_true_domain=True)) for b in bases]
        ua = np.asarray(Tp.backward(np.array(u) if c['raw'] else f, Array(Tp)))
        check(np.array_equal(f, u), 'step %d: backward changed its input', j)
        if not d:
            near(ua, tp.evaluate(n, u, xs, sym=True), a, 'step %d: padded backward', j)
            continue
        # decide which coefficients take part by transforming back
        w = np.asarray(T.forward(ua.copy(), Function(T)))
        keep = np.ones(u.shape, bool)
        gone = np.zeros(u.shape, bool)
        for i, s in enumerate(n['b']):
            sh = [1]*nd
            sh[i] = -1
            k1, g1 = kept(s)
            keep &= k1.reshape(sh)
            gone |= g1.reshape(sh)
        near(w[keep], u[keep], a, 'step %d: low wavenumbers with direct dealiasing', j)
        near(w[gone], 0*u[gone], a, 'step %d: high wavenumbers with direct dealiasing', j)


def gen_history():
    S = spaces.st()
    one = S.builds(lambda s: dict(b=[dict(s, dtype='d')], cplx=s['dtype'] == 'D'), spaces.specs('F', lo=3, hi=14))
    return S.fixed_dictionaries(dict(
        t=S.one_of(one, tp.specs('F F C L', ndims=(2, 2, 3), hi=4, maxpoly=1, generic=False)), seed=S.integers(0, 10**6), raw=S.booleans(),
        ops=S.lists(S.tuples(S.integers(0, 2), S.booleans(), S.integers(0, 2)).map(list), min_size=1, max_size=5)))


def run_nyquist(c):
    from shenfun import Function, VectorSpace
    t = c['t']
    n = tp.norm(t)
    nd = len(n['b'])
    T = tp.build(t) if nd > 1 else spaces.build(n['b'][0])
    V = VectorSpace(T) if nd > 1 and c['vec'] else T
    f = Function(V)
    g = spaces.rng(c['seed'])
    f[:] = g.standard_normal(f.shape)+1j*g.standard_normal(f.shape) if np.iscomplexobj(f) else g.standard_normal(f.shape)
    old = np.array(f)
    E = old.copy()
    if V is T:
        E = drop_nyquist(n, E)
    else:
        for i in range(nd):
            E[i] = drop_nyquist(n, E[i])
    if nd == 1:
        r = T.mask_nyquist(f) if c['m'] else T.mask_nyquist(f, T.get_mask_nyquist(bcast=False))
    elif V is not T:
        r = f.mask_nyquist(T.get_mask_nyquist())
    elif c['m']:
        r = T.mask_nyquist(f)
    else:
        r = f.mask_nyquist(T.get_mask_nyquist())
    if r is None:
        r = f
    near(np.asarray(r), E, 0, 'masking of Nyquist coefficients')
    near(np.asarray(f), E, 0, 'masking of Nyquist coefficients in place')
    k = T.wavenumbers(eliminate_highest_freq=True) if nd == 1 else T.wavenumbers(eliminate_highest_freq=True)
    ks = [k] if nd == 1 else k
    for i, (s, kk) in enumerate(zip(n['b'], ks)):
        if s['fam'] != 'F':
            continue
        e = wavenumbers(s).copy()
        if s['N'] % 2 == 0:
            e[s['N']//2] = 0
        near(np.ravel(kk), e, 0, 'wavenumbers without the highest')


def gen_nyquist():
    S = spaces.st()
    one = S.builds(lambda s: dict(b=[dict(s, dtype='d')], cplx=s['dtype'] == 'D'), spaces.specs('F', lo=3, hi=14))
    return S.fixed_dictionaries(dict(
        t=S.one_of(one, tp.specs('F F F C L', ndims=(2, 2, 3), hi=4, maxpoly=1, generic=False)), seed=S.integers(0, 10**6),
        vec=S.booleans(), m=S.booleans()))


def run_energy(c):
    from shenfun import Array, Function, VectorSpace
    from shenfun.fourier import energy_fourier
    t = c['t']
    n = tp.norm(t)
    nd = len(n['b'])
    T = tp.build(t) if nd > 1 else spaces.build(n['b'][0])
    V = VectorSpace(T) if nd > 1 and c['vec'] else T
    f = Function(V)
    e = 0
    for i in range(nd if V is not T else 1):
        u = tp.random_coef(t, c['seed']+i)
        # the documented sum needs data whose Nyquist part is that of values on the mesh
        xs = [np.asarray(b.mesh(bcast=False)) for b in (T.bases if nd > 1 else [T])]
        v = tp.evaluate(n, u, xs)
        if V is not T:
            f[i] = u
        else:
            f[:] = u
        e += np.mean(np.abs(v)**2)
    got = energy_fourier(f, T)
    check(abs(got-e) <= 1e-11*(1+abs(e)), "energy of the coefficients is %.15g, mean square of the values is %.15g", got, e)
    m = np.asarray(V.backward(f, Array(V)))
    check(abs(np.sum(np.abs(m)**2)/np.prod(T.shape(False) if nd > 1 else [T.N])-e) <= 1e-11*(1+abs(e)), 'mean square of the transformed values')


def gen_energy():
    S = spaces.st()
    one = S.builds(lambda s: dict(b=[dict(s, dtype='d')], cplx=s['dtype'] == 'D'), spaces.specs('F', lo=3, hi=14))
    return S.fixed_dictionaries(dict(t=S.one_of(one, tp.specs('F', ndims=(2, 2, 3), hi=4, maxpoly=0)), seed=S.integers(0, 10**6),
                                     vec=S.booleans()))


def lab(c):
    if 's' in c:
        return [spaces.label(c['s'])]
    return tp.labels(c['t'])


SUBS = [
    Sub('product', gen_product, run_product, 250, 5000, 'padding that avoids aliasing', None, lab, (3, 8), (60, 900)),
    Sub('convolve', gen_convolve, run_convolve, 200, 3000, 'at least three coefficients', None, lab, (1, 4), (40, 600)),
    Sub('class', gen_class, run_class, 100, 1500, 'two dimensions or more', None, lab, (2, 8), (50, 700)),
    Sub('history', gen_history, run_history, 250, 5000, 'one request or more', None, lab, (2, 8), (50, 800)),
    Sub('nyquist', gen_nyquist, run_nyquist, 150, 2000, 'random coefficients', None, lab, (1, 4), (40, 500)),
    Sub('energy', gen_energy, run_energy, 200, 3000, 'random coefficients', None, lab, (1, 4), (40, 500)),
]
ASSUMPTIONS = ['the independent series and quadrature rules of vlib (used throughout) are right',
               'the Nyquist coefficient of an even size stands for the cosine on padded meshes, as the package documents']
