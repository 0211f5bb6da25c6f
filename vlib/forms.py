"""Weak forms on tensor product spaces: generated descriptions, their construction and the exact values."""
import numpy as np

from vlib import defs, ref, spaces, tp

SYM = 'xyzrs'


def nodes(s, n):
    """(x physical, w): reference rule of the weighted inner product along one axis."""
    fam = s['fam']
    if fam == 'F':      # the inner product of Fourier spaces is the average over the period
        X = np.arange(n)*2*np.pi/n
        return np.asarray(defs.to_phys(s, X), dtype=float), np.full(n, 1./n)
    if fam == 'La':
        X, w = ref.gauss_laguerre(n)
        w = w*np.exp(X)
    elif fam == 'H':
        X, w = ref.gauss_hermite(n)
        w = w*np.exp(X**2)
    else:
        a, b = ref.weight_exponents(fam, *defs.params(s))
        X, w = ref.gauss(n, a, b)
    return np.asarray(defs.to_phys(s, X), dtype=float), np.asarray(w, dtype=float)/float(defs.df(s))


def grid(t, extra=6, m=None):
    """Fine mesh and weights of the inner product of the test space."""
    xs, ws = [], []
    for s in tp.norm(t)['b']:
        n = (3*s['N']+extra+4) if s['fam'] == 'F' else (s['N']+extra)
        if m:
            n = max(n, m)
        x, w = nodes(s, n)
        xs.append(x)
        ws.append(w)
    return xs, ws


def contract(t, xs, ws, F, ks):
    """(D^ks phi_i, F)_w for all test functions."""
    for ax, s in enumerate(tp.norm(t)['b']):
        V = np.conj(np.asarray(defs.trial(s, xs[ax], ks[ax])))
        F = np.moveaxis(np.tensordot((V*ws[ax][:, None]).T, F, (1, ax)), 0, ax)
    return F


def coordinate(p, xs):
    out = np.ones([1]*len(xs))
    for ax, (q, x) in enumerate(zip(p, xs)):
        sh = [1]*len(xs)
        sh[ax] = -1
        out = out*(np.asarray(x)**q).reshape(sh)
    return out


def value(t, terms, u, xs):
    """Values on the mesh of sum_c  c x^p D^k u."""
    F = 0
    for c, p, k in terms:
        F = F+c*coordinate(p, xs)*tp.evaluate(t, u, xs, ks=k)
    return F


def magnitude(t, terms, u, xs):
    F = 0
    for c, p, k in terms:
        F = F+abs(c)*np.abs(coordinate(p, xs)*tp.evaluate(t, u, xs, ks=k))
    return F


def linear(t, terms, F, xs, ws):
    """(sum_c c x^p D^k phi_i, F)_w; and a bound of its terms for the tolerance."""
    out, mag = 0, 0
    n = tp.norm(t)
    for c, p, k in terms:
        G = c*coordinate(p, xs)*F
        out = out+contract(t, xs, ws, G, k)
        m = np.abs(G)
        for ax, s in enumerate(n['b']):
            V = np.abs(np.asarray(defs.trial(s, xs[ax], k[ax])))
            m = np.moveaxis(np.tensordot((V*np.abs(ws[ax])[:, None]).T, m, (1, ax)), 0, ax)
        mag = mag+m.max(initial=0)
    return out, mag


def build(terms, arg, dim):
    """The same as a shenfun expression."""
    import sympy as sp
    from shenfun import Dx
    x = [sp.Symbol(s, real=True) for s in SYM[:dim]]
    e = None
    if isinstance(arg, np.ndarray) and (len(terms) > 1 or any(any(p) for _, p, _ in terms)):
        from shenfun.forms.arguments import Expr
        arg = Expr(arg)
    for c, p, k in terms:
        d = arg
        for ax, q in enumerate(k):
            if q:
                d = Dx(d, ax, q)
        m = sp.Integer(1)
        for s, q in zip(x, p):
            m = m*s**q
        c = sp.nsimplify(c)
        if m != 1:
            d = (c*m)*d
        elif c != 1:
            d = -d if c == -1 and hasattr(type(d), '__neg__') else d*(float(c) if isinstance(d, np.ndarray) else c)
        e = d if e is None else e+d
    return e


def gen_terms(t, maxk=2, maxp=1, maxterms=3, plain=False):
    """Strategy of term lists for a (drawn) tensor spec."""
    S = spaces.st()
    nd = len(t['b'])

    @S.composite
    def gen(draw):
        out = []
        for _ in range(draw(S.integers(1, maxterms))):
            k = [draw(S.sampled_from([0, 0, 1, 2][:maxk+2])) if b['fam'] != 'H' else 0 for b in t['b']]
            p = [draw(S.sampled_from([0, 0, 0, 1, 2][:maxp+3])) if b['fam'] not in ('F', 'J', 'La', 'H', 'Q') and not plain else 0 for b in t['b']]
            out.append([draw(S.sampled_from([1, 1, -1, 2, 0.5, -3])), p, k])
        return out
    return gen()


def within(tt, te, axes):
    """te without the powers that bring the weight of an axis beyond degree one, which the rule need not integrate exactly."""
    for ax in axes:
        if max(p[ax] for _, p, _ in tt)+max(p[ax] for _, p, _ in te) > 1:
            te = [[c, [0 if i == ax else q for i, q in enumerate(p)], k] for c, p, k in te]
    return te


GAUSS = dict(C='GC', U='GU', L='LG', J='JG', Q='QG', La='LG', H='HG')


def gauss(t):
    """Gauss rules on all polynomial axes: the package's rule is then exact for products of two basis functions."""
    return dict(t, b=[dict(s, quad=GAUSS[s['fam']]) if 'quad' in s and s['fam'] in GAUSS and s['quad'] else s for s in t['b']])
