"""Linear systems with known solution: generated operators, exact right-hand sides and independent conditioning."""
import numpy as np

from vlib import defs, forms, spaces, tp
from vlib.core import Inconclusive


def unit(nd, i, q):
    return [q if i == j else 0 for j in range(nd)]


def operator(t, op):
    """List of (test terms, trial terms) of a described operator

    op: dict(kind, form, al, a, b, p): order 0 ('mass'), 2 ('helm', 'poisson', 'adv', 'var') or 4 ('biharm')
    """
    nd = len(t['b'])
    z = [0]*nd
    m = [[1, z, z]]
    out = []
    kind, a, al = op['kind'], op['a'], op['al']
    if kind == 'mass':
        return [(m, [[al, z, z]])]
    if kind == 'biharm':
        L = [[a[i], z, unit(nd, i, 2)] for i in range(nd)]
        out = [(L, L)] if op['form'] == 'weak' else [(m, [[x[0]*y[0], z, [p+q for p, q in zip(x[2], y[2])]] for x in L for y in L])]
        if al:
            out.append((m, [[al, z, z]]))
        return out
    if op['form'] == 'weak':
        out = [([[1, z, unit(nd, i, 1)]], [[a[i], z, unit(nd, i, 1)]]) for i in range(nd)]
        rest = []
    elif op['form'] == 'test':
        out = [([[-a[i], z, unit(nd, i, 2)] for i in range(nd)], m)]
        rest = []
    else:
        rest = [[-a[i], z, unit(nd, i, 2)] for i in range(nd)]
    if kind in ('helm', 'adv', 'var'):
        rest = rest+[[al, z, z]]
    if kind == 'adv':
        rest = rest+[[op['b'], z, unit(nd, op['ax'] % nd, 1)]]
    if kind == 'var':
        ax = [i for i, s in enumerate(t['b']) if s['fam'] in 'CLU']
        if ax:
            rest = rest+[[op['b'], unit(nd, ax[op['ax'] % len(ax)], 1), z]]
    if rest:
        out.append((m, rest))
    return out


def ops(t, kinds=('mass', 'helm', 'helm', 'poisson', 'adv', 'var', 'biharm')):
    S = spaces.st()
    return S.fixed_dictionaries(dict(kind=S.sampled_from(list(kinds)), form=S.sampled_from(['weak', 'strong', 'strong', 'test']),
                                     al=S.sampled_from([1, 2, 0.5, 10]), a=S.lists(S.sampled_from([1, 1, 2, 0.5]), min_size=len(t['b']), max_size=len(t['b'])),
                                     b=S.sampled_from([1, -0.5, 0.25]), ax=S.integers(0, 3)))


def dense(tv, tu, pairs):
    """Matrix of the form for the test functions of tv and the (unlifted) trial functions of tu."""
    nv, nu = tp.norm(tv)['b'], tp.norm(tu)['b']
    xs, ws = forms.grid(tv, 12)
    V = [[np.asarray(defs.trial(s, x, k)) for k in range(3)] for s, x in zip(nv, xs)]
    U = {}
    out = 0
    for tt, te in pairs:
        for c, p, k in tt:
            for d, q, l in te:
                M = np.eye(1)
                for ax, (x, w) in enumerate(zip(xs, ws)):
                    if (ax, l[ax]) not in U:
                        U[ax, l[ax]] = np.asarray(defs.trial(nu[ax], x, l[ax]))
                    M = np.kron(M, np.conj(V[ax][k[ax]]).T @ ((w*x**(p[ax]+q[ax]))[:, None]*U[ax, l[ax]]))
                out = out+float(c)*float(d)*M
    return out.astype(complex if np.iscomplexobj(out) else float)


def half(t, A, tv=None):
    """Rows and columns of the wavenumbers other than Nyquist."""
    def keep(t):
        n = tp.norm(t)['b']
        ks = []
        for ax, s in enumerate(n):
            m = np.asarray(defs.trial(s, np.zeros(1) if s['fam'] == 'F' else np.array([float(defs.to_phys(s, 0.))]), 0)).shape[1]
            k = np.ones(m, bool)
            if s['fam'] == 'F' and s['N'] % 2 == 0:
                k[s['N']//2] = False
            ks.append(k)
        K = ks[0]
        for k in ks[1:]:
            K = np.logical_and.outer(K, k)
        return K.ravel()
    return A[np.ix_(keep(tv or t), keep(t))]


def cond(A, lim=1e7):
    if A.shape[0] == 0 or A.shape[0] > 500:
        raise Inconclusive()
    s = np.linalg.svd(A, compute_uv=False)
    if s[-1] <= 0 or s[0]/s[-1] > lim:
        raise Inconclusive()
    return s[0]/s[-1]


def rhs(t, pairs, f, xs, ws, tu=None):
    """(test terms, trial terms of f)_w and the size of its parts."""
    n, m = tp.norm(t), tp.norm(tu or t)
    E, mag = 0, 1
    for tt, te in pairs:
        e, a = forms.linear(n, tt, forms.value(m, te, f, xs), xs, ws)
        _, b = forms.linear(n, tt, forms.magnitude(m, te, np.abs(f), xs), xs, ws)
        E, mag = E+e, mag+a+b
    return E, mag


def assemble(pairs, v, u, nd):
    from shenfun import inner
    A = []
    for tt, te in pairs:
        r = inner(forms.build(tt, v, nd), forms.build(te, u, nd))
        A += r if isinstance(r, list) else [r]
    return A
