"""Tensor product spaces: JSON specs, builders, reference evaluation.

spec: {"b": [1-D specs], "axes": permutation (last is transformed first), "cplx": bool}
Fourier bases get their dtype here: the first one transformed is real, unless cplx.
"""
import numpy as np

from . import defs, spaces


def norm(t):
    """Fill in the dtypes of the bases."""
    b = [dict(s) for s in t['b']]
    order = list(t.get('axes') or range(len(b)))
    real = not t.get('cplx')
    for ax in reversed(order):
        if b[ax]['fam'] == 'F':
            b[ax]['dtype'] = 'd' if real else 'D'
            real = False
    return dict(t, b=b, axes=order)


def build(t, comm=None, dtype=True, **kw):
    from shenfun import TensorProductSpace
    from mpi4py import MPI
    t = norm(t)
    bases = [spaces.build(s) for s in t['b']]
    a = dict(kw)
    if t.get('cplx') and not any(s['fam'] == 'F' for s in t['b'][t['axes'][-1]:t['axes'][-1]+1]):
        a['dtype'] = 'D'
    if list(t['axes']) != list(range(len(bases))):
        a['axes'] = tuple(t['axes'])
    for k in ('slab', 'collapse_fourier'):
        if t.get(k):
            a[k] = True
    return TensorProductSpace(comm or MPI.COMM_SELF, tuple(bases), **a)


def r2c(t):
    for i, s in enumerate(norm(t)['b']):
        if s['fam'] == 'F' and s['dtype'] == 'd':
            return i
    return None


def is_complex(t):
    return bool(t.get('cplx')) or any(s['fam'] == 'F' for s in t['b'])


def shape(t):
    out = []
    for s in norm(t)['b']:
        out.append(len(defs.wavenumbers(s)) if s['fam'] == 'F' else s['N'])
    return tuple(out)


def random_coef(t, seed, decay=0.0):
    """Random coefficients of the space with zero boundary dofs; conjugate symmetric when real."""
    r = spaces.rng(seed)
    t = norm(t)
    b = t['b']
    rc = r2c(t)
    if not is_complex(t):
        c = r.uniform(-1, 1, shape(t))
    else:
        c = r.uniform(-1, 1, shape(t))+1j*r.uniform(-1, 1, shape(t))
    for i, s in enumerate(b):
        if s['fam'] != 'F' and defs.nbc(s):
            sl = [slice(None)]*len(b)
            sl[i] = slice(s['N']-defs.nbc(s), None)
            c[tuple(sl)] = 0
    if rc is not None:
        c = symmetrise(t, c)
    return c


def symmetrise(t, c):
    """Coefficients of the real part of the function with coefficients c."""
    t = norm(t)
    rc = r2c(t)
    fa = [i for i, s in enumerate(t['b']) if s['fam'] == 'F' and i != rc]
    u = c
    if fa:
        u = np.fft.ifftn(u, axes=fa)
    u = np.fft.irfft(u, n=t['b'][rc]['N'], axis=rc)
    c = np.fft.rfft(u, axis=rc)
    if fa:
        c = np.fft.fftn(c, axes=fa)
    return c


def axis_matrix(s, x, k=0, sym=False):
    """Values of (trial and boundary) functions at physical points x, as weighted columns.

    sym: the Nyquist mode of an even Fourier basis is the cosine (padded meshes)."""
    if s['fam'] == 'F':
        B = defs.orth(s, x, k).astype(complex)
        if sym and s['N'] % 2 == 0:
            m = s['N']//2
            B[:, m] = (B[:, m]+(-1)**k*defs.orth(dict(s, dtype='D'), -np.asarray(x)+2*float(defs.to_phys(s, 0)), k)[:, m])/2
        return B
    B = np.asarray(defs.trial(s, x, k), dtype=float)
    if defs.nbc(s):
        B = np.hstack([B, np.asarray(defs.bnd(s, x, k), dtype=float)])
    return B


def weights(s):
    w = np.full(len(defs.wavenumbers(s)), 2.0)
    w[0] = 1
    if s['N'] % 2 == 0:
        w[-1] = 1
    return w


def evaluate(t, c, xs, ks=None, sym=False):
    """Values on the tensor mesh xs (list of 1-D arrays of physical points)."""
    t = norm(t)
    rc = r2c(t)
    u = np.asarray(c)
    for i, s in enumerate(t['b']):
        V = axis_matrix(s, np.asarray(xs[i], dtype=float), 0 if ks is None else ks[i], sym)
        if i == rc:
            V = V*weights(s)
        u = np.moveaxis(np.tensordot(V, u, (1, i)), 0, i)
    return u.real if rc is not None else u


def evaluate_at(t, c, pts, ks=None):
    """Values at points pts (ndim, npts)."""
    t = norm(t)
    rc = r2c(t)
    out = []
    for p in np.asarray(pts).T:
        out.append(evaluate(t, c, [np.array([q]) for q in p], ks).ravel()[0])
    return np.array(out)


def domain(s):
    if s['fam'] == 'La':
        return (0., 12.)
    if s['fam'] == 'H':
        return (-3., 3.)
    return defs.dom(s)


def random_points(t, seed, n=4):
    r = spaces.rng(seed)
    return np.array([r.uniform(*[float(v) for v in domain(s)], n) for s in t['b']])


def specs(fams='F F C L U Q', ndims=(2, 3), maxpoly=2, minpoly=0, lo=0, hi=5, generic=True, values=False,
          cplx=True, perm=True, maxbc=4, **kw):
    """Strategy of tensor product specs."""
    S = spaces.st()
    fams = fams.split()
    pf = [f for f in dict.fromkeys(fams) if f != 'F']

    @S.composite
    def gen(draw):
        nd = draw(S.sampled_from(list(ndims)))
        np_ = draw(S.integers(minpoly, min(maxpoly, nd))) if 'F' in fams else nd
        pos = draw(S.permutations(list(range(nd))))[:np_]
        b = []
        for i in range(nd):
            h = hi if nd < 3 else min(hi, 3)
            if i in pos:
                b.append(draw(spaces.specs(' '.join(pf), lo=lo, hi=h, generic=generic, values=values, big=True,
                                           maxbc=maxbc, **kw)))
            else:
                b.append(draw(spaces.specs('F', lo=3, hi=h, dtype='d')))
        t = dict(b=b)
        if perm:
            p = list(draw(S.permutations(list(range(nd)))))
            if p != list(range(nd)):
                t['axes'] = p
        if cplx and draw(S.integers(0, 3)) == 0:
            t['cplx'] = True
        return t
    return gen()


def ok(t):
    return all(spaces.ok(s) for s in t['b'])


def labels(t):
    t2 = norm(t)
    return ['x'.join(sorted(s['fam'] for s in t['b'])), '%dD' % len(t['b']),
            'complex' if t.get('cplx') else 'real']


def drop_nyquist(t, u):
    """Coefficients (of all dimensions of t) without the Nyquist modes of even sizes."""
    u = np.array(u)
    for i, s in enumerate(t['b']):
        if s['fam'] == 'F' and s['N'] % 2 == 0:
            sl = [slice(None)]*u.ndim
            sl[i] = s['N']//2
            u[tuple(sl)] = 0
    return u
