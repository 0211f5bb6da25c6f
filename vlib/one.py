"""1-D reference transforms, independent of shenfun (except the mesh, which P04 decides)."""
import numpy as np

from . import defs, ref, spaces


def cond(s):
    """Condition number of the (exact) mass matrix."""
    if s['fam'] == 'F':
        return 1.0
    al, be = defs.params(s)
    S = defs.stencil(s).astype(float)
    h = np.array([defs.fnorm(s['fam'], i, al, be) for i in range(s['N'])])
    M = (S*h) @ S.T
    d = np.sqrt(np.diag(M))
    return float(np.linalg.cond(M/d[:, None]/d[None, :]))*float(max(d)/min(d))


def random_coef(s, seed, cplx=False):
    """Coefficient array of the space's size, boundary dofs included."""
    r = spaces.rng(seed)
    if s['fam'] == 'F':
        n = len(defs.wavenumbers(s))
        c = r.uniform(-1, 1, n)+1j*r.uniform(-1, 1, n)
        if s.get('dtype', 'd') == 'd':
            c[0] = c[0].real
            if s['N'] % 2 == 0:
                c[-1] = c[-1].real
        return c
    c = np.zeros(s['N'], dtype=complex if cplx else float)
    d = s['N']-defs.nbc(s)
    c[:d] = r.uniform(-1, 1, d)
    if cplx:
        c[:d] += 1j*r.uniform(-1, 1, d)
    c[d:] = defs.bc_values(s)
    return c


def backward(s, c, X, k=0, sym=False):
    """Values at reference points X of the function (with its lifting)."""
    c = np.asarray(c)
    if sym and s['fam'] == 'F':
        from . import tp
        B = tp.axis_matrix(s, defs.to_phys(s, X), k, True)
        if s.get('dtype', 'd') == 'd':
            return ((B*tp.weights(s)) @ c).real
        return B @ c
    x = defs.to_phys(s, X)
    d = s['N']-defs.nbc(s)
    y = defs.series(s, c if s['fam'] == 'F' else c[:d], x, k, vals=c[d:])
    return y.astype(complex if np.iscomplexobj(c) and not (s['fam'] == 'F' and s.get('dtype', 'd') == 'd') else float)


def amp(s, X, k=0):
    """Size of the rounding error of a sum of the series at X, per unit coefficient."""
    if s['fam'] == 'F':
        return float(s['N'])
    al, be = defs.params(s)
    B = np.abs(ref.basis(s['fam'], s['N'], np.asarray(X), k, al, be))
    S = np.abs(defs.stencil(s))
    a = float(np.max(np.sum(B @ S.T, axis=1))) if len(S) else 1.0
    if defs.nbc(s):
        v = np.abs(np.asarray(defs.bc_values(s), dtype=float))
        C = np.abs(defs.lift(s))
        Bl = np.abs(ref.basis(s['fam'], C.shape[1], np.asarray(X), k, al, be))
        a += float(np.max(Bl @ C.T @ v))
    return a+1
