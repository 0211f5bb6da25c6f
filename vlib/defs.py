"""Independent definitions of shenfun's function spaces, written from its documentation.

A spec is the JSON description used by vlib.spaces. Everything here is computed
from recurrences, null spaces of boundary functionals and explicit formulas; no
shenfun code is used.
"""
import functools
import json
import math

import numpy as np

from . import ref

LD = np.longdouble
ORDER = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4, 'N5': 5}

DN = {'left': ['D', 'N'], 'right': ['D', 'N']}


def _phi(k):
    o = ['D', 'N', 'N2', 'N3', 'N4', 'N5'][:k]
    return {'left': o, 'right': o}


BCS = {
    'Orthogonal': {}, 'ShenDirichlet': _phi(1), 'Phi1': _phi(1), 'Heinrichs': _phi(1),
    'CompactDirichlet': _phi(1), 'PolarDirichlet': _phi(1),
    'ShenNeumann': {'left': ['N'], 'right': ['N']}, 'CombinedShenNeumann': {'left': ['N'], 'right': ['N']},
    'MikNeumann': {'left': ['N'], 'right': ['N']}, 'CompactNeumann': {'left': ['N'], 'right': ['N']},
    'ShenBiharmonic': DN, 'CompactBiharmonic': DN, 'ShenBiPolar': DN, 'Phi2': DN,
    'Phi3': _phi(3), 'Compact3': _phi(3), 'Phi4': _phi(4), 'Compact4': _phi(4), 'Phi6': _phi(6),
    'UpperDirichlet': {'right': ['D']}, 'LowerDirichlet': {'left': ['D']},
    'DirichletNeumann': {'left': ['D'], 'right': ['N']},
    'NeumannDirichlet': {'left': ['N'], 'right': ['D']},
    'UpperDirichletNeumann': {'right': ['D', 'N']}, 'LowerDirichletNeumann': {'left': ['D', 'N']},
    'BeamFixedFree': {'left': ['D', 'N'], 'right': ['N2', 'N3']},
}
LAGUERRE_BCS = {'Orthogonal': {}, 'CompactDirichlet': {'left': ['D']}, 'CompactNeumann': {'left': ['N']}}


def num(v):
    """'1/3' -> Fraction value as float; numbers pass through."""
    if isinstance(v, str):
        from fractions import Fraction
        return float(Fraction(v))
    return float(v)


def params(s):
    return num(s.get('alpha') or 0), num(s.get('beta') or 0)


def dom(s):
    if s['fam'] == 'F':
        return tuple(s.get('dom') or (0, 2*math.pi))
    if s['fam'] == 'La':
        return (0, math.inf)
    if s['fam'] == 'H':
        return (-math.inf, math.inf)
    return tuple(s.get('dom') or (-1, 1))


def ref_dom(s):
    if s['fam'] == 'F':
        return (0, 2*math.pi)
    return (-1, 1)


def df(s):
    """d(reference)/d(physical)."""
    a, b = dom(s)
    if not (math.isfinite(a) and math.isfinite(b)):
        return 1.0
    r = ref_dom(s)
    return (r[1]-r[0])/(b-a)


def to_ref(s, x):
    a, b = dom(s)
    if not (math.isfinite(a) and math.isfinite(b)):
        return np.asarray(x, dtype=LD)
    r = ref_dom(s)
    return LD(r[0])+(np.asarray(x, dtype=LD)-LD(a))*(LD(r[1])-LD(r[0]))/(LD(b)-LD(a))


def to_phys(s, X):
    a, b = dom(s)
    if not (math.isfinite(a) and math.isfinite(b)):
        return np.asarray(X, dtype=LD)
    r = ref_dom(s)
    return LD(a)+(np.asarray(X, dtype=LD)-LD(r[0]))*(LD(b)-LD(a))/(LD(r[1])-LD(r[0]))


def bc_list(s):
    """[(side, key, c)] in shenfun's documented order (left before right, names sorted);
    c is the Robin constant in reference coordinates or None."""
    out = []
    bc = s.get('bcd')
    if bc is None:
        t = LAGUERRE_BCS if s['fam'] == 'La' else BCS
        b = t[s.get('basis') or 'Orthogonal']
        for side in ('left', 'right'):
            out += [(side, k, None) for k in sorted(b.get(side, []))]
        return out
    f = df(s)
    for side in ('left', 'right'):
        for k in sorted(bc.get(side, {})):
            v = bc[side][k]
            out.append((side, k, v[0]*f if k in 'RW' else None))
    return out


def bc_values(s):
    """Boundary values, scaled to reference coordinates, in the order of bc_list."""
    bc = s.get('bcd')
    f = df(s)
    if bc is None:
        l = bc_list(s)
        if s.get('bcv') is None:
            return [0.0]*len(l)
        return [v/f**ORDER[k] for v, (_, k, _) in zip(s['bcv'], l)]
    out = []
    for side, k, _ in bc_list(s):
        v = bc[side][k]
        if k == 'R':
            out.append(v[1])
        elif k == 'W':
            out.append(v[1]/f)
        else:
            out.append(v/f**ORDER[k])
    return out


def nbc(s):
    return len(bc_list(s))


def functional(s, item, N):
    """Row vector: the boundary functional applied to the N orthogonal functions (reference)."""
    side, k, c = item
    al, be = params(s)
    fam = s['fam']
    x = np.array([-1.0 if side == 'left' else 1.0])
    if fam == 'La':
        x = np.array([0.0])
    B = lambda d: ref.basis(fam, N, x, d, al, be)[0]
    if k == 'R':
        return B(0)+LD(c)*B(1)
    if k == 'W':
        return B(1)+LD(c)*B(2)
    return B(ORDER[k])


def _mpsolve(A, b):
    import mpmath as mp
    with mp.workdps(40):
        M = mp.matrix([[mp.mpf(repr(float(v)))+mp.mpf(repr(float(v-LD(float(v))))) for v in r] for r in A])
        r = mp.matrix([mp.mpf(repr(float(v)))+mp.mpf(repr(float(v-LD(float(v))))) for v in b])
        x = mp.lu_solve(M, r)
        return np.array([LD(mp.nstr(v, 25)) for v in x], dtype=LD)


def fnorm(fam, n, al, be):
    """L2_w norm^2 of the n'th orthogonal polynomial."""
    if fam == 'C':
        return math.pi if n == 0 else math.pi/2
    if fam == 'U':
        return math.pi/2
    if fam == 'L':
        return 2/(2*n+1)
    if fam == 'F':
        return 2*math.pi
    if fam in ('La', 'H'):
        return 1.0
    if fam == 'Q':
        be = al
    if n == 0:
        h = math.exp((al+be+1)*math.log(2)+math.lgamma(al+1)+math.lgamma(be+1)-math.lgamma(al+be+2))
    else:
        h = math.exp((al+be+1)*math.log(2)+math.lgamma(n+al+1)+math.lgamma(n+be+1)
                     - math.lgamma(n+al+be+1)-math.lgamma(n+1))/(2*n+al+be+1)
    if fam == 'Q':
        one = float(ref.polys('J', n+1, np.array([1.0]), 0, al, be)[0, n])
        h /= one**2
    return h


def _phi_rows(s, k, N, scaled):
    """phi_m = (1-x^2)^k d^k P_{m+k} / h, h = int (d^kP)^2 (1-x^2)^k w."""
    fam = s['fam']
    al, be = params(s)
    a, b = ref.weight_exponents(fam, al, be)
    x, w = ref.gauss(N+2*k+4, a, b)
    V = ref.polys(fam, N, x, 0, al, be)
    D = ref.polys(fam, N, x, k, al, be)
    xl = np.asarray(x, dtype=LD)
    wl = np.asarray(w, dtype=LD)
    q = (1-xl*xl)**k
    S = np.zeros((N-2*k, N), dtype=LD)
    for m in range(N-2*k):
        h = np.sum(D[:, m+k]**2*q*wl)
        f = q*D[:, m+k]/h
        for j in range(m, m+2*k+1):
            S[m, j] = np.sum(f*V[:, j]*wl)/np.sum(V[:, j]**2*wl)
        # the stencil is narrow: entries at rounding level are zero (symmetric families)
        S[m][np.abs(S[m]) < 1e-12*np.max(np.abs(S[m]))] = 0
        if scaled:
            S[m] /= S[m, m]
    return S


def _narrow(s, N):
    bcs = bc_list(s)
    n = len(bcs)
    F = np.array([functional(s, it, N) for it in bcs])
    S = np.zeros((N-n, N), dtype=LD)
    for m in range(N-n):
        A = F[:, m+1:m+n+1]
        b = -F[:, m]
        sc = np.max(np.abs(F[:, m:m+n+1]), axis=1)
        sc[sc == 0] = 1
        S[m, m] = 1
        S[m, m+1:m+n+1] = _mpsolve(A/sc[:, None], b/sc)
        S[m][np.abs(S[m]) < 1e-14] = 0
    return S


@functools.lru_cache(maxsize=256)
def _stencil(key):
    s = json.loads(key)
    N = s['N']
    fam, basis = s['fam'], s.get('basis')
    n = nbc(s)
    if s.get('bcd') is not None and basis is None:
        # the family default for the conditions; Jacobi uses the Phi bases for full sets
        b = {q: sorted(s['bcd'].get(q, {})) for q in ('left', 'right')}
        if fam == 'J' and b['left'] == b['right'] and b['left'] in (['D', 'N'], ['D', 'N', 'N2']):
            return _phi_rows(s, len(b['left']), N, False)
        return _narrow(s, N)
    if n == 0:
        return np.eye(N, dtype=LD)
    if basis and basis.startswith('Phi'):
        S = _phi_rows(s, int(basis[3:]), N, False)
        if fam == 'U' and s.get('scaled'):
            S = S/(np.arange(len(S), dtype=LD)+{'Phi1': 2, 'Phi2': 3}[basis])[:, None]
        return S
    if basis in ('Compact3', 'Compact4'):
        return _phi_rows(s, int(basis[-1]), N, True)
    if basis == 'CompactBiharmonic':
        return _phi_rows(s, 2, N, True)
    if fam == 'C' and basis in ('Heinrichs', 'PolarDirichlet', 'MikNeumann', 'CombinedShenNeumann',
                                'ShenBiPolar'):
        S = np.zeros((N-n, N), dtype=LD)
        if basis == 'Heinrichs':
            for k in range(N-2):
                a = LD(1)/((k+1)*(k+2)) if s.get('scaled') else LD(1)
                # (1-x^2) T_k = T_k/2 - (T_{k+2}+T_{|k-2|})/4
                S[k, k] += a/2
                S[k, k+2] -= a/4
                S[k, abs(k-2)] -= a/4
            return S
        if basis == 'PolarDirichlet':
            for k in range(N-2):
                S[k, k if k < 2 else k-2] += 1
                S[k, k+2] -= 1
            return S
        if basis in ('MikNeumann', 'CombinedShenNeumann'):
            p = 1 if basis == 'MikNeumann' else 2
            for k in range(N-2):
                if k == 0:
                    S[0, 0] = 1
                elif k == 1:
                    if p == 1:
                        S[1, 1], S[1, 3] = 3, -LD(1)/3
                    else:
                        S[1, 1], S[1, 3] = 1, -LD(1)/9
                elif k == 2:
                    if p == 1:
                        S[2, 2], S[2, 4] = 1, -LD(1)/4
                    else:
                        S[2, 2], S[2, 4] = LD(1)/4, -LD(1)/16
                else:
                    S[k, k-2], S[k, k], S[k, k+2] = -LD(1)/(k-2)**p, LD(2)/k**p, -LD(1)/(k+2)**p
                if p == 1:
                    S[k] /= (k+1)
            return S
    if basis == 'ShenBiPolar':      # (1-x^2)^2 P'_{k+1}
        a, b = ref.weight_exponents(fam)
        x, w = ref.gauss(N+8, a, b)
        xl, wl = np.asarray(x, dtype=LD), np.asarray(w, dtype=LD)
        V, D = ref.polys(fam, N, x, 0), ref.polys(fam, N, x, 1)
        S = np.zeros((N-n, N), dtype=LD)
        for m in range(N-n):
            f = (1-xl*xl)**2*D[:, m+1]
            S[m] = np.array([np.sum(f*V[:, j]*wl)/np.sum(V[:, j]**2*wl) for j in range(N)])
            S[m][np.abs(S[m]) < 1e-13*np.max(np.abs(S[m]))] = 0
        return S
    S = _narrow(s, N)
    if fam == 'L' and basis == 'ShenDirichlet' and s.get('scaled'):
        S = S/np.sqrt(4*np.arange(N-2, dtype=LD)+6)[:, None]
    if fam == 'U' and basis == 'CompactDirichlet' and s.get('scaled'):
        S = S/(np.arange(N-2, dtype=LD)+1)[:, None]
    return S


_KEYS = ('fam', 'N', 'basis', 'bcd', 'dom', 'alpha', 'beta', 'scaled')


def _key(s):
    return json.dumps({k: s[k] for k in _KEYS if s.get(k) is not None}, sort_keys=True)


def stencil(s):
    """Matrix S (dim x N): the trial functions in terms of the orthogonal ones."""
    return _stencil(_key(s))


@functools.lru_cache(maxsize=256)
def _lift(key):
    s = json.loads(key)
    bcs = bc_list(s)
    n = len(bcs)
    N = s['N']
    F = np.array([functional(s, it, 3*n+2) for it in bcs])
    for first in range(2*n+1):
        A = F[:, first:first+n]
        sc = np.max(np.abs(A), axis=1)
        sc[sc == 0] = 1
        As = (A/sc[:, None]).astype(float)
        if np.linalg.matrix_rank(As, tol=1e-11*max(1, np.abs(As).max())) == n:
            break
    C = np.zeros((n, max(N, first+n)), dtype=LD)
    for j in range(n):
        e = np.zeros(n, dtype=LD)
        e[j] = 1/sc[j]
        C[j, first:first+n] = _mpsolve(A/sc[:, None], e)
    return C


def lift(s):
    """Boundary basis: psi_j with functional_i(psi_j)=delta_ij, coefficients on orthogonal functions."""
    return _lift(_key(s))


def well_posed(s, lim=2e3):
    """The conditions determine a basis and a lifting (no resonance for these constants)."""
    S = stencil(s)
    if not np.all(np.isfinite(S)) or np.max(np.abs(S)) > lim*max(1, s['N'] if (s.get('basis') or '').startswith('ShenBiP') else 1):
        return False
    return nbc(s) == 0 or (np.all(np.isfinite(lift(s))) and np.max(np.abs(lift(s))) < lim)


def orth(s, x, k=0, N=None):
    """k'th physical derivative of the orthogonal functions at physical points x: (len(x), N)."""
    N = N or s['N']
    al, be = params(s)
    if s['fam'] == 'F':
        X = to_ref(s, x)
        ks = wavenumbers(s, N)
        z = np.exp(1j*(X[:, None]*ks[None, :]).astype(np.clongdouble))
        return z*(1j*ks*df(s))[None, :]**k
    return ref.basis(s['fam'], N, to_ref(s, x), k, al, be)*LD(df(s))**k


def wavenumbers(s, N=None):
    N = N or s['N']
    k = np.fft.fftfreq(N, 1/N)
    if s.get('dtype', 'd') == 'd':
        k = np.abs(k[:N//2+1])
    return np.round(k)


def trial(s, x, k=0):
    """Values (len(x), dim) of the k'th physical derivative of the trial functions."""
    if s['fam'] == 'F':
        return orth(s, x, k)
    return orth(s, x, k) @ stencil(s).T


def bnd(s, x, k=0):
    """Values (len(x), nbc) of derivative k of the boundary functions."""
    C = lift(s)
    return orth(s, x, k, N=C.shape[1]) @ C.T


def series(s, coef, x, k=0, vals=None):
    """Reference value of d^k/dx^k sum c_j phi_j + lifting, at physical points."""
    if s['fam'] == 'F':
        B = orth(s, x, k)
        if s.get('dtype', 'd') == 'd':
            N = s['N']
            w = np.full(len(coef), 2.0)
            w[0] = 1
            if N % 2 == 0:
                w[-1] = 1
            return ((B*w) @ coef).real
        return B @ coef
    y = trial(s, x, k) @ np.asarray(coef)[:s['N']-nbc(s)]
    v = bc_values(s) if vals is None else vals
    if nbc(s) and np.any(np.asarray(v) != 0):
        y = y+bnd(s, x, k) @ np.asarray(v)
    return y
