"""P20 recursion matrices and connection coefficients are exact."""
from fractions import Fraction
from functools import lru_cache

import numpy as np

from vlib import ref, spaces
from vlib.core import Inconclusive, Sub, check, fail

TECH = 'property-based testing (Hypothesis): identities of the recursion matrices against exact rational polynomials'
NOTE = ('Random families (rational Jacobi parameters, all normalisations), powers, derivative orders, sizes and shifts, in sequences of calls '
        'with the returned matrices modified in between; each matrix must turn exact rational polynomials into one another.')

HALF = Fraction(1, 2)
PARAMS = ['0', '1', '2', '-1/2', '1/2', '3/2', '1/3', '-1/3', '3/4', '5/2']


def fr(x):
    return Fraction(x)


def sym(x):
    import sympy as sp
    f = fr(x)
    return sp.Rational(f.numerator, f.denominator)


# polynomials are tuples of Fractions in powers of x
def padd(p, q, s=1):
    n = max(len(p), len(q))
    return tuple((p[i] if i < len(p) else 0)+s*(q[i] if i < len(q) else 0) for i in range(n))


def pmul(p, q):
    r = [Fraction(0)]*(len(p)+len(q)-1)
    for i, a in enumerate(p):
        if a:
            for j, b in enumerate(q):
                r[i+j] += a*b
    return tuple(r)


def pder(p, k=1):
    for _ in range(k):
        p = tuple(i*p[i] for i in range(1, len(p))) or (Fraction(0),)
    return p


def peval(p, x):
    r = Fraction(0)
    for a in reversed(p):
        r = r*x+a
    return r


def binom(a, k):
    r = Fraction(1)
    for i in range(k):
        r = r*(a-i)/(i+1)
    return r


@lru_cache(None)
def P(n, a, b):
    """Jacobi polynomial from its explicit formula."""
    lo, hi = (-HALF, HALF), (HALF, HALF)
    pw = lambda p, k: (Fraction(1),) if k == 0 else pmul(p, pw(p, k-1))
    r = (Fraction(0),)
    for s in range(n+1):
        t = binom(n+a, n-s)*binom(n+b, s)
        r = padd(r, tuple(t*v for v in pmul(pw(lo, s), pw(hi, n-s))))
    return r


@lru_cache(None)
def scaling(gn, a, b, n):
    if gn == 'cn':
        return 1/peval(P(n, a, b), Fraction(1))
    if gn == 'un':
        return (n+1)/peval(P(n, a, b), Fraction(1))
    if gn == 'wn':
        r = Fraction(1)
        for i in range(n):
            r = r*(2*a+1+i)/(a+1+i)
        return r
    return Fraction(1)


@lru_cache(None)
def Q(n, a, b, gn):
    if n < 0:
        return (Fraction(0),)
    g = scaling(gn, a, b, n)
    return tuple(g*v for v in P(n, a, b))


X = (Fraction(0), Fraction(1))
W = (Fraction(1), Fraction(0), Fraction(-1))


def lhs(mat, q, j, a, b, gn, k=0):
    """The polynomial that column j of the q'th power expands."""
    p = Q(j, a, b, gn)
    if mat == 'b':
        return p
    if mat == 'c':
        for _ in range(q):
            p = pmul(W, pder(p))
        return p
    p = pder(p, k)
    for _ in range(q):
        p = pmul(X, p)
    return p


PTS = [Fraction(i, 13) for i in (-13, -11, -8, -5, -2, 1, 3, 6, 10, 12, 13)]


def fvals(p):
    return np.array([float(peval(p, x)) for x in PTS])


def identity(A, mat, q, a, b, gn, k, what, *args, shift=(0, 0), first=0):
    """Every column of A (of which row i is index i+shift) expands its polynomial."""
    M, N = A.shape
    r, s = shift
    for j in range(N):
        J = j+s
        if J < first or J+q >= M+r:
            continue
        if r and J-q < r and not (mat == 'a_' and r <= k) and not (mat == 'b' and r <= q):
            continue
        L = fvals(lhs(mat, q, J, a, b, gn, k))
        R, size = np.zeros(len(PTS)), np.abs(L).max()
        for i in np.flatnonzero(A[:, j]):
            d = {'a': 0, 'c': 0, 'b': q, 'a_': k}[mat]
            t = A[i, j]*fvals(pder(Q(i+r, a, b, gn), d))
            if not np.isfinite(t).all():
                fail(what+': entry (%d, %d) is %r', *args, i, j, A[i, j])
            R += t
            size = max(size, np.abs(t).max())
        e = np.abs(L-R).max()
        check(e <= 1e-11*max(size, 1e-12), what+': column %d does not expand its polynomial, off by %.2e of %.2e', *args, j, e, size)
        # nothing outside the band
        bad = [i for i in np.flatnonzero(A[:, j]) if abs(i+r-J) > q]
        check(not bad, what+': column %d has entries outside the band', *args, j)


def valid(c):
    a, b = fr(c['a']), fr(c['b'])
    if c['gn'] in ('un', 'wn') and a != b:
        raise Inconclusive()
    return a, b


def functions(c):
    from shenfun.jacobi import recursions as R
    al, be = sym(c['a']), sym(c['b'])
    if c.get('num') and c['a'] == c['b'] and c['a'] in ('0', '1', '2'):
        al, be = int(c['a']), int(c['b'])
    gn = 1 if c['gn'] == '1' else getattr(R, c['gn'])
    return R, al, be, gn


def run_matrices(c):
    a, b = valid(c)
    R, al, be, gn = functions(c)
    for step, o in enumerate(c['ops']):
        M, N, q, k = o['M'], o['N'], o['q'], o['k']
        what = 'call %d: %s q=%d k=%d a=%s b=%s gn=%s (%d, %d)'
        ar = (step, o['f'], q, k, c['a'], c['b'], c['gn'], M, N)
        f = o['f']
        if f in 'abc':
            A = R.pmat(getattr(R, f), q, al, be, M, N, gn=gn)
            identity(A.diags('csr').toarray(), f, q, a, b, c['gn'], 0, what, *ar)
        elif f == 'a_':
            A = R.a_mat(R.a_, k, q, al, be, M, N, gn=gn)
            identity(A.diags('csr').toarray(), 'a_', q, a, b, c['gn'], k, what, *ar, first=k)
        elif f == 'Sb':
            k = min(k, q)
            A = R.ShiftedMatrix(R.b, q, k, o['s'], M, N, alf=al, bet=be, gn=gn)
            identity(A.diags('csr').toarray(), 'b', q, a, b, c['gn'], 0, what+' shift %s', *ar, (k, o['s']), shift=(k, o['s']))
        elif f == 'Sa':
            A = R.ShiftedMatrix(R.a_, q, k, o['s'], M, N, k=k, alf=al, bet=be, gn=gn)
            identity(A.diags('csr').toarray(), 'a_', q, a, b, c['gn'], k, what+' shift %s', *ar, (k, o['s']), shift=(k, o['s']), first=k)
        elif f == 'SS':      # a matrix that is shifted
            B = R.pmat(R.a, q, al, be, M+3, N+3, gn=gn)
            D = B.diags('csr').toarray()
            A = R.ShiftedMatrix(B, q, k, o['s'])
            check(A.shape == (M+3-k, N+3-o['s']), what+': shifted matrix of shape %s', *ar, A.shape)
            E = A.diags('csr').toarray()
            check(np.array_equal(E, D[k:, o['s']:]), what+': shifted by %s, off by %.2e', *ar, (k, o['s']), np.abs(E-D[k:, o['s']:]).max())
        elif f == 'L':
            l = min(o['l'], k)
            if k >= min(M, N):
                raise Inconclusive()
            D = R.Lmat(k, q, l, M, N, alf=al, bet=be, gn=gn)
            D = D.toarray()
            A = None
            x, w = ref.gauss(max(M, N)+k+q+2, float(a+k), float(b+k))
            vals = lambda p: np.array([np.polyval([float(v) for v in reversed(p)], x)]).ravel()
            n = max(M, N)+k+1
            V = ref.basis('J', n, x, 0, float(a), float(b))
            g = np.array([float(scaling(c['gn'], a, b, i)) for i in range(n)])
            dk = ref.basis('J', n, x, k, float(a), float(b))*g
            dl = ref.basis('J', n, x, k-l, float(a), float(b))*g
            hh = (dk**2*w[:, None]).sum(axis=0)
            for m in range(M):
                if m+k >= n:
                    continue
                row = (dl[:, :N]*(x**q*dk[:, m+k]*w)[:, None]).sum(axis=0)/hh[m+k]
                size = np.sqrt((dl[:, :N]**2*w[:, None]).sum(axis=0)/hh[m+k])
                e = np.abs(D[m]-row)/np.maximum(size, 1)
                check(e.max() <= 1e-9, what+' l=%d: row %d is off by %.2e', *ar, l, m, e.max())
        if o['spoil'] and A is not None:      # the caller may change what was returned
            for key in list(A.keys()):
                A[key][...] = 77.0


def run_scalars(c):
    a, b = valid(c)
    R, al, be, gn = functions(c)
    import sympy as sp
    n, k = c['n'], c['k']
    if n < k:
        raise Inconclusive()
    p = pder(Q(n, a, b, c['gn']), k)
    # boundary values
    l, r = R.bnd_values(al, be, k=k, gn=gn)
    for f, x in ((l, -1), (r, 1)):
        v, e = float(sp.S(f(n)).evalf(30)), float(peval(p, Fraction(x)))
        check(abs(v-e) <= 1e-12*max(1, abs(e)), 'bnd_values(%s, %s, k=%d, gn=%s)(%d) at %d is %r, not %r', c['a'], c['b'], k, c['gn'], n, x, v, e)
    # norm of derivatives
    x, w = ref.gauss(n+2, float(a+k), float(b+k))
    y = np.array([float(peval(p, Fraction(float(t)))) for t in x])
    e = float((y**2*w).sum())
    v = float(sp.S(R.h(al, be, n, k, gn=gn)).evalf(30))
    check(abs(v-e) <= 1e-10*abs(e), 'h(%s, %s, %d, %d, gn=%s) is %r, not %r', c['a'], c['b'], n, k, c['gn'], v, e)
    # polynomial and derivative
    for t in PTS[::3]:
        u = float(sp.S(R.dqn(al, be, n, k, gn=gn) if k or c['gn'] == '1' else R.qn(al, be, n, gn=gn)).subs(R.x, sp.Rational(t.numerator, t.denominator)).evalf(30))
        e = float(peval(p, t))
        check(abs(u-e) <= 1e-11*max(1, abs(e)), "derivative %d of Q_%d(%s, %s, gn=%s) at %s is %r, not %r", k, n, c['a'], c['b'], c['gn'], t, u, e)
    # psi: derivative of Jacobi polynomials
    v = float(sp.S(R.psi(al, be, n, k)).evalf(30))
    d, q = pder(P(n, a, b), k), P(n-k, a+k, b+k)
    e = float(peval(d, Fraction(1))/peval(q, Fraction(1)))
    check(abs(v-e) <= 1e-12*max(1, abs(e)), 'psi(%s, %s, %d, %d) is %r, not %r', c['a'], c['b'], n, k, v, e)
    # components
    i = n
    for mat in 'abc':
        for j in range(max(0, i-2), i+3):
            ap = a+b
            if ap in (-1, 0, 1) and min(i, j) < 2:
                continue       # removable singularities are for pmat
            if mat == 'b' and i == 0:
                continue       # the derivative of Q_0 vanishes
            v = getattr(R, mat)(al, be, i, j, gn=gn)
            v = float(sp.S(v).evalf(30))
            D = dense(mat, a, b, c['gn'], i, j)
            check(abs(v-D) <= 1e-12*max(1, abs(D)), '%s(%s, %s, %d, %d, gn=%s) is %r, not %r', mat, c['a'], c['b'], i, j, c['gn'], v, D)


@lru_cache(None)
def dense(mat, a, b, gn, i, j):
    """Entry (i, j) found by expanding the polynomial exactly."""
    p = lhs(mat, 1, j, a, b, gn)
    d = 1 if mat == 'b' else 0
    top = j+1
    for m in range(top, d-1, -1):
        q = pder(Q(m, a, b, gn), d)
        deg = m-d
        lead = p[deg] if deg < len(p) else Fraction(0)
        co = lead/q[deg]
        if m == i:
            return float(co)
        p = padd(p, tuple(co*v for v in q), -1)
    return 0.0


def gen_matrices():
    S = spaces.st()
    op = S.fixed_dictionaries(dict(f=S.sampled_from(['a', 'b', 'c', 'a_', 'Sa', 'Sb', 'SS', 'L']), q=S.integers(0, 4), k=S.integers(0, 3), l=S.integers(0, 3),
                                   s=S.integers(0, 3), M=S.integers(1, 11), N=S.integers(1, 11), spoil=S.booleans()))
    return _par(S, dict(ops=S.lists(op, min_size=1, max_size=3)))


def _par(S, d):
    return S.one_of(
        S.fixed_dictionaries(dict(d, a=S.sampled_from(PARAMS), b=S.sampled_from(PARAMS), gn=S.sampled_from(['1', '1', 'cn']), num=S.booleans())),
        S.builds(lambda x, ab: dict(x, a=ab[0], b=ab[0], gn=ab[1]), S.fixed_dictionaries(dict(d, num=S.booleans())),
                 S.sampled_from([('-1/2', 'cn'), ('1/2', 'un'), ('0', '1'), ('0', 'cn'), ('1', 'cn'), ('3/2', 'wn'), ('1/2', 'wn'), ('1', '1'), ('2', 'un'), ('1/3', 'cn')])))


def gen_scalars():
    S = spaces.st()
    return _par(S, dict(n=S.integers(0, 12), k=S.integers(0, 3)))


SUBS = [
    Sub('matrices', gen_matrices, run_matrices, 60, 4000, 'more than one call or power above one', lambda c: len(c['ops']) > 1 or c['ops'][0]['q'] > 1,
        lambda c: [o['f'] for o in c['ops']]+['gn='+c['gn']], (8, 8), (60, 1500)),
    Sub('scalars', gen_scalars, run_scalars, 150, 5000, 'every case', None, lambda c: ['gn='+c['gn'], 'k=%d' % c['k']], (8, 8), (45, 1000)),
]
ASSUMPTIONS = ['columns of a power that needs rows beyond the matrix are not compared', 'rows below k of the matrices for k-th derivatives are unspecified (the derivatives vanish)',
               'a, b and c as functions have removable singularities in the first indices for alf+bet in (-1, 0, 1); there only pmat is used']
