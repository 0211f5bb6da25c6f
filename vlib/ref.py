"""Independent reference mathematics (no shenfun import).

Orthogonal functions on the reference domain, their derivatives, Gauss rules of
high order, and linear algebra on dense arrays, in extended precision where it
is cheap.
"""
import functools
import math

import numpy as np

LD = np.longdouble


def recurrence(fam, n, alpha=0.0, beta=0.0):
    """p_{n+1} = (A x + B) p_n - C p_{n-1} for the standard (not normalised) family."""
    n = LD(n)
    if fam == 'C':
        return (LD(1), LD(0), LD(1)) if n == 0 else (LD(2), LD(0), LD(1))
    if fam == 'U':
        return LD(2), LD(0), LD(1)
    if fam == 'L':
        return (2*n+1)/(n+1), LD(0), n/(n+1)
    if fam == 'La':
        return -1/(n+1), (2*n+1)/(n+1), n/(n+1)
    if fam == 'H':
        return LD(2), LD(0), 2*n
    if fam == 'Hn':      # orthonormal Hermite functions (weight carried separately)
        return np.sqrt(LD(2)/(n+1)), LD(0), np.sqrt(n/(n+1))
    if fam == 'J':
        a, b = LD(alpha), LD(beta)
        if n == 0:
            return (a+b+2)/2, (a-b)/2, LD(0)
        A = (2*n+a+b+1)*(2*n+a+b+2)/(2*(n+1)*(n+a+b+1))
        B = (a*a-b*b)*(2*n+a+b+1)/(2*(n+1)*(n+a+b+1)*(2*n+a+b))
        C = (n+a)*(n+b)*(2*n+a+b+2)/((n+1)*(n+a+b+1)*(2*n+a+b))
        return A, B, C
    if fam == 'G':       # Gegenbauer C_n^(alpha)
        a = LD(alpha)
        return 2*(n+a)/(n+1), LD(0), (n+2*a-1)/(n+1)
    raise ValueError(fam)


def polys(fam, N, x, k=0, alpha=0.0, beta=0.0):
    """Matrix V[j, n] = k-th derivative of p_n at x_j (polynomial part only), longdouble."""
    if fam == 'Q':
        V = polys('J', N, x, k, alpha, alpha)
        one = polys('J', N, np.array([1.0]), 0, alpha, alpha)[0]
        return V/one[None, :]
    x = np.asarray(x, dtype=LD)
    D = np.zeros((k+1, len(x), max(N, 2)), dtype=LD)
    D[0, :, 0] = 1 if fam != 'Hn' else LD(np.pi)**LD(-0.25)
    for n in range(max(N, 2)-1):
        A, B, C = recurrence(fam, n, alpha, beta)
        for d in range(k+1):
            v = (A*x+B)*D[d, :, n]
            if d:
                v = v + d*A*D[d-1, :, n]
            if n > 0:
                v = v - C*D[d, :, n-1]
            D[d, :, n+1] = v
    return D[k, :, :N]


def basis(fam, N, x, k=0, alpha=0.0, beta=0.0):
    """k-th derivative of the first N orthogonal basis *functions* at reference points x."""
    if fam == 'La':
        W = np.exp(-np.asarray(x, dtype=LD)/2)[:, None]
        return sum(math.comb(k, j)*LD(-0.5)**(k-j)*polys(fam, N, x, j) for j in range(k+1))*W
    if fam == 'H':
        x = np.asarray(x, dtype=LD)
        # d^m exp(-x^2/2) = (-1)^m He_m(x) exp(-x^2/2)
        he = [np.ones_like(x), x]
        for m in range(1, k):
            he.append(x*he[m]-m*he[m-1])
        W = np.exp(-x*x/2)
        return sum(math.comb(k, j)*((-1)**(k-j)*he[k-j]*W)[:, None]*polys('Hn', N, x, j)
                   for j in range(k+1))
    return polys(fam, N, x, k, alpha, beta)


@functools.lru_cache(maxsize=64)
def gauss(n, a=0.0, b=0.0):
    """Gauss-Jacobi rule of n points, computed by Golub-Welsch + Newton-free LAPACK."""
    k = np.arange(n, dtype=float)
    s = 2*k+a+b
    with np.errstate(all='ignore'):
        d = np.where(np.abs(s*(s+2)) < 1e-14, (b-a)/(a+b+2), (b*b-a*a)/(s*(s+2)))
    d[0] = (b-a)/(a+b+2)
    k = np.arange(1, n, dtype=float)
    s = 2*k+a+b
    with np.errstate(all='ignore'):
        e = 4*k*(k+a)*(k+b)*(k+a+b)/(s*s*(s+1)*(s-1))
    if n > 1:
        e[0] = 4*(1+a)*(1+b)/((2+a+b)**2*(3+a+b))
    J = np.diag(d)+np.diag(np.sqrt(e), 1)+np.diag(np.sqrt(e), -1)
    x, v = np.linalg.eigh(J)
    mu0 = math.exp((a+b+1)*math.log(2)+math.lgamma(a+1)+math.lgamma(b+1)-math.lgamma(a+b+2))
    return x, mu0*v[0]**2


@functools.lru_cache(maxsize=16)
def gauss_laguerre(n):
    k = np.arange(n)
    J = np.diag(2.0*k+1)+np.diag(np.arange(1.0, n), 1)+np.diag(np.arange(1.0, n), -1)
    x, v = np.linalg.eigh(J)
    return x, v[0]**2


@functools.lru_cache(maxsize=16)
def gauss_hermite(n):
    e = np.sqrt(np.arange(1.0, n)/2)
    J = np.diag(e, 1)+np.diag(e, -1)
    x, v = np.linalg.eigh(J)
    return x, math.sqrt(math.pi)*v[0]**2


# weight exponents (alpha, beta) of the natural weight of every polynomial family
def weight_exponents(fam, alpha=0.0, beta=0.0):
    return {'C': (-0.5, -0.5), 'U': (0.5, 0.5), 'L': (0.0, 0.0), 'J': (alpha, beta),
            'Q': (alpha, alpha), 'G': (alpha-0.5, alpha-0.5)}[fam]
