"""P22 time integrators."""
import numpy as np

from checks import p08, p13
from vlib import defs, forms, one, spaces, systems, tp
from vlib.core import Inconclusive, Sub, check
from vlib.tp import drop_nyquist

TECH = 'property-based testing (Hypothesis): generated evolution equations and step sequences against matrix exponentials and a reference Runge-Kutta solver'
NOTE = ('Linear and nonlinear systems on generated spaces with random initial coefficients. The order is observed by halving the time step, '
        'exponential integrators have to be exact without nonlinear part, steady states have to stay, integrations in pieces have to agree and '
        'callbacks are recorded. Bounded sizes and moderate step sizes.')
near = p13.near
ORDER = dict(ETD=1, ETDRK4=4, RK4=4, IRK3=2, BackwardEuler=1, IMEXRK3=2, IMEXRK011=1, IMEXRK111=1, IMEXRK222=2, IMEXRK443=3)


def rk8(f, y, T, n):
    """Reference solution: Gragg-Bulirsch-Stoer on n intervals."""
    H = T/n
    for _ in range(n):
        tab = []
        for j in range(1, 8):
            m = 2*j
            h = H/m
            a, b = y, y+h*f(y)
            for _ in range(m-1):
                a, b = b, a+2*h*f(b)
            tab.append(0.5*(a+b+h*f(b)))
        seq = [2*j for j in range(1, 8)]
        for k in range(1, 7):
            for j in range(6, k-1, -1):
                tab[j] = tab[j]+(tab[j]-tab[j-1])/((seq[j]/seq[j-k])**2-1)
        y = tab[-1]
    return y


def symbol(t, a, c):
    """Eigenvalues of a*laplace + c*d/dx0 on a Fourier space; the shape of the coefficients."""
    n = tp.norm(t)['b']
    d = p08.dims(t)
    L = 0
    for ax, s in enumerate(n):
        k = np.asarray(spaces_wavenumbers(s))*float(defs.df(s))
        sh = [1]*len(n)
        sh[ax] = -1
        L = L-a*(k**2).reshape(sh)
        if ax == 0 and c:
            L = L+1j*c*k.reshape(sh)
    return np.broadcast_to(L, d)


def spaces_wavenumbers(s):
    N = s['N']
    return np.arange(N//2+1) if s.get('dtype') == 'd' else np.fft.fftfreq(N, 1./N)


def nonlinear(kind, q, r):
    if kind == 0:
        return lambda u: 0*u
    if kind == 1:
        return lambda u: q*u
    if kind == 2:
        return lambda u: q*u-r*u*np.abs(u)**2
    return lambda u: q*u*np.abs(u)**2+r


def run_fourier(c):
    from shenfun import Dx, Function, TensorProductSpace, VectorSpace, div, grad, inner, TestFunction, TrialFunction
    from shenfun.utilities import integrators
    t = c['t']
    p08.usable(t)
    n = tp.norm(t)['b']
    nd = len(n)
    if nd == 1:
        T = spaces.build(n[0])
    else:
        T = tp.build(t)
    L = symbol(t, c['a'], c['c'])
    V = T
    vec = c['vec'] and nd > 1 and not c['c']
    if vec:
        V = VectorSpace(T)
    name = c['name']
    calls = []
    g = nonlinear(c['kind'], c['q'], c['r'])

    def lin(self, u, **par):
        e = c['a']*div(grad(u)) if nd > 1 else c['a']*Dx(u, 0, 2)
        if c['c']:
            e = e+c['c']*Dx(u, 0, 1)
        return e

    def non(self, u, u_hat, rhs, **par):
        rhs[:] = g(np.array(u_hat))
        return rhs

    def upd(self, u, u_hat, tt, tstep, **par):
        calls.append((tt, tstep))

    def make():
        kw = dict(N=non, update=upd)
        return getattr(integrators, name)(V, L=lin, **kw)
    base = [drop_nyquist(t, tp.random_coef(t, c['seed']+i)) if nd > 1 else cut1(n[0], one.random_coef(n[0], c['seed'])) for i in range(nd if vec else 1)]
    u0 = np.array(base) if vec else base[0]

    def integrate(dt, pieces):
        I = make()
        f = Function(V)
        f[:] = u0
        tt = 0.
        for m in pieces:
            calls.clear()
            f = I.solve(None, f, dt, (tt, tt+m*dt))
            check([s for _, s in calls] == list(range(1, m+1)), 'steps seen by the callback: %s of %d', [s for _, s in calls], m)
            check(np.allclose([q for q, _ in calls], tt+dt*np.arange(1, m+1), rtol=0, atol=1e-10), 'times seen by the callback')
            tt = tt+m*dt
        return np.array(f)
    big = max(1, np.abs(L).max())
    exact = name in ('ETD', 'ETDRK4')
    # stiff parts are exact for exponential integrators, the others need small steps
    m = c['m']
    T1 = c['T'] if exact else c['T']/big
    dt = T1/m
    f = lambda u: L*u+g(u)
    if c['kind'] == 0 and exact:
        w = integrate(dt, [m])
        near(w, np.exp(L*T1)*u0, 1e-11*max(1, np.abs(u0).max())*m, '%s without nonlinear part after %d steps', name, m)
        return
    if exact and big*T1 > 3:     # keep the reference affordable
        T1 = 3/big
        dt = T1/m
    R = rk8(f, u0.astype(complex), T1, max(2, 2*int(np.ceil(T1*(big+abs(c['q'])*3+1)*2))))
    if not np.all(np.isfinite(R)) or np.abs(R).max() > 20:
        raise Inconclusive()
    order(name, ORDER[name], lambda k: integrate(dt/k, [m*k]), R, dt, m)
    p = c['split'] % m
    if p:
        w1 = integrate(dt, [m])
        near(integrate(dt, [p, m-p]), w1, 1e-11*(1+np.abs(w1).max()), '%s in two pieces', name)


def order(name, p, run, R, dt, m, floor=1e-11):
    """run(k): solution with k times as many steps."""
    size = 1+np.abs(R).max()
    e = lambda k: np.abs(run(k)-R).max()
    k = 1
    es = [e(1), e(2), e(4)]
    while k < 32:       # until halving the step changes the error regularly
        e1, e2, e4 = es
        if np.isfinite(e1) and (e4 <= floor*10 or e1 < 0.1*size and np.log2(e2/e4) > p-0.4):
            return
        k *= 2
        es = [e2, e4, e(4*k)]
    e1, e2, e4 = es
    check(e4 <= floor*10 or e1 < 0.1*size and np.log2(e2/e4) > p-0.4,
          '%s: errors %.3e, %.3e, %.3e with %d, %d, %d steps of %.3e: order %.2f instead of %d', name, e1, e2, e4, k*m, 2*k*m, 4*k*m, dt/k, np.log2(e2/e4), p)


def cut1(s, u):
    u = np.array(u)
    if s['fam'] == 'F' and s['N'] % 2 == 0:
        u[s['N']//2] = 0
    return u


def gen_fourier():
    S = spaces.st()

    @S.composite
    def g(draw):
        nd = draw(S.sampled_from([1, 2, 2, 3]))
        t = draw(tp.specs('F', ndims=(max(2, nd),), maxpoly=0, hi=4))
        if nd == 1:
            t = dict(b=[draw(S.sampled_from(t['b']))])
        for s in t['b']:
            s.pop('pf', None)
        return dict(t=t, vec=draw(S.booleans()), name=draw(S.sampled_from(['ETD', 'ETDRK4', 'RK4'])), a=draw(S.sampled_from([1, 0.5, 0.01])),
                    c=draw(S.sampled_from([0, 0, 1, -0.5])), kind=draw(S.sampled_from([0, 1, 2, 2, 3])), q=draw(S.sampled_from([1, -1, 0.5])),
                    r=draw(S.sampled_from([0.5, 1])), seed=draw(S.integers(0, 10**6)), m=draw(S.sampled_from([4, 6, 10])), T=draw(S.sampled_from([0.5, 1, 0.25])),
                    split=draw(S.integers(0, 9)))
    return g()


def run_poly(c):
    """Implicit integrators on systems M u' = S u + q M u (+ c M) with boundary conditions."""
    from shenfun import Dx, Expr, Function, TestFunction, TrialFunction, div, grad, inner
    from shenfun.utilities import integrators
    t = c['t']
    p08.usable(t)
    nd = len(t['b'])
    n = tp.norm(t)['b']
    T = tp.build(t) if nd > 1 else spaces.build(n[0])
    naxes = sum(s['fam'] != 'F' for s in n)
    z = [0]*nd
    mass = [([[1, z, z]], [[1, z, z]])]
    lap = [([[1, z, z]], [[1, z, systems.unit(nd, i, 2)] for i in range(nd)])]
    M = systems.dense(t, t, mass)
    S = c['a']*systems.dense(t, t, lap)
    d = tuple(p08.dims(t))
    k = systems.cond(M, 1e6)
    A = np.linalg.solve(M, S)
    lam, X = np.linalg.eig(A)
    if lam.real.max() > 1e-6*np.abs(lam).max() or np.linalg.cond(X) > 1e6:
        raise Inconclusive()
    name = c['name']
    q, r = (c['q'], c['r']) if c['kind'] else (0, 0)
    imex = name.startswith('IMEX')
    if imex or c['kind'] == 1:
        r = 0
    if name == 'IMEXRK011':
        lam, A, S = 0*lam, 0*A, 0*S
    sl = tuple(slice(0, m) for m in d)
    calls = []
    sc = np.ones(d)
    keep = drop_nyquist(t, np.ones(T.shape(True) if nd > 1 else (T.shape(True),), dtype=complex))[sl] if nd > 1 else cut1(n[0], np.ones(T.shape(True), dtype=complex))[sl]
    R0 = r*keep

    def lin(self, u, **par):
        return c['a']*(div(grad(u)) if nd > 1 else Dx(u, 0, 2))

    def non(self, u, u_hat, rhs, **par):
        rhs[:] = 0
        rhs[sl] = (M @ (q*np.array(u_hat)[sl]+R0).ravel()).reshape(d)
        return rhs

    def upd(self, u, u_hat, tt, tstep, **par):
        calls.append((tt, tstep))
    u = drop_nyquist(t, tp.random_coef(t, c['seed'])) if nd > 1 else cut1(n[0], one.random_coef(n[0], c['seed']))
    u[tuple(slice(m, None) for m in d)] = 0
    y0 = u[sl].ravel()

    if c['steady']:
        if np.abs(lam+q).min() < 1e-3:
            raise Inconclusive()
        y0 = -np.linalg.solve(A+q*np.eye(len(A)), R0.ravel().astype(complex))

    def integrate(dt, pieces):
        f = Function(T)
        f[sl] = y0.reshape(d) if np.iscomplexobj(f) else y0.reshape(d).real
        tt = 0.
        if imex:
            v = TestFunction(T)
            L = (lambda g: c['a']*div(grad(g))) if nd > 1 else (lambda g: c['a']*Dx(g, 0, 2))
            eq = getattr(integrators, name)(v, f, L, Expr(f)*q if q != 1 else Expr(f), dt, **(dict(solver=[None, None, __import__('shenfun').la.SolverGeneric2ND][naxes]) if naxes == 2 else {}))
            eq.assemble()
            for _ in range(sum(pieces)):
                for rk in range(eq.steps()):
                    eq.compute_rhs(rk)
                    eq.solve_step(rk)
            return np.array(f)[sl].ravel()
        I = getattr(integrators, name)(T, L=lin, N=non, update=upd)
        for m in pieces:
            calls.clear()
            f = I.solve(None, f, dt, (tt, tt+m*dt))
            check([s for _, s in calls] == list(range(1, m+1)), 'steps seen by the callback: %s of %d', [s for _, s in calls], m)
            check(np.allclose([x for x, _ in calls], tt+dt*np.arange(1, m+1), rtol=0, atol=1e-10), 'times seen by the callback')
            tt = tt+m*dt
        return np.array(f)[sl].ravel()
    big = max(1, np.abs(lam).max())
    m = c['m']
    T1 = c['T']*4/big
    dt = T1/m
    if c['steady']:
        if np.abs(y0).max() > 1e3:
            raise Inconclusive()
        w = integrate(c['T'], [3])
        near(w, y0, 1e-9*(1+np.abs(y0).max())*np.linalg.cond(X), 'steady state after three steps of %s', name)
        return
    # exact: y' = (A+q) y + R0
    mu = lam+q
    e = np.exp(mu*T1)
    ph = np.where(np.abs(mu) > 1e-8, (e-1)/np.where(mu == 0, 1, mu), T1)
    if name == 'IMEXRK011':
        X = np.eye(len(lam))
    Xi = np.linalg.inv(X)
    R = X @ (e*(Xi @ y0)+ph*(Xi @ R0.ravel()))
    order(name, ORDER[name], lambda j: integrate(dt/j, [m*j]), R, dt, m, 1e-11*np.linalg.cond(X)*k)
    p = c['split'] % m
    if p and not imex:
        w1 = integrate(dt, [m])
        near(integrate(dt, [p, m-p]), w1, 1e-10*(1+np.abs(w1).max()), '%s in two pieces', name)


def gen_poly():
    S = spaces.st()

    @S.composite
    def g(draw):
        t = draw(tp.specs('F F C L', ndims=(2, 2, 3), maxpoly=2, minpoly=1, hi=2, generic=False).map(forms.gauss))
        for s in t['b']:
            if s['fam'] != 'F':
                for x in ('bcd', 'bcv', 'bc'):
                    s.pop(x, None)
                s['basis'] = 'ShenDirichlet'
                s['N'] = max(s['N'], 4)
            s.pop('pf', None)
        if draw(S.integers(0, 3)) == 0:
            t = dict(b=[[s for s in t['b'] if s['fam'] != 'F'][0]])
        name = draw(S.sampled_from(['IRK3', 'BackwardEuler', 'IMEXRK3', 'IMEXRK011', 'IMEXRK111', 'IMEXRK222', 'IMEXRK443']))
        steady = draw(S.sampled_from([False, False, True])) and not name.startswith('IMEX')
        return dict(t=t, name=name, a=draw(S.sampled_from([1, 0.5])), kind=2 if steady else draw(S.sampled_from([0, 1, 2, 2])) if not name.startswith('IMEX') else 1, q=draw(S.sampled_from([1, -1, 0.5])),
                    r=draw(S.sampled_from([0.5, 1])), seed=draw(S.integers(0, 10**6)), m=draw(S.sampled_from([4, 6])), T=draw(S.sampled_from([0.5, 1, 0.25])),
                    split=draw(S.integers(0, 5)), steady=steady)
    return g()


def lab(c):
    return [c['name'], 'kind=%d' % c['kind'], 'nd=%d' % len(c['t']['b'])]


SUBS = [
    Sub('fourier', gen_fourier, run_fourier, 150, 3000, 'a nonzero solution', None, lab, (4, 8), (80, 1500)),
    Sub('poly', gen_poly, run_poly, 120, 2500, 'a nonzero solution', None, lab, (4, 8), (80, 1500)),
]

ASSUMPTIONS = ['The order is observed in the range where halving the step changes the error regularly; IRK3 and IMEXRK3 treat the linear part with order two.',
               'RK4, ETD and ETDRK4 are for Fourier spaces only, as documented.']
