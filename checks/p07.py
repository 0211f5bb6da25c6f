"""P07 one-dimensional matrices are the true inner products."""
import numpy as np

from vlib import defs, ref, spaces
from vlib.core import Inconclusive, Sub, check

TECH = 'property-based testing (Hypothesis): differential test of assembled matrices against reference Gauss quadrature'
NOTE = ('Random pairs of bases of all families, derivatives, polynomial and other measures, domains, assembly methods and '
        'boundary matrices; the oracle integrates independently defined functions with a reference rule of much higher order.')


def spec_nodes(s1, n):
    """(X, w): reference rule for integrals with the weight of the test space, w for the full functions."""
    fam = s1['fam']
    if fam == 'F':      # the inner product of Fourier spaces is the average over the period
        X = np.arange(n)*2*np.pi/n
        return X, np.full(n, 1./n)
    if fam == 'La':
        X, w = ref.gauss_laguerre(n)
        return X, w*np.exp(X)
    if fam == 'H':
        X, w = ref.gauss_hermite(n)
        return X, w*np.exp(X**2)
    al, be = defs.params(s1)
    a, b = ref.weight_exponents(fam, al, be)
    return ref.gauss(n, a, b)


def rule(s1):
    """Nodes and weights of the space's own N-point rule (independent formula)."""
    N, fam, q = s1['N'], s1['fam'], s1.get('quad')
    if fam in ('F', 'La', 'H') or q in ('LG', 'QG', 'JG', 'GU') or (fam, q) == ('C', 'GC'):
        return spec_nodes(s1, N)
    from shenfun import FunctionSpace
    if fam == 'C':
        k = np.arange(N)
        w = np.full(N, np.pi/(N-1))
        w[0] /= 2
        w[-1] /= 2
        return np.cos(np.pi*k/(N-1)), w
    if fam == 'L':
        c = np.zeros(N)
        c[-1] = 1
        d = np.polynomial.legendre.legder(c)
        X = np.concatenate(([-1], np.sort(np.real(np.polynomial.legendre.legroots(d))), [1])) if N > 2 else np.array([-1., 1])
        w = 2/(N*(N-1)*np.polynomial.legendre.legval(X, c)**2)
        return X, w
    k = np.arange(N)        # U GC
    X = np.cos((k+0.5)*np.pi/N)
    return X, np.pi/N*(1-X**2)


MEAS = [None, 'x', 'x**2', '1+x', '2*x-x**2', 'x**3', '(1+x)**2', 'x**4-1']
NONPOLY = ['exp(x)', 'cos(x)', '1/(10+x**2)']


def measure(c):
    return c.get('meas')


def meas_val(m, x):
    if m is None:
        return np.ones(len(x))
    x = np.asarray(x, dtype=float)
    return np.broadcast_to(np.asarray(eval(m, dict(x=x, exp=np.exp, cos=np.cos, sin=np.sin)), dtype=float), x.shape)


def tables(c):
    """Exact matrix, N-point quadrature matrix, sum of absolute values; the same for the boundary matrix."""
    s1, s2, i, j, m = c['s1'], c['s2'], c['i'], c['j'], measure(c)
    n = max(s1['N'], s2['N'])+12 if s1['fam'] not in ('La', 'H') else max(s1['N'], s2['N'])+6
    if m in NONPOLY:
        n += 20
    if s1['fam'] == 'F':
        n = 2*max(s1['N'], s2['N'])+8 if m is None else 3*max(s1['N'], s2['N'])+8
    out = []
    for X, w in (spec_nodes(s1, n), rule(s1)):
        x = defs.to_phys(s1, X)
        V = np.conj(defs.trial(s1, x, i))
        mv = meas_val(m, x)
        ww = (w*mv/(1. if s1['fam'] == 'F' else float(defs.df(s1)))).astype(float)
        r = []
        for U in [defs.trial(s2, x, j)] + ([defs.bnd(s2, x, j)] if s2['fam'] != 'F' and defs.nbc(s2) else []):
            V_ = V.astype(complex if np.iscomplexobj(V) else np.longdouble)
            r.append(((V_.T*ww) @ U, (np.abs(V_).T*np.abs(ww)) @ np.abs(U)))
        out.append(r)
    return out


def poly_degree(m):
    if m is None:
        return 0
    if m in NONPOLY:
        return 99
    if 'cos' in m or 'sin' in m:
        return 0
    import sympy
    return int(sympy.degree(sympy.sympify(m)))


def run_1d(c):
    import sympy
    from shenfun import Dx, TestFunction, TrialFunction, inner
    s1, s2 = c['s1'], c['s2']
    if not (spaces.ok(s1) and spaces.ok(s2)):
        raise Inconclusive()
    m = measure(c)
    q = poly_degree(m)
    B1, B2 = spaces.build(s1), spaces.build(s2)
    v, u = TestFunction(B1), TrialFunction(B2)
    if c['i']:
        v = Dx(v, 0, c['i'])
    if c['j']:
        u = Dx(u, 0, c['j'])
    a, b = v, u
    if m:
        x = sympy.Symbol('x', real=True)
        me = eval(m, dict(x=x, exp=sympy.exp, cos=sympy.cos, sin=sympy.sin))
        if c['side']:
            a = me*v
        else:
            b = me*u
    kw = {}
    if c['assemble']:
        kw['assemble'] = c['assemble']
    if c['kind']:
        kw['kind'] = c['kind']
    A = inner(a, b, **kw)
    A = A if isinstance(A, list) else [A]
    d1, d2 = B1.dim(), B2.dim()
    main = np.zeros((d1, d2), dtype=complex)
    bcs = None
    for M in A:
        D = M.diags().toarray()*1.0
        t = M.trialfunction[0] if hasattr(M, 'trialfunction') else None
        if t is not None and t.is_boundary_basis if hasattr(t, 'is_boundary_basis') else False:
            bcs = D if bcs is None else bcs+D
        else:
            check(D.shape == main.shape, "matrix of shape %s instead of %s", D.shape, main.shape)
            main += D
    (E, Q) = tables(c)
    gl = s1.get('quad') == 'GL' or (s1['fam'] == 'U' and s1.get('quad') == 'GC')
    loose = gl or q > 1 or s1['fam'] in ('La', 'H') or (s1['fam'] == 'F' and m is not None)
    for name, got, k in (('matrix', main, 0), ('boundary matrix', bcs, 1)):
        if k == 1 and (len(E) < 2 or got is None):
            if len(E) == 2 and any(v != 0 for v in defs.bc_values(s2)):
                ex = np.abs(E[1][0]).max(initial=0)
                check(ex <= 1e-9*E[1][1].max(initial=0)+1e-12, "the boundary matrix is missing; its largest item is %g", ex)
            continue
        ex, sa = E[k]
        ex, sa, qu = (np.asarray(z).astype(complex) for z in (ex, sa, Q[k][0]))
        sa = np.abs(sa)
        e = np.abs(got-ex)
        tol = 3e-10*np.abs(ex).max(initial=0)+1e-11*sa+3e-10*min(1, sa.max(initial=0))
        if q == 99:     # not a polynomial: the rule of the space, or better
            tol = tol+2*np.abs(qu-ex)
        elif loose:
            tol = tol+2.01*np.abs(qu-ex)
            if gl and q > 0 and c['kind'] != 'vandermonde':
                # recursions combine the rule's own mass matrix: the last rows and columns may differ
                tol[-q-4-defs.nbc(s1):, -q-4-defs.nbc(s2):] += 2*np.abs(ex).max(initial=0)
        bad = e > tol
        if bad.any():
            r = np.unravel_index(np.argmax(np.where(bad, e/tol, 0)), e.shape)
            check(False, "%s item %s is %s instead of %s (method %s)", name, tuple(int(z) for z in r), got[r], ex[r],
                  getattr(A[0], '_assembly_method', '?'))


def fix(c):
    s1, s2 = c['s1'], c['s2']
    s2.pop('dom', None)
    if s1.get('dom') is not None:
        s2['dom'] = s1['dom']
    if c['same'] and s1['fam'] not in 'F':
        c['s2'] = s2 = {k: v for k, v in s1.items() if k not in ('bcv',)} if c['same'] == 2 else s2
        if c['same'] == 2 and s1.get('bcv'):
            s2['bcv'] = s1['bcv']
    if c['assemble']:
        c['kind'] = None
        if c['assemble'] == 'exact' and s1['fam'] != 'L':   # sympy takes forever
            c['assemble'] = 'adaptive'
        if s1['fam'] not in 'CLUQ' or s1['fam'] != s2['fam'] or s1['N'] > 7 or s2['N'] > 7 or c['meas'] in NONPOLY:
            c['assemble'] = None
    if s1['fam'] == 'F':
        c['meas'] = None
        c['s2'] = dict(s1)
        c['i'], c['j'] = min(c['i'], 4), min(c['j'], 4)
    if s1['fam'] in ('La', 'H'):
        c['meas'] = c['meas'] if c['meas'] in (None, 'x', 'x**2') else None
        c['j'], c['i'] = min(c['j'], 2), min(c['i'], 2)
    if s1['fam'] == 'J' and poly_degree(c['meas']) > 1:     # sympy is very slow with general parameters
        c['meas'] = 'x' if c['meas'] not in NONPOLY else c['meas']
    if s1['fam'] == 'J' and str(s1.get('basis')).startswith('Phi'):
        c['meas'] = None
    if s1.get('basis') == s2.get('basis') == 'Heinrichs':
        s2['scaled'] = s1['scaled']
    # enough functions for the recursions, and the same number for both spaces
    lo = poly_degree(c['meas']) if c['meas'] not in NONPOLY else 0
    if s1['fam'] != 'F':
        nb = max(defs.nbc(s1), defs.nbc(s2))
        c['s1']['N'] = c['s2']['N'] = max(c['s1']['N'], lo+nb+3)
    return c


def gen_same():
    return _gen(True)


def gen_mixed():
    return _gen(False)


def _gen(same_family):
    S = spaces.st()

    @S.composite
    def gen(draw):
        kw = dict(generic=True, values=True, hi=9, big=True, maxbc=8)
        s1 = draw(spaces.specs('C L U Q J La H F', **kw))
        if same_family or s1['fam'] in ('La', 'H', 'F'):
            s2 = draw(spaces.specs([s1['fam']], **kw))
        else:
            s2 = draw(spaces.specs('C L U Q J', **kw))
        if s1['fam'] == s2['fam'] and s1['fam'] in 'JQ':
            for k in ('alpha', 'beta'):
                s2.pop(k, None)
                if k in s1:
                    s2[k] = s1[k]
            if any(sum(map(len, (z.get('bcd') or {}).values())) > 1 or str(z.get('basis'))[:3] == 'Phi' for z in (s1, s2)):
                for k in ('alpha', 'beta'):     # sympy is very slow otherwise
                    if k in s1:
                        s1[k] = s2[k] = int(abs(s1[k]))
        c = dict(s1=s1, s2=s2, same=draw(S.sampled_from([0, 1, 1, 1, 2, 2])),
                 i=draw(S.sampled_from([0, 0, 0, 0, 1, 2])), j=draw(S.sampled_from([0, 0, 1, 2, 2, 3, 4])),
                 meas=draw(S.sampled_from([None, None]+MEAS+NONPOLY[:2])), side=draw(S.booleans()),
                 assemble=draw(S.sampled_from([None]*8+['exact', 'adaptive'])),
                 kind=draw(S.sampled_from([None]*5+['vandermonde'])))
        return fix(c)
    return gen()


FAMNAME = {'chebyshev': 'C', 'legendre': 'L', 'chebyshevu': 'U', 'ultraspherical': 'Q', 'jacobi': 'J',
           'laguerre': 'La', 'hermite': 'H', 'fourier': 'F'}


def known():
    """The combinations that have their own formulas."""
    import importlib
    out = set()
    for f in FAMNAME:
        mat = importlib.import_module('shenfun.%s.matrices' % f).mat
        for k in list(mat.keys()):
            r = []
            for cls, d in k[:2]:
                fam = cls.__module__.split('.')[1]
                name = 'Orthogonal' if fam == 'fourier' else cls.__name__
                if fam in FAMNAME and name in spaces.NAMED[FAMNAME[fam]]:
                    r += [FAMNAME[fam], name, int(d)]
            m = str(k[2]) if len(k) > 2 else None
            if len(r) == 6:
                out.add((tuple(r), {'x + 1': '1+x', '(x + 1)**2': '(1+x)**2'}.get(m, m)))
    return sorted(out, key=str)


def gen_known():
    S = spaces.st()
    keys = known()

    @S.composite
    def gen(draw):
        (f1, b1, i, f2, b2, j), m = draw(S.sampled_from(keys))
        if f1 == 'F':
            N = draw(S.integers(3, 12))
            s1 = dict(fam='F', N=N, dtype='D')
            m = draw(S.sampled_from(['cos(x)', 'cos(x)**2', 'sin(x)', 'sin(x)*cos(x)', 'sin(2*x)/2', m]))
            i, j = (i, j) if draw(S.booleans()) else (draw(S.integers(0, 2)), draw(S.integers(0, 2)))
            return dict(s1=s1, s2=dict(s1), same=0, i=i, j=j, meas=m, side=draw(S.booleans()), assemble=None, kind=None)
        kw = dict(values=True, hi=9, big=True, maxbc=8)
        s1, s2 = draw(spaces.specs([f1], only={b1}, **kw)), draw(spaces.specs([f2], only={b2}, **kw))
        if f1 == 'U' and f2 == 'C':      # these matrices require Gauss points
            s1['quad'] = 'GU'
        if f1 == f2:
            for k in ('alpha', 'beta'):
                if k in s1:
                    s2[k] = s1[k]
        c = dict(s1=s1, s2=s2, same=0, i=i, j=j, meas=m, side=draw(S.booleans()), assemble=None, kind=None)
        return fix(c)
    return gen()


def lab(c):
    return ['%s/%s' % (c['s1']['fam'], c['s2']['fam']), 'd%d%d' % (c['i'], c['j']),
            'measure' if c['meas'] else 'constant', 'assemble=%s' % c['assemble']]


SUBS = [
    Sub('samefamily', gen_same, run_1d, 1000, 16000, 'more than one item', None, lab, (6, 8), (80, 1500)),
    Sub('known', gen_known, run_1d, 1000, 12000, 'more than one item', None, lab, (4, 8), (80, 1500)),
    Sub('mixed', gen_mixed, run_1d, 400, 6000, 'more than one item', None, lab, (3, 8), (80, 1500)),
]
ASSUMPTIONS = ['items below 1e-10 of the largest may be omitted', 'for rules that cannot integrate the product exactly (Gauss-Lobatto, measures) the value of the rule itself is accepted']
