"""P05 boundary conditions are satisfied exactly."""
import numpy as np

from vlib import defs, ref, spaces, tp
from vlib.core import Inconclusive, Sub, check

TECH = 'property-based testing (Hypothesis): boundary functionals of generated functions compared with the given values'
NOTE = ('Random boundary conditions (all named bases, arbitrary sets of D, N..N4, Robin), values, domains; functions made by random '
        'coefficients, forward transforms, projection, mass solves, refinement; values may depend on the other coordinates and on time.')


def items(s):
    """[(side, [(order, factor)], value)] in physical coordinates."""
    out = []
    f = float(defs.df(s))
    for (side, k, c), v in zip(defs.bc_list(s), defs.bc_values(s)):
        if k == 'R':
            out.append((side, [(0, 1.0), (1, c/f)], v))
        elif k == 'W':
            out.append((side, [(1, 1.0), (2, c/f)], v*f))
        else:
            o = defs.ORDER[k]
            out.append((side, [(o, 1.0)], v*f**o))
    return out


def end(s, side):
    if s['fam'] == 'La':
        return 0.0
    return float(defs.dom(s)[0 if side == 'left' else 1])


def bc_string(s):
    """The conditions written as u(a)=v&&u'(b)=w."""
    a = []
    n = {'D': 0, 'N': 1, 'N2': 2, 'N3': 3, 'N4': 4}
    for side in ('right', 'left'):
        for k, v in s['bcd'].get(side, {}).items():
            a.append("u%s(%r)=%r" % ("'"*n[k], end(s, side), float(v)))
    return '&&'.join(a)


def run_oned(c):
    from shenfun import Array, Function, FunctionSpace, TestFunction, TrialFunction, inner, project
    s = c['s']
    if not spaces.ok(s) or not defs.nbc(s):
        raise Inconclusive()
    n = defs.nbc(s)
    w = c['how']
    if w == 'string' and s.get('bcd') and not any(k in 'RW' for q in s['bcd'].values() for k in q):
        B = spaces.build(s, bc=bc_string(s))
    elif w == 'old' and s.get('bcd') and s['bcd'].get('left') and not any(k in 'RW' for q in s['bcd'].values() for k in q):
        B = spaces.build(s, bc={side: [(k, v) for k, v in q.items()] for side, q in s['bcd'].items()})
    else:
        B = spaces.build(s)
    r = spaces.rng(c['seed'])
    N = s['N']
    d = N-n
    vals = np.array(defs.bc_values(s))
    f = Function(B)
    if w in ('dofs', 'string', 'old', 'change'):
        f[:] = r.uniform(-1, 1, N)
        if w == 'change' and s.get('bcd') and not any(k in 'RW' for q in s['bcd'].values() for k in q):
            vals = np.round(r.uniform(-3, 3, n), 2)
            for (side, k, _), v in zip(defs.bc_list(s), vals):      # scaled values, as documented for set_tensor_bcs
                B.bc.bc[side][k] = v
            B.bc.update(update_tensor=True)
        f.set_boundary_dofs()
        if c['seed'] % 2:
            f.set_boundary_dofs()
    elif w == 'forward':
        a = Array(B)
        a[:] = r.uniform(-1, 1, len(a))
        f = a.forward() if c['seed'] % 2 else B.forward(a, f)
    elif w == 'project':
        a = Array(B)
        a[:] = r.uniform(-1, 1, len(a))
        f = project(a, B)
    elif w == 'buffer':
        import sympy as sp
        x = sp.Symbol('x', real=True)
        f = Function(B, buffer=1+x-x**2)
    elif w == 'solve':
        u, v = TrialFunction(B), TestFunction(B)
        M = inner(u, v)
        rhs = Function(B)
        rhs[:d] = r.uniform(-1, 1, d)
        Ms = M if isinstance(M, list) else [M]
        from shenfun import la
        f = la.Solver(Ms)(rhs, f)
    elif w == 'refine':
        if s.get('basis') or s['fam'] in ('La',) or s.get('bcd') is None:
            raise Inconclusive()
        f[:] = r.uniform(-1, 1, N)
        f.set_boundary_dofs()
        f = f.refine(N+3)
        B = f.function_space()
        N, d = N+3, N+3-n
        s = dict(s, N=N)
    f = np.asarray(f)
    check(np.all(np.isfinite(f)), "coefficients are not finite (%s)", w)
    # through the stencil matrices and the functionals
    S = np.asarray(B.stencil_matrix().diags('csr').toarray(), dtype=float)[:d]
    bs = B.get_bc_space()
    Sb = np.asarray(bs.stencil_matrix(), dtype=float)
    m = max(S.shape[1], Sb.shape[1])
    a = np.zeros(m)
    a[:S.shape[1]] += f[:d] @ S
    a[:Sb.shape[1]] += f[d:] @ Sb
    ab = np.zeros(m)
    ab[:S.shape[1]] += np.abs(f[:d]) @ np.abs(S)
    ab[:Sb.shape[1]] += np.abs(f[d:]) @ np.abs(Sb)
    for i, it in enumerate(defs.bc_list(s)):
        F = np.asarray(defs.functional(s, it, m), dtype=float)
        tol = 1e-13*(10+N)*(1+np.abs(F) @ ab)
        e = abs(F @ a-vals[i])
        check(e < tol, "condition %s of the function (%s): %.12g instead of %.12g (allowed error %.1e)", it[:2], w, F @ a, vals[i], tol)
        # every basis function
        G = np.abs(S @ F[:S.shape[1]])/(np.abs(S) @ np.abs(F[:S.shape[1]])+1e-300)
        check(np.max(G) < 1e-11*N, "basis function %d does not satisfy condition %s", int(np.argmax(G)), it[:2])
    # through numerical evaluation
    for i, (side, terms, _) in enumerate(items(s)):
        X = np.array([-1.0 if side == 'left' else 1.0]) if s['fam'] != 'La' else np.array([0.0])
        dfx = float(defs.df(s))
        rv = 0
        rb = np.zeros(d)
        mg = 0
        mb = np.zeros(d)
        for k, fac in terms:
            V = np.asarray(B.evaluate_basis_derivative_all(X, k=k), dtype=float)
            # bases include the boundary functions in the last columns or leave zeros there
            V = V[:, :d] if V.shape[1] > d else V
            Vb = np.asarray(bs.evaluate_basis_derivative_all(X, k=k), dtype=float)
            sc = dfx**k*fac
            rb += sc*V[0]
            rv += sc*(V[0] @ f[:d]+Vb[0] @ f[d:])
            R = np.abs(np.asarray(defs.ref.basis(s['fam'], m, X, k, *defs.params(s)), dtype=float))[0]
            mb += abs(sc)*(np.abs(S) @ R[:S.shape[1]])
            mg += abs(sc)*(R @ ab)
        want = items(s)[i][2] if w != 'change' else None
        check(np.all(np.abs(rb) < 1e-11*N*(mb+1e-300)), "values of basis functions at the %s boundary: %s", side, rb)
        if want is not None:
            check(abs(rv-want) < 1e-11*N*(1+mg), "value at the %s boundary (%s): %.12g instead of %.12g", side, w, rv, want)
    ki = [k for k, _ in items(s)[0][1]]
    if w != 'refine' and w != 'change':
        g = Function(B)
        g[:] = f
        for side, terms, v in items(s):
            if terms == [(0, 1.0)]:
                y = np.atleast_1d(g.eval(np.array([end(s, side)])))[0]
                R = np.abs(np.asarray(ref.basis(s['fam'], m, np.array([float(defs.to_ref(s, end(s, side)))]), 0, *defs.params(s)), dtype=float))[0]
                check(abs(y-v) < 1e-12*N*(1+R @ ab), "u(%s)=%.12g instead of %.12g (%s)", end(s, side), y, v, w)


def gen_oned():
    S = spaces.st()
    return S.fixed_dictionaries(dict(s=S.one_of(spaces.specs('C L U Q J', named=False, generic=True, values=True, hi=10, big=True),
                                                spaces.specs('C L U Q J La', generic=True, values=True, hi=10, big=True, orth_ok=False, exclude=('Orthogonal',))),
                                     seed=S.integers(0, 10**6),
                                     how=S.sampled_from(['dofs', 'forward', 'project', 'buffer', 'solve', 'refine', 'string', 'old', 'change'])))


# ---- tensor product spaces

def coordexpr(s, i, code):
    """(sympy factor, numpy function) of coordinate i for code 0..3, in the span of base s."""
    import sympy as sp
    q = sp.Symbol('xyz'[i], real=True)
    if s['fam'] == 'F':
        lo, hi = [float(v) for v in defs.dom(s)]
        w = 2*np.pi/(hi-lo)
        return [sp.Integer(1), 1+sp.cos(w*(q-lo))/2, sp.sin(w*(q-lo)), 2-sp.cos(w*(q-lo)-1)][code]
    return [sp.Integer(1), 1+q/2, q, q**2-1][code]


def run_tensor(c):
    import sympy as sp
    from shenfun import Array, Function, TensorProductSpace, project
    from mpi4py import MPI
    t = tp.norm(c['t'])
    b = t['b']
    p = [i for i, s in enumerate(b) if s['fam'] != 'F' and defs.nbc(s)]
    if len(p) != 1 or not tp.ok(t):
        raise Inconclusive()
    p = p[0]
    s = b[p]
    time = sp.Symbol('t', real=True)
    exprs = {}
    bc = {}
    j = 0
    for side in ('left', 'right'):
        for k in sorted(s['bcd'].get(side, {})):
            v = s['bcd'][side][k]
            v0 = v[1] if isinstance(v, (list, tuple)) else v
            e = sp.Float(v0)
            for i, q in enumerate(b):
                if i != p:
                    e = e*coordexpr(q, i, c['codes'][(j+i) % len(c['codes'])])
            if c['time'] and v0:
                e = e*(1+time**2)
            if v0 == 0:
                e = 0
            elif isinstance(e, sp.Float):
                e = float(e)
            exprs[(side, k)] = e
            bc.setdefault(side, {})[k] = (v[0], e) if isinstance(v, (list, tuple)) else e
            j += 1
    bases = [spaces.build(q, **(dict(bc=bc) if i == p else {})) for i, q in enumerate(b)]
    kw = {}
    if t['axes'] != list(range(len(b))):
        kw['axes'] = tuple(t['axes'])
    if t.get('cplx') and b[t['axes'][-1]]['fam'] != 'F':
        kw['dtype'] = 'D'
    T = TensorProductSpace(MPI.COMM_SELF, tuple(bases), **kw)
    tv = 0.0
    if c['time']:
        tv = 1.5
        T.bases[p].bc.update(time=tv)
    r = spaces.rng(c['seed'])
    f = Function(T)
    w = c['how']
    t2 = t
    if w == 'dofs':
        f[:] = tp.random_coef(dict(t, b=[dict(q) for q in b]), c['seed'])
        f.set_boundary_dofs()
    elif w in ('forward', 'project', 'roundtrip'):
        a = Array(T)
        a[:] = r.uniform(-1, 1, a.shape)
        if w == 'project':
            f = project(a, T)
        else:
            f = T.forward(a, f)
            if w == 'roundtrip':
                f = T.forward(T.backward(f).copy(), f)
    elif w == 'refine':
        f[:] = tp.random_coef(t, c['seed'])
        if len({q['N'] % 2 for q in b if q['fam'] == 'F'} | {1}) != 1:     # Nyquist modes
            raise Inconclusive()
        f.set_boundary_dofs()
        N2 = [q['N']+2 for q in b]
        f = f.refine(N2)
        t2 = dict(t, b=[dict(q, N=q['N']+2) for q in b])
    F = np.asarray(f)
    check(np.all(np.isfinite(F)), "coefficients are not finite (%s)", w)
    pts = tp.random_points(t, c['seed'], 4)
    names = [sp.Symbol('xyz'[i], real=True) for i in range(len(b))]
    ev = bool(all(q['fam'] != 'H' for q in b))
    for (side, terms, _), (_, key, _) in zip(items(s), defs.bc_list(s)):
        pt = pts.copy()
        pt[p] = end(s, side)
        e = exprs[(side, key)]
        want = np.array([float(sp.sympify(e).subs(time, tv).subs(dict(zip(names, q)))) for q in pt.T])
        have = 0
        mg = 0
        for k, fac in terms:
            ks = [0]*len(b)
            ks[p] = k
            have = have+fac*tp.evaluate_at(t2, F, pt, ks)
            am = abs(fac)
            for i, q in enumerate(t2['b']):
                am *= np.max(np.sum(np.abs(np.asarray(tp.axis_matrix(q, pt[i], ks[i]), dtype=complex)), axis=1))
            mg += am*np.max(np.abs(F))
        check(np.max(np.abs(have-want)) < 1e-11*(1+mg), "condition %s at the %s of axis %d (%s): %s instead of %s",
              key, side, p, w, have, want)
        if terms == [(0, 1.0)] and len(b) < 4:
            y = f.eval(pt)
            check(np.max(np.abs(y-want)) < 1e-11*(1+mg), "eval at the %s of axis %d (%s): %s instead of %s", side, p, w, y, want)


def gen_tensor():
    S = spaces.st()

    @S.composite
    def gen(draw):
        nd = draw(S.sampled_from([2, 2, 3]))
        p = draw(S.integers(0, nd-1))
        b = []
        for i in range(nd):
            if i == p:
                b.append(draw(spaces.specs('C L U Q J', named=False, generic=True, values=True, hi=5 if nd == 2 else 2, big=True, maxbc=4)))
            elif draw(S.integers(0, 2)):
                b.append(draw(spaces.specs('F', lo=3, hi=4, dtype='d')))
            else:
                b.append(draw(spaces.specs('C L U', only=['Orthogonal'], hi=4, nmin=3)))
        t = dict(b=b)
        q = list(draw(S.permutations(list(range(nd)))))
        if q != list(range(nd)):
            t['axes'] = q
        if draw(S.integers(0, 3)) == 0:
            t['cplx'] = True
        return dict(t=t, codes=draw(S.lists(S.integers(0, 3), min_size=2, max_size=4)), time=draw(S.integers(0, 3)) == 0,
                    seed=draw(S.integers(0, 10**6)), how=draw(S.sampled_from(['dofs', 'forward', 'project', 'roundtrip', 'refine'])))
    return gen()


def run_both(c):
    """Conditions on all four sides of a rectangle, from one polynomial."""
    import sympy as sp
    from shenfun import Array, Function, TensorProductSpace
    from mpi4py import MPI
    x, y = sp.symbols('x,y', real=True)
    b = c['b']
    if not all(spaces.ok(s) for s in b):
        raise Inconclusive()
    P = sum(co*x**i*y**j for (i, j), co in zip([(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (1, 2)], c['co']))
    bases = []
    for i, s in enumerate(b):
        q = (x, y)[i]
        bc = {}
        for side, d in s['bcd'].items():
            for k in d:
                e = P.diff(q, defs.ORDER[k]).subs(q, sp.Float(end(s, side)))
                bc.setdefault(side, {})[k] = sp.sympify(e)
        bases.append(spaces.build(s, bc=bc))
    T = TensorProductSpace(MPI.COMM_SELF, bases, **(dict(axes=(1, 0)) if c['swap'] else {}))
    r = spaces.rng(c['seed'])
    a = Array(T)
    a[:] = r.uniform(-1, 1, a.shape)
    f = a.forward()
    F = np.asarray(f)
    t = dict(b=b)
    for ax, s in enumerate(b):
        for (side, terms, _), (_, key, _) in zip(items(s), defs.bc_list(s)):
            pt = tp.random_points(t, c['seed'], 4)
            pt[ax] = end(s, side)
            e = P.diff((x, y)[ax], defs.ORDER[key])
            want = np.array([float(e.subs({x: q[0], y: q[1]})) for q in pt.T])
            ks = [0, 0]
            ks[ax] = terms[0][0]
            have = tp.evaluate_at(t, F, pt, ks)
            mg = np.max(np.abs(F))
            for i, q in enumerate(b):
                mg *= np.max(np.sum(np.abs(np.asarray(tp.axis_matrix(q, pt[i], ks[i]), dtype=float)), axis=1))
            check(np.max(np.abs(have-want)) < 1e-11*(1+mg), "condition %s at the %s of axis %d: %s instead of %s", key, side, ax, have, want)


def gen_both():
    S = spaces.st()
    D = [{'left': {'D': 0}, 'right': {'D': 0}}, {'left': {'D': 0}, 'right': {'D': 0}}, {'left': {'D': 0}}, {'right': {'D': 0}},
         {'left': {'D': 0, 'N': 0}, 'right': {'D': 0, 'N': 0}}]

    @S.composite
    def gen(draw):
        b = []
        for i in range(2):
            s = dict(fam=draw(S.sampled_from(['C', 'L', 'U'])), bcd=draw(S.sampled_from(D)), N=9+draw(S.integers(0, 3)))
            d = draw(spaces.doms(S))
            if d:
                s['dom'] = d
            b.append(s)
        return dict(b=b, co=draw(S.lists(S.integers(-3, 3), min_size=6, max_size=6)), swap=draw(S.booleans()), seed=draw(S.integers(0, 10**6)))
    return gen()


SUBS = [
    Sub('oned', gen_oned, run_oned, 900, 15000, 'some value is not zero', lambda c: any(v != 0 for v in defs.bc_values(c['s'])),
        lambda c: [spaces.label(c['s']), c['how']], (4, 8), (80, 1500)),
    Sub('tensor', gen_tensor, run_tensor, 500, 8000, 'some value is not zero',
        lambda c: any(v != 0 for s in c['t']['b'] if s['fam'] != 'F' for v in defs.bc_values(s)), lambda c: tp.labels(c['t'])+[c['how']], (4, 8), (80, 1500)),
    Sub('both', gen_both, run_both, 80, 1200, 'the polynomial is not constant', lambda c: any(c['co'][1:]), None, (1, 8), (80, 900)),
]
ASSUMPTIONS = ['conditions that determine no basis or lifting (resonant Robin constants) are skipped']
