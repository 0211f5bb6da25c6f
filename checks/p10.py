"""P10 one-dimensional solvers solve their linear systems."""
import numpy as np

from vlib import defs, spaces, tp
from vlib.core import Inconclusive, Sub, check, fail
from checks import p07, p09

TECH = 'property-based testing (Hypothesis): histories of solves judged by the residual of the dense system'
NOTE = ('Random banded, general and assembled spectral matrices, right-hand sides (real/complex, any rank and axis, in place or not), '
        'constraints, repeated solves and modifications of the matrix between them; the answer must satisfy the dense model of the '
        'current system to within rounding.')

BANDS = [(0,), (0,), (0, 2), (0, 2, 4), (-2, 0, 2), (-2, 0, 2), (-2, 0, 2, 4), (-4, -2, 0, 2, 4), (-4, -2, 0, 2, 4, 6, 8), (-1, 0, 1), (-1, 0, 1),
         (-3, 0, 1), (0, 1), (-1, 0), (-2, -1, 0, 1, 2), (-2, 0), (0, 3), (-4, -2, 0, 2), (0, 2, 4, 6)]
BANDED = set(BANDS[:11])


def rhs(r, n, extra, nd, axis, cplx, shape):
    sh = list(shape[:nd])
    sh[axis] = n+extra
    b = r.standard_normal(sh)
    return b+1j*r.standard_normal(sh) if cplx else b


def residual(D, u, b, axis, what, *a, tol=1e-11):
    """D u = b along axis (of the first rows only)."""
    n = D.shape[0]
    U, B = np.moveaxis(np.asarray(u), axis, 0)[:n].reshape(n, -1), np.moveaxis(np.asarray(b), axis, 0)[:n].reshape(n, -1)
    if not np.isfinite(U).all():
        fail(what+': the solution has entries that are not finite', *a)
    e = np.abs(D @ U-B)
    sc = np.abs(D) @ np.abs(U)+np.abs(B)
    w = (e/np.maximum(sc.max(axis=0), 1e-300)).max()
    check(w <= tol, what+': residual is %.2e', *a, w)


def apply_con(D, b, axis, con):
    D, b = D.copy(), b.copy()
    bm = np.moveaxis(b, axis, 0)
    for row, val in con:
        D[row] = 0
        D[row, row] = 1
        bm[row] = val
    return D, b


def _band(r, n, keys, sym, scalar, cplx, zero):
    """A diagonally dominant band matrix (dict, dense)."""
    d, D = {}, np.zeros((n, n), dtype=complex if cplx else float)
    for k in keys:
        m = n-abs(k)
        if m <= 0:
            continue
        if sym and -k in d:
            v = d[-k] if np.ndim(d[-k]) == 0 else d[-k].copy()
        elif scalar:
            v = float(r.uniform(-1, 1))
        else:
            v = r.uniform(-1, 1, m)+(1j*r.uniform(-1, 1, m) if cplx else 0)
        if k == 0:
            v = (np.sign(r.uniform(-1, 1)) if scalar else np.sign(r.uniform(-1, 1, m)))*(len(keys)+abs(v))
        d[k] = v
        D += np.diag(np.broadcast_to(v, (m,)), k)
    if zero and not scalar:      # a singular matrix, to be fixed by a constraint
        for k in d:
            if k >= 0:
                d[k][0] = 0
        D[0] = 0
    return d, D


def run_generic(c):
    from shenfun import SparseMatrix, la
    r = spaces.rng(c['seed'])
    n, keys, con = c['n'], tuple(c['keys']), [tuple(x) for x in c['con']]
    if max(abs(k) for k in keys) >= n:
        raise Inconclusive()
    banded = keys in BANDED and (keys != (-1, 0, 1) or c['sym'])
    cplx = c['mc'] and not banded
    con = con[:1] if banded else con
    con = [(0 if banded else q % n, x) for q, x in con]
    con = list({q: (q, x) for q, x in con}.values())
    zero = bool(con) and c['zero'] and any(q == 0 for q, _ in con) and not c['sym']
    d, D0 = _band(r, n, keys, c['sym'], c['scalar'], cplx, zero)
    A = SparseMatrix(d, (n, n), scale=c['scale'])
    D = D0*c['scale']
    sol = None
    for step, s in enumerate(c['steps']):
        axis = s['axis'] % s['nd']
        b = rhs(r, n, s['extra'], s['nd'], axis, s['cplx'] or cplx, s['shape'])
        b0 = b.copy()
        what = 'step %d, %s'
        if s['change']:
            sol = None
        if s['change'] == 'scale':
            A.scale *= 2.5
            D = D*2.5
        elif s['change'] == 'imul':
            A *= -0.5
            D = D*-0.5
        elif s['change'] == 'set' and not zero and not c['sym']:
            k = keys[s['key'] % len(keys)]
            v = np.broadcast_to(A[k], (n-abs(k),))*0.5 if k else np.broadcast_to(A[0], (n,))*2
            D = D+np.diag((v-np.broadcast_to(A[k], (n-abs(k),)))*A.scale, k)
            A[k] = v
        elif s['change'] == 'iadd':
            A += A
            D = 2*D
        kw = dict(axis=axis) if axis or s['kw'] else {}
        if con:
            kw['constraints'] = tuple((q, x+step) for q, x in con)
        Dc, bc = apply_con(D, b0, axis, kw.get('constraints', ()))
        u = None if s['inplace'] else np.full_like(b, 7.0)
        args = (b,) if u is None else (b, u)
        if s['how'] == 'solve' or sol is None:
            x = A.solve(*args, **kw)
            nm = 'A.solve'
        if s['how'] == 'cached':
            if sol is None:
                sol = la.Solver(A)
                b, u = b0.copy(), None if u is None else np.full_like(b, 7.0)
                args = (b,) if u is None else (b, u)
            x = sol(*args, **kw)
            nm = 'la.Solver(A)'
        elif s['how'] == 'list':
            b, u = b0.copy(), None if u is None else np.full_like(b, 7.0)
            args = (b,) if u is None else (b, u)
            B = SparseMatrix({k: np.array(v)*0.25 for k, v in A.items()}, A.shape, scale=A.scale)
            C = SparseMatrix({k: np.array(v)*0.75 for k, v in A.items()}, A.shape, scale=A.scale)
            x = la.Solver([B, C])(*args, **kw)
            nm = 'la.Solver([B, C])'
        elif s['how'] == 'Solve':
            b, u = b0.copy(), None if u is None else np.full_like(b, 7.0)
            args = (b,) if u is None else (b, u)
            x = la.Solve(A)(*args, **kw)
            nm = 'la.Solve(A)'
        what = 'step %d: %s of bands %s, n=%d, constraints %s' % (step, nm, keys, n, kw.get('constraints'))
        target = b if u is None else u
        check(np.shares_memory(x, target), what+': the answer is not in the output array')
        residual(Dc, x, bc, axis, what)
        residual(Dc, target, bc, axis, what+': output array')
        p09.same(A, D, what+': the matrix itself')
        y = A.matvec(np.ones(n), np.zeros(n, dtype=complex if cplx else float))
        check(np.abs(y-D.sum(axis=1)).max() <= 1e-11*max(1, np.abs(D).sum(axis=1).max()), what+': product with the matrix after the solve is wrong')


def gen_generic():
    S = spaces.st()
    step = S.fixed_dictionaries(dict(
        nd=S.sampled_from([1, 1, 2, 3, 4]), axis=S.integers(0, 3), cplx=S.booleans(), extra=S.integers(0, 3), kw=S.booleans(),
        shape=S.lists(S.integers(1, 4), min_size=4, max_size=4), inplace=S.booleans(), key=S.integers(0, 6),
        how=S.sampled_from(['solve', 'solve', 'cached', 'list', 'Solve']), change=S.sampled_from([None, None, None, 'scale', 'imul', 'set', 'iadd'])))
    return S.fixed_dictionaries(dict(
        keys=S.sampled_from(BANDS), n=S.integers(1, 16), scale=S.sampled_from([1, 1, 2.0, -0.3]), sym=S.booleans(), scalar=S.booleans(),
        mc=S.sampled_from([False, False, True]), zero=S.booleans(), seed=S.integers(0, 10**6),
        con=S.lists(S.tuples(S.sampled_from([0, 0, 0, 1, 3]), S.sampled_from([0, 0.5, -2])), max_size=2),
        steps=S.lists(step, min_size=1, max_size=4)))


# -- assembled spectral matrices -------------------------------------------

def _known():
    out = []
    for (f1, n1, i, f2, n2, j), m in p07.known():
        if f1 != 'F':
            out.append(((f1, n1, i, f2, n2, j), m))
    return out


def run_spectral(c):
    from shenfun import Dx, Function, TestFunction, TrialFunction, inner
    k = c['k']
    s1 = dict(fam=k[0], basis=k[1], N=c['N']+max(spaces.NAMED[k[0]][k[1]], spaces.NAMED[k[3]][k[4]]))
    s1['quad'] = spaces.QUADS[k[0]][c['q'] % len(spaces.QUADS[k[0]])]
    s2 = dict(s1, fam=k[3], basis=k[4], quad=spaces.QUADS[k[3]][c['q'] % len(spaces.QUADS[k[3]])])
    if k[0] == 'U' and k[3] == 'C':      # these matrices require Gauss points
        s1['quad'] = 'GU'
    if not spaces.ok(s1) or not spaces.ok(s2):
        raise Inconclusive()
    d1, d2 = s1['N']-defs.nbc(s1), s2['N']-defs.nbc(s2)
    if d1 != d2:
        raise Inconclusive()
    B1, B2 = spaces.build(s1), spaces.build(s2)
    v, u = TestFunction(B1), TrialFunction(B2)
    A = inner(Dx(v, 0, k[2]) if k[2] else v, Dx(u, 0, k[5]) if k[5] else u)
    if isinstance(A, list):
        if len(A) != 1:
            raise Inconclusive()
        A = A[0]
    if c['scale'] != 1:
        A = A*c['scale']
    D = p09.dense(A)
    if D.shape != (d1, d1):
        raise Inconclusive()
    con = ()
    if np.abs(D[0]).max() == 0 and d1 > 1:
        con = ((0, c['val']),)
    Dc = apply_con(D, np.zeros(d1), 0, con)[0]
    if np.linalg.cond(Dc) > 1e8 or (np.abs(Dc[0]).max() > 1e6):
        raise Inconclusive()
    r = spaces.rng(c['seed'])
    for st in c['steps']:
        nd, axis = st['nd'], st['axis'] % st['nd']
        if nd == 1 and st['fn']:
            b = Function(B1)
            b[:] = r.standard_normal(b.shape)
        else:
            b = rhs(r, s1['N'], 0, nd, axis, st['cplx'], st['shape'])
        b0 = np.array(b)
        x = Function(B2) if nd == 1 and st['fn'] else np.zeros_like(b)
        kw = dict(axis=axis, constraints=con) if con else dict(axis=axis)
        if st['inplace']:
            x = b
            y = A.solve(b, **kw)
        else:
            y = A.solve(b, x, **kw)
        _, bc = apply_con(D, b0, axis, con)
        g = 1e-10*max(1, np.linalg.cond(Dc)*1e-4)
        what = '%s of %s N=%d, rank %d, axis %d' % (type(A).__name__, k, s1['N'], nd, axis)
        residual(Dc, y, bc, axis, what, tol=g)
        residual(Dc, x, bc, axis, what+' output array', tol=g)
    p09.same(A, D, 'the matrix after solving, %s', k)


def gen_spectral():
    S = spaces.st()
    step = S.fixed_dictionaries(dict(nd=S.sampled_from([1, 1, 2, 3, 4]), axis=S.integers(0, 3), cplx=S.booleans(), fn=S.booleans(),
                                     inplace=S.booleans(), shape=S.lists(S.integers(1, 4), min_size=4, max_size=4)))
    ks = [k for k, m in _known() if m is None]
    return S.fixed_dictionaries(dict(k=S.sampled_from(ks), N=S.one_of(S.integers(3, 8), S.integers(8, 20)), q=S.integers(0, 2), scale=S.sampled_from([1, 1, 2.0, -0.5]),
                                     val=S.sampled_from([0, 1.5]), seed=S.integers(0, 10**6), steps=S.lists(step, min_size=1, max_size=3)))


# -- systems with boundary values --------------------------------------------

def run_bcs(c):
    from shenfun import Dx, Function, TestFunction, TrialFunction, inner, la
    s = c['s']
    if not spaces.ok(s) or not defs.well_posed(s):
        raise Inconclusive()
    V = spaces.build(s)
    T = V if c['same'] or not s.get('bc') else V.get_testspace(kind='G')
    v, u = TestFunction(T), TrialFunction(V)
    n = s['N']-defs.nbc(s)
    mats = inner(v, c['a']*u-Dx(u, 0, 2)+c['d']*Dx(u, 0, 1))
    mats = mats if isinstance(mats, list) else [mats]
    D, Db = np.zeros((n, n)), np.zeros((n, s['N']-n))
    for A in mats:
        M = p09.dense(A)
        if A.shape == (n, n) and not A.trialfunction[0].__class__.__name__.startswith('BC'):
            D = D+M
        else:
            check(M.shape == (n, s['N']-n), 'boundary matrix of shape %s', M.shape)
            Db = Db+M
    if np.linalg.cond(D) > 1e8:
        raise Inconclusive()
    sol = la.Solver(mats)
    r = spaces.rng(c['seed'])
    ub = defs.bc_values(s)
    for i in range(c['times']):
        b = Function(V)
        b[:] = r.standard_normal(s['N'])
        b0 = np.array(b)
        x = Function(V)
        y = sol(b, x)
        tol = 1e-10*max(1, np.linalg.cond(D)*1e-4)
        for nm, w in (('returned', y), ('output', x)):
            if len(ub):
                e = np.abs(np.asarray(w)[n:]-ub).max()
                check(e <= 1e-10*max(1, np.abs(ub).max()), '%s boundary values off by %.2e', nm, e)
            residual(D, np.asarray(w)[:n], b0[:n]-Db @ ub, 0, 'la.Solver(%d matrices), call %d', len(mats), i, tol=tol*max(1, np.abs(Db).max(initial=0)))


def gen_bcs():
    S = spaces.st()
    return S.fixed_dictionaries(dict(s=spaces.specs('CLUQJ', 0, 14, values=True, generic=True, big=True), a=S.sampled_from([1, 2.5, 40.0]), d=S.sampled_from([0, 1.0]),
                                     same=S.just(True), times=S.integers(1, 2), seed=S.integers(0, 10**6)))


# -- Helmholtz and biharmonic solvers ------------------------------------------

def _dense_tp(mats, shape):
    """Full dense matrix of a list of TPMatrix on a space of this shape (boundary matrices apart)."""
    n = int(np.prod(shape))
    M = np.zeros((n, n), dtype=complex)
    for A in mats:
        E = np.ones((1, 1))
        for m, k in zip(A.mats, shape):
            d = m.diags('csr').toarray() if not isinstance(m, (int, float)) else np.eye(k)*m
            F = np.zeros((k, k), dtype=complex)
            F[:d.shape[0], :d.shape[1]] = d
            E = np.kron(E, F)
        M += np.broadcast_to(A.scale, shape).reshape(-1)[:, None]*E if np.ndim(A.scale) else A.scale*E
    return M


def run_helm(c):
    from shenfun import Function, TensorProductSpace, TestFunction, TrialFunction, chebyshev, comm, div, grad, inner
    kind = c['kind']
    N = c['N']+(6 if kind == 'B' else 0)
    s = dict(fam='C', basis={'D': 'ShenDirichlet', 'N': 'ShenNeumann', 'B': 'ShenBiharmonic'}[kind], N=N, quad=c['quad'], dom=c['dom'])
    four = [dict(fam='F', N=q, dtype='D') for q in c['four']]
    if four and c['r2c']:
        four[-1]['dtype'] = 'd'
    bases = list(four)
    pos = c['pos'] % (len(four)+1)
    bases.insert(pos, s)
    B = [spaces.build(x) for x in bases]
    V = B[0] if not four else TensorProductSpace(comm, B, axes=tuple([i for i in range(len(B)) if i == pos]+[i for i in range(len(B)) if i != pos]))
    v, u = TestFunction(V), TrialFunction(V)
    be, al = c['beta'], c['alfa']
    if kind == 'B':
        mats = inner(v, c['a0']*div(grad(div(grad(u))))-al*div(grad(u))+be*u)
    else:
        mats = inner(v, be*u-al*div(grad(u)))
        mats = mats if isinstance(mats, list) else [mats]
    n = N-(4 if kind == 'B' else 2)
    shape = V.shape(True) if four else (N,)
    if four:
        D = _dense_tp(mats, shape)
    else:
        D = np.zeros((N, N))
        for A in mats:
            D[:n, :n] += p09.dense(A)
    sel = np.zeros(shape, dtype=bool)
    sl = [slice(None)]*len(shape)
    sl[pos] = slice(0, n)
    sel[tuple(sl)] = True
    con = ()
    zero = tuple([0]*len(shape))
    if kind == 'N' and be == 0:
        con = ((0, c['val']),)
        i = np.ravel_multi_index(zero, shape)
        D[i] = 0
        D[i, i] = 1
    K = np.flatnonzero(sel.reshape(-1))
    Dk = D[np.ix_(K, K)]
    if np.linalg.cond(Dk) > 1e10:
        raise Inconclusive()
    if not four and c['form'] == 'four':
        key = {m.get_key(): m for m in mats}
        order = ['ASDSDmat', 'BSDSDmat'] if kind == 'D' else ['ASNSNmat', 'BSNSNmat'] if kind == 'N' else ['SSBSBmat', 'ASBSBmat', 'BSBSBmat']
        if any(o not in key for o in order):
            raise Inconclusive()
        mm = [key[o] for o in order]
        sc = [m.scale for m in mm]
        if kind == 'B' and len(mm) != 3:
            raise Inconclusive()
        args = mm+sc
    else:
        args = mats
    need = 3 if kind == 'B' else 2
    if (len(args) if args is mats else need) != need:
        raise Inconclusive()
    sol = (chebyshev.la.Biharmonic if kind == 'B' else chebyshev.la.Helmholtz)(*args)
    r = spaces.rng(c['seed'])
    for i in range(c['times']):
        b = Function(V)
        b[:] = r.standard_normal(b.shape)+(1j*r.standard_normal(b.shape) if b.dtype.kind == 'c' else 0)
        b0 = np.array(b)
        x = Function(V)
        kw = dict(constraints=con) if con else {}
        y = sol(b, x, **kw)
        bb = b0.reshape(-1).astype(complex)
        if con:
            bb[np.ravel_multi_index(zero, shape)] = con[0][1]
        what = '%s %s, axis %d of %s, call %d' % (type(sol).__name__, kind, pos, shape, i)
        tol = 1e-10*max(1, np.linalg.cond(Dk)*1e-4)
        for w in (x, y):
            residual(Dk, np.asarray(w).reshape(-1)[K], bb[K], 0, what, tol=tol)
    if not con:
        z = Function(V)
        x[:] = 0
        x[tuple(sl)] = r.standard_normal(x[tuple(sl)].shape)
        z = sol.matvec(x, z)
        e = Dk @ np.asarray(x).reshape(-1)[K]-np.asarray(z).reshape(-1)[K]
        check(np.abs(e).max() <= 1e-11*(np.abs(Dk) @ np.abs(np.asarray(x).reshape(-1)[K])).max(), 'matvec of %s %s is off by %.2e', type(sol).__name__, kind, np.abs(e).max())


def gen_helm():
    S = spaces.st()
    return S.fixed_dictionaries(dict(
        kind=S.sampled_from('DNB'), N=S.integers(8, 18), quad=S.sampled_from(['GC', 'GL']), dom=S.sampled_from([None, None, [0, 2], [-3, 1]]),
        four=S.lists(S.sampled_from([3, 4, 5, 6]), max_size=2), r2c=S.booleans(), pos=S.integers(0, 2), alfa=S.sampled_from([1, 2.0, 0.1]),
        beta=S.sampled_from([0, 1, 3.0, 100.0]), a0=S.sampled_from([1, 1, 0.5]), val=S.sampled_from([0, 1.5]), times=S.integers(1, 2),
        form=S.sampled_from(['mats', 'four']), seed=S.integers(0, 10**6)))


SUBS = [
    Sub('generic', gen_generic, run_generic, 1500, 30000, 'more than one solve, or rank above one, or a constraint',
        lambda c: len(c['steps']) > 1 or c['steps'][0]['nd'] > 1 or bool(c['con']),
        lambda c: [str(tuple(c['keys']))]+[s['how'] for s in c['steps']]+[s['change'] or '-' for s in c['steps']], (4, 8), (80, 1500)),
    Sub('spectral', gen_spectral, run_spectral, 800, 12000, 'every case', None, lambda c: [c['k'][0]+'.'+c['k'][1]], (4, 8), (80, 1500)),
    Sub('bcs', gen_bcs, run_bcs, 400, 8000, 'every case', None, lambda c: [spaces.label(c['s'])], (4, 8), (80, 1500)),
    Sub('helm', gen_helm, run_helm, 500, 8000, 'every case', None, lambda c: [c['kind'], '%dD' % (len(c['four'])+1)], (4, 8), (80, 1500)),
]
ASSUMPTIONS = ['constraints are the same rows in all calls of one solver object (their values may change)',
               'rows and columns of boundary dofs of the arrays are not part of the system']
