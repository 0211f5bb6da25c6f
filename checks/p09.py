"""P09 operator objects behave as the matrices they represent."""
import copy

import numpy as np

from vlib import defs, spaces, tp
from vlib.core import Inconclusive, Sub, check, fail
from checks import p07

TECH = 'model-based stateful property testing (Hypothesis): histories of operator algebra against dense matrices'
NOTE = ('Random histories over pools of sparse, spectral, tensor product and block matrices; after every step each object of the pool is '
        'compared with the dense matrix that models it, so changed operands and stale caches show. Matrix-vector products in every '
        'storage format, rank, axis and type.')
FORMATS = ['python', 'dia', 'csr', 'csc']


def dense(A):
    return A.diags('csr').toarray()


# -- sparse matrices --------------------------------------------------------

def make(m):
    """(operator, dense model) of a JSON matrix."""
    from shenfun import SparseMatrix
    from shenfun.matrixbase import Identity
    if m['kind'] == 'identity':
        return Identity((m['n'], m['n']), scale=m['scale']), np.eye(m['n'])*m['scale']
    if m['kind'] == 'spectral':
        from shenfun import Dx, TestFunction, TrialFunction, inner
        s1, s2 = m['s1'], m['s2']
        B1, B2 = spaces.build(s1), spaces.build(s2)
        v, u = TestFunction(B1), TrialFunction(B2)
        A = inner(Dx(v, 0, m['i']) if m['i'] else v, Dx(u, 0, m['j']) if m['j'] else u)
        if isinstance(A, list):      # no matrix at all if everything vanishes
            if len(A) != 1:
                return None, np.zeros((0, 0))
            A = A[0]
        return A, dense(A)
    r = spaces.rng(m['seed'])
    N, M = m['shape']
    d = {}
    D = np.zeros((N, M), dtype=complex if m['cplx'] else float)
    for k, t in m['keys']:
        if not -N < k < M:
            continue
        n = min(N, M-k) if k >= 0 else min(N+k, M)
        if t == 'int':
            val = int(r.randint(-4, 5))
        elif t == 'float':
            val = float(r.randint(-9, 10)/4)
        else:
            val = r.randint(-9, 10, size=n)/4
            if m['cplx']:
                val = val+1j*r.randint(-9, 10, size=n)/4
        d[k] = val
        D += np.diag(np.broadcast_to(val, n).astype(D.dtype), k)[:N, :M] if N == M else _rect(val, n, k, N, M, D.dtype)
    if not d:
        raise Inconclusive()
    return SparseMatrix(d, (N, M), scale=m['scale']), D*m['scale']


def _rect(val, n, k, N, M, dt):
    D = np.zeros((N, M), dtype=dt)
    i = np.arange(n)
    D[i-min(k, 0), i+max(k, 0)] = val
    return D


def same(A, D, what, *a):
    e = np.abs(dense(A)-D).max(initial=0)
    check(e <= 1e-11*max(1, np.abs(D).max(initial=0)), what+': differs from its dense model by %.2e', *a, e)


def run_sparse(c):
    from shenfun import SparseMatrix
    pool = []
    for m in c['mats']:
        if m['kind'] == 'spectral' and not (spaces.ok(m['s1']) and spaces.ok(m['s2'])):
            continue
        pool.append(make(m))
    pool = [p for p in pool if p[1].size and len(p[0]) > 0]
    if not pool:
        raise Inconclusive()
    r = spaces.rng(c['seed'])
    for step, (op, i, j, a) in enumerate(c['ops']):
        A, DA = pool[i % len(pool)]
        others = [q for q in pool if q[1].shape == DA.shape]
        B, DB = others[j % len(others)]
        kb = next(k for k, q in enumerate(pool) if q[0] is A)
        if A.__class__.__name__ == 'Identity' and op in ('iadd', 'isub', 'clean', 'set'):
            op = 'add'
        new = None
        if op == 'add':
            new = (A+B, DA+DB)
        elif op == 'sub':
            new = (A-B, DA-DB)
        elif op == 'neg':
            new = (-A, -DA)
        elif op == 'mul':
            new = (A*a, DA*a)
        elif op == 'rmul':
            new = (a*A, a*DA)
        elif op == 'div' and a != 0:
            new = (A/a, DA/a)
        elif op == 'copy':
            new = (A.copy(), DA.copy())
        elif op == 'copy2':
            new = (copy.deepcopy(A), DA.copy())
        elif op == 'copy1':
            new = (copy.copy(A), DA.copy())
        elif op == 'imul':
            A *= a
            pool[kb] = (A, DA*a)
        elif op == 'iadd' and A is not B:
            A += B
            pool[kb] = (A, DA+DB)
        elif op == 'isub' and A is not B:
            A -= B
            pool[kb] = (A, DA-DB)
        elif op == 'matmul':
            o = [q for q in pool if q[1].shape[0] == DA.shape[1]]
            if o:
                B, DB = o[j % len(o)]
                C = (A*B).toarray()
                e = np.abs(C-DA@DB).max(initial=0)
                check(e <= 1e-11*max(1, np.abs(DA@DB).max(initial=0)), 'step %d: product of matrices is off by %.2e', step, e)
        elif op == 'diags':
            for f in ('dia', 'csr', 'csc', 'lil'):
                X = A.diags(f)
                check(X.format == f, 'diags(%r) has format %s', f, X.format)
                same(A, X.toarray(), 'step %d: diags(%r)', step, f)
                X = A.diags(f, scaled=False).toarray()*A.scale
                e = np.abs(X-DA).max(initial=0)
                check(e <= 1e-11*max(1, np.abs(DA).max(initial=0)), 'step %d: unscaled diags(%r) is off by %.2e', step, f, e)
        elif op == 'incorporate':
            A.incorporate_scale()
        elif op == 'clean':
            if DA.any() and DA.shape[0] == DA.shape[1]:
                A.clean_diagonals()
                for k in list(A.keys()):
                    check(np.abs(np.diagonal(DA, k)).max(initial=0) > 0, 'step %d: diagonal %d is zero but was kept', step, k)
        elif op == 'query':
            check(A.isdiagonal() in (True, False), 'isdiagonal')
            if A.isdiagonal():
                check(np.count_nonzero(DA-_rect(np.diagonal(DA), min(DA.shape), 0, *DA.shape, DA.dtype)) == 0,
                      'step %d: isdiagonal is true', step)
            if DA.shape[0] == DA.shape[1] and A.issymmetric:
                check(np.abs(DA-DA.T).max() < 1e-12*max(1, np.abs(DA).max()), 'step %d: issymmetric is true', step)
            if A.isidentity() and A.scale == 1:
                check(np.array_equal(DA, _rect(1, min(DA.shape), 0, *DA.shape, DA.dtype)), 'step %d: isidentity is true', step)
        elif op == 'set':
            k = list(A.keys())
            k = k[j % len(k)]
            if callable(A._storage[k]):
                continue
            A[k] = np.array(A[k])*2.0
            D = DA.copy()
            n = len(np.diagonal(DA, k))
            ii = np.arange(n)
            D[ii-min(k, 0), ii+max(k, 0)] *= 2
            pool[kb] = (A, D)
        elif op == 'matvec':
            apply(A, DA, c, r, 'step %d: ' % step, a)
        if new is not None:
            check(isinstance(new[0], SparseMatrix), 'step %d: %s gives %s', step, op, type(new[0]).__name__)
            check(new[0] is not A or op == 'copy1', 'step %d: %s returns the operand itself', step, op)
            if not (op == 'copy1'):      # a shallow copy shares the arrays, by definition
                pool.append(new)
            else:
                same(new[0], new[1], 'step %d: copy.copy', step)
            if len(pool) > 7:
                pool.pop(0)
        for q, (X, D) in enumerate(pool):
            same(X, D, 'step %d (%s): matrix %d', step, op, q)


def apply(A, D, c, r, what, a, formats=None, nd=None, axis=None):
    N, M = D.shape
    nd = int(r.randint(1, 5)) if nd is None else nd
    axis = int(r.randint(0, nd)) if axis is None else axis
    cplx = bool(r.randint(0, 2)) or np.iscomplexobj(D)
    sh = [int(k) for k in r.randint(1, 4, size=nd)]
    t = getattr(A, 'trialfunction', None)
    n1 = A.testfunction[0].N if t is not None else N+int(r.randint(0, 2))
    n2 = t[0].N if t is not None else M
    if t is not None and t[0].is_boundary_basis:
        return
    sh[axis] = n2
    v = r.standard_normal(sh)
    if cplx:
        v = v+1j*r.standard_normal(sh)
    sh[axis] = n1
    ex = np.zeros(sh, dtype=v.dtype)
    y = np.moveaxis(np.tensordot(D, np.take(v, np.arange(M), axis=axis), (1, axis)), 0, axis)
    ii = [slice(None)]*nd
    ii[axis] = slice(0, N)
    ex[tuple(ii)] = y
    sc = max(1, np.abs(D).max(initial=0))*max(1, np.abs(v).max())*M
    for f in formats or (FORMATS+[None]+list(A._matvec_methods)):
        v0 = v.copy()
        out = r.standard_normal(sh).astype(v.dtype)
        o = A.matvec(v0, out, format=f, axis=axis)
        check(np.array_equal(v, v0), what+'matvec(format=%r) changed its argument', f)
        check(o.shape == tuple(sh), what+'matvec(format=%r) returns shape %s', f, o.shape)
        for nm, z in (('result', o), ('output array', out)):
            e = np.abs(z-ex).max()
            check(e <= 1e-11*sc, what+'matvec(format=%r, axis=%d, ndim=%d, %s) of a %s x %s matrix: the %s is off by %.2e', f, axis, nd,
                  v.dtype.char, N, M, nm, e)
    if nd == 1 and n1 == n2:
        e = np.abs(A*v-ex).max()
        check(e <= 1e-11*sc, what+'A*v is off by %.2e', e)


OPS = ['add', 'sub', 'neg', 'mul', 'rmul', 'div', 'copy', 'copy1', 'copy2', 'imul', 'iadd', 'isub', 'matmul', 'diags', 'incorporate',
       'clean', 'query', 'set', 'matvec']


def gen_sparse():
    S = spaces.st()

    @S.composite
    def mat(draw, N, M):
        k = draw(S.integers(0, 9))
        scale = draw(S.sampled_from([1, 1, 1, 2, 0.5, -1, 0, 3.0]))
        if k == 0 and N == M:
            return dict(kind='identity', n=N, scale=scale)
        if k <= 2:
            s = draw(spaces.specs('C L U', only={'Orthogonal', 'ShenDirichlet', 'Phi1'}, domain=False, big=True, hi=4))
            return dict(kind='spectral', s1=s, s2=s, i=0, j=draw(S.integers(0, 2)))
        keys = draw(S.lists(S.tuples(S.sampled_from([0, 0, 1, -1, 2, -2, 3, -4]), S.sampled_from(['int', 'float', 'array', 'array'])),
                            min_size=1, max_size=4, unique_by=lambda t: t[0]))
        return dict(kind='sparse', shape=[N, M], keys=keys, cplx=draw(S.integers(0, 3)) == 0, scale=scale, seed=draw(S.integers(0, 10**6)))

    @S.composite
    def gen(draw):
        N = draw(S.integers(1, 7))
        M = N if draw(S.booleans()) else draw(S.integers(1, 7))
        mats = draw(S.lists(mat(N, M), min_size=1, max_size=3))
        ops = draw(S.lists(S.tuples(S.sampled_from(OPS), S.integers(0, 6), S.integers(0, 6), S.sampled_from([2, 0.5, -1.5, 3, 0, 1])),
                           min_size=1, max_size=12))
        return dict(mats=mats, ops=ops, seed=draw(S.integers(0, 10**6)))
    return gen()


# -- products with every spectral matrix -------------------------------------

def run_matvec(c):
    from shenfun import Dx, TestFunction, TrialFunction, inner
    s1, s2, i, j = c['s1'], c['s2'], c['i'], c['j']
    if not (spaces.ok(s1) and spaces.ok(s2)):
        raise Inconclusive()
    B1, B2 = spaces.build(s1), spaces.build(s2)
    v, u = TestFunction(B1), TrialFunction(B2)
    v, u = Dx(v, 0, i) if i else v, Dx(u, 0, j) if j else u
    if c['meas']:
        import sympy
        x = sympy.Symbol('x', real=True)
        u = eval(c['meas'], dict(x=x, exp=sympy.exp, cos=sympy.cos, sin=sympy.sin))*u
    A = inner(v, u)
    A = A[0] if isinstance(A, list) else A
    r = spaces.rng(c['seed'])
    if c['scale'] != 1:
        A.scale *= c['scale']
    D = dense(A)
    check(D.shape == A.shape, 'shape %s of the sparse matrix is not %s', D.shape, A.shape)
    for nd in (1, 2, 3, 4):
        for axis in range(nd):
            apply(A, D, c, r, '%s: ' % type(A).__name__, 1, nd=nd, axis=axis)


def gen_matvec():
    S = spaces.st()
    return p07.gen_known().flatmap(lambda c: S.fixed_dictionaries(dict(
        s1=S.just(c['s1']), s2=S.just(c['s2']), i=S.just(c['i']), j=S.just(c['j']), meas=S.just(c['meas']),
        scale=S.sampled_from([1, 1, 2.5, -1]), seed=S.integers(0, 10**6))))


# -- tensor product matrices ---------------------------------------------------

def _axis_dense(m, n1, n2):
    D = np.zeros((n1, n2), dtype=complex)
    d = m.diags('csr').toarray()
    D[:d.shape[0], :d.shape[1]] = d
    return D


class Model:
    """The operator scale * (mats[0] x mats[1] x ...) on coefficient arrays, captured from a fresh TPMatrix."""

    def __init__(self, mats, scale):
        self.mats, self.scale = mats, scale

    @classmethod
    def of(cls, A):
        sh = A.space.forward.output_array.shape
        return cls([_axis_dense(m, n, n) for m, n in zip(A.mats, sh)], np.array(A.scale))

    def __call__(self, x):
        y = x
        for ax, D in enumerate(self.mats):
            y = np.moveaxis(np.tensordot(D, y, (1, ax)), 0, ax)
        return self.scale*y

    def size(self):
        return np.prod([max(1e-30, np.abs(D).sum(axis=1).max()) for D in self.mats])*np.abs(self.scale).max(initial=0)


def form(v, u, k, l):
    """v and u differentiated k[i] and l[i] times in direction i."""
    from shenfun import Dx
    for i, (a, b) in enumerate(zip(k, l)):
        v = Dx(v, i, a) if a else v
        u = Dx(u, i, b) if b else u
    return v, u


def match(z, M, x, what, *a):
    ex = M(x)
    e = np.abs(z-ex).max()
    check(e <= 1e-11*max(1, M.size()*np.abs(x).max()), what+': off by %.2e', *a, e)


def run_tp(c):
    from shenfun import TestFunction, TrialFunction, inner
    t = c['t']
    if not tp.ok(t):
        raise Inconclusive()
    T = tp.build(t)
    v, u = TestFunction(T), TrialFunction(T)
    pool = []
    for f in c['forms']:
        vv, uu = form(v, u, f['k'], f['l'])
        A = inner(vv, f['a']*uu)
        pool += [(a, Model.of(a)) for a in (A if isinstance(A, list) else [A])]
    if not pool:
        raise Inconclusive()
    from shenfun.matrixbase import TPMatrix, get_simplified_tpmatrices
    r = spaces.rng(c['seed'])
    sh = T.forward.output_array.shape
    dt = T.forward.output_array.dtype
    x = r.standard_normal(sh)+(1j*r.standard_normal(sh) if dt.kind == 'c' else 0)
    fmt = FORMATS+[None]
    for step, (op, i, j, a) in enumerate(c['ops']):
        k = i % len(pool)
        A, M = pool[k]
        same_ = [q for q in pool if q[0]._issimplified == A._issimplified and q[0] == A]
        B, MB = same_[j % len(same_)]
        new = None
        if op == 'mul':
            new = (A*a, Model(M.mats, M.scale*a))
        elif op == 'rmul':
            new = (a*A, Model(M.mats, M.scale*a))
        elif op == 'div' and a:
            new = (A/a, Model(M.mats, M.scale/a))
        elif op == 'neg':
            new = (-A, Model(M.mats, -M.scale))
        elif op == 'copy':
            new = (A.copy(), M)
        elif op == 'copy2':
            new = (copy.copy(A), M)
        elif op in ('add', 'sub') and equal(M, MB):
            new = (A+B, Model(M.mats, M.scale+MB.scale)) if op == 'add' else (A-B, Model(M.mats, M.scale-MB.scale))
        elif op in ('iadd', 'isub') and equal(M, MB):
            if op == 'iadd':
                A += B
                pool[k] = (A, Model(M.mats, M.scale+MB.scale))
            else:
                A -= B
                pool[k] = (A, Model(M.mats, M.scale-MB.scale))
        elif op == 'imul':
            A *= a
            pool[k] = (A, Model(M.mats, M.scale*a))
        elif op == 'simplified':
            new = (A.get_simplified(), M)
            if new[0] is A:
                new = None
        elif op == 'simplify':
            A.simplify_diagonal_matrices()
        elif op == 'collect':
            S = get_simplified_tpmatrices([q[0] for q in pool])
            z = sum(s.matvec(x, np.zeros(sh, dtype=dt)) for s in S)
            ex = sum(q[1](x) for q in pool)
            sc = sum(q[1].size() for q in pool)*np.abs(x).max()
            e = np.abs(z-ex).max()
            check(e <= 1e-11*max(1, sc), 'step %d: the sum of get_simplified_tpmatrices is off by %.2e', step, e)
        elif op == 'mulv':
            match(A*x, M, x, 'step %d: A*x', step)
        elif op == 'diags' and not A._issimplified and np.size(A.scale) == 1:
            D = A.diags('csr').toarray()
            ex = np.ones((1, 1))
            for m, X in zip(A.mats, M.mats):
                ex = np.kron(ex, X[:m.shape[0], :m.shape[1]])
            ex = ex*np.asarray(M.scale).item()
            check(D.shape == ex.shape, 'step %d: diags() has shape %s, not %s', step, D.shape, ex.shape)
            check(np.abs(D-ex).max(initial=0) <= 1e-11*max(1, np.abs(ex).max(initial=0)), 'step %d: diags() is not the Kronecker product', step)
        elif op == 'query':
            if A.isidentity() and np.size(A.scale) == 1:
                match(np.asarray(A.scale).item()*x, M, x, 'step %d: isidentity() is true', step)
            if A.isdiagonal():
                for X in M.mats:
                    check(np.count_nonzero(X-np.diag(np.diagonal(X))) == 0, 'step %d: isdiagonal() is true', step)
        if new is not None:
            check(isinstance(new[0], TPMatrix), 'step %d: %s gives %s', step, op, type(new[0]).__name__)
            pool.append(new)
            if len(pool) > 8:
                pool.pop(0)
        f = fmt[j % len(fmt)]
        for q, (X, Z) in enumerate(pool):
            y = np.zeros(sh, dtype=dt)
            x0 = x.copy()
            match(X.matvec(x0, y, format=f), Z, x, 'step %d (%s): product of matrix %d', step, op, q)
            check(np.array_equal(x0, x), 'step %d: matvec changed its argument', step)


def equal(M, N):
    return all(np.array_equal(a, b) for a, b in zip(M.mats, N.mats))


TPOPS = ['mul', 'rmul', 'div', 'neg', 'copy', 'copy2', 'add', 'add', 'sub', 'iadd', 'isub', 'imul', 'simplified', 'simplify', 'collect', 'mulv',
         'diags', 'query']


def _deriv(S, t):
    return S.tuples(*[S.integers(0, 1 if s['fam'] in 'LaH' else 2) for s in t['b']])


def _tp_specs(**kw):
    kw.setdefault('maxpoly', 3)
    return tp.specs(fams='C L U F', only=ONLY, hi=4, **kw)


ONLY = {'Orthogonal', 'ShenDirichlet', 'ShenNeumann', 'ShenBiharmonic', 'Phi1', 'Phi2', 'CompactDirichlet', 'CompactNeumann', 'Heinrichs'}


def gen_tp():
    S = spaces.st()

    @S.composite
    def gen(draw):
        t = draw(_tp_specs())
        forms = draw(S.lists(S.fixed_dictionaries(dict(k=_deriv(S, t), l=_deriv(S, t), a=S.sampled_from([1, 2, -0.5, 3.0]))), min_size=1, max_size=3))
        ops = draw(S.lists(S.tuples(S.sampled_from(TPOPS), S.integers(0, 7), S.integers(0, 7), S.sampled_from([2, 0.5, -1.5, 3, 1])),
                           min_size=1, max_size=10))
        return dict(t=t, forms=forms, ops=ops, seed=draw(S.integers(0, 10**6)))
    return gen()


# -- block matrices ------------------------------------------------------------

def run_block(c):
    from shenfun import CompositeSpace, Function, MixedFunctionSpace, TestFunction, TrialFunction, VectorSpace, inner
    from shenfun.matrixbase import BlockMatrix
    t, n = c['t'], c['n']
    if not tp.ok(t):
        raise Inconclusive()
    one = len(t['b']) == 1
    T = spaces.build(tp.norm(t)['b'][0]) if one else tp.build(t)
    V = MixedFunctionSpace([T]*n) if one else CompositeSpace([T]*n) if not c['vector'] else VectorSpace(T)
    n = V.num_components()
    v, u = TestFunction(V), TrialFunction(V)
    v, u = [v[i] for i in range(n)], [u[i] for i in range(n)]
    groups = []
    for g in c['groups']:
        G = []
        for f in g:
            vv, uu = form(v[f['i'] % n], u[f['j'] % n], f['k'], f['l'])
            A = inner(vv, f['a']*uu)
            G += A if isinstance(A, list) else [A]
        if G:
            groups.append(G)
    if not groups:
        raise Inconclusive()

    def model(G):
        M = []
        for A in G:
            if one:
                N = T.N
                M.append((A.global_index, Model([_axis_dense(A, N, N)], np.array(1.0))))
            else:
                M.append((A.global_index, Model.of(A)))
        return M
    models = [model(G) for G in groups]
    r = spaces.rng(c['seed'])
    x = Function(V)
    x[:] = r.standard_normal(x.shape)+(1j*r.standard_normal(x.shape) if x.dtype.kind == 'c' else 0)
    for i in range(n):      # values of boundary dofs play no role
        for ax, s in enumerate(tp.norm(t)['b']):
            if s['fam'] != 'F' and defs.nbc(s):
                sl = [i]+[slice(None)]*len(t['b'])
                sl[1+ax] = slice(s['N']-defs.nbc(s), None)
                x[tuple(sl)] = 0
    pool = [(BlockMatrix(G), M) for G, M in zip(groups, models)]

    def verify(what):
        for q, (B, M) in enumerate(pool):
            ex = np.zeros(x.shape, dtype=complex)
            sc = 1
            for (i, j), m in M:
                ex[i] += m(np.asarray(x[j]))
                sc = max(sc, m.size()*np.abs(x).max()*len(M))
            for us in (False, True):
                for f in c['fmt']:
                    y = Function(V)
                    y[:] = r.standard_normal()
                    z = B.matvec(x.copy(), y, format=f, use_scipy=us)
                    for nm, w in (('result', z), ('output array', y)):
                        e = np.abs(np.asarray(w)-ex).max()
                        check(e <= 1e-11*sc, '%s: matvec(use_scipy=%s, format=%s) of block matrix %d: the %s is off by %.2e', what, us, f, q, nm, e)
    verify('new')
    for step, (op, i, j) in enumerate(c['ops']):
        k = i % len(pool)
        (A, MA), (B, MB) = pool[k], pool[j % len(pool)]
        if op == 'add':
            pool.append((A+B, MA+MB))
        elif op == 'iadd' and A is not B:
            A += B
            pool[k] = (A, MA+MB)
        elif op == 'ilist':
            g = j % len(groups)
            G = groups[g]
            A += G
            pool[k] = (A, MA+models[g])
        if len(pool) > 4:
            pool.pop(0)
        check(isinstance(A, BlockMatrix), 'step %d: %s gives %s', step, op, type(A).__name__)
        verify('step %d (%s)' % (step, op))
    for G, M in zip(groups, models):
        for A, (_, m) in zip(G, M):
            if not one:
                xx = np.asarray(x[0])
                match(A.matvec(xx, np.zeros_like(xx)), m, xx, 'the tensor product matrices given to BlockMatrix changed')


def gen_block():
    S = spaces.st()

    @S.composite
    def gen(draw):
        if draw(S.integers(0, 3)) == 0:
            s = draw(spaces.specs('C L U', only=ONLY, hi=5, big=True))
            t = dict(b=[s], axes=[0])
        else:
            t = draw(_tp_specs())
        n = draw(S.integers(1, 3))
        F = S.fixed_dictionaries(dict(i=S.integers(0, 2), j=S.integers(0, 2), k=_deriv(S, t), l=_deriv(S, t), a=S.sampled_from([1, 2, -0.5, 3.0])))
        return dict(t=t, n=max(n, 2), vector=draw(S.booleans()), groups=draw(S.lists(S.lists(F, min_size=1, max_size=4), min_size=1, max_size=2)),
                    ops=draw(S.lists(S.tuples(S.sampled_from(['add', 'iadd', 'ilist']), S.integers(0, 3), S.integers(0, 3)), max_size=4)),
                    fmt=draw(S.sampled_from([[None], ['csr'], ['csc', 'csr']])), seed=draw(S.integers(0, 10**6)))
    return gen()


SUBS = [
    Sub('sparse', gen_sparse, run_sparse, 1500, 30000, 'at least three operations', lambda c: len(c['ops']) > 2,
        lambda c: sorted({o[0] for o in c['ops']}), (4, 8), (80, 1500)),
    Sub('matvec', gen_matvec, run_matvec, 400, 6000, 'every case', None, lambda c: [spaces.label(c['s1'])+'/'+spaces.label(c['s2'])], (4, 8), (80, 1500)),
    Sub('tp', gen_tp, run_tp, 600, 12000, 'at least three operations', lambda c: len(c['ops']) > 2,
        lambda c: sorted({o[0] for o in c['ops']})+tp.labels(c['t']), (4, 8), (80, 1500)),
    Sub('block', gen_block, run_block, 500, 8000, 'at least two forms', lambda c: sum(len(g) for g in c['groups']) > 1,
        lambda c: sorted({o[0] for o in c['ops']})+['%dD' % len(c['t']['b'])], (4, 8), (80, 1500)),
]
ASSUMPTIONS = ['a shallow copy of a matrix may share its diagonals']
