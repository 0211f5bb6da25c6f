"""P01 transforms invert each other on every function space."""
import numpy as np

from vlib import defs, one, spaces, tp
from vlib.core import Inconclusive, Sub, check

TECH = 'property-based testing (Hypothesis): round trips and operation histories against reference transforms'
NOTE = ('Random spaces of all families and boundary conditions, padded and not, 1-D to 4-D, with histories of repeated '
        'transforms; the oracle is the exact round trip and the independent series. Tolerances scale with the computed '
        'conditioning; bounded sizes.')
KINDS = {'C': ['fast', 'recursive', 'vandermonde'], 'U': ['fast', 'recursive', 'vandermonde'],
         'L': ['fast', 'recursive', 'vandermonde'], 'Q': ['recursive', 'vandermonde'],
         'J': ['recursive', 'vandermonde'], 'La': ['vandermonde'], 'H': ['vandermonde'], 'F': ['fast']}
PFS = [1, 1, 1, 1.5, 2, 1.25]


def small(e, tol, what):
    check(np.all(np.isfinite(e)), "%s: not finite", what)
    m = np.max(np.abs(e), initial=0)
    check(m <= tol, "%s: error %.2e (allowed %.1e)", what, m, tol)


def valid_1d(s):
    """Combinations for which coefficients and mesh values determine each other."""
    if not spaces.ok(s):
        return False
    d = s['N']-defs.nbc(s)
    if d < 1:
        return False
    return True


def fix(c):
    s = c['s']
    c['kind'] = c['kind'] if c['kind'] in KINDS[s['fam']] else None
    if s['fam'] == 'L' and s['quad'] == 'GL' and c['kind'] == 'fast':
        c['kind'] = None            # only documented for Gauss points
    if int(s['N']*c['pf']) <= s['N']:
        c['pf'] = 1
    if s['fam'] in ('La', 'H') or s['N'] < 4:
        c['pf'] = 1
    if s['fam'] == 'F':
        c['cplx'] = s['dtype'] == 'D'
    return c


def run_oned(c):
    s = c['s']
    if not valid_1d(s):
        raise Inconclusive()
    kap = one.cond(s)
    if kap > 1e8:
        raise Inconclusive()
    kw = {} if s['fam'] == 'F' else dict(dtype='D' if c['cplx'] else 'd')
    if c['pf'] != 1 and not c['deal']:
        kw['padding_factor'] = c['pf']
    B = spaces.build(s, **kw)
    if c['pf'] != 1 and c['deal']:
        B = B.get_dealiased(c['pf'])
    k = {'kind': c['kind']} if c['kind'] else {}
    X = B.mesh(map_true_domain=False)
    a = one.amp(s, X)
    tol = 1e-13*(10+s['N'])*a
    for rep in range(2):
        u = one.random_coef(s, c['seed']+rep, c['cplx'])
        u0 = u.copy()
        if c['out']:
            ub = np.zeros(B.backward.output_array.shape, dtype=B.backward.output_array.dtype)
            r = B.backward(u, ub, **k)
            check(r is ub, "backward does not return the given output array")
        else:
            ub = B.backward(u, **k).copy()
        check(np.array_equal(u, u0), "backward changed its input array")
        R = one.backward(s, u, X, sym=c['pf'] != 1)
        small(ub-R, tol, 'backward')
        ub0 = ub.copy()
        if c['out']:
            uf = np.zeros(B.forward.output_array.shape, dtype=B.forward.output_array.dtype)
            r = B.forward(ub, uf, **k)
            check(r is uf, "forward does not return the given output array")
        else:
            uf = B.forward(ub, **k).copy()
        check(np.array_equal(ub, ub0), "forward changed its input array")
        d = u.shape[0]-defs.nbc(s)
        small(uf[:d]-u[:d], tol*kap, 'forward(backward(u)) - u')
        if defs.nbc(s) and defs.bc_list(s):
            small(uf[d:]-np.array(defs.bc_values(s)), 1e-10*(1+max(map(abs, defs.bc_values(s)))),
                  'boundary dofs after forward')
        ub2 = B.backward(uf, **k).copy()
        small(ub2-ub, tol*kap, 'backward(forward(f)) - f')


def gen_oned():
    S = spaces.st()
    return S.fixed_dictionaries(dict(s=spaces.specs('C L U Q J La H F', generic=True, values=True, hi=14, big=True),
                                     seed=S.integers(0, 10**6), cplx=S.booleans(), out=S.booleans(),
                                     pf=S.sampled_from(PFS), deal=S.booleans(),
                                     kind=S.sampled_from([None, 'fast', 'recursive', 'vandermonde']))).map(fix)


def run_tensor(c):
    from shenfun import Array, Function
    t = c['t']
    if not tp.ok(t):
        raise Inconclusive()
    kap = np.prod([one.cond(s) for s in t['b']])
    if kap > 1e6:
        raise Inconclusive()
    T = tp.build(t)
    n = tp.norm(t)
    u = tp.random_coef(t, c['seed'])
    Fu = Function(T)
    check(Fu.shape == tp.shape(t), "Function has shape %s instead of %s", Fu.shape, tp.shape(t))
    Fu[:] = u
    Td = T
    if c['pf'] != 1 and all(s['fam'] in 'FCLUQJ' and int(c['pf']*s['N']) > s['N'] for s in t['b']):
        Td = T.get_dealiased((c['pf'],)*len(t['b']))
    xs = [np.asarray(b.mesh(bcast=False, map_true_domain=True)) for b in Td.bases]
    R = tp.evaluate(n, u, xs, sym=Td is not T)
    a = np.prod([one.amp(s, b.mesh(bcast=False, map_true_domain=False)) for s, b in zip(n['b'], Td.bases)])
    tol = 1e-13*20*a
    for rep in range(2):
        if Td is T and c['how'] == 0:
            ua = Fu.backward()
        elif Td is not T and c['how'] == 0:
            ua = Fu.backward(padding_factor=(c['pf'],)*len(t['b']))
        elif c['how'] == 1:
            ua = Array(Td)
            ua = Td.backward(Fu, ua)
        else:
            ua = Td.backward(np.array(Fu)).copy()
        check(np.array_equal(Fu, u), "backward changed its input")
        small(np.asarray(ua)-R, tol, 'backward of a %d-D space' % len(xs))
        keep = np.array(ua)
        if c['how'] == 0:
            uf = Td.forward(ua, Function(Td)) if Td is not T else ua.forward()
        elif c['how'] == 1:
            uf = Td.forward(ua, Function(Td))
        else:
            uf = Td.forward(np.array(ua)).copy()
        check(np.array_equal(ua, keep), "forward changed its input")
        sl = tuple(slice(0, m-(defs.nbc(s) if s['fam'] != 'F' else 0)) for m, s in zip(u.shape, t['b']))
        small((np.asarray(uf)-u)[sl], tol*kap, 'forward(backward(u)) - u')


def gen_tensor():
    S = spaces.st()
    return S.fixed_dictionaries(dict(t=tp.specs('F F C L U Q J La H', ndims=(2, 2, 3, 3, 4), maxpoly=2, hi=4),
                                     seed=S.integers(0, 10**6), pf=S.sampled_from([1, 1, 1.5, 2]),
                                     how=S.integers(0, 2)))


def run_history(c):
    """Interleaved calls on a few spaces, each result must be that of a fresh computation."""
    from shenfun import Array, CompositeSpace, Function, VectorSpace
    t = c['t']
    if not tp.ok(t) or np.prod([one.cond(s) for s in t['b']]) > 1e6:
        raise Inconclusive()
    n = tp.norm(t)
    T = tp.build(t)
    spc = [T, tp.build(t)]
    if c['vec'] == 1:
        spc.append(VectorSpace(T))
    elif c['vec'] == 2:
        spc.append(CompositeSpace([T, T, tp.build(t)]))
    if c['share']:
        pad = T.get_dealiased(2 if all(s['N'] > 3 for s in t['b']) else 1)
        spc.append(pad)
        if c['share'] > 1:      # mostly the padded one
            spc = [pad, spc[0], pad, pad]
    a = np.prod([one.amp(s, b.mesh(bcast=False, map_true_domain=False)) for s, b in zip(n['b'], T.bases)])
    tol = 1e-12*20*a
    kap = np.prod([one.cond(s) for s in t['b']])
    kept = []
    sl = tuple(slice(0, m-(defs.nbc(s) if s['fam'] != 'F' else 0)) for m, s in zip(tp.shape(t), t['b']))
    for j, (which, op, seed) in enumerate(c['ops']):
        V = spc[which % len(spc)]
        comp = V.num_components() if hasattr(V, 'num_components') and V.is_composite_space else 0
        cs = [tp.random_coef(t, seed+i) for i in range(max(1, comp))]
        P = V if not comp else V.flatten()[0]
        xs = [np.asarray(b.mesh(bcast=False)) for b in P.bases]
        rs = [tp.evaluate(n, q, xs, sym=P.bases[0].is_padded) for q in cs]
        C, R = (np.array(cs), np.array(rs)) if comp else (cs[0], rs[0])
        if op >= 6:       # other data through the work arrays, without an expected value
            V.forward(spaces.rng(seed).uniform(-1, 1, R.shape).astype(R.dtype), Function(V))
            continue
        if op % 3 == 0:
            out = V.backward(C.copy(), Array(V)) if comp else V.backward(C.copy())
            ref_, err = R, tol
        elif op % 3 == 1:
            out = V.forward(R.copy(), Function(V)) if comp else V.forward(R.copy())
            ref_, err = C, tol*kap
        else:
            f = Function(V)
            f[:] = C
            out = f.backward().forward()
            ref_, err = C, tol*kap
        o = np.array(out)
        e = o-ref_
        if op % 3:
            e = e[((slice(None),)+sl) if comp else sl]
        small(e, err, 'step %d (%s)' % (j, ['backward', 'forward', 'both'][op % 3]))
        if op >= 3 and op % 3 == 2:      # a Function: keep it, nothing later may change it
            kept.append((out, o))
    for f, o in kept:
        check(np.array_equal(f, o), "a result was changed by later transforms")


def gen_history():
    S = spaces.st()
    return S.fixed_dictionaries(dict(t=tp.specs('F F C L U Q', ndims=(2, 2, 3), maxpoly=1, hi=3), vec=S.integers(0, 2),
                                     share=S.sampled_from([0, 1, 2, 2]),
                                     ops=S.lists(S.tuples(S.integers(0, 3), S.integers(0, 7), S.integers(0, 10**6)).map(list),
                                                 min_size=2, max_size=8)))


def lab(c):
    return [spaces.label(c['s']), 'padded' if c['pf'] != 1 else 'unpadded', 'kind=%s' % c['kind']]


SUBS = [
    Sub('oned', gen_oned, run_oned, 700, 12000, 'more than one coefficient', lambda c: c['s']['N']-defs.nbc(c['s']) > 1, lab, (5, 8), (80, 1500)),
    Sub('tensor', gen_tensor, run_tensor, 300, 5000, 'at least two bases', None, lambda c: tp.labels(c['t']), (4, 8), (80, 1500)),
    Sub('history', gen_history, run_history, 200, 2000, 'at least two operations', None, lambda c: tp.labels(c['t']), (2, 8), (80, 1500)),
]
ASSUMPTIONS = ['the quadrature meshes are right (decided by P04)',
               'tolerances scale with the condition number of the exact mass matrix']
