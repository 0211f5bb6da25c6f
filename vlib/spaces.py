"""JSON specs <-> shenfun function spaces; generators of valid specs."""
import numpy as np


def st():
    from . import boot
    boot.find_hypothesis()
    import hypothesis.strategies as s
    return s


# named bases: number of boundary conditions
NAMED = {
    'C': {'Orthogonal': 0, 'ShenDirichlet': 2, 'Phi1': 2, 'Heinrichs': 2, 'ShenNeumann': 2,
          'CombinedShenNeumann': 2, 'MikNeumann': 2, 'ShenBiharmonic': 4, 'PolarDirichlet': 2,
          'Phi2': 4, 'Phi3': 6, 'Phi4': 8, 'Phi6': 12, 'UpperDirichlet': 1, 'LowerDirichlet': 1,
          'ShenBiPolar': 4, 'DirichletNeumann': 2, 'NeumannDirichlet': 2,
          'UpperDirichletNeumann': 2, 'LowerDirichletNeumann': 2, 'Compact3': 6, 'Compact4': 8},
    'L': {'Orthogonal': 0, 'ShenDirichlet': 2, 'Phi1': 2, 'ShenNeumann': 2, 'ShenBiharmonic': 4,
          'Phi2': 4, 'Phi3': 6, 'Phi4': 8, 'Phi6': 12, 'BeamFixedFree': 4, 'UpperDirichlet': 1,
          'ShenBiPolar': 4, 'DirichletNeumann': 2, 'LowerDirichlet': 1, 'NeumannDirichlet': 2,
          'UpperDirichletNeumann': 2, 'Compact3': 6},
    'U': {'Orthogonal': 0, 'Phi1': 2, 'Phi2': 4, 'Phi3': 6, 'Phi4': 8, 'Phi6': 12,
          'CompactDirichlet': 2, 'CompactNeumann': 2, 'UpperDirichlet': 1, 'LowerDirichlet': 1,
          'CompactBiharmonic': 4, 'Compact3': 6},
    'Q': {'Orthogonal': 0, 'Phi1': 2, 'Phi2': 4, 'Phi3': 6, 'Phi4': 8, 'Phi6': 12,
          'CompactDirichlet': 2, 'CompactNeumann': 2, 'UpperDirichlet': 1, 'LowerDirichlet': 1,
          'CompactBiharmonic': 4},
    'J': {'Orthogonal': 0, 'Phi1': 2, 'Phi2': 4, 'Phi3': 6, 'Phi4': 8, 'CompactDirichlet': 2,
          'CompactNeumann': 2, 'UpperDirichlet': 1, 'LowerDirichlet': 1},
    'La': {'Orthogonal': 0, 'CompactDirichlet': 1, 'CompactNeumann': 1},
    'H': {'Orthogonal': 0},
    'F': {'Orthogonal': 0},
}
QUADS = {'C': ['GC', 'GL'], 'L': ['LG', 'GL'], 'U': ['GU', 'GC'], 'Q': ['QG'], 'J': ['JG'],
         'La': ['LG'], 'H': ['HG'], 'F': [None]}
SLOW = {('C', 'Phi4'), ('C', 'Phi6'), ('U', 'Phi6'), ('Q', 'Phi6'), ('Q', 'Phi4'), ('J', 'Phi3'), ('J', 'Phi4'),
        ('L', 'Phi6')}
SCALED = {('L', 'ShenDirichlet'), ('C', 'Heinrichs'), ('U', 'Phi1'), ('U', 'Phi2'), ('U', 'CompactDirichlet')}
SYM = {'C': 0, 'L': 0, 'U': 0}


def build(s, **kw):
    """Build the FunctionSpace described by spec s."""
    from shenfun import FunctionSpace
    a = dict(family=s['fam'], dtype=s.get('dtype', 'd'))
    if s['fam'] in 'JQ':
        from . import defs
        for k in ('alpha', 'beta'):
            if s.get(k) is not None:
                v = s[k]
                a[k] = v if isinstance(v, int) else defs.num(v)
    if s.get('quad'):
        a['quad'] = s['quad']
    if s.get('bcd') is not None:
        a['bc'] = {side: {k: (tuple(v) if isinstance(v, list) else v) for k, v in d.items()}
                   for side, d in s['bcd'].items()}
    elif s.get('bcv') is not None:
        v = tuple(s['bcv'])
        if s['fam'] != 'La' and len(v) == 1:
            v = (None, v[0]) if s['basis'] == 'UpperDirichlet' else (v[0], None)
        a['bc'] = v
    if s.get('basis'):
        a['basis'] = s['basis']
    if s.get('dom') is not None:
        a['domain'] = tuple(s['dom'])
    if s.get('pf', 1) != 1:
        a['padding_factor'] = s['pf']
    if s.get('dd'):
        a['dealias_direct'] = True
    if s.get('scaled') is not None:
        a['scaled'] = s['scaled']
    a.update(kw)
    return FunctionSpace(s['N'], **a)


def rng(seed):
    return np.random.RandomState(seed % (2**32))


def doms(S):
    """Finite intervals: mostly not the reference one."""
    a = S.integers(-24, 16).map(lambda i: i/4)
    ln = S.sampled_from([0.25, 0.5, 1, 1.5, 2, 3, 5, 10])
    return S.one_of(S.none(), S.tuples(a, ln).map(lambda t: [t[0], t[0]+t[1]]))


def fdoms(S):
    a = S.integers(-8, 8).map(lambda i: i/4)
    ln = S.sampled_from([1, 2, 3, 6.283185307179586, 12.566370614359172])
    return S.one_of(S.none(), S.none(), S.tuples(a, ln).map(lambda t: [t[0], t[0]+t[1]]))


def vals(S):
    """Small simple numbers, so that failures shrink to readable ones."""
    return S.integers(-12, 12).map(lambda i: i/4)


ALPHAS = [0, 1, 2, 0.5, -0.5, 1.5, 0.25, -0.25]


def specs(fams='CLUQJ', lo=0, hi=14, slow=False, values=False, generic=False, named=True, domain=True,
          dtype=None, quad=True, exclude=(), maxbc=8, orth_ok=True, robin=True, alphas=None, nmin=None,
          only=None, big=False):
    """Strategy of specs; N = nbc + (lo..hi) + 1.
    big: at least as many basis functions as boundary conditions plus one."""
    S = st()
    fl = []
    for f in (fams if isinstance(fams, list) else fams.split() if ' ' in fams else list(fams)):
        fl.append(f)

    pairs = []
    for f in fl:
        nb = sorted(b for b, k in NAMED[f].items()
                    if k <= maxbc and (slow or (f, b) not in SLOW) and b not in exclude
                    and (orth_ok or k or f == 'F') and (only is None or b in only)) if named else []
        pairs += [(f, b) for b in nb]
        if f not in ('H', 'La', 'F') and (generic or not named):
            pairs += [(f, None)]*max(1, len(nb)//2)
        if f in ('F', 'H'):     # a single basis: keep them present
            pairs += [(f, nb[0])]*3 if nb else []

    @S.composite
    def gen(draw):
        fam, chosen = draw(S.sampled_from(pairs))
        s = dict(fam=fam)
        if fam == 'F':
            s['N'] = draw(S.integers(max(2, lo), hi+4))
            if nmin:
                s['N'] = max(s['N'], nmin)
            s['dtype'] = dtype or draw(S.sampled_from(['d', 'D']))
            if domain:
                d = draw(fdoms(S))
                if d:
                    s['dom'] = d
            return s
        if fam == 'Q':
            s['alpha'] = draw(S.sampled_from(alphas or ALPHAS))
        if fam == 'J':
            s['alpha'] = draw(S.sampled_from(alphas or ALPHAS))
            s['beta'] = draw(S.sampled_from(alphas or ALPHAS))
        if chosen is None:
            s['bcd'] = draw(bc_dicts(S, maxbc=3 if fam in 'JQ' else 4, robin=robin, values=values))
            n = sum(len(v) for v in s['bcd'].values())
            if fam in 'QJ' and n > 1:           # sympy is very slow with such gamma functions
                for k in ('alpha', 'beta'):
                    if k in s:
                        s[k] = int(abs(s[k])) if n > 2 or fam == 'J' else round(2*s[k])/2
        else:
            s['basis'] = chosen
            n = NAMED[fam][s['basis']]
            if s['basis'] in ('Phi2', 'Phi3', 'Phi4', 'Phi6') and fam in 'QJ':
                for k in ('alpha', 'beta'):      # sympy is very slow with inexact numbers
                    if k in s:
                        s[k] = int(abs(s[k]))
            if (fam, s['basis']) in SCALED:
                s['scaled'] = draw(S.booleans())
            if values and n and draw(S.booleans()):
                s['bcv'] = [draw(vals(S)) for _ in range(n)]
        s['N'] = n+1+draw(S.integers(lo, hi))
        if big:
            s['N'] += n
        if nmin:
            s['N'] = max(s['N'], nmin)
        if s.get('basis') == 'ShenBiPolar' or s.get('basis') in ('MikNeumann', 'CombinedShenNeumann',
                                                                'PolarDirichlet', 'Heinrichs'):
            s['N'] = max(s['N'], n+3)
        if s.get('basis') == 'Phi6':
            s['N'] = max(s['N'], 26)
        if quad and fam in QUADS:
            q = draw(S.sampled_from(QUADS[fam]))
            # a Gauss-Lobatto/other rule needs at least two points
            s['quad'] = q
            if q == 'GL' or (fam == 'U' and q == 'GC'):
                s['N'] = max(s['N'], 3)
        if domain and fam not in ('La', 'H'):
            d = draw(doms(S))
            if d:
                s['dom'] = d
        if dtype:
            s['dtype'] = dtype
        return s
    return gen()


def bc_dicts(S, maxbc=4, robin=True, values=True, orders=('D', 'N', 'N2', 'N3', 'N4')):
    """Combinations of boundary conditions without repeats; solvability is judged by defs.well_posed."""
    @S.composite
    def gen(draw):
        n = draw(S.integers(1, maxbc))
        bc = {'left': {}, 'right': {}}
        v = vals(S) if values else S.just(0)
        keys = ['D', 'N', 'D', 'N', 'N2', 'N3'] + (['N4'] if n >= 2 else [])
        if robin and n <= 2:
            keys += ['R', 'W']
        for _ in range(n):
            side = draw(S.sampled_from(['left', 'right']))
            k = draw(S.sampled_from(keys))
            if k in bc[side] or ('R' in bc[side]) or ('W' in bc[side]) or (k in 'RW' and bc[side]):
                continue
            if k in 'RW':
                bc[side][k] = [draw(S.sampled_from([0.5, -0.5, 1, 0.25, 2])), draw(v)]
            else:
                bc[side][k] = draw(v)
        if not bc['left'] and not bc['right']:
            bc['left']['D'] = draw(v)
        return {k: q for k, q in bc.items() if q}
    return gen()


def ok(s):
    """Specs that describe a usable space (judged on the reference definition)."""
    from . import defs
    if s['fam'] in ('F', 'H'):
        return True
    try:
        return defs.well_posed(s)
    except Exception:       # no basis or lifting exists: not a valid space
        return False


def nb(s):
    from . import defs
    return defs.nbc(s)


def label(s):
    return '%s-%s' % (s['fam'], s.get('basis') or ('generic' if s.get('bcd') else 'Orthogonal'))
