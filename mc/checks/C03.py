"""C03  Packing a data tree into a vector and unpacking a vector into it are exact inverses."""
import itertools, copy
import numpy as np

LEVEL = 'model_checking'
BOUNDS = ('every tree of up to N leaves (4 quick, 5 thorough) drawn from 10 leaf kinds (int, float, 1-D length 1/3, 2-D 1x1/3x1/3x2/2x3, string, None, 3-D) '
          'under 6 nesting shapes of Data / DataOrdered / State.unknowns; vector and array packing; sequences pack-unpack-pack-unpack with two vectors')
ASSUMPTIONS = ['array packing: all numeric entries are arrays with the same number of rows (the solver use of it)']
MIN = {'states': 500, 'evals': 5000}
LEAVES = ['i', 'f', 'v1', 'v3', 'm11', 'm31', 'm32', 'm23', 's', 'n', 't3']
NUM = ['i', 'f', 'v1', 'v3', 'm11', 'm31', 'm32', 'm23']


def leaf(kind, base):
    g = lambda n: base + np.arange(n) * 0.5 + 0.25
    return {'i': lambda: int(base), 'f': lambda: float(base) + .125, 'v1': lambda: g(1), 'v3': lambda: g(3), 'm11': lambda: g(1).reshape(1, 1),
            'm31': lambda: g(3).reshape(3, 1), 'm32': lambda: g(6).reshape(3, 2), 'm23': lambda: g(6).reshape(2, 3),
            's': lambda: 'text%d' % base, 'n': lambda: None, 't3': lambda: g(8).reshape(2, 2, 2)}[kind]()


SHAPES = ['flat', 'first', 'last', 'middle', 'deep', 'two']


def build(kinds, shape, cls, base=1):
    root, cls = cls
    d = root()
    n = len(kinds)
    items = [('k%d' % i, leaf(k, base + 10 * i)) for i, k in enumerate(kinds)]
    if shape == 'flat':
        for k, v in items:
            d[k] = v
    elif shape == 'first':
        d['sub'] = cls()
        for k, v in items[:n // 2]:
            d['sub'][k] = v
        for k, v in items[n // 2:]:
            d[k] = v
    elif shape == 'last':
        for k, v in items[:n // 2]:
            d[k] = v
        d['sub'] = cls()
        for k, v in items[n // 2:]:
            d['sub'][k] = v
    elif shape == 'middle':
        for k, v in items[:1]:
            d[k] = v
        d['sub'] = cls()
        for k, v in items[1:-1]:
            d['sub'][k] = v
        for k, v in items[1:][-1:]:
            d[k] = v
    elif shape == 'deep':
        e = d
        for k, v in items:
            e[k] = v
            e['z'] = cls()
            e = e['z']
    elif shape == 'two':
        d['p'] = cls()
        d['q'] = cls()
        for i, (k, v) in enumerate(items):
            d['pq'[i % 2]][k] = v
    return d


def walk(d):
    out = []
    for k in d.keys():
        v = d[k]
        if isinstance(v, dict):
            out += walk(v)
        else:
            out.append((k, v))
    return out


def expect_vector(d):
    out = []
    for k, v in walk(d):
        if isinstance(v, bool) or v is None or isinstance(v, str):
            continue
        if isinstance(v, (int, float)):
            out.append(np.array([float(v)]))
        elif isinstance(v, np.ndarray) and v.ndim <= 2:
            out.append(np.asarray(v, float).ravel(order='F'))
    return np.concatenate(out) if out else np.array([])


def expect_array(d):
    cols = []
    for k, v in walk(d):
        if isinstance(v, np.ndarray) and v.ndim in (1, 2):
            cols.append(v.reshape(v.shape[0], -1))
    return np.hstack(cols) if cols else np.array([[]])


def snapshot(d):
    return [(k, copy.deepcopy(v)) for k, v in walk(d)]


def eqleaf(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return a == b


def scenarios(tier):
    N = 4 if tier != 'thorough' else 5
    out = []
    for cls in ('Data', 'DataOrdered', 'Container', 'Unknowns'):
        for shape in SHAPES:
            for n in range(1, N + 1):
                if cls != 'Data' and n == N or cls == 'Container' and n == N - 1:
                    continue
                if n >= 3:
                    for first in LEAVES:
                        out.append(dict(cls=cls, shape=shape, n=n, first=first))
                else:
                    out.append(dict(cls=cls, shape=shape, n=n, first=None))
    for n1 in (2, 3, 4, 7):
        for n2 in (1, 3, 8):
            out.append(dict(cls='expand', n1=n1, n2=n2))
    return out


def expand(ctx, n1, n2):
    from SUAVE.Analyses.Mission.Segments.Conditions import State, Conditions, Unknowns, Residuals, Numerics, Aerodynamics
    # every order of expansions over a state with nested condition trees
    for depth in (1, 2):
        for cols in itertools.product((1, 2, 3), repeat=3):
            st = State()
            rows = [np.arange(1., c + 1)[None, :] * (i + 1) for i, c in enumerate(cols)]
            st.conditions.a = rows[0].copy()
            st.conditions.sub = Conditions()
            st.conditions.sub.b = rows[1].copy()
            st.conditions.sub.text = 'x'
            st.conditions.sub.vec = np.arange(5.)
            st.unknowns.u = rows[2].copy()
            st.unknowns.m1 = st.unknowns.ones_row_m1(1) * 4.5
            st.unknowns.m2 = 2.5 * st.unknowns.ones_row_m2(1)
            st.initials.q = np.ones((1, 2))
            nn = [n1] if depth == 1 else [n1, n2]
            st.expand_rows(n1)
            ctx.step()
            exp = lambda n: [np.tile(r, (n, 1)) for r in rows]
            e = exp(n1)
            got = [st.conditions.a, st.conditions.sub.b, st.unknowns.u]
            for g, w_, nm in zip(got, e, 'abu'):
                ctx.check(g.shape == w_.shape and np.array_equal(g, w_), 'expand', 'expanding 1 row to %d rows: entry %s has shape %s, %r' % (n1, nm, g.shape, g), stop=True)
            ctx.check(st.unknowns.m1.shape == (n1 - 1, 1) and np.all(st.unknowns.m1 == 4.5), 'expand:m1', 'rows-minus-one entry: %r' % (st.unknowns.m1,), stop=True)
            ctx.check(st.unknowns.m2.shape == (max(n1 - 2, 0), 1) and np.all(st.unknowns.m2 == 2.5) if n1 > 1 else True, 'expand:m2', 'rows-minus-two entry: %r' % (st.unknowns.m2,), stop=True)
            ctx.check(st.initials.q.shape == (1, 2) and st.conditions.sub.text == 'x' and st.conditions.sub.vec.shape == (5,), 'expand:other', 'expansion changed an entry that has no rows', stop=True)
            ctx.check(st.ones_row(3).shape == (n1, 3) and st.conditions.ones_row(2).shape == (n1, 2) and np.all(st.conditions.sub.ones_row(1) == 1)
                      and st.conditions.sub.ones_row(1).shape == (n1, 1), 'expand:ones', 'ones_row after expanding to %d' % n1, stop=True)
            st.conditions.sub.b[0, 0] = -1.
            ctx.check(n1 == 1 or st.conditions.sub.b[1, 0] == rows[1][0, 0], 'expand:alias', 'rows share memory', stop=True)
            st.conditions.sub.b[0, 0] = rows[1][0, 0]
            if depth == 2:
                ser = st.conditions.sub
                ser.b = ser.b + np.arange(n1)[:, None]
                keep = ser.b.copy()
                st.conditions.expand_rows(n2)
                ctx.step()
                if n1 > 1:
                    ctx.check(np.array_equal(ser.b, keep), 'expand:twice', 'a second expansion without override changed expanded data', stop=True)
                ser.b = np.tile(rows[1], (ser.b.shape[0], 1))
                st.conditions.expand_rows(n2, override=True)
                ctx.step()
                w2 = exp(n2)
                ctx.check(np.array_equal(st.conditions.a, w2[0]) and np.array_equal(ser.b, w2[1]), 'expand:override', 'override expansion to %d rows' % n2, stop=True)
            ctx.state(('expand', n1, n2, depth, cols))
            ctx.ev(('expand', n1, n2, depth, cols))
            ctx.trace()


def getcls(name):
    import SUAVE
    from SUAVE.Core import Data, DataOrdered, Container
    if name == 'Unknowns':
        from SUAVE.Analyses.Mission.Segments.Conditions.Conditions import Conditions
        return Conditions, Conditions
    return {'Data': (Data, Data), 'DataOrdered': (Data, DataOrdered), 'Container': (Container, Data)}[name]


def run(ctx, sc):
    if sc['cls'] == 'expand':
        return expand(ctx, sc['n1'], sc['n2'])
    cls = getcls(sc['cls'])
    pool = LEAVES if sc['n'] <= 3 else LEAVES[1:]
    for kinds in itertools.product(LEAVES if sc['first'] is None else pool, repeat=sc['n'] - (0 if sc['first'] is None else 1)):
        if sc['first'] is not None:
            kinds = (sc['first'],) + kinds
        one(ctx, sc, cls, kinds)
    ctx.sample(dict(cls=sc['cls'], shape=sc['shape'], leaves=list(kinds)))


def one(ctx, sc, cls, kinds):
    shape = sc['shape']
    key = '%s:%s' % (sc['cls'], shape)
    d = build(kinds, shape, cls)
    want = expect_vector(d)
    before = snapshot(d)
    got = d.pack_array('vector')
    ctx.step()
    st = (sc['cls'], shape, kinds)
    ctx.state(st)
    ctx.ev(st)
    w = '%s %s' % (shape, kinds)
    ok = isinstance(got, np.ndarray) and got.shape == want.shape and np.array_equal(got, want)
    ctx.check(ok, key + ':pack', 'packing %s gave %r, expected the values in insertion order (columns first) %r' % (w, got, want), stop=True)
    ctx.check(all(k1 == k2 and eqleaf(a, b) for (k1, a), (k2, b) in zip(before, walk(d))), key + ':packmut', 'packing changed the tree', stop=True)
    # two different vectors in sequence, then the original back
    vecs = [1000. + np.arange(len(want)), -want * 2 - 7.5, want.copy()]
    for M in vecs:
        M0 = M.copy()
        r = d.unpack_array(M)
        ctx.step()
        ctx.check(r is d, key + ':ret', 'unpack_array does not return the tree')
        ctx.check(np.array_equal(M, M0), key + ':src', 'unpack_array changed its argument', stop=True)
        M[:] = np.nan                                              # the tree must not alias the vector
        back = d.pack_array()
        ctx.step()
        ctx.check(back.shape == M0.shape and np.array_equal(back, M0), key + ':inverse', '%s: unpack then pack gave %r, expected %r' % (w, back, M0), stop=True)
        # structure, shapes and non-numeric entries untouched
        for (k1, a), (k2, b) in zip(before, walk(d)):
            if isinstance(a, np.ndarray) and a.ndim <= 2:
                good = isinstance(b, np.ndarray) and b.shape == a.shape
            elif isinstance(a, (int, float)) and not isinstance(a, bool):
                good = np.ndim(b) == 0
            else:
                good = eqleaf(a, b)
            ctx.check(k1 == k2 and good, key + ':structure', '%s: entry %s became %r' % (w, k1, b), stop=True)
    ctx.check(all(eqleaf(np.asarray(a, float) if isinstance(a, (int, float)) else a, np.asarray(b, float) if isinstance(a, (int, float)) else b)
                  for (_, a), (_, b) in zip(before, walk(d))), key + ':restore', '%s: unpacking the original vector does not restore the tree' % w)
    ctx.trace()
    # array packing for homogeneous row counts
    for rows in (3, 2):
        ks = {3: ('v3', 'm31', 'm32', 's', 'n'), 2: ('m23', 's', 'n')}[rows]
        if not all(k in ks for k in kinds) or not any(k in NUM for k in kinds):
            continue
        d = build(kinds, shape, cls)
        want = expect_array(d)
        got = d.pack_array('array')
        ctx.step()
        ctx.check(got.shape == want.shape and np.array_equal(got, want), key + ':packarray', '%s: array packing gave %r expected %r' % (w, got, want), stop=True)
        M = 5. - want * 3
        M0 = M.copy()
        d.unpack_array(M)
        M[:] = np.nan
        ctx.check(np.array_equal(d.pack_array('array'), M0), key + ':inversearray', '%s: array unpack then pack' % w, stop=True)
        ctx.check(np.array_equal(d.pack_array('vector'), expect_vector(d)), key + ':vec', '%s: vector after array unpack' % w)
        ctx.note('array_mode')
