"""C06  Archiving a data tree to a file and loading it back: values, kinds, order, independence, failing saves."""
import itertools, math, os
import numpy as np

LEVEL = 'model_checking'
BOUNDS = ('trees: every ordered pair of 42 leaf kinds in every pair of positions of a three-level tree, 4 container classes, all orders of 4 unusual keys; '
          'histories: all sequences up to length 4 (quick) / 5 (thorough) of {archive tree i, archive an unstorable tree, load, edit the loaded tree} over 2 files')
ASSUMPTIONS = ['the file system stores what is written to it', 'entry names are strings']
MIN = {'evals': 10000, 'states': 5000}


def leaves():
    return [('int', 3), ('big', 10**20), ('negzero', -0.0), ('float', 1.1), ('tiny', 1e-300), ('nan', float('nan')), ('inf', float('inf')), ('ninf', float('-inf')),
            ('str', 'text'), ('empty', ''), ('uni', 'é\n"\\q\'\u2028'), ('numstr', '12'), ('true', True), ('false', False), ('none', None),
            ('np64', np.float64(2.5)), ('np32', np.float32(0.5)), ('npi', np.int64(7)), ('npi32', np.int32(-7)), ('npu', np.uint8(9)), ('npb', np.bool_(True)),
            ('a1', np.array([1.5, -2.0, 3.0])), ('a2', np.array([[1.0, 2.0], [3.0, 4.0]])), ('a3', np.arange(8.0).reshape(2, 2, 2)), ('col', np.array([[1.0], [2.0], [3.0]])),
            ('ai', np.array([1, 2, 3])), ('ab', np.array([True, False])), ('as', np.array(['x', 'yy'])), ('anan', np.array([np.nan, np.inf, 1.0])), ('a0', np.array([])),
            ('adig', np.array([math.pi, 1 / 3, 2.0 / 3 * 1e-7])), ('scal', np.array(4.5)), ('view', np.arange(12.0).reshape(3, 4)[::-1, ::2]), ('fort', np.asfortranarray(np.arange(6.0).reshape(2, 3))),
            ('l1', [1, 2, 3]), ('l2', [[1.0, 2.0], [3.0, 4.0]]), ('ls', ['p', 'q']), ('la', [np.array([1.0, 2.0]), np.array([3.0, 4.0])]), ('t', (1, 2)), ('lnp', [np.float64(1.0), np.int64(2)]),
            ('func', len), ('lam', lambda x: x)]


CLS = ['Data', 'DataOrdered', 'Container', 'dict']
KEYS = ['Alpha beta', 'tag', 'é', '1st', 'x.y', '_u']


def mk(cls, items):
    import SUAVE.Core as C
    if cls == 'dict':
        return dict(items)
    d = getattr(C, cls)()
    for k, v in items:
        d[k] = v
    return d


def expect(v):
    """what the loaded file must contain for v"""
    if isinstance(v, dict):
        return {k: expect(v[k]) for k in v.keys()}
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return v if v.ndim else v.item()
    if isinstance(v, (list, tuple)):
        return np.array(v)
    if callable(v):
        return None
    return v


def same(got, want, path='top'):
    if isinstance(want, dict):
        if not isinstance(got, dict):
            return '%s: expected a nested tree, got %r' % (path, got)
        if list(got.keys()) != list(want.keys()):
            return '%s: keys %r expected %r' % (path, list(got.keys()), list(want.keys()))
        for k in want:
            e = same(got[k], want[k], path + '.' + k)
            if e:
                return e
        return None
    if isinstance(want, np.ndarray):
        if not isinstance(got, np.ndarray):
            return '%s: expected an array, got %r' % (path, got)
        if want.size == 0:
            return None if got.size == 0 else '%s: expected an empty array' % path
        if got.shape != want.shape or got.dtype.kind != want.dtype.kind:
            return '%s: array %r expected %r' % (path, got, want)
        ok = (got == want) | ((got != got) & (want != want))
        return None if np.all(ok) else '%s: array %r expected %r' % (path, got, want)
    if isinstance(want, float) and want != want:
        return None if isinstance(got, float) and got != got else '%s: %r expected nan' % (path, got)
    if type(got) is not type(want) or got != want or (isinstance(want, float) and math.copysign(1, got) != math.copysign(1, want)):
        return '%s: %r (%s) expected %r (%s)' % (path, got, type(got).__name__, want, type(want).__name__)
    return None


def snap(v):
    if isinstance(v, dict):
        return tuple((k, snap(v[k])) for k in v.keys())
    if isinstance(v, np.ndarray):
        return (v.dtype.str, v.shape, repr(v.tolist()))
    return (type(v).__name__, repr(v))


def scenarios(tier):
    q = tier != 'thorough'
    n = len(leaves())
    out = [dict(k='pair', i=i, cls=c) for i in range(n) for c in CLS]
    out += [dict(k='keys', cls=c) for c in CLS]
    for f in range(10):
        out.append(dict(k='hist', first=f, depth=4 if q else 5))
    return out


def cost(sc):
    return 10 if sc['k'] == 'hist' else 1


def run(ctx, sc):
    from SUAVE.Input_Output.SUAVE import archive, load
    f = os.path.join(ctx.scratch(), 'f.res')
    if sc['k'] == 'pair':
        L = leaves()
        a = L[sc['i']]
        for b in L:
            for shape in range(4):
                inner = mk(sc['cls'], [('r', b[1]), ('z', mk(sc['cls'], [('b', a[1]), ('a', 1)]))])
                if shape == 0:
                    t = mk('Data', [('zz', a[1]), ('b', b[1])])
                elif shape == 1:
                    t = mk('Data', [('q', inner), ('a', a[1])])
                elif shape == 2:
                    t = mk('DataOrdered', [('y', a[1]), ('x', mk(sc['cls'], [])), ('w', inner)])
                else:
                    t = mk('Container', [('m', mk(sc['cls'], [('n', mk(sc['cls'], [('o', mk(sc['cls'], [('p', a[1])]))])), ('k', b[1])]))])
                before = snap(t)
                archive(t, f)
                ctx.check(snap(t) == before, 'archive-changes-data', 'archiving changed the data %s/%s' % (a[0], b[0]))
                r = load(f)
                e = same(r, expect(t))
                ctx.check(e is None, 'roundtrip:%s' % (a[0] if e and 'shape' else ''), '%s, %s in shape %d (%s): %s' % (a[0], b[0], shape, sc['cls'], e))
                ctx.state((a[0], b[0], shape, sc['cls']))
                if shape == 1:
                    archive(r, f)
                    r2 = load(f)
                    e = same(r2, expect(t))
                    ctx.check(e is None, 'second-roundtrip', '%s, %s: %s' % (a[0], b[0], e))
                ctx.step(2)
                ctx.trace()
    elif sc['k'] == 'keys':
        for ks in itertools.permutations(KEYS, 4):
            t = mk('Data', [(k, i) for i, k in enumerate(ks)] + [('sub', mk(sc['cls'], [(k, 0.5 * i) for i, k in enumerate(ks[::-1])]))])
            archive(t, f)
            e = same(load(f), expect(t))
            ctx.check(e is None, 'keys', '%r: %s' % (ks, e))
            ctx.state((ks, sc['cls']))
            ctx.step(2)
            ctx.trace()
    else:
        L = dict(leaves())
        trees = [mk('Data', [('a', 1), ('b', np.arange(40.0)), ('c', mk('Data', [('s', 'long text ' * 30)]))]), mk('DataOrdered', [('c', 'x')]),
                 mk('Data', [('arr', np.array([[1.0, 2.0]])), ('sub', mk('Data', [('v', np.array([5.0])), ('w', 2)]))])]
        bad = mk('Data', [('ok', 1), ('bad', np.array([1 + 2j]))])
        files = [os.path.join(ctx.scratch(), 'h%d.res' % i) for i in (0, 1)]
        ops = [('arch', t, j) for t in range(3) for j in (0, 1)] + [('bad', 0, 0), ('load', 0, 0), ('load', 0, 1), ('edit', 0, 0)]
        firsts = [ops[sc['first']]]
        for d in range(1, sc['depth'] + 1):
            for rest in itertools.product(ops, repeat=d - 1):
                seq = firsts + list(rest)
                if seq[-1][0] not in ('load', 'bad'):
                    continue                                       # prefixes are judged by their own loads
                for p in files:
                    if os.path.exists(p):
                        os.remove(p)
                cont, last = [None, None], None
                for op, t, j in seq:
                    ctx.step()
                    if op == 'arch':
                        archive(trees[t], files[j])
                        cont[j] = expect(trees[t])
                    elif op == 'bad':
                        try:
                            archive(bad, files[j])
                            ctx.fail('unstorable-accepted', 'a complex array was archived silently: %r' % open(files[j]).read()[:200])
                        except (TypeError, ValueError):
                            ctx.ev()
                        have = None
                        if os.path.exists(files[j]):
                            try:
                                have = load(files[j])
                            except ValueError:
                                have = 'unreadable'
                        if cont[j] is not None:
                            e = 'unreadable' if isinstance(have, str) or have is None else same(have, cont[j])
                            ctx.check(e is None, 'failed-save-destroys', 'after the failing archive in %r the earlier file is lost: %s' % (seq, e))
                    elif op == 'load':
                        if cont[j] is None:
                            continue
                        last = load(files[j])
                        e = same(last, cont[j])
                        ctx.check(e is None, 'history', 'history %r: %s' % (seq, e))
                    elif op == 'edit' and last is not None:
                        for k in list(last.keys()):
                            if isinstance(last[k], np.ndarray):
                                last[k] *= 0
                        last['extra'] = 1
                ctx.state(('h', tuple(seq)))
                ctx.trace()
