"""C01  Data trees behave as insertion-ordered attribute maps under every operation history."""
import copy, pickle
import numpy as np

LEVEL = 'model_checking'
BOUNDS = ('Data, Container, DataOrdered, ContainerOrdered; keys {a,b,c}; values int, float, array, None, nested trees of depth <=3; '
          'BFS over every canonical state reachable by every operation (set/del by attribute and item, append, update, dotted '
          'set, deep copy, shallow copy, pickle) up to the depth bound, plus every raw history (no state merging) of a smaller alphabet')
ASSUMPTIONS = ['keys that are names of methods of the class are outside the domain',
               'item deletion (del d[k]) is only part of the interface of Data, not of DataOrdered']
MIN = {'states': 500, 'evals': 10000}
KEYS = ['a', 'b', 'c']
FULL = False
NEST = ['x', 'y']


# ---------------------------------------------------------------- model: nested [(key, value)] lists
class T:
    """reference tree: python list of [key, value]"""
    def __init__(self, items=()):
        self.it = [[k, v] for k, v in items]

    def has(self, k):
        return any(kk == k for kk, _ in self.it)

    def get(self, k):
        for kk, v in self.it:
            if kk == k:
                return v
        raise KeyError(k)

    def set(self, k, v):
        for e in self.it:
            if e[0] == k:
                e[1] = v
                return
        self.it.append([k, v])

    def rem(self, k):
        n = [e for e in self.it if e[0] != k]
        if len(n) == len(self.it):
            raise KeyError(k)
        self.it = n

    def update(self, other):
        for k, v in other.it:
            if k.startswith('_'):
                continue
            if self.has(k) and isinstance(self.get(k), T) and isinstance(v, T):
                self.get(k).update(v)
            else:
                self.set(k, v.clone() if isinstance(v, T) else v)

    def clone(self):
        return T([(k, v.clone() if isinstance(v, T) else v) for k, v in self.it])

    def txt(self):
        return '{' + ','.join('%s:%s' % (k, v.txt() if isinstance(v, T) else repr(v)) for k, v in self.it) + '}'


VALS = {
    'i': 1, 'f': 2.5, 'n': None, 'arr': ('arr', 3),
    'T1': T([('x', 1)]), 'T2': T([('y', 2), ('x', 5)]), 'T3': T([('x', T([('y', 7)]))]),
    'T0': T([]),
}


def real(v, cls):
    if isinstance(v, T):
        d = cls()
        for k, w in v.it:
            d[k] = real(w, cls)
        return d
    if isinstance(v, tuple) and v[0] == 'arr':
        return np.arange(float(v[1]))
    return v


def same(r, m, cls, path='', errs=None):
    """compare a real tree with the model tree through every access path"""
    if isinstance(m, T):
        keys = [k for k, _ in m.it]
        if not isinstance(r, dict):
            return '%s: expected a nested tree, found %r' % (path, type(r))
        if list(r.keys()) != keys:
            return '%s: keys() %r, expected %r' % (path, list(r.keys()), keys)
        if len(r) != len(keys):
            return '%s: len %d, expected %d' % (path, len(r), len(keys))
        vals, its, itr = list(r.values()), list(r.items()), list(iter(r))
        if [k for k, _ in its] != keys:
            return '%s: items() order %r' % (path, [k for k, _ in its])
        if len(vals) != len(keys) or len(itr) != len(keys):
            return '%s: values()/iteration length' % path
        for i, (k, v) in enumerate(m.it):
            ga, gi = getattr(r, k), r[k]
            if ga is not gi or vals[i] is not gi or its[i][1] is not gi or itr[i] is not gi or r.get(k) is not gi:
                return '%s.%s: attribute, item, get, values, items and iteration disagree' % (path, k)
            if k not in r:
                return '%s.%s: stored entry, but "in" says it is not there' % (path, k)
            e = same(gi, v, cls, path + '.' + k)
            if e:
                return e
        return None
    if isinstance(m, tuple):
        return None if isinstance(r, np.ndarray) and np.array_equal(r, np.arange(float(m[1]))) else '%s: %r not %r' % (path, r, m)
    return None if type(r) is type(m) and r == m else '%s: %r, expected %r' % (path, r, m)


def absent(r, m, keys, ordered):
    for k in keys:
        if m.has(k):
            continue
        if hasattr(r, k):
            return 'attribute %s exists although the key is absent' % k
        try:
            r[k]
            return 'item %s exists although the key is absent' % k
        except (KeyError, AttributeError):
            pass
        if (k in r) or (ordered and r.has_key(k)):
            return 'membership of absent key %s' % k
        if r.get(k, 'dflt') != 'dflt':
            return 'get of absent key %s' % k
    return None


def ops_for(kind, small=False):
    ordered = 'Ordered' in kind
    ops = []
    vs = ['i', 'T1'] if small else (['i', 'n', 'arr', 'T2', 'T3'] if FULL is False else ['i', 'f', 'n', 'arr', 'T0', 'T1', 'T2', 'T3'])
    ks = ['a', 'b'] if small else KEYS
    for k in ks:
        for j, v in enumerate(vs):
            if small and v == 'T1' and k == 'b':
                continue
            ops.append(('setattr' if j % 2 == 0 else 'setitem', k, v))
        ops.append(('delattr', k))
        if not ordered and not small:
            ops.append(('delitem', k))
    ups = [[('a', 'i'), ('b', 'T1')], [('a', 'T2')], [('c', 'T3'), ('a', 'f')], [('b', 'T3'), ('_h', 'i')], [('a', 'T0'), ('c', 'n')]]
    for u in (ups[:2] if small else ups):
        ops.append(('update', u))
    if not small:
        ops += [('append', 'B'), ('append', 'c'), ('append', 'A b'), ('appendkey', 'c', 'q')]
        ops += [('deep_set', 'a.x', 'i'), ('deep_set', 'a.x.y', 'f'), ('deep_set', 'b.y', 'T1'), ('deep_set', 'c', 'f')]
    else:
        ops += [('append', 'B'), ('deep_set', 'a.x', 'f')]
    ops += [('copy', 'deepcopy'), ('copy', 'pickle')] + ([] if small else [('copy', 'copy')])
    return ops


NORM = {'B': 'b', 'c': 'c', 'A b': 'a_b'}


def apply(ctx, kind, cls, r, m, op, key):
    """apply op to the real object and to the model; returns (real, model) or None when the operation is not in the domain"""
    from SUAVE.Core import Data, DataOrdered
    name = op[0]
    ordered = 'Ordered' in kind
    # nested trees are of the same family
    ncls = cls
    if name in ('setattr', 'setitem'):
        v = VALS[op[2]]
        if name == 'setattr':
            setattr(r, op[1], real(v, ncls))
        else:
            r[op[1]] = real(v, ncls)
        m.set(op[1], v.clone() if isinstance(v, T) else v)
    elif name in ('delattr', 'delitem'):
        try:
            m.rem(op[1])
            gone = True
        except KeyError:
            gone = False
        try:
            if name == 'delattr':
                delattr(r, op[1])
            else:
                del r[op[1]]
            ok = True
        except (KeyError, AttributeError):
            ok = False
        ctx.check(ok == gone, key, '%s %s: %s although the key was %s' %
                  (name, op[1], 'succeeded' if ok else 'refused', 'present' if gone else 'absent'), stop=True)
    elif name == 'update':
        u = T([(k, VALS[v].clone() if isinstance(VALS[v], T) else VALS[v]) for k, v in op[1]])
        src = dict((k, real(VALS[v], ncls)) for k, v in op[1])
        r.update(src)
        m.update(u)
    elif name in ('append', 'appendkey'):
        if name == 'append':
            child = DataOrdered() if ordered else Data()
            child.tag = op[1]
            k = NORM[op[1]]
            call = lambda: r.append(child)
            cm = T([('tag', op[1])])
        else:
            if 'Container' in kind:
                return None                                        # containers take no explicit key
            child = DataOrdered() if ordered else Data()
            child.tag = op[2]
            k = op[1]
            call = lambda: r.append(child, key=op[1])
            cm = T([('tag', op[2])])
        dup = m.has(k)
        if dup and kind == 'Container':
            return None                                            # renamed instead: property C02
        try:
            call()
            ok = True
        except KeyError:
            ok = False
        ctx.check(ok == (not dup), key, 'append with %s key %s %s' % ('an existing' if dup else 'a new', k, 'was accepted' if ok else 'was refused'), stop=True)
        if not dup:
            m.set(k, cm)
            ctx.check(r[k] is child, key, 'append stored another object', stop=True)
    elif name == 'deep_set':
        path = op[1].split('.')
        t = m
        for p in path[:-1]:
            if not isinstance(t, T) or not t.has(p):
                return None
            t = t.get(p)
        if not isinstance(t, T):
            return None
        v = VALS[op[2]]
        t.set(path[-1], v.clone() if isinstance(v, T) else v)
        r.deep_set(op[1] if len(op[1]) % 2 else path, real(v, ncls))
        got = r.deep_get(op[1])
        e = same(got, t.get(path[-1]), cls)
        ctx.check(e is None, key, 'deep_get(%s) after deep_set: %s' % (op[1], e), stop=True)
    elif name == 'copy':
        f = {'deepcopy': copy.deepcopy, 'copy': copy.copy, 'pickle': lambda o: pickle.loads(pickle.dumps(o))}[op[1]]
        old, r = r, f(r)
        ctx.check(type(r) is type(old), key, 'copy changed the type', stop=True)
        e = same(r, m, cls, 'copy')
        ctx.check(e is None, key, '%s: %s' % (op[1], e), stop=True)
        # wreck the original: a copy must not notice
        if op[1] != 'copy':
            wreck(old)
        for k in list(old.keys()):
            delattr(old, k)
        old['zz'] = 1
    return r, m


def wreck(o):
    for v in list(o.values()):
        if isinstance(v, dict):
            wreck(v)
            v['zz'] = 9
        elif isinstance(v, np.ndarray):
            v += 100.


def classes():
    from SUAVE.Core import Data, DataOrdered, Container, ContainerOrdered
    return dict(Data=Data, DataOrdered=DataOrdered, Container=Container, ContainerOrdered=ContainerOrdered)


def scenarios(tier):
    out = []
    global FULL
    q = tier != 'thorough'
    FULL = not q
    for kind in ('Data', 'DataOrdered', 'Container', 'ContainerOrdered'):
        n = len(ops_for(kind))
        for i in range(n):
            out.append(dict(mode='bfs', kind=kind, first=i, depth=(4 if kind in ('Data', 'DataOrdered') else 3) if q else 5))
        ns = len(ops_for(kind, True))
        for i in range(ns):
            out.append(dict(mode='raw', kind=kind, first=i, depth=(4 if kind in ('Data', 'DataOrdered') else 3) if q else 5))
        out.append(dict(mode='paths', kind=kind))
    return out


def run_path(ctx, kind, cls, path, key):
    r, m = cls(), T()
    for op in path:
        o = apply(ctx, kind, cls, r, m, op, key)
        if o is None:
            return None
        r, m = o
    return r, m


def verdict(ctx, kind, cls, r, m, path, key):
    e = same(r, m, cls) or absent(r, m, KEYS + ['x', 'y', 'a_b', 'zz', 'q'], 'Ordered' in kind)
    if e is None and 'Ordered' in kind:
        for i, (k, _) in enumerate(m.it):
            if r[i] is not r[k]:
                e = 'integer index %d is not entry %s' % (i, k)
    if e is None:
        lines = [l.split(' : ')[0] for l in str(r).splitlines()[1:] if l and not l.startswith(' ')]
        want = [k for k, _ in m.it if not k.startswith('_')]
        if lines != want:
            e = 'printed keys %r, expected %r' % (lines, want)
    ctx.check(e is None, key, '%s after %s: %s' % (kind, path, e), stop=True)


def run(ctx, sc):
    global FULL
    FULL = ctx.tier == 'thorough'
    kind = sc['kind']
    cls = classes()[kind]
    if sc['mode'] == 'paths':
        return paths(ctx, kind, cls)
    ops = ops_for(kind, sc['mode'] == 'raw')
    lastkey = '%s:%s' % (kind, ops[sc['first']][0])
    frontier = [[ops[sc['first']]]]
    last = None
    local = set()
    for depth in range(1, sc['depth'] + 1):
        nxt = []
        for path in frontier:
            key = '%s:%s' % (kind, path[-1][0])
            ctx.step()
            o = run_path(ctx, kind, cls, path, key)
            if o is None:
                continue
            r, m = o
            verdict(ctx, kind, cls, r, m, path, key)
            st = kind + m.txt()
            ctx.state(st)
            ctx.ev(st)
            ctx.trace()
            last = dict(kind=kind, history=[str(o) for o in path], final=m.txt())
            if sc['mode'] == 'bfs':
                if m.txt() in local:
                    continue
                local.add(m.txt())
            if depth < sc['depth']:
                nxt += [path + [op] for op in ops]
        frontier = nxt
    if last:
        ctx.sample(last)


def paths(ctx, kind, cls):
    """constructor keywords / dict input / nested construction keep order and content; every class default is a fresh object"""
    from itertools import permutations
    for perm in permutations(KEYS):
        for vs in (('i', 'f', 'T1'), ('T2', 'n', 'arr')):
            m = T([(k, VALS[v].clone() if isinstance(VALS[v], T) else VALS[v]) for k, v in zip(perm, vs)])
            src = dict((k, real(v, cls)) for k, v in m.it)
            for how in ('kw', 'dict'):
                r = cls(**src) if how == 'kw' else cls(src)
                ctx.step()
                ctx.trace()
                e = same(r, m, cls)
                ctx.check(e is None, '%s:construct' % kind, '%s from %s: %s' % (kind, how, e))
                # a second instance is independent of the first
                s = cls()
                ctx.check(len(s) == 0 and list(s.keys()) == [], '%s:fresh' % kind, 'a new %s is not empty' % kind)
                ctx.ev('%s%s%s' % (kind, how, m.txt()))
