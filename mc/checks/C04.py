"""C04  Configurations: base edits flow into every configuration except where it deviates, and never the other way round."""
import copy
import numpy as np

LEVEL = 'model_checking'
BOUNDS = ('every history up to length 3-4 (quick) or 4-5 (thorough) of: base edits (scalar, nested, array entry in place, new entry), edits of either of two '
          'configurations (same kinds), store_diff, pull_base, container finalize/pull_base/store_diff; on plain diffed data and on vehicles with a wing; '
          'breadth-first with merging of equal (base, configs, diffs) states plus unmerged histories of a smaller alphabet')
ASSUMPTIONS = ['a configuration does not delete entries of its base (the diff has no representation for that)']
MIN = {'states': 300, 'evals': 5000}

MISSING = object()


class World:
    """the real objects"""
    def __init__(self, kind):
        import SUAVE
        from SUAVE.Core import Data, Diffed_Data
        self.kind = kind
        if kind == 'data':
            b = Data()
            b.tag = 'base'
            b.p = 1
            b.n = Data()
            b.n.q = 2
            b.n.arr = np.array([1., 2.])
            b.n.d = Data(r=3)
            self.C = Diffed_Data
            self.base = b
            self.paths = dict(p='p', q='n.q', arr='n.arr', r='n.d.r', new='n.new', tree='n.extra')
        else:
            b = SUAVE.Vehicle()
            b.tag = 'base'
            w = SUAVE.Components.Wings.Main_Wing()
            w.tag = 'main wing'
            w.arr = np.array([1., 2.])
            w.spans.projected = 2
            w.aspect_ratio = 3
            b.append_component(w)
            b.passengers = 1
            self.C = SUAVE.Components.Configs.Config
            self.base = b
            self.paths = dict(p='passengers', q='wings.main_wing.spans.projected', arr='wings.main_wing.arr', r='wings.main_wing.aspect_ratio',
                              new='wings.main_wing.new', tree='wings.main_wing.extra')
        self.configs = self.C.Container()
        self.c = []
        for t in ('c0', 'c1'):
            cfg = self.C(self.base)
            cfg.tag = t
            self.configs.append(cfg)
            self.c.append(cfg)

    def obj(self, who):
        return self.base if who == 'base' else self.c[int(who[1])]


FIELDS = ['p', 'q', 'arr', 'r', 'new', 'tree']


class Model:
    """reference: flat dictionaries  field -> value for the base, each config and each config's stored deviations"""
    def __init__(self):
        self.base = dict(p=1, q=2, arr=(1., 2.), r=3)
        self.c = [dict(self.base), dict(self.base)]
        self.d = [{}, {}]

    def key(self):
        f = lambda d: tuple(sorted(d.items()))
        return (f(self.base), f(self.c[0]), f(self.c[1]), f(self.d[0]), f(self.d[1]))

    def store(self, i):
        # deviations: entries whose value differs from the base ('tree.x','tree.y' are nested entries)
        self.d[i] = {k: v for k, v in self.c[i].items() if self.base.get(k, MISSING) is MISSING or self.base[k] != v}

    def pull(self, i):
        self.c[i].update(self.base)
        self.c[i].update(self.d[i])


def ops(small):
    out = []
    who = ['base', 'c0', 'c1']
    for w in who:
        if small:
            if w == 'base':
                out.append(('set', w, 'new', 40))
            out += [('set', w, 'q', {'base': 20, 'c0': 21, 'c1': 2}[w]), ('inplace', w, 'arr', {'base': 7., 'c0': 8., 'c1': 9.}[w])]
            continue
        out += [('set', w, 'p', {'base': 10, 'c0': 11, 'c1': 1}[w]), ('set', w, 'q', {'base': 20, 'c0': 21, 'c1': 2}[w]),
                ('inplace', w, 'arr', {'base': 7., 'c0': 8., 'c1': 1.}[w]), ('set', w, 'arr', {'base': (5., 6.), 'c0': (5., 7.), 'c1': (1., 2.)}[w]),
                ('set', w, 'new', {'base': 40, 'c0': 41, 'c1': 40}[w]), ('tree', w, 'x', {'base': 50, 'c0': 51, 'c1': 50}[w])]
    for i in (0, 1):
        out += [('store', i), ('pull', i)]
    out += [('finalize',)] + ([] if small else [('cpull',), ('cstore',)])
    return out


def real_val(v):
    return np.array(v) if isinstance(v, tuple) else v


def apply(W, M, op):
    from SUAVE.Core import Data
    n = op[0]
    if n == 'set':
        o = W.obj(op[1])
        o.deep_set(W.paths[op[2]], real_val(op[3]))
        (M.base if op[1] == 'base' else M.c[int(op[1][1])])[op[2]] = op[3]
    elif n == 'inplace':
        o = W.obj(op[1])
        o.deep_get(W.paths['arr'])[0] = op[3]
        m = M.base if op[1] == 'base' else M.c[int(op[1][1])]
        m['arr'] = (op[3], m['arr'][1])
    elif n == 'tree':
        o = W.obj(op[1])
        m = M.base if op[1] == 'base' else M.c[int(op[1][1])]
        if not any(k.startswith('tree.') for k in m):
            o.deep_set(W.paths['tree'], Data(x=op[3], y=60))
            m['tree.y'] = 60
        else:
            o.deep_set(W.paths['tree'] + '.x', op[3])
        m['tree.x'] = op[3]
    elif n == 'store':
        W.c[op[1]].store_diff()
        M.store(op[1])
    elif n == 'pull':
        W.c[op[1]].pull_base() if op[1] == 0 else W.c[op[1]].finalize()
        M.pull(op[1])
    elif n in ('finalize', 'cpull'):
        W.configs.finalize() if n == 'finalize' else W.configs.pull_base()
        M.pull(0)
        M.pull(1)
    elif n == 'cstore':
        W.configs.store_diff()
        M.store(0)
        M.store(1)


def read(W, who):
    o = W.obj(who)
    d = {}
    for f in ('p', 'q', 'arr', 'r', 'new'):
        try:
            v = o.deep_get(W.paths[f])
        except (KeyError, AttributeError):
            continue
        d[f] = tuple(float(x) for x in v) if isinstance(v, np.ndarray) else v
    try:
        t = o.deep_get(W.paths['tree'])
        for k in t.keys():
            d['tree.' + k] = t[k]
    except (KeyError, AttributeError):
        pass
    return d


def scenarios(tier):
    q = tier != 'thorough'
    out = []
    for kind in ('data', 'vehicle'):
        for i in range(len(ops(False))):
            out.append(dict(kind=kind, mode='bfs', first=i, depth=(3 if kind == 'data' else 2) if q else 4 - (kind == 'vehicle')))
        for i in range(len(ops(True))):
            out.append(dict(kind=kind, mode='raw', first=i, depth=(4 if kind == 'data' else 3) if q else 5 - (kind == 'vehicle')))
    return out


def judge(ctx, W, M, path, key):
    for who, want in (('base', M.base), ('c0', M.c[0]), ('c1', M.c[1])):
        got = read(W, who)
        if got != want:
            dif = {k: (got.get(k, 'absent'), want.get(k, 'absent')) for k in set(got) | set(want) if got.get(k, MISSING) != want.get(k, MISSING)}
            kk = '%s:%s:%s' % (key, 'base' if who == 'base' else 'config', path[-1][0])
            ctx.fail(kk, '%s after %s: (found, expected) %r' % (who, path, dif), stop=True)
    tags = [c.tag for c in W.c]
    ctx.check(tags == ['c0', 'c1'] and W.base.tag == 'base' and list(W.configs.keys()) == ['c0', 'c1'], key + ':tag', 'tags after %s: %r' % (path, tags), stop=True)


def run(ctx, sc):
    al = ops(sc['mode'] == 'raw')
    frontier = [[al[sc['first']]]]
    local = set()
    import SUAVE
    for depth in range(1, sc['depth'] + 1):
        nxt = []
        for path in frontier:
            W, M = World(sc['kind']), Model()
            # configs.append stored the diffs of the pristine configurations
            M.store(0)
            M.store(1)
            for op in path:
                apply(W, M, op)
            ctx.step()
            judge(ctx, W, M, path, sc['kind'])
            ctx.ev((sc['kind'], M.key()))
            ctx.state((sc['kind'], M.key()))
            ctx.trace()
            if sc['mode'] == 'bfs':
                if M.key() in local:
                    continue
                local.add(M.key())
            if depth < sc['depth']:
                nxt += [path + [o] for o in al]
        frontier = nxt
    ctx.sample(dict(kind=sc['kind'], history=[list(map(str, o)) for o in path]))
