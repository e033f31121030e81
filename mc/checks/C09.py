"""C09  Processes and analysis containers run every step once, in order, with the caller's arguments, and file each result under its tag."""
import itertools
import numpy as np

LEVEL = 'model_checking'
BOUNDS = ('every history up to length 4 (quick) / 5 (thorough) of 13 process edits (assign/append/replace/delete plain, evaluating, nested and failing steps) with an evaluation after '
          'every edit; analysis containers: all histories up to length 3/4 x {compile, initialize, evaluate, finalize}; geometry processes over every subset and order of 3 components; '
          'vehicle analyses: every ordered pair of analysis families')
ASSUMPTIONS = ['steps do not edit the process that is running them']
MIN = {'evals': 5000}

OPS = [('set', 'a', 'fun'), ('set', 'b', 'obj'), ('set', 'c', 'none'), ('set', 'a', 'obj'), ('append', 'd', 'tagged'), ('append', 'B two', 'tagged'), ('del', 'a', None), ('del', 'b', None),
       ('set', 'n', 'nest'), ('sub', 'n', 'x'), ('set', 'f', 'fail'), ('del', 'f', None), ('set', 'z', 'ret')]


def scenarios(tier):
    q = tier != 'thorough'
    out = [dict(k='proc', first=i, depth=4 if q else 5, second=j) for i in range(len(OPS)) for j in range(len(OPS))]
    out += [dict(k='cont', depth=3 if q else 4, cls=c) for c in ('Analysis',)]
    out += [dict(k='geom', key=k) for k in ('wings', 'fuselages', 'sub.deep')]
    out += [dict(k='veh')]
    return out


class Log:
    def __init__(self):
        self.calls = []


def run(ctx, sc):
    import SUAVE
    from SUAVE.Core import Data
    from SUAVE.Analyses import Process
    if sc['k'] == 'proc':
        log = Log()

        class Boom(Exception):
            pass

        def fun(name):
            def step(*a, **k):
                log.calls.append((name, tuple(id(x) for x in a), tuple(sorted((q, id(w)) for q, w in k.items()))))
                return ('r', name)
            return step

        class Obj(Data):
            def evaluate(self, *a, **k):
                return fun(self.nm)(*a, **k)

            def __call__(self, *a, **k):
                raise AssertionError('evaluate must be preferred')
        serial = [0]

        def make(kind, key):
            serial[0] += 1
            nm = '%s%s%d' % (key, kind, serial[0])
            if kind in ('fun', 'ret'):
                return fun(nm), [nm], ('r', nm)
            if kind == 'none':
                def st(*a, **k):
                    fun(nm)(*a, **k)
                return st, [nm], None
            if kind in ('obj', 'tagged'):
                o = Obj()
                o.nm = nm
                o.tag = key
                return o, [nm], ('r', nm)
            if kind == 'nest':
                p = Process()
                p.one = fun(nm + '.1')
                q = Process()
                q.deep = fun(nm + '.2')
                p.two = q
                return p, [nm + '.1', nm + '.2'], {'one': ('r', nm + '.1'), 'two': {'deep': ('r', nm + '.2')}}

            def bad(*a, **k):
                fun(nm)(*a, **k)
                raise Boom(nm)
            return bad, [nm], 'FAIL'
        A, B = Data(), np.zeros(2)
        for d in range(1, sc['depth'] + 1):
            firsts = [OPS[sc['first']], OPS[sc['second']]][:d]
            if d == 1 and sc['second']:
                continue
            for rest in itertools.product(OPS, repeat=max(0, d - 2)):
                seq = firsts + list(rest)
                p, m = Process(), []                       # m: [key, call names, result]
                for op, key, kind in seq:
                    ctx.step()
                    norm = key.lower().replace(' ', '_')
                    have = [e for e in m if e[0] == norm]
                    if op == 'set':
                        st, calls, res = make(kind, key)
                        p[key] = st
                        if have:
                            have[0][1:] = [calls, res]
                        else:
                            m.append([norm, calls, res])
                    elif op == 'append':
                        st, calls, res = make(kind, key)
                        try:
                            p.append(st)
                            ctx.check(not have, 'duplicate-step', 'a second step %s was accepted in %r' % (key, seq))
                            m.append([norm, calls, res])
                        except KeyError:
                            ctx.check(bool(have), 'append-refused', 'appending step %s refused in %r' % (key, seq))
                    elif op == 'del':
                        if have:
                            delattr(p, key)
                            m.remove(have[0])
                    elif op == 'sub':
                        if have and isinstance(have[0][2], dict):
                            st, calls, res = make('fun', kind)
                            p.n[kind] = st
                            if kind in have[0][2]:
                                have[0][1].pop()
                            have[0][1].extend(calls)
                            have[0][2][kind] = res
                # run
                for rep in (0, 1):
                    log.calls = []
                    want_calls, want_res, fails = [], {}, False
                    for key, calls, res in m:
                        want_calls += calls
                        if res == 'FAIL':
                            fails = True
                            break
                        want_res[key] = res
                    try:
                        r = p.evaluate(A, B, kw=A) if rep == 0 else p(A, B, kw=A)
                        ctx.check(not fails, 'failure-swallowed', 'the failing step of %r went unnoticed' % (seq,))
                        ctx.check(plain(r) == want_res, 'results', '%r: results %r expected %r' % (seq, plain(r), want_res))
                        ctx.check(list(r.keys()) == list(want_res), 'result-order', '%r' % (seq,))
                    except Boom:
                        ctx.check(fails, 'unexpected-failure', '%r' % (seq,))
                    ctx.check([c[0] for c in log.calls] == want_calls, 'call-order', '%r: calls %r expected %r' % (seq, [c[0] for c in log.calls], want_calls))
                    ctx.check(all(c[1] == (id(A), id(B)) and c[2] == (('kw', id(A)),) for c in log.calls), 'arguments', '%r' % (seq,))
                ctx.state(tuple(seq))
                ctx.trace(2)
        return
    if sc['k'] == 'cont':
        C = SUAVE.Analyses.Analysis.Container
        log = []

        def mk(tag):
            class An(SUAVE.Analyses.Analysis):
                pass
            for meth in ('compile', 'initialize', 'evaluate', 'finalize'):
                setattr(An, meth, (lambda meth: lambda self, *a, **k: log.append((meth, self.tag, a, tuple(k.items()))) or (meth, self.tag))(meth))
            a = An()
            a.tag = tag
            return a
        ops = [('app', 'a'), ('app', 'b'), ('app', 'c'), ('func', 'f'), ('sub', 's'), ('del', 'a')]
        for seq in itertools.product(ops, repeat=sc['depth']):
            c, order, subs = C(), [], {}
            for op, tag in seq:
                ctx.step()
                if op == 'app' and tag not in order:
                    c.append(mk(tag))
                    order.append(tag)
                elif op == 'func' and tag not in order:
                    c[tag] = lambda *a, **k: log.append(('call', 'f', a, tuple(k.items()))) or ('call', 'f')
                    order.append(tag)
                elif op == 'sub' and tag not in order:
                    s = C()
                    s.append(mk('s1'))
                    s.append(mk('s2'))
                    c['s'] = s
                    order.append(tag)
                elif op == 'del' and tag in order:
                    del c[tag]
                    order.remove(tag)
            for meth in ('compile', 'initialize', 'evaluate', 'finalize'):
                del log[:]
                r = getattr(c, meth)(7, k=8)
                want = []
                for t in order:
                    if t == 'f':
                        if meth == 'evaluate':
                            want.append(('call', 'f', (7,), (('k', 8),)))
                    elif t == 's':
                        want += [(meth, x, (7,), (('k', 8),)) for x in ('s1', 's2')]
                    else:
                        want.append((meth, t, (7,), (('k', 8),)))
                ctx.check(log == want, 'container-%s' % meth, '%r: %r expected %r' % (seq, log, want))
                if meth == 'evaluate':
                    wr = {t: (('call', 'f') if t == 'f' else ({'s1': ('evaluate', 's1'), 's2': ('evaluate', 's2')} if t == 's' else ('evaluate', t))) for t in order}
                    ctx.check(plain(r) == wr and list(r.keys()) == order, 'container-results', '%r: %r' % (seq, plain(r)))
            ctx.state(('c', seq))
            ctx.trace(4)
        return
    if sc['k'] == 'geom':
        from SUAVE.Analyses.Aerodynamics.Process_Geometry import Process_Geometry
        names = ['w1', 'w2', 'w3']
        for n in range(4):
            for comps in itertools.permutations(names, n):
                for steps in itertools.permutations(['s', 't', 'u'], 2):
                    g = Data()
                    sub = Data()
                    parts = {}
                    for cn in comps:
                        sub[cn] = parts[cn] = Data(nm=cn)
                    if '.' in sc['key']:
                        g.sub = Data()
                        g.sub.deep = sub
                    else:
                        g[sc['key']] = sub
                    g.decoy = Data(other=Data(nm='decoy'))
                    P = Process_Geometry(sc['key'])
                    log = []
                    for s in steps:
                        P[s] = (lambda s: lambda st, se, ge: log.append((s, ge.nm, st, se)) or (s, ge.nm))(s)
                    outer = Process()
                    outer.inner = P
                    r = outer.evaluate('state', 'settings', g)
                    ctx.check(log == [(s, cn, 'state', 'settings') for cn in comps for s in steps], 'geometry-order', '%r %r: %r' % (comps, steps, log))
                    ctx.check(plain(r) == {'inner': {cn: {s: (s, cn) for s in steps} for cn in comps}}, 'geometry-results', '%r %r: %r' % (comps, steps, plain(r)))
                    ctx.state((sc['key'], comps, steps))
                    ctx.step(len(comps) * 2)
                    ctx.trace()
        return
    AN = SUAVE.Analyses
    fam = [('sizing', AN.Sizing.Sizing), ('weights', AN.Weights.Weights_Transport), ('aerodynamics', AN.Aerodynamics.Fidelity_Zero), ('stability', AN.Stability.Fidelity_Zero),
           ('energy', AN.Energy.Energy), ('atmosphere', AN.Atmospheric.US_Standard_1976), ('planet', AN.Planets.Planet), ('noise', AN.Noise.Fidelity_Zero), ('costs', AN.Costs.Costs),
           ('weights', AN.Weights.Weights_eVTOL), ('weights', AN.Weights.Weights_UAV), ('atmosphere', AN.Atmospheric.Constant_Temperature), ('aerodynamics', AN.Aerodynamics.Supersonic_Zero),
           ('aerodynamics', AN.Aerodynamics.AERODAS)]
    for a, b in itertools.permutations(range(len(fam)), 2):
        v = AN.Vehicle()
        held = {}
        for i in (a, b):
            o = fam[i][1]()
            v.append(o)
            held[fam[i][0]] = o
        for k in ('sizing', 'weights', 'aerodynamics', 'stability', 'energy', 'atmosphere', 'planet', 'noise', 'costs'):
            ctx.check(v[k] is held.get(k), 'family', 'appending %s and %s: entry %s' % (fam[a][1].__name__, fam[b][1].__name__, k))
        ctx.state((a, b))
        ctx.step(2)
        ctx.trace()
    v = AN.Vehicle()
    try:
        v.append(SUAVE.Analyses.Settings())
        ctx.fail('unknown-analysis', 'an object that is no analysis was accepted')
    except Exception:
        ctx.ev()


def plain(r):
    from SUAVE.Core import Data
    return {k: plain(r[k]) for k in r.keys()} if isinstance(r, dict) else r
