"""C12  Every optimizer front end poses the same bounded, scaled problem, and the multi-fidelity methods keep their trust region, bounds and acceptance rules."""
import contextlib, io, itertools, os, sys, types, re
import numpy as np
from mc import nexuskit as K

LEVEL = 'model_checking'
BOUNDS = ('front ends (pyOpt, pyOptSparse, Ipopt, surrogate; recording stand-ins for the absent packages): every sense pair x scale x unit x input scale, verdicts compared with the table '
          'at every point of a 5x5 grid; trust region method: every combination of senses x constraint scale x start x start size x thresholds, each complete run replayed against a '
          'reference transition system from the evaluations actually made; additive method: both sampling modes over the same problem family')
ASSUMPTIONS = ['the absent optimizer packages treat the problem they are handed as their documentation says']
MIN = {'evals': 2000}


def scenarios(tier):
    out = []
    for fe in ('pyopt', 'pyoptsparse', 'ipopt', 'surrogate'):
        for cs in ((1., 1.), (4., .5), (.1, 20.)):
            out.append(dict(k='front', fe=fe, cs=cs))
    cons = [('>', '<'), ('<', '<'), ('>', '>'), ('=', '<'), ('<', '>')]
    for c in cons:
        for cs in (1., 4.):
            for start in ((1., .5), (-3., 3.), (3.5, -3.5)):
                for size in (.1, 1., 3.):
                    for thr in ((.25, .75), (.5, .6)) if size == 1. else ((.25, .75),):
                        out.append(dict(k='trmm', senses=c, cs=cs, start=start, size=size, thr=thr, iters=6 if tier != 'thorough' else 14))
    for mode in ('basic', 'MEI'):
        for c in (('>', '<'), ('<', '<')) if mode == 'MEI' else cons:
            for cs in (1., 4.):
                out.append(dict(k='add', mode=mode, senses=c, cs=cs, iters=3))
    return out


def cost(sc):
    return {'front': 1, 'trmm': 3, 'add': 10}[sc['k']]


def run(ctx, sc):
    old = os.getcwd(), sys.stdout
    os.chdir(ctx.scratch())
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            {'front': front, 'trmm': trmm, 'add': additive}[sc['k']](ctx, sc)
    finally:
        os.chdir(old[0])
        sys.stdout = old[1]


# ---------------------------------------------------------------------------------------- front ends
class Recorder:
    """stands in for an optimization package: records the problem and evaluates it at given points"""
    def __init__(self):
        self.vars, self.cons, self.objs, self.fun = [], [], [], None


def stub_pyopt(name, rec, pts):
    m = types.ModuleType(name)

    class Optimization:
        def __init__(self, title, fun, **k):
            rec.fun = fun

        def addObj(self, n, *a, **k):
            rec.objs.append(n)

        def addVar(self, n, type='c', lower=None, upper=None, value=None, **k):
            rec.vars.append((n, lower, upper, value))

        def addCon(self, n, type='i', lower=-np.inf, upper=np.inf, equal=None, **k):
            if type == 'e':
                lower = upper = equal
            rec.cons.append((n, lower, upper))

    class Solver:
        def __init__(self, *a, **k):
            pass

        def setOption(self, *a, **k):
            pass

        def __call__(self, prob, **k):
            r = []
            for x in pts:
                if name == 'pyoptsparse':
                    fs, fail = rec.fun({n: np.array([v]) for n, v in zip([w[0] for w in rec.vars], x)} if False else dict(zip([w[0] for w in rec.vars], x)))
                    r.append(([fs[o] for o in rec.objs], [fs[c[0]] for c in rec.cons], fail))
                else:
                    r.append(rec.fun(np.array(x)))
            rec.out = r
            return r
    m.Optimization = Optimization
    mods = {name: m}
    for s in ('SNOPT', 'SLSQP', 'COBYLA', 'KSOPT', 'ALHSO', 'FSQP', 'PSQP', 'NLPQL', 'NSGA2', 'MIDACO', 'ALPSO', 'CONMIN', 'IPOPT', 'NLPY_AUGLAG'):
        if name == 'pyoptsparse':
            setattr(m, s, Solver)
        else:
            sub = types.ModuleType(name + '.py' + s)
            setattr(sub, s, Solver)
            setattr(m, 'py' + s, sub)
            mods[name + '.py' + s] = sub
    return mods


@contextlib.contextmanager
def modules(mods):
    saved = {k: sys.modules.get(k) for k in mods}
    sys.modules.update(mods)
    try:
        yield
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


def front(ctx, sc):
    from SUAVE.Optimization.Package_Setups import pyopt_setup, pyoptsparse_setup, ipopt_setup, pyopt_surrogate_setup
    for senses in itertools.product('<>=', repeat=2):
        for u in ((1., 1.), (1000., .01)):
            for s in ((1., 1.), (2., .25)):
                edges = (.5, 3.)
                nx = K.make(light=True, scales=s, lb=(-2., -1.), ub=(2., 4.), initial=(.5, 1.), oscale=5.)
                tab = np.array([['g1', senses[0], edges[0] / u[0], sc['cs'][0], u[0]], ['g2', senses[1], edges[1] / u[1], sc['cs'][1], u[1]]], dtype=object)
                nx.optimization_problem.constraints = tab
                grid = [(a, b) for a in (-1.75, -.5, .5, 1.25, 2.) for b in (-1., 0., 1.5, 3.75, 4.)] + [(.5, 0.), (1., 2.)]
                pts = [(a / s[0], b / s[1]) for a, b in grid]
                rec = Recorder()
                fe = sc['fe']
                solvers = {'pyopt': ['SNOPT', 'SLSQP', 'COBYLA', 'ALPSO'], 'pyoptsparse': ['SNOPT', 'SLSQP', 'ALPSO', 'CONMIN'], 'ipopt': [''], 'surrogate': ['']}[fe]
                for solver in (solvers if u == (1., 1.) and s == (1., 1.) else solvers[:1]):
                    rec.__init__()
                    if fe == 'pyopt':
                        with modules(stub_pyopt('pyOpt', rec, pts)):
                            res = pyopt_setup.Pyopt_Solve(nx, solver=solver)
                    elif fe == 'pyoptsparse':
                        with modules(stub_pyopt('pyoptsparse', rec, pts)):
                            res = pyoptsparse_setup.Pyoptsparse_Solve(nx, solver=solver)
                    elif fe == 'surrogate':
                        with modules(stub_pyopt('pyOpt', rec, pts)):
                            surr = lambda x: (nx.objective(x), nx.all_constraints(x).tolist(), 0)
                            pyopt_surrogate_setup.pyopt_surrogate_setup(surr, nx.optimization_problem.inputs, nx.optimization_problem.constraints)
                            res = [rec.fun(np.array(p)) for p in pts]
                    else:
                        m = types.ModuleType('pyipopt')

                        class NLP:
                            def str_option(self, *a):
                                pass

                            def close(self):
                                pass

                            def solve(self, x0, prob):
                                rec.x0 = x0
                                out = []
                                for p in pts:
                                    p = np.array(p)
                                    f, g = self.f(p, prob), self.g(p, prob)
                                    row, col = self.j(p, True, prob)
                                    val = self.j(p, False, prob)
                                    J = np.zeros((2, 2))
                                    J[row, col] = val
                                    out.append(([f], list(g), self.gf(p, prob), J))
                                return out

                        def create(n, lo, hi, nc, gl, gu, nj, nh, ef, egf, eg, ejg):
                            ctx.check((n, nc, nj) == (2, 2, 4), 'ipopt-sizes', '')
                            ctx.check(np.shape(gl) == (2,) and np.shape(gu) == (2,), 'ipopt-edges-shape', '%r' % (np.shape(gl),), stop=True)
                            rec.vars = [(i, lo[i], hi[i], None) for i in range(n)]
                            rec.cons = [(i, gl[i], gu[i]) for i in range(nc)]
                            o = NLP()
                            o.f, o.gf, o.g, o.j = ef, egf, eg, ejg
                            return o
                        m.create = create
                        with modules({'pyipopt': m}):
                            res = ipopt_setup.Ipopt_Solve(nx)
                    msg = '%s %s senses %r scales %r units %r input scales %r' % (fe, solver, senses, sc['cs'], u, s)
                    ctx.close([v[1:3] for v in rec.vars], [(-2. / s[0], 2. / s[0]), (-1. / s[1], 4. / s[1])], 'variable-bounds', msg)
                    if fe == 'ipopt':
                        ctx.close(rec.x0, (.5 / s[0], 1. / s[1]), 'start', msg)
                    else:
                        # the stand-in has evaluated nothing yet when the start is declared
                        if solver == solvers[0]:
                            ctx.close([v[3] for v in rec.vars], (.5 / s[0], 1. / s[1]), 'start', msg)
                    ctx.check(len(rec.cons) == 2, 'constraint-lost', '%s: %d constraints handed over' % (msg, len(rec.cons)), stop=True)
                    for (a, b), r in zip(grid, res):
                        f = K.formulas(a, b, 1)
                        ctx.close(np.ravel(r[0]), [f['obj'] / 5.], 'objective', msg, rtol=1e-9)
                        for i, n in enumerate(('g1', 'g2')):
                            lo, hi = rec.cons[i][1:]
                            v = float(r[1][i])
                            tol = 1e-9 * max(1., abs(v))
                            verdict = (lo - tol <= v <= hi + tol)
                            truth = {'>': f[n] >= edges[i] - 1e-9, '<': f[n] <= edges[i] + 1e-9, '=': abs(f[n] - edges[i]) < 1e-9}[senses[i]]
                            ctx.check(verdict == truth, 'verdict', '%s at %r: %s=%g edge %g: front end says %s (value %g in [%g, %g])' %
                                      (msg, (a, b), n, f[n], edges[i], verdict, v, lo, hi))
                            ctx.ev((fe, senses[i], truth))
                        if fe == 'ipopt':
                            g = [(2 * (a - 3) + .1 * b) / 5. * s[0], (2 * (b + 1) + .1 * a) / 5. * s[1]]
                            ctx.close(r[2], g, 'gradient', msg, rtol=1e-4, atol=1e-4)
                            J = np.array([[s[0], 2 * s[1]], [b * s[0], a * s[1]]]) / np.array(sc['cs'])[:, None]
                            ctx.close(r[3], J, 'jacobian', msg, rtol=1e-4, atol=1e-4)
                        ctx.step()
                    ctx.state((fe, solver, senses, u, s, sc['cs']))
                    ctx.trace()
                    nx.optimization_problem.inputs[:, 1] = [.5, 1.]


# ---------------------------------------------------------------------------------------- multi-fidelity
EDGE = (.5, 3.)


def mf(sc):
    nx = K.make(light=True, lb=(-4., -4.), ub=(4., 4.))
    nx.optimization_problem.inputs = np.array([['p', sc.get('start', (1., .5))[0], (-4., 4.), 2., 1.], ['q', sc.get('start', (1., .5))[1], (-4., 4.), .5, 1.]], dtype=object)
    nx.optimization_problem.constraints = np.array([['g1', sc['senses'][0], EDGE[0], sc['cs'], 1.], ['g2', sc['senses'][1], EDGE[1], 1. / sc['cs'], 1.]], dtype=object)
    evs = []
    orig = nx.procedure.second

    def second(n):
        evs.append((n.fidelity_level,) + tuple(float(v) for v in n.results.half))
        return orig(n)
    nx.procedure.second = second
    return nx, evs


def at(x, level, cs):
    f = K.formulas(x[0] * 2., x[1] * .5, level)
    return f['obj'], np.array([f['g1'] / cs, f['g2'] * cs])


def viol(g, sc):
    e = (EDGE[0] / sc['cs'], EDGE[1] * sc['cs'])
    d = []
    for v, s, b in zip(g, sc['senses'], e):
        d.append({'<': max(0., v - b), '>': max(0., b - v), '=': abs(v - b)}[s])
    return float(np.linalg.norm(d))


def trmm(ctx, sc):
    from SUAVE.Optimization.Package_Setups.TRMM.Trust_Region_Optimization import Trust_Region_Optimization
    from SUAVE.Optimization.Package_Setups.TRMM.Trust_Region import Trust_Region
    nx, evs = mf(sc)
    T, tr = Trust_Region_Optimization(), Trust_Region()
    nx.trust_region = tr
    T.trust_region_max_iterations = sc['iters']
    T.optimizer = 'SLSQP'
    tr.size = tr.initial_size = sc['size']
    tr.contract_threshold, tr.expand_threshold = sc['thr']
    sizes = []
    f, x, msg = T.optimize(nx, print_output=True)
    x = np.array(x, dtype=float)
    lo, hi = np.array([-2., -8.]), np.array([2., 8.])
    h = open('TRM_hist.txt').read()
    its = re.split(r'Iteration ----- \d+\n', h)[1:]
    ctx.check(1 <= len(its) <= sc['iters'], 'iterations', '%d' % len(its))
    centre = np.array(sc['start']) / (2., .5)
    size = sc['size']
    num = lambda t: np.array([float(v) for v in re.findall(r'[-+0-9.einfa]+', t)])
    ends = False
    for k, it in enumerate(its):
        c = num(re.search(r'x_center: \[(.*)\]', it).group(1))
        z = float(re.search(r'tr size  : (\S+)', it).group(1))
        where = '%s iteration %d' % ({q: sc[q] for q in ('senses', 'cs', 'start', 'size', 'thr')}, k + 1)
        ctx.close(c, centre, 'centre', where, rtol=1e-6, atol=1e-7)
        ctx.close(z, size, 'region-size', where, rtol=1e-9)
        lv = re.findall(r'Level    : (\d)\nf        : (\S+)', it)
        for l, v in lv:
            ctx.close(float(v), at(c, int(l), sc['cs'])[0], 'level-value', where, rtol=1e-7, atol=1e-9)
        ctx.check([l for l, v in lv] == ['1', '2'], 'levels', where)
        m = re.search(r'x opt    : \[(.*)\]\nlow obj  : (.*)\nhi  obj  : (.*)\n', it)
        if m is None:
            ends = True
            break
        xo, flo, fhi = num(m.group(1)), float(num(m.group(2))[0]), float(m.group(3))
        L = np.maximum(lo, c - size) - 1e-7
        U = np.minimum(hi, c + size) + 1e-7
        ctx.check(np.all(xo >= L) and np.all(xo <= U), 'left-region', '%s: step to %r from %r size %g' % (where, xo, c, size))
        fh, gh = at(xo, 2, sc['cs'])
        ctx.close(fhi, fh, 'high-fidelity-value', where, rtol=1e-6, atol=1e-8)
        # corrected model: matches the high-fidelity value and gradient at the centre
        (f1, g1), (f2, g2) = at(c, 1, sc['cs']), at(c, 2, sc['cs'])
        e = 1e-6
        grad = lambda fun: np.array([(fun(c + d) - fun(c)) / e for d in np.eye(2) * e])
        df = grad(lambda y: at(y, 2, sc['cs'])[0]) - grad(lambda y: at(y, 1, sc['cs'])[0])
        dg = np.array([grad(lambda y: at(y, 2, sc['cs'])[1][i]) - grad(lambda y: at(y, 1, sc['cs'])[1][i]) for i in (0, 1)])
        corr = at(xo, 1, sc['cs'])[0] + f2 - f1 + df @ (xo - c)
        ctx.close(flo, corr, 'corrected-objective', where, rtol=1e-4, atol=2e-4)
        gc = at(xo, 1, sc['cs'])[1] + g2 - g1 + dg @ (xo - c)
        vc, vh, vo = viol(g2, sc), viol(gh, sc), viol(gc, sc)
        acc = fh < f2 or vh < vc
        near = abs(fh - f2) < 1e-6 * max(1, abs(f2)) or (not fh < f2 and abs(vh - vc) < 1e-7)
        den = (f2 + vc ** 2) - (corr + vo ** 2)
        rho = 1. if abs(den) < 1e-12 else ((f2 + vc ** 2) - (fh + vh ** 2)) / den
        fuzzy = near or abs(den) < 1e-5 * max(1, abs(f2)) or any(abs(rho - t) < 5e-3 for t in (0., sc['thr'][0], sc['thr'][1], 1.25))
        if acc:
            act = 'shrink' if rho <= sc['thr'][0] else 'keep' if rho <= sc['thr'][1] else 'grow' if rho <= 1.25 else 'keep'
        else:
            act = 'shrink'
        nsize = {'shrink': size * .25, 'keep': size, 'grow': size * 1.5}[act]
        ctx.step()
        ctx.state((sc['senses'], tuple(np.round(c, 6)), round(size, 9)))
        if k + 1 < len(its):
            nxt = its[k + 1]
            zn = float(re.search(r'tr size  : (\S+)', nxt).group(1))
            cn = num(re.search(r'x_center: \[(.*)\]', nxt).group(1))
            if fuzzy:
                ctx.check(any(abs(zn - size * r) < 1e-9 * size for r in (.25, 1., 1.5)), 'region-size', '%s: %g -> %g' % (where, size, zn))
                ctx.check(np.allclose(cn, xo, atol=1e-7) or np.allclose(cn, c, atol=1e-7), 'centre', where)
                centre, size = cn, zn
            else:
                ctx.check(abs(zn - nsize) < 1e-9 * size, 'region-size', '%s: rho=%.4f accepted=%s: size %g -> %g, expected %g' % (where, rho, acc, size, zn, nsize))
                ctx.check(np.allclose(cn, xo if acc else c, atol=1e-7), 'centre', '%s: accepted=%s centre %r -> %r (step %r)' % (where, acc, c, cn, xo))
                centre, size = (xo if acc else c), nsize
            ctx.ev((acc, act))
    if not ends:
        # the run ended on convergence or on the iteration limit: what is returned is the last step with its corrected value
        ctx.close(x, xo, 'returned-point', str(sc), rtol=1e-6, atol=1e-8)
        ctx.close(float(np.ravel(f)[0]), flo, 'returned-value', str(sc), rtol=1e-6, atol=1e-8)
    ctx.check(np.all(x >= lo - 1e-9) and np.all(x <= hi + 1e-9), 'bounds', '%r' % x)
    for lev, p, q in evs:
        ctx.check(abs(p) <= 4 + 1e-3 and abs(q) <= 4 + 1e-3, 'bounds-evaluated', '%r: model evaluated at %r' % (sc, (p, q)))
    if 'convergence' in msg:
        ctx.check('convergence' in h, 'history-end', msg)
    ctx.note('end:' + msg)
    ctx.trace()


def additive(ctx, sc):
    from SUAVE.Optimization.Package_Setups.additive_setup import Additive_Solver
    nx, evs = mf(sc)
    A = Additive_Solver()
    np.random.seed(0)
    f, x = A.Additive_Solve(nx, num_samples=8, max_iterations=sc['iters'], tolerance=1e-6, opt_type=sc['mode'], print_output=True)
    x = np.array(x, dtype=float)
    X, F = np.load('x_samples.npy'), np.load('f_data.npy')
    lo, hi = np.array([-2., -8.]), np.array([2., 8.])
    ctx.check(np.all(X >= lo - 1e-6) and np.all(X <= hi + 1e-6), 'samples-bounds', '%r' % sc)
    for i, p in enumerate(X):
        ctx.close(F[:, i], [at(p, l, sc['cs'])[0] for l in (1, 2)], 'sample-values', '%r sample %d' % (sc, i), rtol=1e-6, atol=1e-8)
    ctx.check(np.all(x >= lo - 1e-6) and np.all(x <= hi + 1e-6), 'bounds', '%r: %r' % (sc, x))
    ctx.close(np.ravel(f), [at(x, 2, sc['cs'])[0]], 'reported-value', '%r' % sc, rtol=1e-6, atol=1e-7)
    for lev, p, q in evs:
        ctx.check(abs(p) <= 4 + 1e-3 and abs(q) <= 4 + 1e-3, 'bounds-evaluated', '%r: model evaluated at %r' % (sc, (p, q)))
    for i in range(8):
        pass
    # the initial plan is a Latin hypercube of the scaled box
    u = (X[:8] - lo) / (hi - lo) * 8
    for j in (0, 1):
        ctx.close(np.sort(u[:, j]), np.arange(8) + .5, 'initial-plan', '', rtol=0, atol=1e-6)
    ctx.state((sc['mode'], sc['senses'], sc['cs']))
    ctx.step(len(evs))
    ctx.ev((sc['mode'], sc['senses'], sc['cs']))
    ctx.trace()
