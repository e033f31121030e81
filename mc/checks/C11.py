"""C11  Optimization problems: design variables reach exactly the entries their aliases name, and every constraint is judged with its own sense, scale and unit."""
import contextlib, io, itertools, os
import numpy as np
from mc import nexuskit as K

LEVEL = 'model_checking'
BOUNDS = ('aliases: every ordered pair of 9 alias shapes (direct, starred at any level, several stars, lists of both) for two variables x 1-3 configurations x declaration orders x '
          'repeated evaluation; variables: value grid below/at/inside/above the bounds x scale x unit x hard bounds x vector kind x history of two points; constraints: every '
          'sense triple (and every 1- and 2-constraint problem) x scale x unit x satisfied/violated/active values; every solver front end on a problem with a known optimum under '
          'rescaling; log files: every history of up to 4 written iterations; parameter sweeps on every grid up to 3 x 3')
ASSUMPTIONS = ['objective and constraint units are plain numbers or multiplicative units']
MIN = {'evals': 10000}


def shapes(tree_keys):
    # alias text -> function(configs) giving the entries it names
    return {
        'direct': ('vehicle_configurations.base.wing.p', lambda c: ['base.wing.p']),
        'star': ('vehicle_configurations.*.wing.p', lambda c: ['%s.wing.p' % k for k in c]),
        'other': ('vehicle_configurations.*.wing.q', lambda c: ['%s.wing.q' % k for k in c]),
        'stars': ('vehicle_configurations.*.wing.parts.*.z', lambda c: ['%s.wing.parts.%s.z' % (k, j) for k in c for j in ('one', 'two')]),
        'list': (['vehicle_configurations.base.wing.p', 'vehicle_configurations.base.wing.q'], lambda c: ['base.wing.p', 'base.wing.q']),
        'starlist': (['vehicle_configurations.*.wing.p', 'vehicle_configurations.base.wing.parts.*.z'],
                     lambda c: ['%s.wing.p' % k for k in c] + ['base.wing.parts.one.z', 'base.wing.parts.two.z']),
        'onelist': (['vehicle_configurations.base.wing.q'], lambda c: ['base.wing.q']),
        'inner': ('vehicle_configurations.base.wing.parts.*.z', lambda c: ['base.wing.parts.one.z', 'base.wing.parts.two.z']),
        'new': ('vehicle_configurations.*.wing.fresh', lambda c: ['%s.wing.fresh' % k for k in c]),
    }


def scenarios(tier):
    sh = list(shapes(None))
    out = [dict(k='alias', a=a, n=n) for a in sh for n in (1, 2, 3)]
    out += [dict(k='vars', scale=s, unit=u) for s in (1.0, 0.5, 40.0) for u in (1.0, 'deg', 'ft')]
    out += [dict(k='cons', n=n, sense=s) for n in (1, 2, 3) for s in '<>=']
    out += [dict(k='solve', solver=s, scale=sc, cs=cs, unit=u) for s in ('SLSQP', 'COBYLA-none', 'differential_evolution', 'particle_swarm_optimization')
            for sc in (1.0, 4.0) for cs in (1.0, 10.0) for u in (1.0, 2.0)]
    out += [dict(k='log', n=n) for n in range(1, 5)]
    out += [dict(k='sweep')]
    return out


def cost(sc):
    return 5 if sc['k'] == 'solve' else 1


def flat(d, pre=''):
    r = {}
    for k in d.keys():
        v = d[k]
        if isinstance(v, dict):
            r.update(flat(v, pre + k + '.'))
        else:
            r[pre + k] = v
    return r


def run(ctx, sc):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()['r_' + sc['k']](ctx, sc)


def unit(u):
    from SUAVE.Core import Units
    return {1.0: (1.0, 1.0), 2.0: (2.0, 2.0), 'deg': (1 * Units.deg, np.pi / 180), 'ft': (1 * Units.ft, 0.3048), 'km': (1 * Units.km, 1000.)}[u]


def build_tree(n):
    import SUAVE
    from SUAVE.Core import Data, Container
    C = Container()
    for c in ('base', 'cruise', 'landing')[:n]:
        v = Data(tag=c)
        v.wing = Data(p=1., q=2., keep=3., parts=Container())
        for j in ('one', 'two'):
            v.wing.parts.append(Data(tag=j, z=4., keep='s'))
        C.append(v)
    return C


def r_alias(ctx, sc):
    from SUAVE.Core import Data
    from SUAVE.Optimization import Nexus
    S = shapes(None)
    cfg = ('base', 'cruise', 'landing')[:sc['n']]
    for b in S:
        for order in itertools.permutations(range(3)):
            for swap in (0, 1):
                nx = Nexus()
                nx.optimization_problem = Data()
                rows = [['a', 5., -99., 99., 2., 3.], ['b', 6., -99., 99., .5, 1.]]
                nx.optimization_problem.inputs = np.array(rows[::-1] if swap else rows, dtype=object)
                al = [['a', S[sc['a']][0]], ['b', S[b][0]], ['unused', 'vehicle_configurations.base.wing.keep']]
                nx.optimization_problem.aliases = [al[i] for i in order]
                nx.vehicle_configurations = build_tree(sc['n'])
                for xa, xb in ((7., 8.), (0.25, -3.)):
                    want = flat(build_tree(sc['n']))
                    nx.unpack_inputs([xb, xa] if swap else [xa, xb])
                    pa = {k: xa * 6. for k in S[sc['a']][1](cfg)}
                    pb = {k: xb * .5 for k in S[b][1](cfg)}
                    for d in ((pb, pa) if swap else (pa, pb)):
                        want.update(d)
                    got = flat(nx.vehicle_configurations)
                    ctx.check(set(got) == set(want), 'alias-entries', '%s %s: entries %r' % (sc, b, set(got) ^ set(want)))
                    for k in want:
                        if k in got:
                            ctx.check(got[k] == want[k] if isinstance(want[k], str) else abs(got[k] - want[k]) < 1e-12, 'alias-value',
                                      '%r with %r (n=%d, order %r): %s is %r, expected %r' % (S[sc['a']][0], S[b][0], sc['n'], order, k, got[k], want[k]))
                    ctx.step()
                    # and reading the same entries back
                    name = S[sc['a']][1](cfg)[0]
                    nx.optimization_problem.aliases.append(['out', 'vehicle_configurations.' + name])
                    from SUAVE.Optimization import helper_functions as hf
                    ctx.close(hf.get_values(nx, np.array([['out', 1., 1.]], dtype=object), nx.optimization_problem.aliases), [want[name]], 'alias-read', name)
                    nx.optimization_problem.aliases.pop()
                ctx.state((sc['a'], b, sc['n'], order, swap))
                ctx.ev((sc['a'], b, sc['n']))
                ctx.trace()


def r_vars(ctx, sc):
    U, uf = unit(sc['unit'])
    s = sc['scale']
    lb, ub = (-2., 1.), (3., 5.)
    grid = [(-2.5, -2., 0.7, 3., 3.5), (0.5, 1., 2.2, 5., 7.)]
    for hard in (False, True):
        for kind in ('list', 'tuple', 'array', 'int'):
            for x0 in itertools.product(*grid):
                for x1 in ((None,) if kind != 'array' else (None, (0.1, 1.2), (9., -9.))):
                    nx = K.make(light=True, units=(U, 1.0), scales=(s, 2.0), lb=lb, ub=ub)
                    nx.hard_bounded_inputs = hard
                    cur = None
                    for x in (x0, x1, None):
                        if x is not None:
                            if kind == 'int':
                                x = tuple(float(int(v)) for v in x)
                            scaled = (x[0] / s, x[1] / 2.0)
                            arg = {'list': list, 'tuple': tuple, 'array': np.array, 'int': list}[kind](scaled)
                            nx.unpack_inputs(arg)
                            cur = list(x)
                            ctx.close(np.array(arg, dtype=float), scaled, 'argument-modified', '')
                        else:
                            nx.unpack_inputs()
                        if hard:
                            cur = [min(max(c, l), u) for c, l, u in zip(cur, lb, ub)]
                        w = nx.vehicle_configurations
                        ctx.close([w.base.wing.p, w.cruise.wing.p, w.base.wing.q], [cur[0] * uf, cur[0] * uf, cur[1]], 'input-value',
                                  'x=%r scale=%r unit=%r hard=%r' % (x, s, sc['unit'], hard), rtol=1e-9, atol=1e-12)
                        inp = nx.optimization_problem.inputs
                        ctx.close(np.array(inp[:, 2:5], dtype=float), [[lb[0], ub[0], s], [lb[1], ub[1], 2.]], 'bounds-modified', '')
                        ctx.close(np.array(inp[:, 5], dtype=float), [uf, 1.], 'unit-modified', '', rtol=1e-9)
                        ctx.check(w.cruise.wing.q == 0. and w.base.wing.other == 7., 'unaliased-modified', '')
                        ctx.step()
                    ctx.state((sc['scale'], sc['unit'], hard, kind, x0, x1))
                    ctx.ev((hard, kind, tuple(cur)))
                    ctx.trace()


def r_cons(ctx, sc):
    from SUAVE.Core import Data
    for senses in itertools.product('<>=', repeat=sc['n'] - 1):
        senses = (sc['sense'],) + senses
        for scales in itertools.product((1., 5., .01), repeat=min(sc['n'], 2)):
            scales = (scales + (2.,))[:sc['n']]
            for units in itertools.product((1.0, 'km'), repeat=sc['n']):
                for where in itertools.product((-1, 0, 1), repeat=min(sc['n'], 2)):
                    where = (where + (1,))[:sc['n']]
                    us = [unit(u) for u in units]
                    bounds = [2., -3., 0.5][:sc['n']]
                    vals = [b * u[1] + w * 0.25 * u[1] for b, u, w in zip(bounds, us, where)]
                    nx = K.make(light=True, oscale=scales[0], ounit=us[0][0])
                    nx.optimization_problem.constraints = np.array([['g%d' % (i + 1), senses[i], bounds[i], scales[i], us[i][0]] for i in range(sc['n'])], dtype=object)
                    def last(n):
                        n.summary.g1, n.summary.g3 = vals[0], (vals + [0, 0])[2]
                        n.summary.deep = Data(g2=(vals + [0])[1])
                        n.summary.obj = 12.
                        return n
                    nx.procedure.second = last
                    for rep in (0, 1):                        # asking twice gives the same answer
                        al = nx.all_constraints()
                        ctx.close(al, [v / s for v, s in zip(vals, scales)], 'constraint-values', '%r %r' % (senses, units), rtol=1e-9)
                        iq = [(1 if senses[i] == '>' else -1) * (vals[i] - bounds[i] * us[i][1]) / scales[i] for i in range(sc['n']) if senses[i] != '=']
                        eq = [(vals[i] - bounds[i] * us[i][1]) / scales[i] for i in range(sc['n']) if senses[i] == '=']
                        if iq:
                            ctx.close(nx.inequality_constraint(), iq, 'inequality', 'senses %r scales %r units %r where %r' % (senses, scales, units, where), rtol=1e-9, atol=1e-9)
                        if eq:
                            ctx.close(nx.equality_constraint(), eq, 'equality', 'senses %r scales %r units %r where %r' % (senses, scales, units, where), rtol=1e-9, atol=1e-9)
                        ctx.close(nx.objective(), [12. / (scales[0] * us[0][1])], 'objective', '')
                        c = nx.optimization_problem.constraints
                        ctx.check([r[0] for r in c] == ['g%d' % (i + 1) for i in range(sc['n'])] and [r[1] for r in c] == list(senses), 'table-modified', '')
                        ctx.close(np.array(c[:, 2:4], dtype=float), [[b, s] for b, s in zip(bounds, scales)], 'table-modified', '')
                        ctx.step()
                    ctx.state((senses, scales, units, where))
                    ctx.ev((senses, tuple(np.sign(iq))))
                    ctx.trace()


def r_solve(ctx, sc):
    """minimise (p-3)^2 + (q+1)^2 + 0.1 p q, subject to p + 2 q >= 0.5, p q + 1 <= 9  in the units of the table"""
    from SUAVE.Optimization.Package_Setups import scipy_setup
    from scipy.optimize import minimize
    solver = sc['solver']
    u = sc['unit']
    senses = ('>', '<')
    ref = minimize(lambda z: K.formulas(z[0], z[1], 1)['obj'], [1., 0.], method='SLSQP', bounds=[(-4, 4), (-4, 4)],
                   constraints=[] if solver == 'COBYLA-none' else [dict(type='ineq', fun=lambda z: z[0] + 2 * z[1] - 0.5), dict(type='ineq', fun=lambda z: 9 - z[0] * z[1] - 1)]).x
    s = sc['scale']
    log = []
    nx = K.make(light=True, units=(u, 1.0), scales=(s / u, s), lb=(-4. / u, -4.), ub=(4. / u, 4.), initial=(1. / u, 0.5), cscale=(sc['cs'], 1. / sc['cs'], 1.), log=log)
    pts = []
    orig = nx.procedure.second
    def second(n):
        pts.append(n.results.half)
        return orig(n)
    nx.procedure.second = second
    nx.optimization_problem.constraints = np.array([['g1', '>', .5, sc['cs'], 1.], ['g2', '<', 9., 1. / sc['cs'], 1.]], dtype=object)
    if solver == 'SLSQP':
        class P:                                  # a problem with no equality constraint
            pass
        x = scipy_setup.SciPy_Solve(nx, solver='SLSQP', sense_step=1e-7)
        tol = 2e-3
    elif solver == 'COBYLA-none':
        x = scipy_setup.SciPy_Solve(nx, solver='Nelder-Mead').x
        tol = 2e-2
    elif solver == 'differential_evolution':
        x = scipy_setup.SciPy_Solve(nx, solver='differential_evolution', pop_size=8, prob_seed=1).x
        tol = 5e-2
    else:
        np.random.seed(3)
        x, f = scipy_setup.SciPy_Solve(nx, solver='particle_swarm_optimization', pop_size=30)
        tol = None
    x = np.asarray(x, dtype=float) * s
    z = K.formulas(x[0], x[1], 1)
    if solver != 'COBYLA-none':
        ctx.check(z['g1'] >= .5 - 1e-4 and z['g2'] <= 9. + 1e-4, 'infeasible-optimum', '%r: %r -> %r' % (sc, x, z))
        ctx.check(np.all(np.abs(x) <= 4. + 1e-9), 'bounds', '%r' % x)
        ctx.check(all(abs(p) <= 4. + 1e-3 and abs(q) <= 4. + 1e-3 for p, q in pts), 'bounds-visited', '%r' % sc)
    if tol:
        ctx.close(x, ref, 'optimum', '%r' % sc, rtol=0, atol=tol)
    else:
        ctx.check(abs(f - z['obj']) < 1e-9, 'reported-value', '%r %r' % (f, z))
        ctx.check(all(z['obj'] <= K.formulas(p, q, 1)['obj'] + 2e-4 for p, q in pts
                      if K.formulas(p, q, 1)['g1'] >= .5 and K.formulas(p, q, 1)['g2'] <= 9.), 'better-point-lost', '%r' % sc)
    ctx.state((tuple(sorted(sc.items())),))
    ctx.step(len(pts))
    ctx.trace()


def r_log(ctx, sc):
    from SUAVE.Optimization.write_optimization_outputs import write_optimization_outputs
    from SUAVE.Optimization.read_optimization_outputs import read_optimization_outputs
    pts = [(1.25, 2.5), (-3e-7, 4e8), (0., -1.), (1e3, 1. / 3)]
    for seq in itertools.product(range(len(pts)), repeat=sc['n']):
        for scales in ((1., 1.), (2., .25)):
            fn = os.path.join(ctx.scratch(), 'log.txt')
            if os.path.exists(fn):
                os.remove(fn)
            nx = K.make(light=True, scales=scales, cscale=(4., 1., .5), oscale=3., lb=(-5., -6.), ub=(8., 9.))
            rows = []
            for it, i in enumerate(seq):
                nx.objective(np.array(pts[i]))
                nx.total_number_of_iterations = it
                write_optimization_outputs(nx, fn)
                f = K.formulas(pts[i][0] * scales[0], pts[i][1] * scales[1], 1)
                rows.append([it, f['obj'] / 3.] + list(pts[i]) + [f['g1'] / 4., f['g2'], f['g3'] / .5])
                ctx.step()
            it, ob, xi, co = read_optimization_outputs(fn, nx.optimization_problem.inputs, nx.optimization_problem.constraints)
            R = np.array(rows)
            ctx.close(it, R[:, 0], 'log-iterations', '%r' % (seq,))
            ctx.close(ob, R[:, 1], 'log-objective', '%r' % (seq,))
            ctx.close(xi, R[:, 2:4], 'log-inputs', '%r scales %r' % (seq, scales))
            ctx.close(co, R[:, 4:], 'log-constraints', '%r' % (seq,))
            ctx.state((seq, scales))
            ctx.trace()


def r_sweep(ctx, sc):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from SUAVE.Optimization import line_plot, carpet_plot
    lp = line_plot.line_plot if hasattr(line_plot, 'line_plot') else line_plot
    cp = carpet_plot.carpet_plot if hasattr(carpet_plot, 'carpet_plot') else carpet_plot
    for n in (2, 3):
        for po, pc in ((0, 0), (1, 1)):
            for idx in (0, 1):
                nx = K.make(light=True, scales=(2., 3.), lb=(-1., -2.), ub=(4., 5.), cscale=(2., 1., 1.), oscale=7.)
                o = lp(nx, n, plot_obj=po, plot_const=pc, sweep_index=idx)
                plt.close('all')
                lo, hi = ((-1., 4.), (-2., 5.))[idx]
                g = np.linspace(lo, hi, n)
                ctx.close(o.inputs[0], g, 'sweep-inputs', '')
                F = [K.formulas(*((v, 2.) if idx == 0 else (1., v)), 1) for v in g]
                ctx.close(o.objective, [f['obj'] for f in F], 'sweep-objective', 'index %d' % idx)
                ctx.close(o.constraint_val, [[f['g1'] / 2 for f in F], [f['g2'] for f in F], [f['g3'] for f in F]], 'sweep-constraints', '')
                for jdx in (0, 1):
                    if jdx == idx:
                        continue
                    nx = K.make(light=True, scales=(2., 3.), lb=(-1., -2.), ub=(4., 5.), cscale=(2., 1., 1.), oscale=7.)
                    o = cp(nx, n, plot_obj=po, plot_const=pc, sweep_index_0=idx, sweep_index_1=jdx)
                    plt.close('all')
                    b = ((-1., 4.), (-2., 5.))
                    gi, gj = np.linspace(*b[idx], n), np.linspace(*b[jdx], n)
                    ctx.close(o.inputs, [gi, gj], 'carpet-inputs', '')
                    for a, c in itertools.product(range(n), range(n)):
                        v = {idx: gi[a], jdx: gj[c]}
                        f = K.formulas(v[0], v[1], 1)
                        ctx.close(o.objective[c, a], f['obj'], 'carpet-objective', '%d %d' % (a, c))
                        ctx.close(o.constraint_val[:, c, a], [f['g1'] / 2, f['g2'], f['g3']], 'carpet-constraints', '%d %d' % (a, c))
                    ctx.step(n * n)
                ctx.state((n, po, pc, idx))
                ctx.trace()
