"""C10  An optimization problem never serves a result that belongs to other inputs, another fidelity or a failed evaluation."""
import contextlib, io, itertools
import numpy as np
from mc import nexuskit as K

LEVEL = 'model_checking'
BOUNDS = ('every history up to length 4 (quick) / 5 (thorough) of 17 operations on one problem: objective / inequality / equality / all constraints at two design points or at the '
          'stored inputs, bare evaluation, editing a stored input, fidelity changes, forcing, a step that starts and stops failing, finite differences, summary table; every '
          'returned value compared with the formula at the inputs and fidelity in force, and the number of model evaluations with a reference cache')
ASSUMPTIONS = ['the procedure computes its results from the inputs and the fidelity level alone']
MIN = {'evals': 50000}
X = {'a': (1.5, 2.0), 'b': (1.5, -4.0)}
OPS = [('obj', 'a'), ('obj', 'b'), ('obj', None), ('ineq', 'a'), ('eq', 'b'), ('all', 'a'), ('all', None), ('eval', 'b'), ('edit', 0), ('edit', 1), ('fid', 1), ('fid', 2), ('force', True),
       ('force', False), ('break', True), ('break', False), ('fd', 'a'), ('table', None)]


def scenarios(tier):
    d = 4 if tier != 'thorough' else 5
    return [dict(first=i, second=j, depth=d) for i in range(len(OPS)) for j in range(len(OPS))]


SC, UN = (2.0, 0.5), (1.0, 3.0)


def run(ctx, sc):
    lead = [OPS[sc['first']], OPS[sc['second']]]
    lens = [sc['depth']] if sc['depth'] > 2 else [2]
    for n in lens:
        for rest in itertools.product(OPS, repeat=n - 2):
            seq = lead + list(rest)
            with contextlib.redirect_stdout(io.StringIO()):
                history(ctx, seq)
            ctx.trace()


def history(ctx, seq):
    log, fail = [], [False]
    nx = K.make(units=UN, scales=SC, light=True, log=log, fail=fail, cscale=(2., 1., 4.))
    cur = [1.0, 2.0]                       # stored (scaled, not converted) inputs
    level, force = 1, False
    cache = None                           # (inputs, level) of the last successful evaluation
    for op, arg in seq:
        ctx.step()
        log.clear()
        if op == 'edit':
            nx.optimization_problem.inputs[arg, 1] = cur[arg] = cur[arg] + 0.25
            continue
        if op == 'fid':
            nx.fidelity_level = level = arg
            continue
        if op == 'force':
            nx.force_evaluate = force = arg
            continue
        if op == 'break':
            fail[0] = arg
            continue
        x = X[arg] if arg else None
        pts = [x]
        if op == 'fd':
            pts = None
        elif op == 'table':
            pts = [None] * 3
        # reference: evaluations that should happen
        def visit(x):
            nonlocal cache
            if x is not None:
                cur[:] = [x[i] * SC[i] for i in (0, 1)]
            key = (tuple(cur), level)
            if cache == key and not force:
                return 0
            if fail[0]:
                cache = None
                return -1
            cache = key
            return 1
        def value():
            return K.formulas(cur[0] * UN[0], cur[1] * UN[1], level)
        failed = False
        n_want = 0
        if op != 'fd':
            for p in pts:
                r = visit(p)
                if r < 0:
                    failed = True
                    n_want += 1
                    break
                n_want += r
        exc = None
        out = None
        c0 = nx.evaluation_count
        try:
            if op == 'obj':
                out = nx.objective(x)
            elif op == 'ineq':
                out = nx.inequality_constraint(x)
            elif op == 'eq':
                out = nx.equality_constraint(x)
            elif op == 'all':
                out = nx.all_constraints(x)
            elif op == 'eval':
                nx.evaluate(x)
            elif op == 'fd':
                out = nx.finite_difference(x, diff_interval=1e-6)
            elif op == 'table':
                out = nx.translate()
        except RuntimeError as e:
            exc = e
        if op == 'fd':
            if fail[0]:
                # the request fails unless every point it needs is cached, which it never is
                ctx.check(exc is not None, 'failure-hidden', '%r: gradient without working model' % (seq,))
                cache = None if (visit(x) or True) else None
                # the design point reached before the failure is the one requested first
                cur[:] = list(np.array(nx.optimization_problem.inputs[:, 1], dtype=float))
                continue
            ctx.check(exc is None, 'spurious-failure', '%r %r' % (seq, exc))
            p, q = x[0] * SC[0] * UN[0], x[1] * SC[1] * UN[1]
            k = float(level)
            want = [(2 * (p - 3) + 0.1 * k * q) * SC[0] * UN[0], (2 * k * (q + 1) + 0.1 * k * p) * SC[1] * UN[1]]
            ctx.close(out[0], want, 'gradient', '%r' % (seq,), rtol=1e-4, atol=1e-4)
            jac = np.array([[1., 2 * k], [q, p], [1., -k]]) * np.array([SC[0] * UN[0], SC[1] * UN[1]]) / np.array([[2.], [1.], [4.]])
            ctx.close(out[1], jac, 'jacobian', '%r' % (seq,), rtol=1e-4, atol=1e-4)
            cur[:] = list(np.array(nx.optimization_problem.inputs[:, 1], dtype=float))
            cache = (tuple(cur), level)
            continue
        ctx.check((exc is not None) == failed, 'failure-hidden' if failed else 'spurious-failure', '%r: %r' % (seq, exc))
        got_n = log.count('first')
        ctx.check(got_n >= n_want, 'stale', '%r: model evaluated %d times, %d needed' % (seq, got_n, n_want))
        ctx.check(got_n <= max(n_want, 1 if failed else 0), 'cache-missed', '%r: model evaluated %d times, %d needed' % (seq, got_n, n_want))
        ctx.check(nx.evaluation_count - c0 == got_n, 'count', '%r: %d counted, %d done' % (seq, nx.evaluation_count - c0, got_n))
        if failed:
            continue
        v = value()
        if op == 'obj':
            ctx.close(out, [v['obj']], 'objective', '%r' % (seq,), rtol=1e-9)
        elif op == 'ineq':
            ctx.close(out, [(v['g1'] - 0.5) / 2, -(v['g2'] - 9.) / 1.], 'inequality', '%r' % (seq,), rtol=1e-9, atol=1e-12)
        elif op == 'eq':
            ctx.close(out, [(v['g3'] - 2.) / 4], 'equality', '%r' % (seq,), rtol=1e-9, atol=1e-12)
        elif op == 'all':
            ctx.close(out, [v['g1'] / 2, v['g2'], v['g3'] / 4], 'constraints', '%r' % (seq,), rtol=1e-9, atol=1e-12)
        elif op == 'table':
            ctx.close(np.array(out[1][:, 1], dtype=float), [v['g1'], v['g2'], v['g3']], 'table', '%r' % (seq,), rtol=1e-9, atol=1e-12)
        w = nx.vehicle_configurations
        ctx.close([w.base.wing.p, w.cruise.wing.p, w.base.wing.q], [cur[0] * UN[0]] * 2 + [cur[1] * UN[1]], 'inputs-unpacked', '%r' % (seq,))
        ctx.state((tuple(cur), level, force, cache, fail[0]))
        ctx.ev((op, tuple(cur), level, cache is not None))
