"""Missions fly their segments in order, each from where the last one ended, whatever came before or comes after.
"""
import itertools, contextlib, io, copy
import numpy as np
from mc import missionkit as mk
LEVEL = 'model_checking'
BOUNDS = ('every sequence of up to 3 (thorough: 4) segments out of 9 kinds, evaluated as a Sequential_Segments mission, evaluated twice, as a prefix of a longer mission, '
          'after a deep copy, with a jump in altitude between segments, as an All_At_Once mission and (those with one cruise) as a Variable_Range_Cruise')
ASSUMPTIONS = ['closed-form aerodynamics and propulsion stand in for the vehicle models']
MIN = {'evals': 30000, 'aao': 20, 'vrc': 5}
DEG = np.pi / 180
N = 5
# kind -> (segment type, parameters, altitude change)
KINDS = {
    'c1': ('Climb.Constant_Speed_Constant_Rate', dict(air_speed=130., climb_rate=5.), 1200.),
    'c2': ('Climb.Constant_EAS_Constant_Rate', dict(equivalent_air_speed=110., climb_rate=6.), 900.),
    'c3': ('Climb.Linear_Speed_Constant_Rate', dict(air_speed_start=125., air_speed_end=140., climb_rate=4.), 700.),
    'k1': ('Cruise.Constant_Speed_Constant_Altitude', dict(air_speed=140., distance=50e3), 0.),
    'k2': ('Cruise.Constant_Mach_Constant_Altitude_Loiter', dict(mach=.45, time=300.), 0.),
    'k3': ('Cruise.Constant_Acceleration_Constant_Altitude', dict(acceleration=.3, air_speed_start=120., air_speed_end=150.), 0.),
    'd1': ('Descent.Constant_Speed_Constant_Rate', dict(air_speed=120., descent_rate=4.), -800.),
    'd2': ('Descent.Linear_Mach_Constant_Rate', dict(mach_start=.45, mach_end=.4, descent_rate=3.), -600.),
    'a1': ('Climb.Constant_Mach_Constant_Angle', dict(mach=.45, climb_angle=3 * DEG), 900.),
}
H0 = 3500.


def mission(SUAVE, seq, cls=None, jump=None, course=.4, n=N):
    m = (cls or SUAVE.Analyses.Mission.Sequential_Segments)()
    an = mk.analyses(SUAVE)
    h = H0
    plan = []
    for i, k in enumerate(seq):
        name, p, dh = KINDS[k]
        p = dict(p)
        given = i == 0
        if jump is not None and i == jump:
            h += 150.
            given = True
        if dh:
            p.update(altitude_start=h, altitude_end=h + dh)
        else:
            p.update(altitude=h)
        s = mk.build(SUAVE, name, {}, p, n=n + (i % 2), course=course * i, an=an, start_alt_given=given)
        s.tag = 'seg_%d_%s' % (i, k)
        if i == 0:
            s.latitude, s.longitude = 20., 10.
        m.append_segment(s)
        plan.append((name, p, given, h))
        h += dh
    return m, plan


def fly(m):
    with contextlib.redirect_stdout(io.StringIO()):
        r = m.evaluate()
    return r


def leaves(d, path=''):
    for k, v in d.items():
        if isinstance(v, dict):
            for x in leaves(v, path + '.' + k):
                yield x
        elif isinstance(v, np.ndarray) and v.dtype.kind in 'fc':
            yield path + '.' + k, v


def snapshot(seg):
    return {k: v.copy() for part in ('conditions', 'unknowns') for k, v in leaves(seg.state[part], part)}


def same(ctx, a, b, key, msg, rtol=0., atol=0.):
    if not ctx.check(list(a) == list(b), key + ':entries', '%s: different entries %s' % (msg, sorted(set(a) ^ set(b))[:5])):
        return
    for k in a:
        if a[k].shape != b[k].shape:
            ctx.fail(key + ':shape', '%s: %s has shape %s, expected %s' % (msg, k, a[k].shape, b[k].shape))
        elif not np.allclose(a[k], b[k], rtol=rtol, atol=atol, equal_nan=True):
            d = np.abs(a[k] - b[k]).max()
            ctx.fail(key + ':' + k.split('.')[-1], '%s: %s differs by up to %g' % (msg, k, d))
    ctx.ev(n=len(a))


def scenarios(tier):
    ks = list(KINDS)
    return [[a, b] for a in ks for b in ks]


def prefix_states(SUAVE, seq, **kw):
    m, plan = mission(SUAVE, seq, **kw)
    fly(m)
    return [snapshot(s) for s in m.segments], m


def run(ctx, sc):
    import SUAVE
    a, b = sc
    ks = list(KINDS)
    base2, m2 = prefix_states(SUAVE, [a, b])
    base1, _ = prefix_states(SUAVE, [a])
    same(ctx, base2[0], base1[0], 'prefix', 'the first segment does not depend on what follows it')
    tails = [()] + [(k,) for k in ks]
    if not ctx.quick:
        tails += [(k, l) for k in ks for l in ('c1', 'k2', 'd2')]
    for tail in tails:
        seq = [a, b] + list(tail)
        m, plan = mission(SUAVE, seq)
        commanded = [{k: s[k] for k in p if k in s} for s, (nm, p, g, h) in zip(m.segments, plan)]
        ret = fly(m)
        ctx.trace()
        ctx.step(len(seq))
        ctx.state(tuple(seq))
        segs = list(m.segments)
        ctx.check([s.tag for s in segs] == ['seg_%d_%s' % (i, k) for i, k in enumerate(seq)], 'order', 'segments come back in the order they were appended')
        ctx.check([s.tag for s in ret.segments] == [s.tag for s in segs], 'results', 'the evaluated mission holds the segments')
        if not all(s.state.numerics.converged for s in segs):
            ctx.note('not_converged')
            continue
        prev = None
        for i, (s, (name, p, given, h)) in enumerate(zip(segs, plan)):
            mk.check_state(ctx, SUAVE, s, 'chain:' + name, {}, initials=prev)
            mk.check_commanded(ctx, SUAVE, name, s, p, 'chain:' + name)
            prev = s.state
            ctx.check({k: s[k] for k in commanded[i]} == commanded[i], 'inputs:' + name, 'evaluating keeps the commanded values: %s -> %s' % (commanded[i], {k: s[k] for k in commanded[i]}))
        snaps = [snapshot(s) for s in segs]
        same(ctx, snaps[0], base2[0], 'prefix', 'earlier segments do not depend on what follows them')
        same(ctx, snaps[1], base2[1], 'prefix', 'earlier segments do not depend on what follows them')
        if len(tail) <= 1:
            # again: from the solution
            fly(m)
            for i, s in enumerate(m.segments):
                same(ctx, {k: v for k, v in snapshot(s).items()}, snaps[i], 'again:' + plan[i][0], 'flying the mission a second time', rtol=2e-4, atol=1e-3)
            # a deep copy of an unflown mission flies the same, and leaves the original unflown
            m3, _ = mission(SUAVE, seq)
            before = [snapshot(s) for s in m3.segments]
            m4 = copy.deepcopy(m3)
            fly(m4)
            for i, (s3, s4) in enumerate(zip(m3.segments, m4.segments)):
                same(ctx, snapshot(s4), snaps[i], 'copy', 'a deep copy flies like the original')
                same(ctx, snapshot(s3), before[i], 'copy-original', 'flying a copy leaves the original as it was')
    # a jump in altitude: nothing before the jump moves
    for j in (1, 2):
        seq = [a, b, 'k1']
        mj, plan = mission(SUAVE, seq, jump=j)
        fly(mj)
        ctx.trace()
        segs = list(mj.segments)
        if all(s.state.numerics.converged for s in segs):
            for i in range(j):
                same(ctx, snapshot(segs[i]), base2[i], 'jump', 'a following segment that starts at another altitude does not move the previous one')
            prev = None
            for i, (s, (name, p, given, h)) in enumerate(zip(segs, plan)):
                mk.check_state(ctx, SUAVE, s, 'jump:' + name, {}, initials=prev)
                mk.check_commanded(ctx, SUAVE, name, s, p, 'jump:' + name)
                prev = s.state
    # all at once
    seq = [a, b]
    for seq in ([a, b],) if ctx.quick else ([a, b], [a, b, 'k1'], [a, b, 'd2']):
        if any(KINDS[k][0] == 'Climb.Constant_Mach_Constant_Angle' for k in seq):
            continue
        ma, plan = mission(SUAVE, seq, cls=SUAVE.Analyses.Mission.All_At_Once)
        ma.state.numerics.tolerance_solution = 1e-9
        ma.state.numerics.max_evaluations = 4000
        fly(ma)
        ctx.trace()
        ctx.check(ma.state.numerics.tolerance_solution == 1e-9 and ma.state.numerics.max_evaluations == 4000, 'aao:numerics', 'the mission keeps the solver settings it was given')
        ctx.check(ma.state.numerics.converged == ma.converged, 'aao:flag', 'the state carries the convergence flag')
        if not ma.converged:
            ctx.note('aao_nc')
            continue
        ctx.note('aao')
        ms, _ = mission(SUAVE, seq)
        fly(ms)
        for i, (x, y) in enumerate(zip(ma.segments, ms.segments)):
            sx, sy = snapshot(x), snapshot(y)
            same(ctx, sx, sy, 'aao', 'solving all segments at once gives the segments solved one after another', rtol=1e-4, atol=2e-3)
        for k, v in leaves(ma.state.conditions, 'conditions'):
            parts = [dict(leaves(s.state.conditions, 'conditions')).get(k) for s in ma.segments]
            if v.ndim == 2 and all(p is not None for p in parts):
                full = np.vstack(parts)
                if full.shape != v.shape or not np.allclose(full, v, rtol=1e-12, atol=1e-12, equal_nan=True):
                    ctx.fail('aao:merged', 'the mission state is the segments one after another: %s' % k)
                ctx.ev()
    # variable range
    for cr in ([x for x in (a, b) if x == 'k1'] if a != b and 'a1' not in (a, b) else []):   # merged states need the same number of residuals
        for kind, frac in (('w', .985), ('w', .96)):
            mv, plan = mission(SUAVE, [a, b], cls=SUAVE.Analyses.Mission.Variable_Range_Cruise.Given_Weight)
            mv.cruise_tag = [s.tag for s in mv.segments if s.tag.endswith('k1')][0]
            mv.target_landing_weight = mk.MASS * frac
            fly(mv)
            ctx.trace()
            if not mv.converged:
                ctx.note('vrc_nc')
                continue
            ctx.note('vrc')
            segs = list(mv.segments)
            ctx.close(segs[-1].state.conditions.weights.total_mass[-1, 0], mk.MASS * frac, 'vrc:weight', 'lands at the target weight', rtol=1e-5)
            d = float(np.ravel(mv.segments[mv.cruise_tag].distance)[0])
            prev = None
            for s, (name, p, given, h) in zip(segs, plan):
                q = dict(p)
                if s.tag == mv.cruise_tag:
                    q['distance'] = d
                mk.check_commanded(ctx, SUAVE, name, s, q, 'vrc:' + name)
                mk.check_state(ctx, SUAVE, s, 'vrc:' + name, {}, initials=prev, forces=False)
                prev = s.state
    ctx.sample(dict(sequence=[a, b]))
