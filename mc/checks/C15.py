"""Every mission segment flies exactly what it was told, and its state is consistent with itself at every control point.
"""
import itertools, contextlib, io
import numpy as np
from mc import missionkit as mk
LEVEL = 'model_checking'
BOUNDS = ('every segment type (climb, cruise, descent, hover, single point, transition, ground) x its grid of commanded values x '
          '{start altitude given, taken from the previous segment} x {first segment, after a previous one} x temperature deviation x course x number of control points')
ASSUMPTIONS = ['closed-form aerodynamics and propulsion stand in for the vehicle models', 'the scipy root finder returns a root of the residuals it is given when it says so']
MIN = {'evals': 100000, 'converged': 2200}


def scenarios(tier):
    q = tier != 'thorough'
    out = []
    for name, spec in mk.table(q).items():
        for i in range(len(spec['params'])):
            out.append([name, i])
    return out


def run(ctx, sc):
    import SUAVE
    name, i = sc
    spec = dict(mk.table(ctx.quick)[name])
    p = spec['params'][i]
    single = spec.get('single')
    pack = name.split('.')[0]
    ns = [1] if single else [8, 9] if pack == 'Ground' and ctx.quick else [6, 8, 16] if pack == 'Ground' else [4, 9] if ctx.quick else [3, 4, 8, 16]
    env = [(0., 0., None), (12., 2.4, (35., -100.))]
    if not ctx.quick:
        env = [(d, c, (35., -100.) if c else None) for d in (0., 12., -15.) for c in (0., .6, 2.4, -1.)]
    if name.endswith('Linear_Climb') or pack == 'Ground' or name.endswith(('Pitch_Rate_Constant_Altitude', 'Throttle_Constant_Altitude')):
        spec['solved_speed'] = pack == 'Ground' or name.endswith('Throttle_Constant_Altitude')
    if name.endswith('No_Propulsion'):
        spec['noprop'] = True
    if pack == 'Hover':
        spec['hover'] = True
    for n, (dev, course, where), prev in itertools.product(ns, env, (False, True)):
        seg = mk.build(SUAVE, name, spec, p, n=n, dev=dev, course=course)
        init = None
        if prev:
            if pack == 'Ground' or single:
                continue
            pr = mk.build(SUAVE, 'Cruise.Constant_Speed_Constant_Altitude', {}, dict(altitude=p.get('altitude', p.get('altitude_start')), air_speed=130., distance=7e3), n=4, course=.5)
            with contextlib.redirect_stdout(io.StringIO()):
                pr.evaluate()
            seg = mk.build(SUAVE, name, spec, p, n=n, dev=dev, course=course, start_alt_given=False)
            seg.state.initials = pr.state
            init = pr.state
        if where:
            seg.latitude, seg.longitude = where
        key = '%s%s' % (name, ':chained' if prev else '')
        with contextlib.redirect_stdout(io.StringIO()):
            seg.evaluate()
        ctx.trace()
        ctx.step(n)
        ctx.note('converged' if seg.state.numerics.converged else 'not_converged')
        ctx.state((name, i, n, dev, course, prev))
        if not seg.state.numerics.converged:
            ctx.note('nc:' + name)
            continue
        ctx.note('ok:' + name)
        mk.check_state(ctx, SUAVE, seg, key, spec, init)
        if pack != 'Ground' or seg.state.conditions.frames.inertial.time[-1, 0] > seg.state.conditions.frames.inertial.time[0, 0]:
            mk.check_commanded(ctx, SUAVE, name, seg, p, key)
