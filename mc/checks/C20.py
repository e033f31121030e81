"""Sized jet and rocket networks deliver their design thrust and follow the engine cycle at every operating point and history.
"""
import copy, itertools
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('turbofan, turbojet (dry, afterburning), ducted fan, ramjet, scramjet, rocket x cycle settings x design points; 8 operating points with 8 throttles: full batch, single rows, '
          'all ordered pairs, reversed, repeated; all histories up to length 3 (4) of {evaluate, evaluate another batch, one engine out, size again, copy}')
ASSUMPTIONS = ['thrust model of the package (specific thrust from exit minus flight velocity plus pressure thrust, corrected core mass flow)', 'ram and rocket engines: components as decided by C19']
MIN = {'evals': 20000}
TIME_LIMIT = 400
PTS = G.GRID
THR = [1., 0., .3, .5, .8, .9, 1., .65]
RAMPTS = [(2., 10000.), (2.5, 10000.), (3., 15000.), (3.5, 20000.)]
SCRPTS = [(4.5, 20000.), (6.5, 20000.), (6., 25000.), (8., 30000.)]


def scenarios(tier):
    out = []
    for b in (.5, 5.4):
        for n in (1, 2, 4):
            for inp in (.98, 1.):
                out.append(['fan', b, n, inp, .95 if n == 2 else 1., 0. if n != 2 else .08, 0])
    out += [['fan', 5.4, 2, .98, .95, 0., 1], ['fan', 1.2, 2, 1., .95, .05, 1]]
    out += [['jet', n, ab, s] for n in (1, 4) for ab in (0, 1) for s in (0., .1)]
    out += [['duct', n, pr, b] for n in (1, 2) for pr in (1.1, 1.3) for b in (0.,)]
    out += [['ramjet', n, T] for n in (1, 2) for T in (1800., 2400.)] + [['scramjet', n, k] for n in (1, 2) for k in (1, 3)] + [['rocket', n, A] for n in (1, 5) for A in (8., 16.)]
    d = 4 if tier == 'thorough' else 3
    out += [['hist', k, first, d] for k in ('fan', 'jet', 'ab', 'duct', 'ramjet', 'scramjet', 'rocket') for first in OPS]
    return out


OPS = ('A', 'B', 'out', 'size', 'copy')


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    globals()['C'] = G.S().Components.Energy.Converters
    with np.errstate(all='ignore'):
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


def near(ctx, a, b, key, msg, rtol=1e-9, atol=0.):
    ctx.close(a, np.broadcast_to(b, np.shape(a)) if np.ndim(b) else b, key, msg, rtol=rtol, atol=atol)


# ---------------------------------------------------------------- reference cycle
def compress(T, P, g, pr, e):
    return T * pr ** ((g - 1) / (g * e)), P * pr


def inlet(p, c, g):
    T, P = compress(c['stagnation_temperature'], c['stagnation_pressure'], g, p['inp'], p['ine'])
    return T, np.maximum(P, c['pressure'])


def expand(T, P, g, cp, w, f, mech, pol):
    T2 = T - w / ((1 + f) * mech * cp)
    return T2, P * (T2 / T) ** (g / ((g - 1) * pol))


def nozzle(c, T, P, pr, e, sup=False):
    g, Rg, p0 = c['isentropic_expansion_factor'], c['gas_specific_constant'], c['pressure']
    Pt, Tt = P * pr, T * pr ** ((g - 1) / g * e)
    full = G.mach_of(Pt / p0, g)
    M = full if sup else np.minimum(full, 1.)
    Ps = p0 if sup else np.where(full < 1, p0, Pt / ((g + 1) / 2) ** (g / (g - 1)))
    Ts = Tt / (1 + (g - 1) / 2 * M * M)
    u = np.sqrt(2 * c['specific_heat_at_constant_pressure'] * (Tt - Ts))
    A = G.massflux(c['mach_number'], c['stagnation_pressure'], c['stagnation_temperature'], g, Rg) / G.massflux(M, Pt, Tt, g, Rg)
    return dict(u=u, A=A, P=Ps, T=Ts, Tt=Tt, Pt=Pt)


def per(c, z):
    rho = c['isentropic_expansion_factor'] * c['pressure'] / c['speed_of_sound'] ** 2
    return z['u'] - c['velocity'] + z['A'] * (z['P'] - c['pressure']) / (rho * c['velocity'])


def fuel(cp, Tin, Tout, e, lhv, r=1.):
    return r * cp * (Tout - Tin) / (e * lhv - r * cp * Tout)


def corrected(T, P):
    return np.sqrt(288.15 / T) * P / 101325.


LHV = 43.02e6


def fan_ref(p, c, mdhc=None, off=0.):
    """specific thrust per core mass flow, fuel to air ratio, corrected mass flow factor, exit states"""
    g, cp = c['isentropic_expansion_factor'], c['specific_heat_at_constant_pressure']
    T2, P2 = inlet(p, c, g)
    Tl, Pl = compress(T2, P2, g, p['lpc'], p['lpe'])
    Th, Ph = compress(Tl, Pl, g, p['hpc'], p['hpe'])
    Tf, Pf = compress(T2, P2, g, p['fan'], p['fe'])
    f = fuel(cp, Th, p['T4'], p['be'], p['lhv'])
    Tt, Pt = expand(p['T4'] * np.ones_like(g), Ph * p['bp'], g, cp, cp * (Th - Tl), f, p['tm'], p['tp'])
    w = cp * (Tl - T2) + p['bpr'] * cp * (Tf - T2)
    q = corrected(Tl, Pl)
    if off:
        w = w + off / (mdhc * q)
    Tt, Pt = expand(Tt, Pt, g, cp, w, f, p['tm'], p['tp'])
    core, fan = nozzle(c, Tt, Pt, p['cnp'], p['cne']), nozzle(c, Tf, Pf, p['fnp'], p['fne'])
    return per(c, core) + p['bpr'] * per(c, fan), f, q, dict(core=core, fan=fan)


def jet_ref(p, c, ab):
    g, cp = c['isentropic_expansion_factor'], c['specific_heat_at_constant_pressure']
    T2, P2 = inlet(p, c, g)
    Tl, Pl = compress(T2, P2, g, p['lpc'], p['lpe'])
    Th, Ph = compress(Tl, Pl, g, p['hpc'], p['hpe'])
    f = fuel(cp, Th, p['T4'], p['be'], p['lhv'])
    Tt, Pt = expand(p['T4'] * np.ones_like(g), Ph * p['bp'], g, cp, cp * (Th - Tl), f, p['tm'], p['tp'])
    Tt, Pt = expand(Tt, Pt, g, cp, cp * (Tl - T2), f, p['tm'], p['tp'])
    if ab:
        fa = fuel(cp, Tt, p['Tab'], p['be'], p['lhv'], 1 + f)
        Tt, Pt = p['Tab'] * np.ones_like(g), Pt * p['abp']
        f = f + fa
    z = nozzle(c, Tt, Pt, p['cnp'], p['cne'], True)
    return per(c, z), f, corrected(Tl, Pl), dict(core=z)


def duct_ref(p, c):
    g = c['isentropic_expansion_factor']
    T2, P2 = inlet(p, c, g)
    Tf, Pf = compress(T2, P2, g, p['fan'], p['fe'])
    z = nozzle(c, Tf, Pf, p['fnp'], p['fne'])
    return per(c, z), 0., corrected(z['Tt'], z['Pt']), dict(fan=z)


# ---------------------------------------------------------------- engines
def comp(net, name, cls, **kw):
    m = cls()
    m.tag = name
    for k, v in kw.items():
        m[k] = v
    net.append(m)
    return m


P0 = dict(inp=.98, ine=.99, lpc=1.14, lpe=.91, hpc=13.4, hpe=.92, fan=1.7, fe=.93, T4=1450., be=.99, bp=.95, tm=.98, tp=.93, cnp=.99, cne=.95, fnp=.985, fne=.96, Tab=1850., abp=.96)


def common(net, p, n, total, sfc):
    net.number_of_engines = n
    net.working_fluid = SUAVE.Attributes.Gases.Air()
    comp(net, 'ram', C.Ram)
    comp(net, 'inlet_nozzle', C.Compression_Nozzle, polytropic_efficiency=p['ine'], pressure_ratio=p['inp'])
    t = SUAVE.Components.Energy.Processes.Thrust()
    t.tag = 'thrust'
    t.total_design = total
    net.thrust = t
    if sfc is not None:
        net.SFC_adjustment = sfc
        t.SFC_adjustment = sfc


def core(net, p, conv):
    comp(net, 'low_pressure_compressor', C.Compressor, polytropic_efficiency=p['lpe'], pressure_ratio=p['lpc'])
    comp(net, 'high_pressure_compressor', C.Compressor, polytropic_efficiency=p['hpe'], pressure_ratio=p['hpc'])
    for s in ('low', 'high'):
        comp(net, s + '_pressure_turbine', C.Turbine, mechanical_efficiency=p['tm'], polytropic_efficiency=p['tp'])
    b = comp(net, 'combustor', C.Combustor, efficiency=p['be'], turbine_inlet_temperature=p['T4'], pressure_ratio=p['bp'])
    b.fuel_data = SUAVE.Attributes.Propellants.Jet_A()
    p['lhv'] = b.fuel_data.specific_energy
    comp(net, 'core_nozzle', conv, polytropic_efficiency=p['cne'], pressure_ratio=p['cnp'])


def make_fan(p, n, total, sfc=0.):
    e = SUAVE.Components.Energy.Networks.Turbofan()
    e.bypass_ratio = p['bpr']
    common(e, p, n, total, sfc)
    core(e, p, C.Expansion_Nozzle)
    comp(e, 'fan', C.Fan, polytropic_efficiency=p['fe'], pressure_ratio=p['fan'])
    comp(e, 'fan_nozzle', C.Expansion_Nozzle, polytropic_efficiency=p['fne'], pressure_ratio=p['fnp'])
    return e


def make_jet(p, n, total, ab, sfc=0.):
    e = SUAVE.Components.Energy.Networks.Turbojet_Super()
    common(e, p, n, total, sfc)
    core(e, p, C.Supersonic_Nozzle)
    if ab:
        b = comp(e, 'afterburner', C.Combustor, efficiency=p['be'], turbine_inlet_temperature=p['Tab'], pressure_ratio=p['abp'])
        b.fuel_data = SUAVE.Attributes.Propellants.Jet_A()
    return e


def make_duct(p, n, total):
    e = SUAVE.Components.Energy.Networks.Ducted_Fan()
    e.bypass_ratio = p['bpr']
    common(e, p, n, total, None)
    comp(e, 'fan', C.Fan, polytropic_efficiency=p['fe'], pressure_ratio=p['fan'])
    comp(e, 'fan_nozzle', C.Expansion_Nozzle, polytropic_efficiency=p['fne'], pressure_ratio=p['fnp'])
    return e


def make_ramjet(n, T4, total):
    e = SUAVE.Components.Energy.Networks.Ramjet()
    common(e, dict(ine=1., inp=1.), n, total, None)
    e.inlet_nozzle.compressibility_effects = True
    b = comp(e, 'combustor', C.Combustor, efficiency=1., turbine_inlet_temperature=T4, pressure_ratio=1., area_ratio=2.)
    b.fuel_data = SUAVE.Attributes.Propellants.Jet_A()
    b.rayleigh_analyses = True
    comp(e, 'core_nozzle', C.Supersonic_Nozzle, polytropic_efficiency=1., pressure_ratio=1.)
    return e


def make_scramjet(n, levels, total):
    e = SUAVE.Components.Energy.Networks.Scramjet()
    common(e, dict(ine=.9, inp=1.), n, total, None)
    e.inlet_nozzle.theta = list(np.radians([9., 7., 5.]))[:levels]
    e.inlet_nozzle.compression_levels = levels
    b = comp(e, 'combustor', C.Combustor, efficiency=.9, pressure_ratio=1., area_ratio=2., burner_drag_coefficient=.01, fuel_equivalency_ratio=.4)
    b.fuel_data = SUAVE.Attributes.Propellants.Liquid_H2()
    comp(e, 'core_nozzle', C.Supersonic_Nozzle, polytropic_efficiency=.9, pressure_expansion_ratio=1.1)
    return e


def make_rocket(n, A, total):
    e = SUAVE.Components.Energy.Networks.Liquid_Rocket()
    e.number_of_engines = n
    b = comp(e, 'combustor', C.Rocket_Combustor)
    b.propellant_data = SUAVE.Attributes.Propellants.LOX_RP1()
    b.inputs.combustion_pressure = 7e6
    comp(e, 'core_nozzle', C.de_Laval_Nozzle, polytropic_efficiency=1., expansion_ratio=A, area_throat=.6, pressure_ratio=1.)
    t = SUAVE.Components.Energy.Processes.Rocket_Thrust()
    t.tag = 'thrust'
    t.total_design, t.ISP_design = total, 270.
    e.thrust = t
    return e


def sizing(kind):
    return getattr(SUAVE.Methods.Propulsion, dict(fan='turbofan', jet='turbojet', duct='ducted_fan', ramjet='ramjet', scramjet='scramjet', rocket='liquid_rocket')[kind] + '_sizing')


def call(e, c, how='evaluate_thrust'):
    st = G.state(c)
    r = getattr(e, how)(st)
    return r, st


def columns(r, n):
    o = R.flat(r)
    return {k: v for k, v in o.items()}


def drive(ctx, key, e, c):
    n = len(c['mach_number'])

    def f(c):
        r, st = call(e, c)
        for k, v in c.items():
            w = st.conditions.propulsion.throttle if k == 'throttle' else st.conditions.freestream[k]
            ctx.check(np.array_equal(np.asarray(w, dtype=float) * np.ones_like(v), v), key + ':conditions:' + k, 'the operating conditions were changed')
        o = R.flat(r)
        nz = st.conditions.noise.sources
        for _, s in nz.items():
            o.update({'noise.' + k: v for k, v in R.flat(s).items()})
        return o
    return R.rowcheck(ctx, key, f, c, rtol=1e-8 if key in ('ramjet',) else 1e-10)


DES = {'fan': (.78, 10668.), 'jet': (2.02, 17000.), 'duct': (.5, 10000.), 'ramjet': (2.5, 10000.), 'scramjet': (6.5, 20000.), 'rocket': (.01, 0.)}


def design(ctx, key, kind, make, total, n):
    """the two ways of sizing agree, sizing again changes nothing; returns the sized network"""
    M, h = DES[kind]
    e = make()
    if kind == 'rocket':
        sizing(kind)(e, altitude=h)
    else:
        sizing(kind)(e, mach_number=M, altitude=h)
    mp = [(M, h)]
    c = G.freestream(mp, var_gamma=kind in ('ramjet', 'scramjet', 'rocket'))
    if kind in ('ramjet', 'scramjet', 'rocket'):
        c['gravity'][:] = SUAVE.Attributes.Planets.Earth().compute_gravity(h)
    con = G.conditions(c)
    keep = copy.deepcopy(con)
    e2 = make()
    sizing(kind)(e2, conditions=con)
    for k in c:
        w = con.propulsion.throttle if k == 'throttle' else con.freestream[k]
        ctx.check(np.array_equal(w * np.ones_like(c[k]), c[k]), key + ':size:input', 'sizing changed the given %s' % k)
    a, b = sized(e), sized(e2)
    near(ctx, a[0], b[0], key + ':size:two-ways', 'sized by Mach and altitude, and by the same conditions', 1e-9)
    near(ctx, a[1], b[1], key + ':size:two-ways', 'sea level static thrust by either way of sizing', 1e-9)
    if kind != 'rocket':
        sizing(kind)(e, mach_number=M, altitude=h)
        near(ctx, sized(e)[0], a[0], key + ':size:again', 'sizing again', 1e-12)
        near(ctx, e.design_thrust, total, key + ':size:design-thrust', 'design thrust recorded', 1e-12)
    ctx.trace(3)
    return e, c


def sized(e):
    t = e.thrust
    v = t.get('compressor_nondimensional_massflow', None)
    return np.ravel(np.asarray(0. if v is None else v, dtype=float)), np.ravel(np.asarray(e.sealevel_static_thrust, dtype=float))


def judge(ctx, key, o, c, want, fuelflow, n):
    F = o['thrust_force_vector']
    near(ctx, F[:, 0:1], want, key + ':F', 'thrust', 1e-8, 1e-6)
    ctx.check(np.all(F[:, 1:] == 0), key + ':Fyz', 'thrust acts along x')
    near(ctx, o['vehicle_mass_rate'].reshape(-1, 1), fuelflow, key + ':fuel', 'fuel flow', 1e-8, 1e-10)


def r_fan(ctx, bpr, n, inp, bp, sfc, off):
    p = dict(P0, bpr=bpr, inp=inp, bp=bp)
    total = 24000. * n
    e, cd = design(ctx, 'fan', 'fan', lambda: make_fan(p, n, total, sfc), total, n)
    sp, f, q, _ = fan_ref(p, cd)
    mdhc = total / n / (sp * q)
    near(ctx, np.ravel(e.thrust.compressor_nondimensional_massflow), np.ravel(mdhc), 'fan:mdhc', 'sized corrected core mass flow', 1e-9)
    r, _ = call(e, cd)
    near(ctx, r.thrust_force_vector[:, 0:1], total, 'fan:design', 'thrust at the design point', 1e-9)
    sl = G.freestream([(.01, 0.)])
    sps, fs, qs, _ = fan_ref(p, sl)
    near(ctx, np.ravel(e.sealevel_static_thrust), np.ravel(sps * mdhc * qs), 'fan:sls', 'sea level static thrust per engine', 1e-8)
    if off:
        s = C.Shaft_Power_Off_Take()
        s.power_draw = 5e4
        s.tag = 'Shaft_Power_Off_Take'
        e.Shaft_Power_Off_Take = s
    c = G.freestream(PTS, throttle=THR)
    o = drive(ctx, 'fan', e, c)
    sp, f, q, ex = fan_ref(p, c, mdhc, 5e4 if off else 0.)
    mc = mdhc * q * n * c['throttle']
    judge(ctx, 'fan', o, c, sp * mc, np.maximum(f, 0) * mc * (1 - sfc), n)
    for s in ('core', 'fan'):
        for k, v in (('exit_static_temperature', 'T'), ('exit_static_pressure', 'P'), ('exit_stagnation_temperature', 'Tt'), ('exit_stagnation_pressure', 'Pt'), ('exit_velocity', 'u')):
            got = o['noise.%s.%s' % (s, k)]
            if v == 'Pt' and R.same(got, ex[s]['P'], 1e-8):
                ctx.fail('fan:noise:%s:stagnation-is-static' % s, 'the exit stagnation pressure handed to the noise model is the static one: %s, not %s' % (got.ravel()[:2], ex[s][v].ravel()[:2]))
            else:
                near(ctx, got, ex[s][v], 'fan:noise:%s:%s' % (s, k), 'exit state handed to the noise model', 1e-8)
    out_one(ctx, 'fan', e, c, n)


def out_one(ctx, key, e, c, n):
    ref, _ = call(e, dict(c, throttle=np.ones_like(c['throttle'])))
    c2 = {k: v.copy() for k, v in c.items()}
    r, st = call(e, c2, 'engine_out')
    near(ctx, r.thrust_force_vector, ref.thrust_force_vector * (n - 1) / n, key + ':engine-out:F', 'one engine out of n at full throttle', 1e-10, 1e-9)
    near(ctx, r.vehicle_mass_rate, ref.vehicle_mass_rate * (n - 1) / n, key + ':engine-out:fuel', 'fuel with one engine out', 1e-10, 1e-12)
    near(ctx, st.conditions.propulsion.throttle, c['throttle'], key + ':engine-out:throttle', 'throttle afterwards', 0.)


def r_jet(ctx, n, ab, sfc):
    p = dict(P0, lpc=3.1, hpc=5., inp=1., ine=1.)
    total = 40000. * n
    def make():
        return make_jet(p, n, total, ab, sfc)
    e, cd = design(ctx, 'jet', 'jet', make, total, n)
    sp, f, q, _ = jet_ref(p, cd, 0)
    mdhc = total / n / (sp * q)
    near(ctx, np.ravel(e.thrust.compressor_nondimensional_massflow), np.ravel(mdhc), 'jet:mdhc', 'sized corrected core mass flow', 1e-9)
    r, _ = call(e, cd)
    near(ctx, r.thrust_force_vector[:, 0:1], total, 'jet:design', 'thrust at the design point', 1e-9)
    e.afterburner_active = bool(ab)
    c = G.freestream(PTS, throttle=THR)
    o = drive(ctx, 'jet', e, c)
    sp, f, q, ex = jet_ref(p, c, ab)
    mc = mdhc * q * n * c['throttle']
    judge(ctx, 'jet', o, c, sp * mc, np.maximum(f, 0) * mc * (1 - sfc), n)
    out_one(ctx, 'jet', e, c, n)
    if ab:
        e.afterburner_active = False
        o = R.flat(call(e, c)[0])
        sp, f, q, ex = jet_ref(p, c, 0)
        judge(ctx, 'jet:off-again', o, c, sp * mdhc * q * n * c['throttle'], np.maximum(f, 0) * mdhc * q * n * c['throttle'] * (1 - sfc), n)


def r_duct(ctx, n, pr, bpr):
    p = dict(P0, fan=pr, bpr=bpr)
    total = 10000. * n
    e, cd = design(ctx, 'duct', 'duct', lambda: make_duct(p, n, total), total, n)
    sp, _, q, _ = duct_ref(p, cd)
    r, _ = call(e, cd)
    near(ctx, r.thrust_force_vector[:, 0:1], total, 'duct:design', 'thrust at the design point', 1e-9)
    c = G.freestream(PTS, throttle=THR)
    base = total / (sp * q)
    frozen = q
    o = drive(ctx, 'duct', e, c)
    sp, _, q, ex = duct_ref(p, c)
    mc = base * q * c['throttle']
    if R.same(o['thrust_force_vector'][:, 0:1], sp * base * frozen * c['throttle'], 1e-8, 1e-6):
        ctx.fail('duct:mass-flow-frozen', 'the mass flow stays the one of the sizing point whatever the flight condition: thrust %s, not %s' % (o['thrust_force_vector'][:3, 0], (sp * mc).ravel()[:3]))
        mc = base * frozen * c['throttle']
    judge(ctx, 'duct', o, c, sp * mc, np.zeros_like(sp), n)
    F, u0, ue = sp * mc, c['velocity'], ex['fan']['u']
    near(ctx, o['power'].reshape(-1, 1), F * u0 * (1 + ue / u0) / 2, 'duct:power', 'shaft power over the propulsive efficiency', 1e-8, 1e-6)
    for k, v in (('exit_static_temperature', 'T'), ('exit_static_pressure', 'P'), ('exit_stagnation_temperature', 'Tt'), ('exit_stagnation_pressure', 'Pt'), ('exit_velocity', 'u')):
        near(ctx, o['noise.fan.' + k], ex['fan'][v], 'duct:noise:' + k, 'exit state handed to the noise model', 1e-8)


def chain(kind, e, c):
    """the engine's components, each a fresh copy fed by hand"""
    e = copy.deepcopy(e)
    con = G.conditions(c)
    g, Rg = c['isentropic_expansion_factor'], c['gas_specific_constant']
    i, b, z = copy.deepcopy(e.inlet_nozzle), copy.deepcopy(e.combustor), copy.deepcopy(e.core_nozzle)
    D = SUAVE.Core.Data
    for m in (i, b, z):
        m.inputs, m.outputs = D(), D()
    i.inputs.stagnation_temperature, i.inputs.stagnation_pressure = c['stagnation_temperature'], c['stagnation_pressure']
    if kind == 'ramjet':
        i.compute(con)
        for k in ('stagnation_temperature', 'stagnation_pressure', 'mach_number'):
            b.inputs[k] = i.outputs[k]
        b.compute_rayleigh(con)
        z.inputs.stagnation_temperature, z.inputs.stagnation_pressure = b.outputs.stagnation_temperature, b.outputs.stagnation_pressure
        z.compute_limited_geometry(con)
        q = z.outputs
        sp = per(c, dict(u=q.velocity, A=q.area_ratio, P=q.static_pressure))
    else:
        i.compute_scramjet(con)
        b.inputs.inlet_nozzle, b.inputs.stagnation_temperature, b.inputs.stagnation_pressure = i.outputs, i.outputs.stagnation_temperature, i.outputs.stagnation_pressure
        b.compute_supersonic_combustion(con)
        for k, v in b.outputs.items():
            z.inputs[k] = v
        z.compute_scramjet(con)
        q = z.outputs
        u, T0, f = c['velocity'], c['temperature'], b.outputs.fuel_to_air_ratio
        sp = (1 + f) * (q.velocity + Rg * q.temperature / q.velocity) - (u + Rg * T0 / u) - Rg * T0 / u * (q.area_ratio - 1)
    return sp, b.outputs.fuel_to_air_ratio, corrected(q.stagnation_temperature, q.stagnation_pressure)


def r_ramjet(ctx, n, T4):
    ram(ctx, 'ramjet', lambda: make_ramjet(n, T4, 1e5 * n), n, 1e5 * n, RAMPTS)


def r_scramjet(ctx, n, k):
    ram(ctx, 'scramjet', lambda: make_scramjet(n, k, 1.2e5 * n), n, 1.2e5 * n, SCRPTS)


def ram(ctx, kind, make, n, total, pts):
    e, cd = design(ctx, kind, kind, make, total, n)
    r, _ = call(e, cd)
    near(ctx, r.thrust_force_vector[:, 0:1], total, kind + ':design', 'thrust at the design point', 1e-9)
    sp, f, q = chain(kind, make(), cd)
    base = total / (sp * q)
    c = G.freestream(pts, throttle=[1., .5, .8, 0.])
    o = drive(ctx, kind, e, c)
    sp, f, q = chain(kind, make(), c)
    mc = base * q * c['throttle']
    judge(ctx, kind, o, c, sp * mc, np.maximum(f, 0) * mc, n)
    near(ctx, o['specific_impulse'].reshape(-1, 1), sp / (f * 9.81), kind + ':isp', 'specific impulse', 1e-7)


def r_rocket(ctx, n, A):
    e, cd = design(ctx, 'rocket', 'rocket', lambda: make_rocket(n, A, 5e6 * n), 5e6 * n, n)
    c = G.freestream([(.01, h) for h in (0., 5000., 15000., 40000.)], throttle=[1., .6, .9, 1.])
    o = drive(ctx, 'rocket', e, c)
    p = SUAVE.Attributes.Propellants.LOX_RP1()
    g, Rg, Tc = p.isentropic_expansion_factor, p.gas_specific_constant, p.combustion_temperature
    M = G.area_mach(A, g, False)
    T = Tc / (1 + (g - 1) / 2 * M * M)
    P = 7e6 / (1 + (g - 1) / 2 * M * M) ** (g / (g - 1))
    ue, Ae = M * np.sqrt(g * Rg * T), A * .6
    md = P / (Rg * T) * ue * Ae * n * c['throttle']
    F = md * ue + (P - c['pressure']) * Ae * n * c['throttle']
    near(ctx, o['thrust_force_vector'][:, 0:1], np.maximum(F, 0), 'rocket:F', 'thrust of all engines', 1e-5)
    near(ctx, o['vehicle_mass_rate'].reshape(-1, 1), md, 'rocket:mdot', 'propellant of all engines', 1e-5)
    near(ctx, np.ravel(e.sealevel_static_thrust), (F[0] / n).ravel(), 'rocket:sls', 'sea level thrust per engine', 1e-4)


# ---------------------------------------------------------------- histories
def r_hist(ctx, kind, first, depth):
    k = 'jet' if kind == 'ab' else kind
    p = dict(P0, bpr=5.4)
    pj = dict(P0, lpc=3.1, hpc=5., inp=1., ine=1.)
    mk = dict(fan=lambda: make_fan(p, 2, 48000.), jet=lambda: make_jet(pj, 2, 8e4, 0), ab=lambda: make_jet(pj, 2, 8e4, 1), duct=lambda: make_duct(dict(P0, fan=1.2, bpr=0.), 2, 2e4),
              ramjet=lambda: make_ramjet(2, 2400., 2e5), scramjet=lambda: make_scramjet(2, 2, 2e5), rocket=lambda: make_rocket(2, 16., 1e7))[kind]
    M, h = DES[k]

    def size(e):
        kw = dict(altitude=h) if k == 'rocket' else dict(mach_number=M, altitude=h)
        e.afterburner_active = False
        sizing(k)(e, **kw)
        e.afterburner_active = kind == 'ab'
    pts = dict(ramjet=RAMPTS, scramjet=SCRPTS, rocket=[(.01, 0.), (.01, 9000.), (.01, 30000.)]).get(k, PTS[1:5])
    A = G.freestream(pts[:3], throttle=[1., .4, .7])
    B = G.freestream(pts[-2:], throttle=[.9, .2], disa=7. if k not in ('rocket',) else 0.)

    def ev(e, c):
        r, st = call(e, {a: b.copy() for a, b in c.items()})
        o = R.flat(r)
        for _, s in st.conditions.noise.sources.items():
            o.update({'noise.' + a: b for a, b in R.flat(s).items()})
        return o
    fresh = {}
    for nm, c in (('A', A), ('B', B)):
        e = mk()
        size(e)
        fresh[nm] = ev(e, c)
    ops = [o for o in OPS if o != 'out' or k in ('fan', 'jet')]
    if first not in ops:
        return
    for tail in itertools.product(ops, repeat=depth - 1):
        e = mk()
        size(e)
        kept = []
        ok = True
        for i, op in enumerate((first,) + tail + ('A',)):
            if op in 'AB':
                r = ev(e, A if op == 'A' else B)
                ok = set(r) == set(fresh[op]) and all(R.same(r[q], fresh[op][q], 1e-10) for q in r)
                ctx.check(ok, 'hist:%s:%s' % (kind, op), lambda: 'after %s the evaluation differs from the one of a freshly sized engine: %s' % (
                    ((first,) + tail)[:i], [(q, np.ravel(r[q])[:3], np.ravel(fresh[op][q])[:3]) for q in r if q in fresh[op] and not R.same(r[q], fresh[op][q], 1e-10)][:2]))
            elif op == 'out':
                call(e, {a: b.copy() for a, b in B.items()}, 'engine_out')
            elif op == 'size':
                size(e)
            else:
                e = copy.deepcopy(e)
            ctx.state((kind, ((first,) + tail)[:i + 1]))
            ctx.step()
            if not ok:
                break
        ctx.trace()
