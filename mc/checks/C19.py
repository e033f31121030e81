"""Gas-turbine, ramjet, scramjet and rocket components obey their relations at every operating point.
"""
import itertools
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('every component x a grid of efficiencies, pressure ratios and temperatures x 8 operating points (sea level standstill to Mach 2; Mach 3-9 for the ram engines): the full batch, every '
          'single row, every ordered pair, the reversed batch, asked twice; gas-dynamic functions on grids of Mach number, ratio of specific heats, area ratio, deflection')
ASSUMPTIONS = ['compression with shocks is used with a pressure recovery of one', 'limited-geometry nozzles: exit pressure and Mach number are judged, not the reported area ratio behind a shock']
MIN = {'evals': 30000}
TIME_LIMIT = 300
PTS = G.GRID


def scenarios(tier):
    out = [['ram', d] for d in (0., 15.)]
    effs = (1., .91, .8)
    out += [[c, p, e] for c in ('compressor', 'fan') for p in (1., 1.7, 14.) for e in effs]
    out += [['combustor', T, p, e, r] for T in (1300., 1700.) for p in (.95, 1.) for e in (1., .9) for r in (1., 1.02)]
    out += [['turbine', m, p, b, o] for m in (1., .97) for p in (1., .9) for b in (0., 6.) for o in (0, 1)]
    out += [['starved', p, e] for p in (1., .98) for e in (1., .93)]
    out += [['nozzle', k, p, e, x] for k in ('Expansion_Nozzle', 'Supersonic_Nozzle') for p in (1., .98) for e in (1., .93) for x in (1.4, 3., 12.)]
    out += [['inlet', c, p, e, r] for c in (0, 1) for p in (1., .98) for e in (1., .96) for r in ((1.,) if c else (1., .94))]
    out += [['limited', lo, hi] for lo, hi in ((1.5, 1.5), (1.2, 3.), (1.0001, 6.))]
    out += [['thrust', b, n, s] for b in (0., 5.) for n in (1, 3) for s in (0., .1)]
    out += [['stream', n] for n in (1, 2)]
    out += [['offtake', p] for p in (0., 5e4)]
    out += [['rayleigh', T] for T in (1500., 2400.)]
    out += [['scram', n] for n in (1, 2, 3)]
    out += [['rocket', a, e] for a in (8., 30.) for e in (1., .98)]
    out += [['oblique', g] for g in (1.2, 1.3, 1.4)] + [['fm', g] for g in (1.2, 1.33, 1.4)]
    return out


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    globals()['C'] = G.S().Components.Energy.Converters
    globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


def out(c):
    return R.flat(c.outputs)


def near(ctx, a, b, key, msg, rtol=1e-10, atol=0.):
    ctx.close(a, np.broadcast_to(b, np.shape(a)) if np.ndim(b) else b, key, msg, rtol=rtol, atol=atol)


def unchanged(ctx, key, con, c):
    for k, v in c.items():
        w = con.propulsion.throttle if k == 'throttle' else con.freestream[k] if k[0] != '_' else v
        ctx.check(np.array_equal(np.asarray(w, dtype=float) * np.ones_like(v), v), key + ':conditions:' + k, 'the operating conditions were changed')


def r_ram(ctx, disa):
    from SUAVE.Attributes.Gases import Air, Steam, CO2
    for gas in (Air,):
        def f(c):
            ram = C.Ram()
            ram.inputs.working_fluid = gas()
            con = G.conditions(c)
            ram(con)
            o = out(ram)
            for k in ('stagnation_temperature', 'stagnation_pressure', 'isentropic_expansion_factor', 'specific_heat_at_constant_pressure', 'gas_specific_constant'):
                ctx.check(np.array_equal(con.freestream[k], ram.outputs[k]), 'ram:stored:' + k, 'the stagnation state is stored in the conditions')
            return o
        c = G.freestream(PTS, disa=disa)
        o = R.rowcheck(ctx, 'ram', f, c)
        g, M = c['isentropic_expansion_factor'], c['mach_number']
        t = 1 + (g - 1) / 2 * M ** 2
        near(ctx, o['stagnation_temperature'], c['temperature'] * t, 'ram:Tt', 'stagnation temperature')
        near(ctx, o['stagnation_pressure'], c['pressure'] * t ** (g / (g - 1)), 'ram:Pt', 'stagnation pressure')


def flow(c, Tk=1.3, Pk=2.):
    """an arbitrary internal state per row"""
    n = len(c['mach_number'])
    k = np.arange(n).reshape(-1, 1)
    return c['stagnation_temperature'] * (Tk + .05 * k), c['stagnation_pressure'] * (Pk + .2 * k)


def turbo(ctx, name, cls, p, e):
    c = G.freestream(PTS)
    c['_T'], c['_P'] = flow(c)

    def f(c):
        m = cls()
        m.pressure_ratio, m.polytropic_efficiency = p, e
        m.inputs.stagnation_temperature, m.inputs.stagnation_pressure = c['_T'], c['_P']
        con = G.conditions(c)
        m(con)
        unchanged(ctx, name, con, c)
        return out(m)
    o = R.rowcheck(ctx, name, f, c)
    g, cp = c['isentropic_expansion_factor'], c['specific_heat_at_constant_pressure']
    near(ctx, o['stagnation_pressure'], c['_P'] * p, name + ':Pt', 'pressure ratio')
    near(ctx, np.log(o['stagnation_temperature'] / c['_T']) * e * g / (g - 1), np.log(p), name + ':polytropic', 'polytropic efficiency', atol=1e-12)
    near(ctx, o['stagnation_enthalpy'], cp * o['stagnation_temperature'], name + ':h', 'enthalpy')
    near(ctx, o['work_done'], cp * (o['stagnation_temperature'] - c['_T']), name + ':work', 'work', atol=1e-6)


def r_compressor(ctx, p, e):
    turbo(ctx, 'compressor', C.Compressor, p, e)


def r_fan(ctx, p, e):
    turbo(ctx, 'fan', C.Fan, p, e)


def r_combustor(ctx, T4, p, e, r):
    c = G.freestream(PTS)
    c['_T'], c['_P'] = flow(c)
    for fuel in ('Jet_A', 'Liquid_H2'):
        fd = getattr(SUAVE.Attributes.Propellants, fuel)()

        def f(c):
            m = C.Combustor()
            m.fuel_data, m.turbine_inlet_temperature, m.pressure_ratio, m.efficiency = fd, T4, p, e
            m.inputs.stagnation_temperature, m.inputs.stagnation_pressure = c['_T'], c['_P']
            m.inputs.nondim_mass_ratio = r
            con = G.conditions(c)
            m(con)
            unchanged(ctx, 'combustor', con, c)
            return out(m)
        o = R.rowcheck(ctx, 'combustor', f, c, pairs=fuel == 'Jet_A')
        cp, q = c['specific_heat_at_constant_pressure'], o['fuel_to_air_ratio']
        near(ctx, o['stagnation_pressure'], c['_P'] * p, 'combustor:Pt', 'pressure ratio')
        near(ctx, o['stagnation_temperature'], T4, 'combustor:Tt', 'turbine inlet temperature')
        near(ctx, o['stagnation_enthalpy'], cp * T4, 'combustor:h', 'enthalpy')
        # energy: incoming flow r with its enthalpy plus the heat of the fuel is the enthalpy of r plus the fuel, whose own share the model takes at r
        near(ctx, r * cp * c['_T'] + q * e * fd.specific_energy, r * cp * T4 * (1 + q), 'combustor:energy', 'energy balance')


def r_turbine(ctx, eta, pol, bpr, off):
    c = G.freestream(PTS)
    n = len(PTS)
    k = np.arange(n).reshape(-1, 1)
    c['_T'], c['_P'] = 1500. + 10 * k, c['stagnation_pressure'] * (14. + k)
    c['_f'], c['_wc'], c['_wf'], c['_wo'] = .02 + .001 * k, 2e5 + 1e3 * k, 1e4 + 500. * k, 5e3 + 100. * k
    D = SUAVE.Core.Data

    def f(c):
        m = C.Turbine()
        m.mechanical_efficiency, m.polytropic_efficiency = eta, pol
        i = m.inputs
        i.stagnation_temperature, i.stagnation_pressure, i.fuel_to_air_ratio, i.bypass_ratio = c['_T'], c['_P'], c['_f'], bpr
        i.compressor, i.fan = D(), D()
        i.compressor.work_done, i.fan.work_done = c['_wc'], c['_wf']
        if off:
            i.shaft_power_off_take = D()
            i.shaft_power_off_take.work_done = c['_wo']
        con = G.conditions(c)
        m(con)
        unchanged(ctx, 'turbine', con, c)
        return out(m)
    o = R.rowcheck(ctx, 'turbine', f, c)
    cp, g = c['specific_heat_at_constant_pressure'], c['isentropic_expansion_factor']
    drop = cp * (c['_T'] - o['stagnation_temperature'])
    near(ctx, drop * (1 + c['_f']) * eta, c['_wc'] + bpr * c['_wf'] + (c['_wo'] if off else 0), 'turbine:power', 'the turbine drives what hangs on its shaft', 1e-9)
    near(ctx, np.log(o['stagnation_pressure'] / c['_P']) * pol * (g - 1) / g, np.log(o['stagnation_temperature'] / c['_T']), 'turbine:polytropic', 'polytropic efficiency', 1e-9)
    near(ctx, o['stagnation_enthalpy'], cp * o['stagnation_temperature'], 'turbine:h', 'enthalpy')


def r_starved(ctx, p, e):
    """a nozzle whose total pressure is below ambient at some rows expands nothing there, and only there"""
    c = G.freestream(PTS)
    n = len(PTS)
    k = np.arange(n).reshape(-1, 1)
    for fac in itertools.permutations((.4, .9, 1.5, 3.)):
        c['_P'] = c['pressure'] * np.resize(np.array(fac), n).reshape(-1, 1)
        c['_T'] = c['stagnation_temperature'] * (2. + .1 * k)

        def f(c):
            m = C.Expansion_Nozzle()
            m.pressure_ratio, m.polytropic_efficiency = p, e
            m.inputs.stagnation_temperature, m.inputs.stagnation_pressure = c['_T'], c['_P']
            con = G.conditions(c)
            m(con)
            unchanged(ctx, 'starved', con, c)
            return out(m)
        o = R.rowcheck(ctx, 'starved', f, c)
        g, p0 = c['isentropic_expansion_factor'], c['pressure']
        near(ctx, o['stagnation_pressure'], np.maximum(c['_P'] * p, p0), 'starved:Pt', 'a total pressure below ambient is replaced by the ambient pressure of its own row')
        full = G.mach_of(np.maximum(c['_P'] * p / p0, 1.), g)
        near(ctx, o['mach_number'], np.minimum(full, 1.), 'starved:M', 'choked or expanded to ambient', atol=2e-3)
        near(ctx, o['static_pressure'], np.where(full < 1, p0, o['stagnation_pressure'] / ((g + 1) / 2) ** (g / (g - 1))), 'starved:P', 'exit pressure')


def r_nozzle(ctx, kind, p, e, x):
    c = G.freestream(PTS)
    n = len(PTS)
    k = np.arange(n).reshape(-1, 1)
    c['_P'] = c['pressure'] * (1 + (x - 1) * (1 + .1 * k) / 1.)
    c['_T'] = c['stagnation_temperature'] * (2. + .1 * k)

    def f(c):
        m = getattr(C, kind)()
        m.pressure_ratio, m.polytropic_efficiency = p, e
        m.inputs.stagnation_temperature, m.inputs.stagnation_pressure = c['_T'], c['_P']
        con = G.conditions(c)
        m(con)
        unchanged(ctx, kind, con, c)
        return out(m)
    o = R.rowcheck(ctx, kind, f, c)
    g, cp, Rg, p0 = (c[q] for q in ('isentropic_expansion_factor', 'specific_heat_at_constant_pressure', 'gas_specific_constant', 'pressure'))
    Pt, Tt, M, P, T = (o[q] for q in ('stagnation_pressure', 'stagnation_temperature', 'mach_number', 'static_pressure', 'static_temperature'))
    near(ctx, Pt, c['_P'] * p, kind + ':Pt', 'pressure ratio')
    near(ctx, Tt, c['_T'] * p ** ((g - 1) / g * e), kind + ':Tt', 'total temperature')
    full = G.mach_of(Pt / p0, g)
    if kind == 'Supersonic_Nozzle':
        near(ctx, M, full, kind + ':M', 'expands to ambient')
        near(ctx, P, p0, kind + ':P', 'ambient exit pressure')
    else:
        near(ctx, M, np.minimum(full, 1.), kind + ':M', 'choked or expanded to ambient')
        near(ctx, P, np.where(full < 1, p0, Pt / ((g + 1) / 2) ** (g / (g - 1))), kind + ':P', 'exit pressure')
        ctx.note('choked', int((full >= 1).sum()))
        ctx.note('unchoked', int((full < 1).sum()))
    near(ctx, T * (1 + (g - 1) / 2 * M ** 2), Tt, kind + ':T', 'static temperature')
    near(ctx, o['stagnation_enthalpy'], cp * Tt, kind + ':ht', 'enthalpy')
    near(ctx, o['static_enthalpy'], cp * T, kind + ':h', 'enthalpy')
    near(ctx, o['velocity'] ** 2 / 2 + cp * T, cp * Tt, kind + ':u', 'exit velocity')
    near(ctx, o['density'] * Rg * T, P, kind + ':rho', 'exit density')
    A = G.massflux(c['mach_number'], c['stagnation_pressure'], c['stagnation_temperature'], g, Rg) / G.massflux(M, Pt, Tt, g, Rg)
    near(ctx, o['area_ratio'], A, kind + ':area', 'exit area over stream tube area', 1e-9)


def r_inlet(ctx, comp, p, e, rec):
    c = G.freestream([q for q in PTS if not comp or q[0] >= .3])
    c['_T'], c['_P'] = c['stagnation_temperature'].copy(), c['stagnation_pressure'].copy()

    def f(c):
        m = C.Compression_Nozzle()
        m.pressure_ratio, m.polytropic_efficiency, m.pressure_recovery, m.compressibility_effects = p, e, rec, bool(comp)
        m.inputs.stagnation_temperature, m.inputs.stagnation_pressure = c['_T'], c['_P']
        con = G.conditions(c)
        m(con)
        unchanged(ctx, 'inlet', con, c)
        return out(m)
    o = R.rowcheck(ctx, 'inlet', f, c)
    g, cp, M0, p0 = (c[q] for q in ('isentropic_expansion_factor', 'specific_heat_at_constant_pressure', 'mach_number', 'pressure'))
    near(ctx, o['stagnation_temperature'], c['_T'] * (p * rec) ** ((g - 1) / (g * e)), 'inlet:Tt', 'total temperature')
    shock = ((g + 1) * M0 ** 2 / ((g - 1) * M0 ** 2 + 2)) ** (g / (g - 1)) * ((g + 1) / (2 * g * M0 ** 2 - (g - 1))) ** (1 / (g - 1))
    low = np.maximum(c['_P'] * p * rec, p0)     # never below ambient
    sup = (M0 > 1) & bool(comp)
    near(ctx, o['stagnation_pressure'], np.where(sup, c['_P'] * p * np.where(sup, shock, 1), low), 'inlet:Pt', 'total pressure')
    M = np.where(sup, np.sqrt((1 + (g - 1) / 2 * M0 ** 2) / (g * M0 ** 2 - (g - 1) / 2)), G.mach_of(low / p0, g))
    near(ctx, o['mach_number'], M, 'inlet:M', 'Mach number')
    T, Tt = o['static_temperature'], o['stagnation_temperature']
    near(ctx, T * (1 + (g - 1) / 2 * M ** 2), Tt, 'inlet:T', 'static temperature')
    near(ctx, o['static_enthalpy'], cp * T, 'inlet:h', 'enthalpy')
    near(ctx, o['velocity'] ** 2 / 2 + cp * T, cp * Tt, 'inlet:u', 'velocity')
    near(ctx, o['stagnation_enthalpy'], cp * Tt, 'inlet:ht', 'enthalpy')


def r_limited(ctx, lo, hi):
    c = G.freestream([(2.5, 15000.)] * 9)
    k = np.arange(9).reshape(-1, 1)
    c['_P'] = c['pressure'] * np.array([1.05, 1.15, 1.3, 1.7, 2.5, 5., 12., 40., 200.]).reshape(-1, 1)
    c['_T'] = 1500. + 20. * k

    def f(c):
        m = C.Supersonic_Nozzle()
        m.pressure_ratio, m.polytropic_efficiency, m.max_area_ratio, m.min_area_ratio = .99, .95, hi, lo
        m.inputs.stagnation_temperature, m.inputs.stagnation_pressure = c['_T'], c['_P']
        con = G.conditions(c)
        m.compute_limited_geometry(con)
        unchanged(ctx, 'limited', con, c)
        return out(m)
    o = R.rowcheck(ctx, 'limited', f, c, rtol=1e-5)
    g, Rg, p0 = 1.4, c['gas_specific_constant'], c['pressure']
    g = float(c['isentropic_expansion_factor'][0, 0])
    pr = lambda M: (1 + (g - 1) / 2 * M * M) ** (-g / (g - 1))
    A = (lo + hi) / 2
    Ms = G.area_mach(A, g, False)
    M2 = np.sqrt((1 + (g - 1) / 2 * Ms ** 2) / (g * Ms ** 2 - (g - 1) / 2))
    shock = 1 / (A * ((g + 1) / 2) ** ((g + 1) / (2 * (g - 1))) * M2 * np.sqrt(1 + (g - 1) / 2 * M2 ** 2))
    pmax, pmin = pr(G.area_mach(hi, g, False)), pr(G.area_mach(lo, g, False))
    for i in range(9):
        Pt = c['_P'][i, 0] * .99
        b = p0[i, 0] / Pt
        if b >= shock:
            P = p0[i, 0]
        elif b > pmin:
            P = pmin * Pt
        elif b >= pmax:
            P = p0[i, 0]
        else:
            P = pmax * Pt
        ctx.note('region-%s' % ('low' if b >= shock else 'over' if b > pmin else 'matched' if b >= pmax else 'under'))
        M = np.sqrt(2 / (g - 1) * ((Pt / P) ** ((g - 1) / g) - 1))
        Tt = c['_T'][i, 0] * .99 ** ((g - 1) / g * .95)
        T = Tt / (1 + (g - 1) / 2 * M * M)
        near(ctx, o['static_pressure'][i, 0], P, 'limited:P', 'exit pressure at back pressure ratio %.4g' % b, 1e-5)
        near(ctx, o['mach_number'][i, 0], M, 'limited:M', 'exit Mach number', 1e-5)
        near(ctx, o['static_temperature'][i, 0], T, 'limited:T', 'exit temperature', 1e-5)
        near(ctx, o['velocity'][i, 0], M * np.sqrt(g * Rg[i, 0] * T), 'limited:u', 'exit velocity', 1e-5)
        near(ctx, o['rho'][i, 0], P / (Rg[i, 0] * T), 'limited:rho', 'exit density', 1e-5)


def r_thrust(ctx, bpr, neng, sfc):
    c = G.freestream([q for q in PTS if q[0] >= .3], throttle=[0., .3, .5, .8, .9, 1., 1.05])
    n = len(c['mach_number'])
    k = np.arange(n).reshape(-1, 1)
    c['_uc'], c['_uf'] = c['velocity'] * 1.9 + 10 * k, c['velocity'] * 1.3 + 5 * k
    c['_Ac'], c['_Af'] = .5 + .01 * k, .6 + .02 * k
    c['_pc'], c['_pf'] = c['pressure'] * (1.1 + .01 * k), c['pressure'] * (1.05 + .02 * k)
    c['_f'] = .02 + .001 * k
    c['_Tt'], c['_Pt'] = flow(c)
    D = SUAVE.Core.Data

    def f(c):
        t = SUAVE.Components.Energy.Processes.Thrust()
        t.compressor_nondimensional_massflow, t.SFC_adjustment = 40., sfc
        i = t.inputs
        i.fuel_to_air_ratio, i.total_temperature_reference, i.total_pressure_reference = c['_f'], c['_Tt'], c['_Pt']
        for nm, s in (('core_nozzle', 'c'), ('fan_nozzle', 'f')):
            i[nm] = D()
            i[nm].velocity, i[nm].area_ratio, i[nm].static_pressure = c['_u' + s], c['_A' + s], c['_p' + s]
        i.number_of_engines, i.bypass_ratio = neng, bpr
        i.flow_through_core, i.flow_through_fan = 1 / (1 + bpr), bpr / (1 + bpr)
        con = G.conditions(c)
        t(con)
        unchanged(ctx, 'thrust', con, c)
        return out(t)
    o = R.rowcheck(ctx, 'thrust', f, c)
    u, p0, a, rho0 = c['velocity'], c['pressure'], c['speed_of_sound'], c['density']
    mc = 40. * np.sqrt(288.15 / c['_Tt']) * c['_Pt'] / 101325.
    near(ctx, o['core_mass_flow_rate'], mc, 'thrust:mdot', 'corrected mass flow')
    # momentum and pressure thrust per unit of total mass flow: u0 p0/(gamma ... ) written with A/A0 = area ratio, mdot = rho u A0
    rho = c['isentropic_expansion_factor'] * p0 / a ** 2
    per = lambda s: (c['_u' + s] - u) + c['_A' + s] * (c['_p' + s] - p0) / (rho * u)
    F = (per('c') + bpr * per('f')) * mc * neng * c['throttle']
    near(ctx, o['thrust'], F, 'thrust:F', 'momentum and pressure thrust', 1e-9, 1e-9)
    near(ctx, o['fuel_flow_rate'], np.maximum(c['_f'] * mc * neng * c['throttle'] * (1 - sfc), 0), 'thrust:fuel', 'fuel flow', 1e-9)
    near(ctx, o['power'], F * u, 'thrust:power', 'power', 1e-9, 1e-9)
    sf = (per('c') + bpr * per('f'))
    near(ctx, o['thrust_specific_fuel_consumption'], c['_f'] * 9.81 / sf * (1 - sfc) * 3600, 'thrust:tsfc', 'specific fuel consumption', 1e-9)
    near(ctx, o['specific_impulse'], sf / (c['_f'] * 9.81), 'thrust:isp', 'specific impulse', 1e-9)


def r_stream(ctx, neng):
    c = G.freestream([(m, h) for m in (3., 5., 8.) for h in (15000., 25000.)], throttle=[0., .4, .7, .9, 1., 1.])
    n = 6
    k = np.arange(n).reshape(-1, 1)
    c['_u'], c['_A'], c['_T'], c['_f'] = c['velocity'] * 1.1 + k, 2. + .3 * k, 1200. + 20. * k, .03 + .001 * k
    c['_Tt'], c['_Pt'] = flow(c)

    def f(c):
        t = SUAVE.Components.Energy.Processes.Thrust()
        t.compressor_nondimensional_massflow = 2.
        i = t.inputs
        i.fuel_to_air_ratio, i.total_temperature_reference, i.total_pressure_reference, i.number_of_engines = c['_f'], c['_Tt'], c['_Pt'], neng
        i.core_nozzle = SUAVE.Core.Data()
        i.core_nozzle.temperature, i.core_nozzle.velocity, i.core_nozzle.area_ratio = c['_T'], c['_u'], c['_A']
        con = G.conditions(c)
        t.compute_stream_thrust(con)
        unchanged(ctx, 'stream', con, c)
        return out(t)
    o = R.rowcheck(ctx, 'stream', f, c)
    u, Rg, T0 = c['velocity'], c['gas_specific_constant'], c['temperature']
    mc = 2. * np.sqrt(288.15 / c['_Tt']) * c['_Pt'] / 101325.
    F = ((1 + c['_f']) * (c['_u'] + Rg * c['_T'] / c['_u']) - (u + Rg * T0 / u) - Rg * T0 / u * (c['_A'] - 1))
    near(ctx, o['thrust'], F * mc * neng * c['throttle'], 'stream:F', 'stream thrust', 1e-9, 1e-9)
    near(ctx, o['fuel_flow_rate'], np.where(F > 0, c['_f'], c['_f']) * mc * neng * c['throttle'] * 1., 'stream:fuel', 'fuel flow', 1e-9)
    near(ctx, o['power'], F * mc * neng * c['throttle'] * u, 'stream:power', 'power', 1e-9, 1e-9)
    near(ctx, o['specific_impulse'], F / (c['_f'] * 9.81), 'stream:isp', 'specific impulse', 1e-9)


def r_offtake(ctx, p):
    c = G.freestream(PTS)
    c['_Tt'], c['_Pt'] = flow(c)

    def f(c):
        s = C.Shaft_Power_Off_Take()
        s.power_draw = p
        s.inputs.mdhc, s.inputs.total_temperature_reference, s.inputs.total_pressure_reference = 30., c['_Tt'], c['_Pt']
        s(G.conditions(c))
        return dict(w=s.outputs.work_done * np.ones_like(c['_Tt']))
    o = R.rowcheck(ctx, 'offtake', f, c)
    near(ctx, o['w'] * 30. * np.sqrt(288.15 / c['_Tt']) * c['_Pt'] / 101325., p, 'offtake:w', 'power per core mass flow', 1e-10)


def r_rayleigh(ctx, T4):
    pts = [(m, h) for m in (1.8, 2.5, 3.2) for h in (12000., 20000.)]
    c = G.freestream(pts)
    c['_M'] = np.array([.2, .25, .3, .35, .22, .28]).reshape(-1, 1)
    c['_T'], c['_P'] = c['stagnation_temperature'].copy(), c['stagnation_pressure'] * .9
    for area in (1., 1.5):
        def f(c):
            m = C.Combustor()
            m.fuel_data = SUAVE.Attributes.Propellants.Jet_A()
            m.turbine_inlet_temperature, m.pressure_ratio, m.efficiency, m.area_ratio = T4, 1., .95, area
            m.inputs.stagnation_temperature, m.inputs.stagnation_pressure, m.inputs.mach_number = c['_T'], c['_P'], c['_M']
            con = G.conditions(c)
            m.compute_rayleigh(con)
            unchanged(ctx, 'rayleigh', con, c)
            return out(m)
        o = R.rowcheck(ctx, 'rayleigh', f, c, rtol=2e-6)
        g = c['isentropic_expansion_factor']
        cp = c['specific_heat_at_constant_pressure']
        q = lambda M: (1 + (g - 1) / 2 * M * M)
        # duct of given area ratio, then heat addition at constant area
        M1 = np.array([[__import__('scipy.optimize').optimize.brentq(lambda m: area_f(m, g[i, 0]) - area_f(c['_M'][i, 0], g[i, 0]) / area, 1e-6, 1.)] for i in range(len(pts))])
        Tstar = c['_T'] * (1 + g * M1 ** 2) ** 2 / (2 * (1 + g) * M1 ** 2 * q(M1))
        T4e = np.minimum(T4, Tstar)
        near(ctx, o['stagnation_temperature'], T4e, 'rayleigh:Tt', 'exit total temperature, at most the thermal choking one', 1e-6)
        Me = o['mach_number']
        ctx.note('choked', int((Tstar <= T4).sum()))
        h = lambda M: M * M * q(M) / (1 + g * M * M) ** 2
        near(ctx, h(Me) / h(M1), T4e / c['_T'], 'rayleigh:M', 'Rayleigh heat addition', 1e-6)
        ctx.check(np.all(Me <= 1 + 1e-4), 'rayleigh:branch', 'subsonic burning stays subsonic: %s' % Me.ravel())
        Ptr = (1 + g * M1 ** 2) / (1 + g * Me ** 2) * (q(Me) / q(M1)) ** (g / (g - 1))
        near(ctx, o['stagnation_pressure'], c['_P'] * Ptr, 'rayleigh:Pt', 'total pressure loss', 1e-6)
        fr = o['fuel_to_air_ratio']
        fd = SUAVE.Attributes.Propellants.Jet_A()
        near(ctx, cp * c['_T'] + fr * .95 * fd.specific_energy, cp * T4e * (1 + fr), 'rayleigh:energy', 'energy balance', 1e-6)


def area_f(M, g):
    """mass flow function"""
    return M * (1 + (g - 1) / 2 * M * M) ** (-(g + 1) / (2 * (g - 1)))


def r_scram(ctx, nshock):
    pts = [(m, h) for m in (4.5, 6., 8.) for h in (20000., 30000.)]
    c = G.freestream(pts)
    th = [np.radians(v) for v in (8., 6., 4.)][:nshock]

    def f(c):
        con = G.conditions(c)
        n = C.Compression_Nozzle()
        n.polytropic_efficiency, n.pressure_ratio, n.compression_levels, n.theta = .9, 1., nshock, th
        n.inputs.stagnation_temperature, n.inputs.stagnation_pressure = c['stagnation_temperature'].copy(), c['stagnation_pressure'].copy()
        n.compute_scramjet(con)
        b = C.Combustor()
        b.fuel_data = SUAVE.Attributes.Propellants.Liquid_H2()
        b.fuel_data.stoichiometric_fuel_to_air = .0291
        b.efficiency, b.axial_fuel_velocity_ratio, b.fuel_velocity_ratio, b.burner_drag_coefficient = .8, .5, .5, .1
        b.fuel_equivalency_ratio = .3
        b.inputs.inlet_nozzle, b.inputs.stagnation_pressure, b.inputs.stagnation_temperature = n.outputs, n.outputs.stagnation_pressure, n.outputs.stagnation_temperature
        b.compute_supersonic_combustion(con)
        z = C.Supersonic_Nozzle()
        z.polytropic_efficiency, z.pressure_expansion_ratio = .9, 1.2
        for k in ('stagnation_temperature', 'stagnation_pressure', 'static_temperature', 'static_pressure', 'velocity', 'fuel_to_air_ratio', 'specific_heat_constant_pressure', 'isentropic_expansion_factor'):
            z.inputs[k] = b.outputs[k]
        z.compute_scramjet(con)
        unchanged(ctx, 'scram', con, c)
        r = {}
        for nm, m in (('in', n), ('burn', b), ('out', z)):
            r.update({nm + '.' + k: v * np.ones_like(c['mach_number']) for k, v in out(m).items()})
        return r
    o = R.rowcheck(ctx, 'scram', f, c, rtol=1e-9)
    g, cp, Rg, T0, P0, M0, U0 = (c[k] for k in ('isentropic_expansion_factor', 'specific_heat_at_constant_pressure', 'gas_specific_constant', 'temperature', 'pressure', 'mach_number', 'velocity'))
    M, Tr, Ptr = M0.copy(), 1., 1.
    for t in th:
        b = np.array([[weak(M[i, 0], g[i, 0], t)] for i in range(len(M))])
        mn = M * np.sin(b)
        Pr = 1 + 2 * g / (g + 1) * (mn ** 2 - 1)
        r = (g + 1) * mn ** 2 / ((g - 1) * mn ** 2 + 2)
        Tr = Tr * Pr / r
        Ptr = Ptr * r ** (g / (g - 1)) * (1 / Pr) ** (1 / (g - 1))
        M = np.sqrt((1 + (g - 1) / 2 * mn ** 2) / (g * mn ** 2 - (g - 1) / 2)) / np.sin(b - t)
    near(ctx, o['in.static_temperature'], Tr * T0, 'scram:T3', 'temperature behind the shocks', 1e-8)
    near(ctx, o['in.stagnation_pressure'], Ptr * c['stagnation_pressure'], 'scram:Pt3', 'total pressure behind the shocks', 1e-8)
    near(ctx, o['in.velocity'] ** 2 / 2 + cp * Tr * T0, U0 ** 2 / 2 + cp * T0, 'scram:energy3', 'adiabatic compression', 1e-9)
    near(ctx, o['in.mach_number'], M, 'scram:M3', 'Mach number behind the shocks', 1e-6)
    near(ctx, o['in.static_pressure'], P0 * (Tr / (Tr * .1 + .9)) ** (cp / Rg), 'scram:P3', 'pressure', 1e-8)
    V3, T3 = o['in.velocity'], o['in.static_temperature']
    f_, cb = .3 * .0291, cp * 1.45
    hf = 0.
    q = SUAVE.Attributes.Propellants.Liquid_H2().specific_energy
    V4, T4 = o['burn.velocity'], o['burn.static_temperature']
    near(ctx, o['burn.fuel_to_air_ratio'], f_, 'scram:f', 'fuel to air ratio')
    near(ctx, V4 * (1 + f_), V3 * (1 + f_ * .5 - .05), 'scram:momentum', 'momentum', 1e-9)
    near(ctx, (1 + f_) * (cb * T4 + V4 ** 2 / 2), cb * T3 + .8 * f_ * q + f_ * hf + f_ * cb * T0 + (1 + f_ * .25) * V3 ** 2 / 2, 'scram:energy4', 'energy', 1e-9)
    gb = (cb / Rg) / (cb / Rg - 1)
    near(ctx, o['burn.mach_number'], V4 / np.sqrt(gb * Rg * T4), 'scram:M4', 'Mach number', 1e-9)
    near(ctx, o['burn.stagnation_temperature'], T4 * (1 + (gb - 1) / 2 * o['burn.mach_number'] ** 2), 'scram:Tt4', 'total temperature', 1e-9)
    near(ctx, o['burn.static_pressure'], o['in.static_pressure'], 'scram:P4', 'constant pressure burning', 1e-9)
    P10 = 1.2 * P0
    T10 = o['out.temperature']
    near(ctx, o['out.pressure'], P10, 'scram:P10', 'exit pressure')
    near(ctx, (1 - T10 / T4), .9 * (1 - (P10 / o['burn.static_pressure']) ** (Rg / cb)), 'scram:T10', 'expansion efficiency', 1e-9)
    near(ctx, o['out.velocity'] ** 2 / 2 + cb * T10, V4 ** 2 / 2 + cb * T4, 'scram:energy10', 'adiabatic expansion', 1e-9)
    near(ctx, o['out.area_ratio'] * P10 / (Rg * T10) * o['out.velocity'], (1 + f_) * P0 / (Rg * T0) * U0, 'scram:area', 'mass conservation', 1e-9)
    near(ctx, o['out.mach_number'], o['out.velocity'] / np.sqrt(gb * Rg * T10), 'scram:M10', 'Mach number', 1e-9)


def weak(M, g, t):
    from scipy.optimize import brentq, minimize_scalar
    d = lambda b: np.arctan(2 / np.tan(b) * (M * M * np.sin(b) ** 2 - 1) / (M * M * (g + np.cos(2 * b)) + 2))
    lo = np.arcsin(1 / M)
    top = minimize_scalar(lambda b: -d(b), bounds=(lo, np.pi / 2), method='bounded', options=dict(xatol=1e-12)).x
    return brentq(lambda b: d(b) - t, lo, top, xtol=1e-14)


def r_oblique(ctx, g):
    from SUAVE.Methods.Aerodynamics.Common.Gas_Dynamics.Oblique_Shock import oblique_shock_relations, theta_beta_mach
    from SUAVE.Methods.Propulsion.shock_train import shock_train
    rows = [(M, t) for M in (1.5, 2., 3., 5., 8.) for t in (2., 5., 9., 20.) if t < {1.5: 9, 2.: 15}.get(M, 30)]
    c = dict(M=np.array([[r[0]] for r in rows]), t=np.radians(np.array([[r[1]] for r in rows])), g=np.full((len(rows), 1), g))

    def f(c):
        b = theta_beta_mach(c['M'], c['g'], c['t'])
        M1, Pr, Tr, Ptr = oblique_shock_relations(c['M'], c['g'], c['t'], b)
        return dict(b=b, M1=M1, Pr=Pr, Tr=Tr, Ptr=Ptr)
    o = R.rowcheck(ctx, 'oblique', f, c)
    b = np.array([[weak(r[0], g, np.radians(r[1]))] for r in rows])
    near(ctx, o['b'], b, 'oblique:beta', 'weak shock angle', 1e-7)
    mn = c['M'] * np.sin(b)
    r = (g + 1) * mn ** 2 / ((g - 1) * mn ** 2 + 2)
    Pr = 1 + 2 * g / (g + 1) * (mn ** 2 - 1)
    near(ctx, o['Pr'], Pr, 'oblique:P', 'pressure ratio', 1e-6)
    near(ctx, o['Tr'], Pr / r, 'oblique:T', 'temperature ratio', 1e-6)
    near(ctx, o['Ptr'], r ** (g / (g - 1)) * Pr ** (-1 / (g - 1)), 'oblique:Pt', 'total pressure ratio', 1e-6)
    tt = lambda M: 1 + (g - 1) / 2 * M * M
    near(ctx, Pr / r * tt(o['M1']), tt(c['M']), 'oblique:energy', 'total temperature is conserved', 1e-6)
    strong = theta_beta_mach(c['M'], c['g'], c['t'], 1)
    d = np.arctan(2 / np.tan(strong) * (c['M'] ** 2 * np.sin(strong) ** 2 - 1) / (c['M'] ** 2 * (g + np.cos(2 * strong)) + 2))
    near(ctx, d, c['t'], 'oblique:strong', 'strong shock angle', 1e-6)
    ctx.check(bool(np.all(strong > o['b'])), 'oblique:order', 'the strong shock is the steeper one')
    for th in ((5., 5.), (8., 2., 3.), (4.,)):
        th = [np.radians(v) for v in th]
        def h(c):
            T, P = shock_train(c['M'], c['g'], len(th), th)
            return dict(T=T, P=P)
        cc = dict(M=np.array([[3.], [5.], [8.]]), g=np.full((3, 1), g))
        o2 = R.rowcheck(ctx, 'train', h, cc)
        for i in range(3):
            M, T, P = cc['M'][i, 0], 1., 1.
            for t in th:
                bb = weak(M, g, t)
                m1, pr, tr, ptr = (float(np.ravel(v)[0]) for v in oblique_shock_relations(M, g, t, bb))
                M, T, P = m1, T * tr, P * ptr
            near(ctx, o2['T'][i, 0], T, 'train:T', 'temperature ratio of the train', 1e-6)
            near(ctx, o2['P'][i, 0], P, 'train:P', 'total pressure ratio of the train', 1e-6)


def r_fm(ctx, g):
    from SUAVE.Methods.Propulsion.fm_id import fm_id
    from SUAVE.Methods.Propulsion.fm_solver import fm_solver
    from SUAVE.Methods.Propulsion.rayleigh import rayleigh
    from SUAVE.Methods.Propulsion.nozzle_calculations import mach_area, normal_shock, pressure_ratio_isentropic, pressure_ratio_shock_in_nozzle, exit_Mach_shock
    Ms = [.01, .2, .6, .99, 1., 1.01, 1.5, 3., 6.]
    for M in Ms:
        ctx.state((g, M))
        ctx.step()
        near(ctx, fm_id(M, g), area_f(M, g) / area_f(1., g), 'fm:id', 'mass flow function', 1e-12)
    c = dict(M=np.array([[m] for m in Ms]), g=np.full((len(Ms), 1), g))
    R.rowcheck(ctx, 'fm', lambda c: dict(f=fm_id(c['M'], c['g'])), c)
    for A in (1.05, 1.5, 3., 10.):
        for sub in (True, False):
            gg = np.full((3, 1), g)
            near(ctx, mach_area(A, gg, sub), G.area_mach(A, g, sub), 'fm:area', 'Mach number at area ratio %g' % A, 1e-6)
            M = G.area_mach(A, g, sub)
            near(ctx, pressure_ratio_isentropic(A, gg, sub), (1 + (g - 1) / 2 * M * M) ** (-g / (g - 1)), 'fm:pr', 'isentropic pressure ratio', 1e-6)
        M = G.area_mach(A, g, False)
        M2 = np.sqrt((1 + (g - 1) / 2 * M ** 2) / (g * M ** 2 - (g - 1) / 2))
        near(ctx, normal_shock(M, g), M2, 'fm:shock', 'normal shock', 1e-10)
        near(ctx, pressure_ratio_shock_in_nozzle(A, np.full((2, 1), g)), area_f(1., g) / A / area_f(M2, g) * (1 + (g - 1) / 2 * M2 ** 2) ** (-g / (g - 1)), 'fm:shockexit', 'shock at the exit', 1e-6)
    for M0 in (.2, .5, .9):
        for A in (1.1, 1.6, 3.):
            m = fm_solver(A, np.array([M0]), np.array([g]))
            near(ctx, area_f(m, g), area_f(M0, g) / A, 'fm:duct', 'duct of area ratio %g' % A, 1e-6)
            ctx.check(0 < m[0] < 1, 'fm:ductbranch', 'a subsonic duct flow stays subsonic')
    for M0 in (1.2, 2., 4.):
        for A in (1.2, 2.):
            m = fm_solver(A, np.array([M0]), np.array([g]))
            near(ctx, area_f(m, g), area_f(M0, g) / A, 'fm:duct', 'duct of area ratio %g' % A, 1e-6)
            ctx.check(m[0] > 1, 'fm:ductbranch', 'a supersonic duct flow stays supersonic')
    q = lambda M: M * M * (1 + (g - 1) / 2 * M * M) / (1 + g * M * M) ** 2
    for M0 in (.15, .3, .5):
        for k in (1.1, 1.5, .999 * q(1.) / q(M0)):
            if k * q(M0) > q(1.):
                continue
            m, ptr = rayleigh(np.array([g]), np.array([M0]), np.array([k]))
            near(ctx, q(m), q(M0) * k, 'fm:rayleigh', 'heat addition', 1e-6)
            ctx.check(M0 < m[0] <= 1 + 1e-6, 'fm:rayleighbranch', 'heating drives the flow towards Mach one')
            near(ctx, ptr, (1 + g * M0 ** 2) / (1 + g * m ** 2) * ((1 + (g - 1) / 2 * m ** 2) / (1 + (g - 1) / 2 * M0 ** 2)) ** (g / (g - 1)), 'fm:rayleighpt', 'total pressure', 1e-9)


def r_rocket(ctx, A, eta):
    c = G.freestream([(0.01, h) for h in (0., 5000., 15000., 40000.)], throttle=[1., .6, .9, 1.])
    for neng in (1, 5):
        def f(c):
            con = G.conditions(c)
            b = C.Rocket_Combustor()
            b.propellant_data = SUAVE.Attributes.Propellants.LOX_RP1()
            b.inputs.combustion_pressure = 7e6
            b.compute(con)
            z = C.de_Laval_Nozzle()
            z.polytropic_efficiency, z.pressure_ratio, z.expansion_ratio, z.area_throat = 1., eta, A, .6
            z.inputs = b.outputs
            z.compute(con)
            t = SUAVE.Components.Energy.Processes.Rocket_Thrust()
            t.inputs = z.outputs
            t.inputs.number_of_engines = neng
            t(con)
            unchanged(ctx, 'rocket', con, c)
            r = {'t.' + k: v for k, v in out(t).items() if k in ('thrust', 'vehicle_mass_rate', 'specific_impulse')}
            r.update({'n.' + k: np.ravel(v)[0] for k, v in out(z).items()})
            return r
        o = R.rowcheck(ctx, 'rocket', f, c)
        p = SUAVE.Attributes.Propellants.LOX_RP1()
        g, Rg, Tc = p.isentropic_expansion_factor, p.gas_specific_constant, p.combustion_temperature
        M = G.area_mach(A, g, False)
        Pt, Tt = 7e6 * eta * eta, Tc * (eta * eta) ** ((g - 1) / g)
        T = Tt / (1 + (g - 1) / 2 * M * M)
        P = Pt / (1 + (g - 1) / 2 * M * M) ** (g / (g - 1))
        ue, rho, Ae = M * np.sqrt(g * Rg * T), P / (Rg * T), A * .6
        near(ctx, o['n.mach_number'], M, 'rocket:M', 'exit Mach number', 1e-6)
        near(ctx, o['n.static_pressure'], P, 'rocket:P', 'exit pressure', 1e-5)
        near(ctx, o['n.static_temperature'], T, 'rocket:T', 'exit temperature', 1e-5)
        near(ctx, o['n.exhaust_velocity'], ue, 'rocket:u', 'exhaust velocity', 1e-5)
        near(ctx, o['n.density'], rho, 'rocket:rho', 'exhaust density', 1e-5)
        md = rho * ue * Ae * c['throttle'] * neng
        near(ctx, o['t.vehicle_mass_rate'], md, 'rocket:mdot', 'propellant of all engines', 1e-5)
        F = md * ue + (P - c['pressure']) * Ae * c['throttle'] * neng
        near(ctx, o['t.thrust'], np.maximum(F, 0), 'rocket:F', 'momentum and pressure thrust', 1e-5)
        near(ctx, o['t.specific_impulse'], F / md / 9.81, 'rocket:isp', 'specific impulse', 1e-5)
