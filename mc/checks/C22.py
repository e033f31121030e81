"""Electric, piston, solar, cryogenic and surrogate propulsion networks add up what their parts deliver."""
import copy, itertools, time
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('component settings grids x operating grids (each row alone, every ordered pair, reversed, repeated); ten network types x 1..3 engines x {identical, distinct copies, distinct} x every '
          'permutation of the engines x 6 operating points x {batch, singles, pairs}; charge and discharge; all histories to length 3 (4) of {evaluate, other points, charge}; segment unknowns and residuals of every set up')
ASSUMPTIONS = ['propellers, fans and surrogates are stand-ins that return a known function of what they are handed (rotor aerodynamics is decided elsewhere)', 'magic thrust: above full throttle thrust, power and current scale with throttle',
               'motor model as given (resistance, speed constant, no-load current), Gagg-Ferrar engine power lapse, conduction-cooled lead theory']
MIN = {'evals': 20000}
TIME_LIMIT = 400
THR = [.2, .9, 1., .55, 1.25, .7]
ALT = [0., 800., 2000., 3500., 5000., 9000.]
SPD = [20., 35., 50., 60., 80., 110.]


def scenarios(tier):
    out = [['motor', g] for g in (1., 2.5)] + [['lofid', g] for g in (1., 3.)] + [['esc'], ['logic'], ['gear'], ['hts'], ['lead'], ['cool'], ['sun', 0], ['sun', 1], ['small'], ['sum']]
    out += [['ice', h] for h in (0., 2000., 6000.)]
    for k in ('bat', 'solar', 'ic', 'cs'):
        out += [[k, n, m] for n in (1, 2, 3) for m in ('same', 'copies', 'distinct')]
    out += [['lc', n, m, 3 - n + 1, q, mode] for n in (1, 2) for m in ('same', 'distinct') for q in ('same', 'copies', 'distinct') for mode in ('transition', 'cruise', 'lift')]
    out += [['slf', n] for n in (1, 2, 4)] + [['duct', n] for n in (1, 2)] + [['hybrid', n] for n in (1, 2)]
    out += [['cryo', d, n, s, c] for d in (0, 1) for n in (1, 2) for s in (1., 2.) for c in (0., .5, 1.)]
    out += [['deck', t, x] for t in ('stub', 'gaussian', 'knn', 'linear') for x in (0, 1)]
    d = 4 if tier == 'thorough' else 3
    out += [['hist', k, f, d] for k in ('bat', 'lc') for f in ('A', 'B', 'C')]
    return out


def run(ctx, sc):
    S = G.S()
    globals()['SUAVE'] = S
    globals()['C'] = S.Components.Energy.Converters
    globals()['DI'] = S.Components.Energy.Distributors
    globals()['NW'] = S.Components.Energy.Networks
    globals()['Data'] = S.Core.Data
    with np.errstate(all='ignore'):
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


def near(ctx, a, b, key, msg, rtol=1e-9, atol=0.):
    ctx.close(a, np.broadcast_to(b, np.shape(a)) if np.size(b) == 1 or np.shape(b) == np.shape(a)[:1] + np.shape(b)[1:] else b, key, msg, rtol=rtol, atol=atol)


def cond(c):
    con = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    n = len(c['throttle'])
    con.expand_rows(n)
    con._size = n
    for k, v in c.items():
        if k in con.freestream or k in ('thermal_conductivity', 'kinematic_viscosity', 'prandtl_number'):
            con.freestream[k] = v
        elif k[0] != '_':
            con.propulsion[k] = v
    return con


def points(n=6):
    h = np.array(ALT[:n])[:, None]
    a = SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(h)
    return dict(throttle=np.array(THR[:n])[:, None], altitude=h, density=a.density * 1., temperature=a.temperature * 1., pressure=a.pressure * 1., speed_of_sound=a.speed_of_sound * 1.,
                dynamic_viscosity=a.dynamic_viscosity * 1., velocity=np.array(SPD[:n])[:, None], thermal_conductivity=a.thermal_conductivity * np.ones((n, 1)), kinematic_viscosity=a.kinematic_viscosity * np.ones((n, 1)),
                prandtl_number=a.prandtl_number * np.ones((n, 1)), delta_ISA=0. * h)


# ---------------------------------------------------------------- components
def motor(kv=40., Res=.08, io=1.2, g=1., eg=1., ei=0., R_=.8, tag='motor'):
    m = C.Motor()
    m.tag, m.resistance, m.no_load_current, m.speed_constant, m.gear_ratio, m.gearbox_efficiency, m.expected_current, m.propeller_radius = tag, Res, io, kv, g, eg, ei, R_
    return m


def motor_ref(m, v, rho, Cp):
    """speed, torque, current and efficiency from the torque balance"""
    io = m.no_load_current + m.expected_current * (1 - m.gearbox_efficiency)
    k = m.speed_constant / m.gear_ratio
    c = 4 * Cp * rho * m.propeller_radius ** 5 / np.pi ** 3
    b, d = 1 / (k * k * m.resistance), (v / m.resistance - io) / k
    w = np.where(b * b + 4 * c * d < 0, 0., 2 * d / (b + np.sqrt(np.maximum(b * b + 4 * c * d, 0.))))
    w = np.where(c == 0, 0., w)
    q = ((v - w / k) / m.resistance - io) / k
    i = np.maximum((v - w / k) / m.resistance, 0.)
    e = (1 - io / i) * (1 - i * m.resistance / v)
    return w, q, i, e


def r_motor(ctx, g):
    V, RH, CP = [0., 1., 12., 48., 200.], [1.225, .7, .1], [.02, .06, .3]
    grid = np.array(list(itertools.product(V, RH, CP)))
    for kv, Res, io, eg, ei, Rp in itertools.product((8., 90.), (.02, .3), (0., 2.), (1., .95), (0., 30.), (.3, 2.)):
        m = motor(kv, Res, io, g, eg, ei, Rp)
        key = 'motor'

        def f(c, m=m):
            con = cond(dict(throttle=c['v'] * 0. + 1., density=c['rho'], velocity=c['v'] * 0 + 30.))
            x = copy.deepcopy(m)
            x.inputs.voltage, x.inputs.propeller_CP = c['v'], c['cp']
            w = x.omega(con)
            i, e = x.current(con)
            o = dict(omega=w, torque=x.outputs.torque, current=i, eta=e, stored=x.outputs.omega, cur=x.outputs.current, etam=con.propulsion.etam)
            o = {k: np.array(v) for k, v in o.items()}
            y = copy.deepcopy(m)
            y.inputs.voltage, y.inputs.omega = c['v'], w
            o['q2'] = np.array(y.torque(con))
            z = copy.deepcopy(m)
            z.inputs.torque, z.inputs.omega = o['q2'], w
            z.voltage_current(con)
            o['v3'], o['i3'], o['e3'] = z.outputs.voltage, z.outputs.current, np.array(con.propulsion.etam)
            return o
        cols = dict(v=grid[:, :1], rho=grid[:, 1:2], cp=grid[:, 2:])
        first = (kv, Res, io, eg, ei, Rp) == (90., .02, 2., .95, 30., .3)
        o = R.rowcheck(ctx, key, f, cols if first else cols, pairs=False)
        if first:
            R.rowcheck(ctx, key, f, {k: v[::6] for k, v in cols.items()})
        w, q, i, e = motor_ref(m, cols['v'], cols['rho'], cols['cp'])
        sc = 1e-9 * np.maximum(1., np.abs(w).max())
        near(ctx, o['omega'], w, key + ':omega', 'shaft speed from the torque balance', rtol=1e-7, atol=sc)
        k = kv / g
        tq = 1e-8 * (cols['v'].max() / Res + 10) / k
        near(ctx, o['torque'], q, key + ':torque', 'motor torque', rtol=1e-7, atol=tq)
        near(ctx, o['q2'], o['torque'], key + ':torque-of-speed', 'torque at the speed found', rtol=1e-9, atol=tq)
        good = o['omega'] != 0
        near(ctx, np.where(good, 4 * cols['cp'] * cols['rho'] * Rp ** 5 * o['omega'] ** 2 / np.pi ** 3, 0), np.where(good, o['torque'], 0), key + ':balance', 'motor torque drives the propeller', rtol=1e-6, atol=tq * 10)
        near(ctx, o['current'], i, key + ':current', 'motor current', rtol=1e-7, atol=1e-8 * cols['v'].max() / Res)
        near(ctx, o['v3'], cols['v'], key + ':inverse', 'voltage for that torque and speed', rtol=1e-7, atol=1e-7)
        near(ctx, o['i3'], (cols['v'] - o['omega'] / k) / Res, key + ':inverse-i', 'current for that torque and speed', rtol=1e-6, atol=1e-6)
        run_ = (o['current'] > 1e-3) & (cols['v'] > 0)
        near(ctx, np.where(run_, o['eta'], 0), np.where(run_, e, 0), key + ':eta', 'motor efficiency', rtol=1e-5, atol=1e-7)
        near(ctx, np.where(run_, o['eta'] * cols['v'] * o['current'] / g ** 0, 0), np.where(run_, (o['current'] - (io + ei * (1 - eg))) * (cols['v'] - o['current'] * Res), 0), key + ':power', 'shaft power is the efficient share of the electric power', rtol=1e-6, atol=1e-5)
        near(ctx, np.where(run_, o['e3'], 0), np.where(run_, e, 0), key + ':eta-inverse', 'efficiency from torque and speed', rtol=1e-5, atol=1e-6)
        for a, b in (('stored', 'omega'), ('cur', 'current'), ('etam', 'eta')):
            near(ctx, o[a], o[b], key + ':stored', 'what is stored is what is returned')


def r_lofid(ctx, g):
    v = np.array([[0.], [5.], [20.], [40.], [100.]])
    for kv, Res, io, em, eg in itertools.product((5., 60.), (.01, .2), (.5, 2.), (.6, .9), (1., .95)):
        m = C.Motor_Lo_Fid()
        m.resistance, m.no_load_current, m.speed_constant, m.gear_ratio, m.gearbox_efficiency, m.expected_current, m.motor_efficiency, m.rated_power, m.rated_voltage = Res, io, kv, g, eg, 12., em, 500., 40.

        def f(c):
            con = cond(dict(throttle=c['v'] * 0 + 1))
            x = copy.deepcopy(m)
            x.inputs.voltage = c['v']
            w = np.array(x.omega(con))
            q = np.array(x.outputs.torque)
            i = np.array(x.current(con))
            e = np.array(con.propulsion.etam)
            y = copy.deepcopy(m)
            y.inputs.voltage = c['v']
            P, j = y.power_lo(con)
            return dict(omega=w, torque=q, current=i, eta=e, P=P, j=j, oP=y.outputs.power, oj=y.outputs.current)
        o = R.rowcheck(ctx, 'lofid', f, dict(v=v))
        io_ = io + 12. * (1 - eg)
        k = kv / g
        # efficiency equal to the prescribed one: (1-io/i)(1-iR/v)=em -> R i^2 - i(v + io R - em v) + io v = 0, small current root
        bq = v + io_ * Res - em * v
        disc = bq ** 2 - 4 * Res * io_ * v
        i = (bq - np.sqrt(np.maximum(disc, 0))) / (2 * Res)
        w = np.where(v == 0, 0., k * (v - i * Res))
        near(ctx, o['omega'], w, 'lofid:omega', 'speed at the prescribed efficiency', rtol=1e-7, atol=1e-7)
        ok = (v > 0) & (disc > 0)
        near(ctx, np.where(ok, o['current'], 0), np.where(ok, np.maximum(i, 0), 0), 'lofid:current', 'current at the prescribed efficiency', rtol=1e-6, atol=1e-6)
        near(ctx, np.where(ok, o['eta'], em), em, 'lofid:eta', 'prescribed efficiency reached', rtol=1e-6)
        near(ctx, np.where(ok, o['torque'], 0), np.where(ok, (i - io_) / k, 0), 'lofid:torque', 'torque from the current above no load', rtol=1e-6, atol=1e-6)
        near(ctx, o['P'], 500. * em * v / 40., 'lofid:power', 'rated power scaled by voltage')
        near(ctx, o['j'], np.where(v > 0, 500. / 40., 0), 'lofid:rated-current', 'current that carries that power')
        near(ctx, o['oP'], o['P'], 'lofid:stored', 'stored power')
        near(ctx, o['oj'], o['j'], 'lofid:stored', 'stored current')


def r_esc(ctx):
    thr = np.array([[-.3], [0.], [.2], [.8], [1.], [1.4]])
    for V, eff, I in itertools.product((10., 'col'), (1., .9), (0., 3.)):
        def f(c):
            con = cond(dict(throttle=c['t']))
            e = DI.Electronic_Speed_Controller()
            e.efficiency = eff
            e.inputs.voltagein = c['v'] if V == 'col' else V
            vo = np.array(e.voltageout(con))
            e.inputs.currentout = c['i'] + I
            ci = e.currentin(con)
            return dict(v=vo, i=ci, so=e.outputs.voltageout, si=e.outputs.currentin, p=e.outputs.power_in)
        cols = dict(t=thr, v=np.array([[5., 7., 9., 11., 13., 15.]]).T, i=np.array([[0., 1., 2., 3., 4., 5.]]).T)
        o = R.rowcheck(ctx, 'esc', f, cols)
        vin = cols['v'] if V == 'col' else V
        near(ctx, o['v'], np.clip(thr, 0, 1) * vin, 'esc:voltage', 'output voltage follows the throttle between 0 and the input')
        pos = thr >= 0
        near(ctx, np.where(pos, o['i'], 0), np.where(pos, (cols['i'] + I) * thr / eff, 0), 'esc:current', 'input current')
        near(ctx, np.where(pos & (thr <= 1), o['p'] * eff, 0), np.where(pos & (thr <= 1), o['v'] * (cols['i'] + I), 0), 'esc:power', 'power out is the efficient share of the power in')
        near(ctx, o['p'], vin * o['i'], 'esc:power-in', 'power in is voltage times current')
        near(ctx, o['so'], o['v'], 'esc:stored', 'stored voltage')
        near(ctx, o['si'], o['i'], 'esc:stored', 'stored current')


def times(n, T=600.):
    from SUAVE.Methods.Utilities.Chebyshev import chebyshev_data
    q = Data()
    q.time = Data()
    if n > 1:
        x, D, I = chebyshev_data(N=n)
    else:
        x, D, I = np.zeros(1), np.zeros((1, 1)), np.zeros((1, 1))
    q.time.control_points, q.time.differentiate, q.time.integrate = x[:, None] * T, D / T, I * T
    q.number_control_points = n
    return q


def r_logic(ctx):
    for n, eff, V, pa, pp in itertools.product((2, 5, 9), (1., .95), (20., 90.), (0., 40.), (0., 25.)):
        L = DI.Solar_Logic()
        L.MPPT_efficiency, L.system_voltage = eff, V
        x = np.arange(n)[:, None] / max(n - 1, 1)
        p, i = 300. + 200. * x, 2. + 3. * x * x
        L.inputs.powerin, L.inputs.pavionics, L.inputs.ppayload, L.inputs.currentesc = p, pa, pp, i
        q = times(n)
        keep = [p.copy(), i.copy()]
        L.logic(cond(dict(throttle=p * 0)), q)
        ctx.trace()
        lev = eff * p - pa - pp - V * i
        near(ctx, L.outputs.power_in, lev, 'logic:power', 'surplus power')
        near(ctx, L.outputs.current * V, lev, 'logic:current', 'surplus current')
        near(ctx, L.outputs.energy_transfer, q.time.integrate @ lev, 'logic:energy', 'energy transferred', atol=1e-9)
        near(ctx, L.outputs.system_voltage, V, 'logic:voltage', 'system voltage')
        ctx.check(np.array_equal(p, keep[0]) and np.array_equal(i, keep[1]), 'logic:input', 'inputs changed')


def r_gear(ctx):
    for r1, r2, e in itertools.product((.1, .4), (.2, .7), (1., .9)):
        def f(c):
            b = C.Gearbox()
            b.gearwheel_radius1, b.gearwheel_radius2, b.efficiency = r1, r2, e
            b.inputs.torque, b.inputs.speed, b.inputs.power = c['q'], c['w'], c['q'] * c['w']
            b()
            return dict(q=b.outputs.torque, w=b.outputs.speed, p=b.outputs.power)
        c = dict(q=np.array([[0.], [3.], [50.]]), w=np.array([[0.], [100.], [20.]]))
        o = R.rowcheck(ctx, 'gear', f, c)
        near(ctx, o['w'] * r2, c['w'] * r1, 'gear:speed', 'pitch line speeds agree')
        near(ctx, o['q'] * o['w'], e * c['q'] * c['w'], 'gear:power', 'power out is the efficient share of power in')
        near(ctx, o['p'], e * c['q'] * c['w'], 'gear:power', 'stored power')
        near(ctx, o['q'] * r1, c['q'] * r2 * e, 'gear:torque', 'torque ratio')


def pavail(e, h, disa=0.):
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    s = atm.compute_values(np.maximum(h - e.flat_rate_altitude, 0.), disa).density / atm.compute_values(0., 0.).density
    return np.where(h < e.flat_rate_altitude, 1., (s - .117) / .883) * e.sea_level_power


LBHPH = 0.45359237 / (745.6998715822702 * 3600.)


def r_ice(ctx, hf):
    h = np.array([[0.], [1000.], [2000.], [3500.], [6000.], [9000.], [15000.], [22000.]])
    for P0, sfc, disa in itertools.product((8e4, 2e5), (.36, .5), (0., 15.)):
        e = C.Internal_Combustion_Engine()
        e.sea_level_power, e.flat_rate_altitude, e.power_specific_fuel_consumption = P0, hf, sfc
        c = dict(h=h, t=np.array([[1., .5, 0., .9, .3, 1., 1., 1.]]).T, w=np.array([[250., 200., 260., 100., 280., 250., 250., 250.]]).T)

        def f(c):
            con = cond(dict(throttle=c['t'], altitude=c['h'], delta_ISA=c['h'] * 0 + disa))
            con.propulsion.combustion_engine_throttle = c['t']
            x = copy.deepcopy(e)
            x.inputs.speed = c['w']
            o = x.power(con)
            r = dict(P=o.power, q=o.torque, mf=o.fuel_flow_rate)
            r = {k: np.array(v) for k, v in r.items()}
            y = copy.deepcopy(e)
            y.inputs.power = r['P']
            o = y.calculate_throttle(con)
            return dict(r, t=o.throttle, mf2=o.fuel_flow_rate)
        o = R.rowcheck(ctx, 'ice', f, c)
        av = pavail(e, h, disa)
        P = np.maximum(av * c['t'], 0.)
        near(ctx, o['P'], P, 'ice:power', 'power available times throttle')
        near(ctx, o['q'] * c['w'], P, 'ice:torque', 'torque times speed')
        near(ctx, o['mf'], P * sfc * LBHPH, 'ice:fuel', 'fuel flow of that power', rtol=1e-6)
        near(ctx, o['mf2'], o['mf'], 'ice:fuel-inverse', 'fuel flow of the commanded power')
        near(ctx, np.where(av > 0, o['t'], c['t']), c['t'], 'ice:throttle', 'throttle that gives that power', rtol=1e-8, atol=1e-12)


def r_small(ctx):
    n = 4
    one = np.ones((n, 1))
    col = np.array([[1.], [2.], [3.], [5.]])
    for a, e in itertools.product((.5, 8.), (.1, .25)):
        p = C.Solar_Panel()
        p.area, p.efficiency = a, e
        p.inputs.flux = col * 1.
        near(ctx, p.power(), a * e * col, 'panel', 'flux times area times efficiency')
        near(ctx, p.outputs.power, a * e * col, 'panel', 'stored power')
    for s, m in itertools.product((1e-8, 3e-7), (0., 1e5)):
        g = C.Generator_Zero_Fid()
        g.sfc, g.max_power = s, m
        g.calculate_power(cond(dict(throttle=col)))
        near(ctx, g.outputs.power_generated, m * one, 'generator:power', 'generated power')
        near(ctx, g.outputs.vehicle_mass_rate, m * s * one, 'generator:fuel', 'fuel flow')
    for k in ('Avionics', 'Payload'):
        for d in (0., 35.):
            x = SUAVE.Components.Energy.Peripherals[k]() if hasattr(SUAVE.Components.Energy.Peripherals, '__getitem__') else getattr(SUAVE.Components.Energy.Peripherals, k)()
            x.power_draw = d
            near(ctx, x.power(), d, 'peripheral', 'power drawn')
            near(ctx, x.outputs.power, d, 'peripheral', 'stored power drawn')
    for eta, Rp in itertools.product((.6, .9), (.5, 1.5)):
        def f(c):
            x = C.Propeller_Lo_Fid()
            x.tip_radius, x.propulsive_efficiency = Rp, eta
            x.inputs.omega, x.inputs.torque = c['w'], c['q']
            con = cond(dict(throttle=c['w'], density=c['rho'], velocity=c['v']))
            T, Q, P, Cp = x.spin(con)
            return dict(T=T, Q=Q, P=P, Cp=Cp)
        c = dict(w=100 * col, q=7. + col, rho=1.2 / col, v=10 * col)
        o = R.rowcheck(ctx, 'proplf', f, c)
        near(ctx, o['P'], c['w'] * c['q'], 'proplf:power', 'shaft power')
        near(ctx, o['Q'], c['q'], 'proplf:torque', 'shaft torque')
        near(ctx, o['T'] * c['v'], eta * o['P'], 'proplf:thrust', 'thrust power is the efficient share')
        near(ctx, o['Cp'] * c['rho'] * (c['w'] / 2 / np.pi) ** 3 * (2 * Rp) ** 5, o['P'], 'proplf:cp', 'power coefficient')
    for e, se in itertools.product((.3, .5), (4.3e7, 1.2e8)):
        t = C.Turboelectric()
        t.propellant, t.efficiency, t.specific_power = Data(), e, 5000.
        t.propellant.specific_energy = se
        t.inputs.power_in = 1e5 * col
        near(ctx, t.energy_calc(None, None), 1e5 * col / (e * se), 'turboelectric:fuel', 'fuel flow that releases the power')
        from SUAVE.Methods.Power.Turboelectric.Sizing.initialize_from_power import initialize_from_power
        for p in (101325., 5e4):
            con = cond(dict(throttle=one[:1], pressure=np.array([[p]])))
            initialize_from_power(t, 2e6, con)
            near(ctx, t.mass_properties.mass, 2e6 * 101325. / p / 5000., 'turboelectric:mass', 'mass for the power at that pressure')
            near(ctx, t.rated_power, 2e6, 'turboelectric:rated', 'rated power')


# ---------------------------------------------------------------- superconducting parts
def r_hts(ctx):
    col = np.array([[300.], [500.], [800.], [1000.]])
    amb = np.array([[300.], [250.], [230.], [280.]])
    for Rr, A, rv, T in itertools.product((1e-4, 2e-2), (1., 4.), (50., 125.), (20., 65.)):
        def f(c):
            x = C.Motor_HTS_Rotor()
            x.temperature, x.resistance, x.surface_area, x.R_value = T, Rr, A, rv
            x.inputs.hts_current, x.inputs.ambient_temp = c['i'], c['a']
            p = x.power(None)
            return dict(p=p, v=x.outputs.coil_voltage, q=x.outputs.cryo_load, op=x.outputs.coil_power)
        o = R.rowcheck(ctx, 'rotor', f, dict(i=col, a=amb))
        near(ctx, o['p'], Rr * col ** 2, 'rotor:power', 'coil power')
        near(ctx, o['v'] * col, o['p'], 'rotor:voltage', 'coil voltage times current')
        near(ctx, o['q'], Rr * col ** 2 + (amb - T) * A / rv, 'rotor:cryo', 'coil loss plus leakage')
        near(ctx, o['op'], o['p'], 'rotor:stored', 'stored power')
    for eff, rated in itertools.product((.3, .9), (500., 700.)):
        lo, hi = .2 * rated, 1.8 * rated
        cur = np.array([[lo], [.7 * rated], [rated], [hi]])
        e = eff * (1 - (cur / rated - 1) ** 2)
        P = np.array([[0.], [10.], [200.], [50.]])

        def f(c):
            d = DI.HTS_DC_Dynamo_Basic()
            d.efficiency, d.rated_current = eff, rated
            d.inputs.hts_current, d.inputs.power_out = c['i'], c['p']
            a, b = d.shaft_power(None)
            s = DI.HTS_Dynamo_Supply()
            s.inputs.dynamo, s.inputs.hts_current, s.inputs.power_out, s.inputs.RPM = d, c['i'], c['p'], 100.
            return dict(shaft=a, cryo=b, sup=s.power_in(None), oi=d.outputs.power_in, oc=d.outputs.cryo_load)
        o = R.rowcheck(ctx, 'dynamo', f, dict(i=cur, p=P))
        near(ctx, o['shaft'], P / e, 'dynamo:shaft', 'shaft power at the efficiency of that current')
        near(ctx, o['cryo'], P / e - P, 'dynamo:cryo', 'lost power is a heat load')
        near(ctx, o['sup'], P / e, 'dynamo:supply', 'supply power')
        near(ctx, o['oi'], o['shaft'], 'dynamo:stored', 'stored shaft power')
        near(ctx, o['oc'], o['cryo'], 'dynamo:stored', 'stored heat load')
        s = DI.HTS_DC_Supply()
        s.efficiency = eff
        s.inputs.power_out = P * 1.
        near(ctx, s.power(None) * eff, P, 'supply:power', 'power in')
        near(ctx, s.outputs.power_in * eff, P, 'supply:power', 'stored power in')


_lead = {}


def lead_ref(mat, Tc, Th, I):
    from scipy.integrate import quad
    k = (id(type(mat)), Tc, Th, I)
    if k in _lead:
        return _lead[k]
    qm = lambda T: I * np.sqrt(2 * quad(lambda t: mat.thermal_conductivity(t) / mat.electrical_conductivity(t), T, Th, limit=200)[0])
    # I^2 L/A = int_Tc^Th k dT ... equivalent form: L/A = int k / sqrt(Q(T)) -> L I / A = int_Tc^Th k(T)/q(T) dT, q = Qmin/I at T
    v = (lambda T: mat.thermal_conductivity(T) / (qm(T) / I))
    q0 = qm(Tc)
    eps = 1e-9 * (Th - Tc)
    # substitution T = Th - s^2 removes the square root singularity at the warm end
    la = quad(lambda s: 2 * s * v(Th - s * s), np.sqrt(eps), np.sqrt(Th - Tc), limit=200, epsrel=1e-8)[0] / I
    cond_ = quad(mat.thermal_conductivity, Tc, Th, limit=200)[0]
    _lead[k] = (q0, la, cond_)
    return _lead[k]


def r_lead(ctx):
    from SUAVE.Attributes.Solids.Copper import Copper
    mat = Copper()
    for Tc, Th, I, L in ((65., 300., 1000., .3), (40., 280., 500., .5), (77., 300., 100., .2)):
        q0, la, kc = lead_ref(mat, Tc, Th, I)

        def make():
            x = DI.Cryogenic_Lead()
            x.cold_temp, x.hot_temp, x.current, x.length, x.material = Tc, Th, I, L, mat
            x.initialize_material_lead(None)
            return x
        x = make()
        near(ctx, x.outputs.minimum_Q, q0, 'lead:minimum', 'least heat leak of a lead carrying its current', rtol=1e-4)
        near(ctx, x.outputs.cross_section, L / la, 'lead:section', 'cross section of the optimum lead', rtol=3e-2)
        near(ctx, x.mass_properties.mass, x.outputs.cross_section * L * mat.density, 'lead:mass', 'lead mass')
        near(ctx, x.outputs.unpowered_Q, kc * x.outputs.cross_section / L, 'lead:unpowered', 'heat conducted without current', rtol=1e-4)
        near(ctx, x.outputs.optimum_current, I, 'lead:current', 'design current')
        cur = I * np.array([[0.], [.25], [.5], [1.]])

        def f(c):
            y = copy.deepcopy(x)
            y.inputs.current = c['i']
            v = y.Q_offdesign(None)
            return dict(q=v[:, 0], p=v[:, 1])
        o = R.rowcheck(ctx, 'lead', f, dict(i=cur))
        s = cur / I
        near(ctx, o['q'], x.outputs.unpowered_Q + s * (x.outputs.minimum_Q - x.outputs.unpowered_Q), 'lead:part', 'heat leak between unpowered and design', rtol=1e-9)
        near(ctx, o['p'], x.outputs.minimum_Q * s ** 2, 'lead:ohmic', 'lead power grows with the square of the current', rtol=1e-9)


def r_cool(ctx):
    CO = SUAVE.Components.Energy.Cooling
    par = {'fps': (35., .0014, .0098, 1.0769), 'GM': (5.4, .0005, .0129, 63.08), 'sPT': (16., .0002, .0079, 51.124), 'dPT': (8., 1e-5, .0111, 73.809)}
    from SUAVE.Methods.Cryogenics.Cryocooler.cryocooler_model import cryocooler_model
    for k, (Tm, s, a, b) in par.items():
        for amb, T in itertools.product((260., 292.15, 310.), (65., 90.)):
            def f(c):
                x = CO.Cryocooler()
                x.cooler_type, x.ambient_temp, x.inputs.cooling_power, x.inputs.cryo_temp = k, amb, c['q'], T
                m = cryocooler_model(x)
                return dict(p=x.energy_calc(None), m=m[1], o=x.outputs.input_power)
            c = dict(q=np.array([[0.], [10.], [300.]]))
            o = R.rowcheck(ctx, 'cryocooler', f, c)
            p = c['q'] / (s * (T - Tm + 292.15 - amb))
            near(ctx, o['p'], p, 'cryocooler:power', 'power in for the heat lifted')
            near(ctx, o['o'], p, 'cryocooler:stored', 'stored power')
            near(ctx, o['m'], a * p + b, 'cryocooler:mass', 'cooler mass')
    H = SUAVE.Attributes.Cryogens.Liquid_H2()
    poly = lambda c, a, b: sum(cc * (b ** (i + 1) - a ** (i + 1)) / (i + 1) for i, cc in enumerate(c))
    liq, gas = [H['LCP_C%d' % i] for i in range(4)], [H['GCP_C%d' % i] for i in range(4)]
    for p, Ti, Tf in itertools.product((5e4, 1e5, 5e5), (15., 18., 24., 40.), (17., 25., 65., 290.)):
        if Tf <= Ti:
            continue
        Tb = H.antoine_B / (H.antoine_A - np.log10(p)) - H.antoine_C
        dh = (poly(liq, Ti, min(Tf, Tb)) if Ti < Tb else 0.) + (poly(gas, max(Ti, Tb), Tf) if Tf > Tb else 0.)
        if Ti < Tb < Tf:
            dh += sum(H['H_C%d' % i] * p ** i for i in range(4))

        def f(c):
            x = CO.Cryogenic_Heat_Exchanger()
            x.cryogen_inlet_temperature, x.cryogen_outlet_temperature, x.cryogen_pressure, x.inputs.cooling_power = Ti, Tf, p, c['q']
            return dict(m=x.energy_calc(None), o=x.outputs.mdot)
        c = dict(q=np.array([[0.], [100.], [5000.]]))
        o = R.rowcheck(ctx, 'exchanger', f, c)
        near(ctx, o['m'], c['q'] / (1000. * dh), 'exchanger:flow', 'coolant flow that takes up the heat (%g K to %g K at %g Pa, boiling at %g K)' % (Ti, Tf, p, Tb), rtol=1e-7)
        near(ctx, o['o'], o['m'], 'exchanger:stored', 'stored flow')


# ---------------------------------------------------------------- sun
def sun_ref(doy, sod, lat, lon, rot, alt, airmass=True, azimuth=True):
    """tilted panel flux: Duffie and Beckman geometry, spherical shell air mass, direct intensity 0.7^(AM^0.678)"""
    rad = np.pi / 180
    B = (360. / 365) * (doy - 81) * rad
    eot = 9.87 * np.sin(2 * B) - 7.53 * np.cos(B) - 1.5 * np.sin(B)
    w = 15 * (sod / 3600 + (4 * lon + eot) / 60 - 12) * rad
    d = -23.44 * np.cos((360. / 365) * (doy + 10) * rad) * rad
    ph = lat * rad
    cz = np.clip(np.sin(d) * np.sin(ph) + np.cos(d) * np.cos(ph) * np.cos(w), -1, 1)
    z = np.arccos(cz)
    x = (cz * np.sin(ph) - np.sin(d)) / (np.sin(z) * np.cos(ph))
    gs = np.sign(w) * np.abs(np.arccos(np.clip(x, -1, 1)) if azimuth else x)
    tilt = np.arccos(np.clip(np.cos(rot[:, 1]) * np.cos(rot[:, 0]), -1, 1))[:, None]
    cth = cz * np.cos(tilt) + np.sin(z) * np.sin(tilt) * np.cos(gs - (rot[:, 2:3] - np.pi))
    r = SUAVE.Attributes.Planets.Earth().mean_radius / (9000. if airmass else 9.)
    c = alt / 9000.
    AM = np.sqrt((r + c) ** 2 * cz ** 2 + 2 * r * (1 - c) - c * c + 1) - (r + c) * cz
    I = 1367. * np.where(alt < 9000., .7 ** np.maximum(AM, 0) ** .678, np.where(alt > 9000., 1., 1.))
    f = np.maximum(I * cth, 0.)
    return np.where(z > 96.70995 * rad, 0., f), z, w


def sun_eval(doy, tod, lat, lon, rot, alt, t):
    con = cond(dict(throttle=lat * 0., altitude=alt * 1.))
    con.frames.planet.start_time = time.struct_time((2014, 1, 1, tod // 3600, tod % 3600 // 60, tod % 60, 0, doy, 0))
    con.frames.planet.latitude, con.frames.planet.longitude = lat * 1., lon * 1.
    con.frames.body.inertial_rotations, con.frames.inertial.time = rot * 1., t * 1.
    s = SUAVE.Components.Energy.Processes.Solar_Radiation()
    f = np.array(s.solar_radiation(con))
    return f, s.outputs.flux


def r_sun(ctx, high):
    lats, alts = [-60., -20., 0., 35., 70.], ([9500., 2e4] if high else [0., 3000., 8000.])
    rots = [(0., 0., 0.), (.3, 0., 0.), (0., .3, 1.6), (-.4, .2, 3.1), (.6, -.5, 5.)]
    grid = list(itertools.product(lats, (-90., 0., 45.), alts, (0., 7200., 30000.)))
    for doy, tod, ro in itertools.product((10, 79, 172, 266, 355), (21600, 36000, 43200, 57611), rots):
        lat, lon, alt, t = [np.array([g[k] for g in grid])[:, None] for k in range(4)]
        rot = np.tile(np.array(ro), (len(grid), 1))
        got, st = sun_eval(doy, tod, lat, lon, rot, alt, t)
        ctx.trace()
        day, sod = doy + np.floor(t / 86400.), tod + t % 86400.
        want, z, w = sun_ref(day, sod, lat, lon, rot, alt)
        sure = (np.abs(z - 96.70995 * np.pi / 180) > 1e-6) & (np.abs(np.cos(z)) > 1e-6) & (np.abs(np.sin(z)) > 1e-6)
        ctx.check(R.same(got, st, 0.), 'sun:stored', 'stored flux')
        ctx.state((doy, tod, ro, high))
        ctx.ev(n=got.size)
        tol = 1e-6
        bad = sure & ~(np.abs(got - want) <= tol * 1367)
        if bad.any():
            w1 = sun_ref(day, sod, lat, lon, rot, alt, airmass=False)[0]
            w2 = sun_ref(day, sod, lat, lon, rot, alt, azimuth=False)[0]
            w3 = sun_ref(day, sod, lat, lon, rot, alt, airmass=False, azimuth=False)[0]
            for i in np.nonzero(bad)[0]:
                ok = [k for k, v in (('sun:air-mass', w1), ('sun:azimuth', w2), ('sun:azimuth', w3)) if abs(got[i, 0] - v[i, 0]) <= tol * 1367]
                ctx.fail(ok[0] if ok else 'sun:flux', 'day %s %ss lat %g lon %g alt %g rotation %s: flux %.6f, expected %.6f' % (doy, tod + t[i, 0], lat[i, 0], lon[i, 0], alt[i, 0], ro, got[i, 0], want[i, 0]))
    c = dict(lat=np.array([[10.], [50.], [-30.]]), lon=np.array([[0.], [20.], [-20.]]), alt=np.array([[0.], [8000.], [12000.]]), t=np.array([[0.], [90000.], [3600.]]), rot=np.array([[0., 0., 0.], [.1, .1, 1.], [.2, 0., 2.]]))
    R.rowcheck(ctx, 'sun', lambda c: dict(f=sun_eval(100, 43200, c['lat'], c['lon'], c['rot'], c['alt'], c['t'])[0]), c)


def r_sum(ctx):
    """vehicle networks add up"""
    class Fake(NW.Network):
        def __defaults__(self):
            self.tag = 'fake'

        def evaluate_thrust(self, state):
            r = Data()
            n = state._size
            r.thrust_force_vector = np.array([[1., 2., 3.]]) * self.k * np.arange(1, n + 1)[:, None]
            r.vehicle_mass_rate = np.full((n, 1), 1.1 * self.k)
            r.network_y_axis_rotation = np.full((n, 1), .1 * self.k)
            if self.add:
                r.vehicle_additional_fuel_rate = np.full((n, 1), .7 * self.k)
                r.vehicle_fuel_rate = np.full((n, 1), .4 * self.k)
            return r
    for m in (0, 1, 2, 3):
        for add in itertools.product((0, 1), repeat=m):
            if 0 < sum(add) < m:
                continue
            for order in itertools.permutations(range(m)):
                box = NW.Network.Container()
                for j in order:
                    f = Fake()
                    f.tag, f.k, f.add, f.has_additional_fuel_type = 'f%d' % j, j + 1., add[j], bool(add[j])
                    box.append(f)
                st = SUAVE.Analyses.Mission.Segments.Conditions.State()
                st._size = 4
                r = box.evaluate_thrust(st)
                tot = sum(j + 1. for j in range(m))
                near(ctx, r.thrust_force_vector, np.array([[1., 2., 3.]]) * tot * np.arange(1, 5)[:, None], 'sum:thrust', 'thrust of all networks')
                near(ctx, r.vehicle_mass_rate, np.full((4, 1), 1.1 * tot), 'sum:mass', 'mass rate of all networks')
                if m and sum(add) == m:
                    near(ctx, r.vehicle_additional_fuel_rate, np.full((4, 1), .7 * tot), 'sum:additional', 'additional fuel of all networks')
                    near(ctx, r.vehicle_fuel_rate, np.full((4, 1), .4 * tot), 'sum:fuel', 'fuel of all networks')
                ctx.state(('sum', add, order))
                ctx.trace()


# ---------------------------------------------------------------- networks with stand-in propellers
def stand_in(k, tag, wake='Fidelity_Two'):
    class Wake(Data):
        def shift_wake_VD(self, vd, off):
            self.vortex_distribution.x = self.vortex_distribution.x + np.array(off)

    class Prop(SUAVE.Components.Energy.Energy_Component):
        def spin(self, con):
            w, rho, V = self.inputs.omega, con.freestream.density, con.freestream.velocity
            self.seen.append(({a: np.array(b) for a, b in self.inputs.items()}, np.array(con.propulsion.throttle)))
            n, D = w / 2 / np.pi, 2 * self.tip_radius
            pitch = 1. + np.array(self.inputs.pitch_command) if 'pitch_command' in self.inputs else 1.
            Q = self.kq * pitch * rho * n * n * D ** 5
            T = self.kt * pitch * rho * n * n * D ** 4 * (1 - .002 * V)
            P = Q * w
            F = T * np.array(self.axis)
            o = Data()
            o.figure_of_merit, o.who = self.fm + 0. * T, self.tag
            return F, Q, P, self.kq * 2 * np.pi * np.ones_like(T), o, .8 * self.fm + .001 * V
    p = Prop()
    p.seen = []
    p.tag, p.tip_radius, p.kq, p.kt, p.fm = tag, .7 + .1 * k, .006 + .002 * k, .08 + .01 * k, .6 + .05 * k
    a = .2 * k
    p.axis = [np.cos(a), .1 * k, -np.sin(a)]
    p.origin = [[1. * k, 2. - k, .3 * k]]
    p.design_power_coefficient = .04 + .01 * k
    p.Wake = Wake()
    p.Wake.wake_method = wake
    p.Wake.vortex_distribution = Data()
    p.Wake.vortex_distribution.x = np.array([1., 2., 3.])
    return p


def battery(V=120.):
    b = SUAVE.Components.Energy.Storages.Batteries.Constant_Mass.Lithium_Ion()
    b.mass_properties.mass = 60.
    b.max_voltage = V
    from SUAVE.Methods.Power.Battery.Sizing import initialize_from_mass
    initialize_from_mass(b)
    b.pack_config.series, b.pack_config.parallel, b.pack_config.total = 28, 3, 84
    return b


def peripherals(net):
    net.avionics = SUAVE.Components.Energy.Peripherals.Avionics()
    net.avionics.power_draw = 35.
    net.payload = SUAVE.Components.Energy.Peripherals.Payload()
    net.payload.power_draw = 15.


def esc(e):
    x = DI.Electronic_Speed_Controller()
    x.efficiency = e
    return x


def kinds(n, mode):
    return list(range(n)) if mode == 'distinct' else [1] * n


def mk(k, tag):
    return motor(kv=9. + k, Res=.05 + .01 * k, io=1. + .3 * k, g=1. + .2 * k, eg=.97, ei=20., R_=.7 + .1 * k, tag=tag)


def segment(n, net, discharge=True, adder='add_unknowns_and_residuals_to_segment', kw={}):
    """a real segment state that the network filled in, expanded to n rows"""
    seg = SUAVE.Analyses.Mission.Segments.Segment()
    seg.state.conditions.update(SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics())
    seg.conditions = seg.state.conditions
    seg.temperature_deviation = 0.
    if not discharge:
        seg.battery_discharge = False
    seg.state.unknowns.throttle = np.ones((1, 1)) * .5
    seg.battery_energy = .8 * net.battery.max_energy if 'battery' in net else 0.
    seg.analyses.energy = SUAVE.Analyses.Energy.Energy()
    box = NW.Network.Container()
    box.append(net)
    seg.analyses.energy.network = box
    real = seg.analyses.energy.network[list(box.keys())[0]]
    getattr(real, adder)(seg, **kw)
    seg.state.expand_rows(n)
    seg.conditions = seg.state.conditions
    return seg, real


def load(seg, c):
    n = len(c['throttle'])
    con = seg.state.conditions
    for k, v in c.items():
        if k in con.freestream or k in ('thermal_conductivity', 'kinematic_viscosity', 'prandtl_number'):
            con.freestream[k] = v
    seg.state.numerics = times(n)
    seg.state._size = con._size = n


def volts(n):
    return np.array([118., 110., 105., 100., 95., 90.])[:n, None]


def cps(kinds_, n):
    x = np.arange(n)[:, None]
    return np.hstack([.03 + .01 * k + .002 * x for k in kinds_])


def group_ref(kinds_, factor, c, thr, V, cp, props=None):
    """per engine and total: speed, thrust vector, shaft power, motor current"""
    out = []
    boost = np.where(thr > 1, thr, 1.)
    for j, k in enumerate(kinds_):
        m, p = mk(k, 'x'), stand_in(k, 'x')
        w, q, i, e = motor_ref(m, np.clip(thr, 0, 1) * V, c['density'], cp[:, j:j + 1])
        nn, D = w / 2 / np.pi, 2 * p.tip_radius
        T = p.kt * c['density'] * nn ** 2 * D ** 4 * (1 - .002 * c['velocity'])
        Q = p.kq * c['density'] * nn ** 2 * D ** 5
        out.append(dict(w=w, qm=q, i=i, e=e, F=T * np.array(p.axis) * boost, Q=Q, P=Q * w * boost, R=p.tip_radius, etap=.8 * p.fm + .001 * c['velocity'], fm=p.fm + 0 * w))
    tot = dict(F=sum(o['F'] for o in out) * factor, P=sum(o['P'] for o in out) * factor, i=sum(o['i'] for o in out) * factor)
    return out, tot


COLS = dict(propeller_motor_torque='qm', propeller_torque='Q', propeller_efficiency='etap', figure_of_merit='fm', propeller_motor_efficiency='e')


def columns(ctx, key, con, out, factor, c, pre='propeller', fmkey='figure_of_merit', names=None, noeta=()):
    P = con.propulsion
    a = c['speed_of_sound']
    mag = lambda o: np.linalg.norm(o['F'], axis=1)[:, None]
    want = {pre + '_rpm': lambda o: o['w'] * 30 / np.pi, pre + '_tip_mach': lambda o: o['R'] * o['w'] / a, pre + '_torque': lambda o: o['Q'], pre + '_efficiency': lambda o: o['etap']}
    want.update({(names or {}).get('disc', 'disc_loading'): lambda o: mag(o) / (np.pi * o['R'] ** 2), (names or {}).get('load', 'power_loading'): lambda o: mag(o) / o['P']})
    if not noeta:
        want.update({pre + '_motor_torque': lambda o: o['qm'], pre + '_motor_efficiency': lambda o: o['e'], pre + '_thrust': lambda o: mag(o) * factor})
    if fmkey:
        want[fmkey] = lambda o: o['fm']
    for k, f in want.items():
        got = np.asarray(P[k])
        w = np.hstack([f(o) for o in out])
        if got.shape != w.shape:
            ctx.fail('%s:column:%s' % (key, k), '%s reported in shape %s, expected %s' % (k, got.shape, w.shape))
            continue
        near(ctx, got, w, '%s:column:%s' % (key, k), 'reported ' + k, rtol=1e-6, atol=1e-9)


def perms(n, mode):
    return list(itertools.permutations(range(n))) if mode == 'distinct' else [tuple(range(n))]


def r_bat(ctx, n, mode):
    c0 = points()
    ks = kinds(n, mode)
    ident = mode == 'same'
    wakes = ('Fidelity_Two', 'Fidelity_Zero', 'Fidelity_One') if ident else ('Fidelity_Two', 'Fidelity_Zero')

    def build(order, wake):
        net = NW.Battery_Propeller()
        for j in order:
            net.propellers.append(stand_in(ks[j], 'prop%d' % j, wake))
            net.propeller_motors.append(mk(ks[j], 'motor%d' % j))
        if ident:
            for j, p in enumerate(net.propellers):
                p.origin = [[1. * j, 2. - j, .3 * j]]
        net.number_of_propeller_engines, net.identical_propellers, net.voltage = n, ident, 120.
        net.esc, net.battery = esc(.93), battery()
        peripherals(net)
        net.y_axis_rotation = .15
        return net

    def fly(order, c, wake='Fidelity_Two', repeat=1):
        net = build(order, wake)
        m = len(c['throttle'])
        cp = cps(ks if not ident else ks[:1], 6)[c['_row'][:, 0].astype(int)]
        cp = cp if ident else cp[:, list(order)]
        seg, net = segment(m, net)
        load(seg, c)
        seg.state.unknowns.propeller_power_coefficient = cp
        seg.state.unknowns.battery_voltage_under_load = c['_v']
        seg.state.conditions.propulsion.throttle = c['throttle']
        for _ in range(repeat):
            seg.process.iterate.unknowns.network(seg)
            r = net.evaluate_thrust(seg.state)
            seg.process.iterate.residuals.network(seg)
        return net, seg, r, cp
    c0['_v'], c0['_row'] = volts(6), np.arange(6.)[:, None]
    for order in perms(n, mode):
        for wake in wakes:
            net, seg, r, cp = fly(order, copy.deepcopy(c0), wake)
            con = seg.state.conditions
            key = 'bat'
            evs = [ks[j] for j in order] if not ident else ks[:1]
            factor = n if ident else 1.
            out, tot = group_ref(evs, factor, c0, c0['throttle'], c0['_v'], cp)
            near(ctx, r.thrust_force_vector, tot['F'], key + ':thrust', 'thrust of all propellers', rtol=1e-6, atol=1e-9)
            near(ctx, r.vehicle_mass_rate, 0., key + ':mass', 'no fuel is burnt')
            near(ctx, r.network_y_axis_rotation, .15, key + ':tilt', 'tilt of the propellers')
            I = tot['i'] * c0['throttle'] / .93
            near(ctx, con.propulsion.battery_current, I + 50. / 120., key + ':current', 'battery current', rtol=1e-6)
            near(ctx, con.propulsion.battery_power_draw, -(I * c0['_v'] + 50.), key + ':power', 'battery power', rtol=1e-6)
            near(ctx, con.propulsion.electronics_efficiency, tot['P'] / (I * c0['_v'] + 50.), key + ':electronics', 'share of the battery power that reaches the propellers', rtol=1e-6)
            near(ctx, con.propulsion.payload_efficiency, I * c0['_v'] / (I * c0['_v'] + 50.), key + ':payload', 'share of the battery power not used by avionics and payload', rtol=1e-6)
            columns(ctx, key, con, out, factor, c0)
            ev = list(net.propellers)[:1] if ident else list(net.propellers)
            for p, o in zip(ev, out):
                near(ctx, p.seen[-1][0]['omega'], o['w'], key + ':propeller-speed', 'speed handed to the propeller', rtol=1e-7)
                near(ctx, p.seen[-1][0]['y_axis_rotation'], .15, key + ':propeller-tilt', 'tilt handed to the propeller')
                ctx.check(p.tag in con.noise.sources.propellers and con.noise.sources.propellers[p.tag].who == p.tag, key + ':noise', 'noise source of %s missing or of another propeller' % p.tag)
            if ident:
                first = list(net.propellers)[0]
                for p in net.propellers:
                    if wake == 'Fidelity_One':
                        near(ctx, p.Wake.vortex_distribution.x, np.array([1., 2., 3.]) + np.array(p.origin[0]) - np.array(first.origin[0]), key + ':wake', 'wake of %s moved to its hub' % p.tag)
                    if wake == 'Fidelity_Zero':
                        ctx.check(p.outputs.who == first.tag, key + ':wake', 'copies share the outputs')
            res = seg.state.residuals.network
            near(ctx, res.propellers, np.hstack([o['qm'] - o['Q'] for o in out]), key + ':residual', 'torque residual of every engine', rtol=1e-5, atol=1e-7)
            near(ctx, res.voltage, (seg.state.unknowns.battery_voltage_under_load - con.propulsion.battery_voltage_under_load) / 120., key + ':residual-v', 'voltage residual')
            ctx.state(('bat', n, mode, order, wake))
            ctx.trace()
    first = perms(n, mode)[-1]

    def f(c):
        net, seg, r, cp = fly(first, c)
        P = seg.state.conditions.propulsion
        o = dict(F=r.thrust_force_vector, i=net.battery.inputs.current, p=net.battery.inputs.power_in, Q=seg.state.residuals.network.propellers)
        o.update({k: P[k] for k in ('propeller_rpm', 'propeller_thrust', 'propeller_tip_mach', 'disc_loading', 'power_loading', 'propeller_efficiency', 'figure_of_merit', 'propeller_motor_efficiency', 'propeller_torque', 'propeller_motor_torque', 'battery_current', 'battery_power_draw')})
        return o
    R.rowcheck(ctx, 'bat', f, c0)
    a, b = fly(first, copy.deepcopy(c0)), fly(first, copy.deepcopy(c0), repeat=3)
    ctx.check(R.same(a[2].thrust_force_vector, b[2].thrust_force_vector, 0.), 'bat:repeat', 'iterating again changes the thrust')
    # charging
    net = build(first, 'Fidelity_Two')
    seg, net = segment(6, net, discharge=False)
    load(seg, copy.deepcopy(c0))
    seg.state.unknowns.battery_voltage_under_load = c0['_v'] * 1.
    seg.process.iterate.unknowns.network(seg)
    r = net.evaluate_thrust(seg.state)
    seg.process.iterate.residuals.network(seg)
    charge_check(ctx, 'bat', net, seg, r)
    ctx.check('propeller_power_coefficient' not in seg.state.unknowns, 'bat:charge', 'charging has no propeller unknowns')


def charge_check(ctx, key, net, seg, r):
    b = net.battery
    near(ctx, r.thrust_force_vector, 0., key + ':charge-thrust', 'no thrust while charging')
    near(ctx, r.vehicle_mass_rate, 0., key + ':charge-mass', 'no fuel while charging')
    i = b.cell.charging_current * b.pack_config.parallel
    near(ctx, np.abs(seg.state.conditions.propulsion.battery_current), i, key + ':charge-current', 'charging current of the pack')
    near(ctx, seg.state.conditions.propulsion.battery_power_draw, i * b.cell.charging_voltage * b.pack_config.series, key + ':charge-power', 'charging power of the pack')
    E = seg.state.conditions.propulsion.battery_energy
    ctx.check(np.all(np.diff(E[:, 0]) > 0), key + ':charge-energy', 'energy must rise while charging: %s' % E[:, 0])


def r_lc(ctx, n, mode, n2, mode2, flight):
    c0 = points()
    c0['_v'], c0['_row'] = volts(6), np.arange(6.)[:, None]
    c0['_tl'] = np.array([[.8, .3, 1., 1.2, .6, .5]]).T
    k1, k2 = kinds(n, mode), [k + 2 for k in kinds(n2, mode2)]
    id1, id2 = mode == 'same', mode2 == 'same'

    def build(o1, o2, wake='Fidelity_Two'):
        net = NW.Lift_Cruise()
        for j in o1:
            net.propellers.append(stand_in(k1[j], 'prop%d' % j, wake))
            net.propeller_motors.append(mk(k1[j], 'motor%d' % j))
        for j in o2:
            net.lift_rotors.append(stand_in(k2[j], 'rotor%d' % j, wake))
            net.lift_rotor_motors.append(mk(k2[j], 'lmotor%d' % j))
        for box in (net.propellers, net.lift_rotors):
            for j, p in enumerate(box):
                p.origin = [[1. * j + p.kq * 100, 2. - j, .3 * j]]
        net.number_of_propeller_engines, net.identical_propellers, net.voltage = n, id1, 120.
        net.number_of_lift_rotor_engines, net.identical_lift_rotors = n2, id2
        net.propeller_esc, net.lift_rotor_esc, net.battery = esc(.93), esc(.9), battery()
        peripherals(net)
        return net

    def fly(o1, o2, c, wake='Fidelity_Two'):
        net = build(o1, o2, wake)
        m = len(c['throttle'])
        idx = c['_row'][:, 0].astype(int)
        cp1 = cps(k1 if not id1 else k1[:1], 6)[idx]
        cp1 = cp1 if id1 else cp1[:, list(o1)]
        cp2 = cps(k2 if not id2 else k2[:1], 6)[idx]
        cp2 = cp2 if id2 else cp2[:, list(o2)]
        seg, net = segment(m, net, adder='add_%s_unknowns_and_residuals_to_segment' % flight)
        load(seg, c)
        u = seg.state.unknowns
        want = {'transition': {'throttle', 'throttle_lift', 'propeller_power_coefficient', 'lift_rotor_power_coefficient'}, 'cruise': {'throttle', 'propeller_power_coefficient'}, 'lift': {'throttle_lift', 'lift_rotor_power_coefficient'}}[flight]
        ctx.check(set(keys(u)) == want | {'battery_voltage_under_load'}, 'lc:unknowns', '%s flight asks for %s' % (flight, sorted(keys(u))))
        vals = dict(throttle=c['throttle'], throttle_lift=c['_tl'], propeller_power_coefficient=cp1, lift_rotor_power_coefficient=cp2, battery_voltage_under_load=c['_v'])
        for k in keys(u):
            if np.shape(u[k]) != np.shape(vals[k]):
                ctx.fail('lc:unknowns', '%s has shape %s, expected %s' % (k, np.shape(u[k]), np.shape(vals[k])), stop=True)
            u[k] = vals[k]
        seg.process.iterate.unknowns.network(seg)
        r = net.evaluate_thrust(seg.state)
        seg.process.iterate.residuals.network(seg)
        return net, seg, r, cp1, cp2
    on1, on2 = flight != 'lift', flight != 'cruise'
    for o1 in perms(n, mode):
        for o2 in perms(n2, mode2):
            for wake in ('Fidelity_Two', 'Fidelity_One'):
                net, seg, r, cp1, cp2 = fly(o1, o2, copy.deepcopy(c0), wake)
                con = seg.state.conditions
                e1 = [k1[j] for j in o1] if not id1 else k1[:1]
                e2 = [k2[j] for j in o2] if not id2 else k2[:1]
                f1, f2 = (n if id1 else 1.), (n2 if id2 else 1.)
                t1, t2 = c0['throttle'] * on1, c0['_tl'] * on2
                out1, tot1 = group_ref(e1, f1, c0, t1, c0['_v'], cp1 * on1)
                out2, tot2 = group_ref(e2, f2, c0, t2, c0['_v'], cp2 * on2)
                I = tot1['i'] * t1 / .93 + tot2['i'] * t2 / .9
                near(ctx, r.thrust_force_vector, tot1['F'] + tot2['F'], 'lc:thrust', 'thrust of all propellers and lift rotors', rtol=1e-6, atol=1e-9)
                near(ctx, con.propulsion.battery_current, I + 50. / c0['_v'], 'lc:current', 'battery current', rtol=1e-6)
                near(ctx, con.propulsion.battery_power_draw, -(I * c0['_v'] + 50.), 'lc:power', 'battery power', rtol=1e-6)
                near(ctx, r.vehicle_mass_rate, 0., 'lc:mass', 'no fuel is burnt')
                near(ctx, con.propulsion.electronics_efficiency, (tot1['P'] + tot2['P']) / (I * c0['_v'] + 50.), 'lc:electronics', 'share of the battery power that reaches the propellers', rtol=1e-6)
                if on1:
                    columns(ctx, 'lc', con, out1, f1, c0, names=dict(disc='propeller_disc_loading', load='propeller_power_loading'))
                if on2:
                    columns(ctx, 'lc', con, out2, f2, c0, pre='lift_rotor', fmkey=None, names=dict(disc='lift_rotor_disc_loading', load='lift_rotor_power_loading'))
                for box, key in ((net.propellers, 'propellers'), (net.lift_rotors, 'lift_rotors')):
                    idn = id1 if key == 'propellers' else id2
                    first = list(box)[0]
                    if idn and wake == 'Fidelity_One':
                        for p in box:
                            near(ctx, p.Wake.vortex_distribution.x, np.array([1., 2., 3.]) + np.array(p.origin[0]) - np.array(first.origin[0]), 'lc:wake', 'wake of %s moved to its hub' % p.tag)
                    if not idn:
                        for p in box:
                            ctx.check(p.tag in con.noise.sources[key] and con.noise.sources[key][p.tag].who == p.tag, 'lc:noise', 'noise source of %s' % p.tag)
                res = seg.state.residuals.network
                ctx.check(set(keys(res)) == {'voltage'} | ({'propellers'} if on1 else set()) | ({'lift_rotors'} if on2 else set()), 'lc:residual', 'residuals %s' % sorted(keys(res)))
                if on1:
                    near(ctx, res.propellers, np.hstack([o['qm'] - o['Q'] for o in out1]), 'lc:residual', 'torque residual of every propeller', rtol=1e-5, atol=1e-7)
                if on2:
                    near(ctx, res.lift_rotors, np.hstack([o['qm'] - o['Q'] for o in out2]), 'lc:residual', 'torque residual of every lift rotor', rtol=1e-5, atol=1e-7)
                near(ctx, res.voltage, (seg.state.unknowns.battery_voltage_under_load - con.propulsion.battery_voltage_under_load) / 120., 'lc:residual-v', 'voltage residual')
                nu = sum(np.size(seg.state.unknowns[k]) for k in keys(seg.state.unknowns))
                nr = sum(np.size(res[k]) for k in keys(res))
                # the two mission unknowns (throttle, body angle or lift throttle) are balanced by the two force residuals
                mission = {'transition': 2, 'cruise': 1, 'lift': 1}[flight]
                ctx.check(nu - mission * 6 == nr, 'lc:square', '%s flight: %d network unknowns for %d residuals' % (flight, nu - mission * 6, nr))
                ctx.state(('lc', n, mode, n2, mode2, flight, o1, o2, wake))
                ctx.trace()

    def f(c):
        net, seg, r, cp1, cp2 = fly(perms(n, mode)[-1], perms(n2, mode2)[-1], c)
        P = seg.state.conditions.propulsion
        o = dict(F=r.thrust_force_vector, i=net.battery.inputs.current, p=net.battery.inputs.power_in)
        if on1:
            o.update({k: P[k] for k in ('propeller_rpm', 'propeller_thrust', 'propeller_disc_loading')})
        if on2:
            o.update({k: P[k] for k in ('lift_rotor_rpm', 'lift_rotor_thrust', 'lift_rotor_disc_loading')})
        return o
    R.rowcheck(ctx, 'lc', f, c0)


def keys(d):
    """the unknowns or residuals of a container, without its tag"""
    return [k for k in d.keys() if k != 'tag']


def r_hist(ctx, kind, first, depth):
    """what a network was asked before does not matter"""
    c0 = points()

    def build():
        if kind == 'bat':
            net = NW.Battery_Propeller()
            ps, ms = net.propellers, net.propeller_motors
            net.number_of_propeller_engines, net.identical_propellers = 2, False
        else:
            net = NW.Lift_Cruise()
            ps, ms = net.propellers, net.propeller_motors
            for j in range(2):
                net.lift_rotors.append(stand_in(j + 2, 'rotor%d' % j))
                net.lift_rotor_motors.append(mk(j + 2, 'lmotor%d' % j))
            net.number_of_propeller_engines, net.identical_propellers = 2, False
            net.number_of_lift_rotor_engines, net.identical_lift_rotors = 2, False
            net.propeller_esc, net.lift_rotor_esc = esc(.93), esc(.9)
        for j in range(2):
            ps.append(stand_in(j, 'prop%d' % j))
            ms.append(mk(j, 'motor%d' % j))
        net.voltage, net.esc, net.battery = 120., esc(.93), battery()
        peripherals(net)
        return net

    def do(net, op):
        m = 6 if op == 'A' else 4
        c = copy.deepcopy(c0)
        c = {k: v[::-1][:m] if op == 'B' else v[:m] for k, v in c.items()}
        seg, net = segment(m, net, discharge=op != 'C', adder='add_unknowns_and_residuals_to_segment' if kind == 'bat' else 'add_transition_unknowns_and_residuals_to_segment')
        load(seg, c)
        u = seg.state.unknowns
        vals = dict(throttle=c['throttle'], throttle_lift=c['throttle'][::-1] * 1., propeller_power_coefficient=cps([0, 1], m), lift_rotor_power_coefficient=cps([2, 3], m), battery_voltage_under_load=volts(m))
        for k in keys(u):
            u[k] = vals[k]
        seg.state.conditions.propulsion.throttle = vals['throttle']
        seg.process.iterate.unknowns.network(seg)
        r = net.evaluate_thrust(seg.state)
        seg.process.iterate.residuals.network(seg)
        if op == 'C':
            charge_check(ctx, kind, net, seg, r)
        out = R.flat(seg.state.conditions.propulsion)
        out['F'] = r.thrust_force_vector
        return out
    fresh = {}
    for op in 'ABC':
        net = build()
        if kind == 'lc' and op == 'C':
            do(net, 'A')
        fresh[op] = do(net, op)
    for d in range(1, depth + 1):
        for h in itertools.product('ABC', repeat=d - 1):
            hist = (first,) + h
            if kind == 'lc' and first == 'C':
                hist = ('A',) + hist
            net = build()
            for k, op in enumerate(hist):
                o = do(net, op)
                ctx.step()
                for name, v in fresh[op].items():
                    if name not in o or not R.same(o[name], v, 1e-12):
                        ctx.fail('hist:%s:%s' % (kind, name), 'after %s, %s gives %s = %s, a fresh network %s' % (hist[:k], op, name, np.ravel(o.get(name, np.nan))[:4], np.ravel(v)[:4]), stop=True)
                    ctx.ev()
            ctx.state((kind, hist))
            ctx.trace()


def r_solar(ctx, n, mode):
    c0 = points()
    c0['_row'] = np.arange(6.)[:, None]
    c0['_lat'], c0['_lon'] = np.array([[30., 31., 32., 33., 34., 35.]]).T, np.array([[0., 1., 2., 3., 4., 5.]]).T
    ks, ident = kinds(n, mode), mode == 'same'
    for order in perms(n, mode):
        def fly(c):
            m = len(c['throttle'])
            net = NW.Solar()
            for j in order:
                net.propellers.append(stand_in(ks[j], 'prop%d' % j))
                net.motors.append(mk(ks[j], 'motor%d' % j))
            net.number_of_engines, net.identical_propellers = n, ident
            net.esc, net.battery = esc(.93), battery()
            net.solar_flux = SUAVE.Components.Energy.Processes.Solar_Radiation()
            net.solar_panel = C.Solar_Panel()
            net.solar_panel.area, net.solar_panel.efficiency = 30., .25
            net.solar_logic = DI.Solar_Logic()
            net.solar_logic.system_voltage, net.solar_logic.MPPT_efficiency = 40., .96
            peripherals(net)
            cp = cps(ks if not ident else ks[:1], 6)[c['_row'][:, 0].astype(int)]
            cp = cp if ident else cp[:, list(order)]
            seg, net = segment(m, net)
            load(seg, c)
            con = seg.state.conditions
            con.propulsion.throttle = c['throttle']
            con.frames.planet.start_time = time.struct_time((2014, 6, 1, 12, 0, 0, 0, 150, 0))
            con.frames.planet.latitude, con.frames.planet.longitude = c['_lat'], c['_lon']
            con.frames.inertial.time = seg.state.numerics.time.control_points * 0.
            con.frames.body.inertial_rotations = np.zeros((m, 3))
            ctx.check(np.shape(seg.state.unknowns.propeller_power_coefficient) == cp.shape, 'solar:unknowns', 'unknown power coefficients')
            seg.state.unknowns.propeller_power_coefficient = cp
            seg.process.iterate.unknowns.network(seg)
            r = net.evaluate_thrust(seg.state)
            seg.process.iterate.residuals.network(seg)
            return net, seg, r, cp
        net, seg, r, cp = fly(copy.deepcopy(c0))
        con = seg.state.conditions
        evs, factor = ([ks[j] for j in order], 1.) if not ident else (ks[:1], n)
        out, tot = group_ref(evs, factor, c0, c0['throttle'], 40., cp)
        I = tot['i'] * c0['throttle'] / .93
        flux = con.propulsion.solar_flux
        near(ctx, flux, sun_eval(150, 43200, c0['_lat'], c0['_lon'], np.zeros((6, 3)), c0['altitude'], np.zeros((6, 1)))[0], 'solar:flux', 'solar flux')
        surplus = .96 * flux * 30. * .25 - 50. - 40. * I
        near(ctx, r.thrust_force_vector, tot['F'], 'solar:thrust', 'thrust of all propellers', rtol=1e-6, atol=1e-9)
        near(ctx, net.battery.inputs.power_in, surplus, 'solar:power', 'surplus power goes to the battery', rtol=1e-6, atol=1e-6)
        near(ctx, con.propulsion.battery_power_draw, surplus, 'solar:power', 'reported battery power', rtol=1e-6, atol=1e-6)
        near(ctx, con.propulsion.battery_current, I, 'solar:current', 'reported current', rtol=1e-6)
        near(ctx, con.propulsion.electronics_efficiency, -tot['P'] / surplus, 'solar:electronics', 'electronics efficiency', rtol=1e-6)
        near(ctx, r.vehicle_mass_rate, 0., 'solar:mass', 'no fuel is burnt')
        columns(ctx, 'solar', con, out, factor, c0, fmkey=None)
        near(ctx, seg.state.residuals.network, np.hstack([o['qm'] - o['Q'] for o in out]), 'solar:residual', 'torque residual', rtol=1e-5, atol=1e-7)
        ctx.state(('solar', n, mode, order))
        ctx.trace()

        def f(c):
            net, seg, r, cp = fly(c)
            P = seg.state.conditions.propulsion
            return dict(F=r.thrust_force_vector, p=net.battery.inputs.power_in, rpm=P.propeller_rpm, thr=P.propeller_thrust, res=seg.state.residuals.network)
        R.rowcheck(ctx, 'solar', f, c0)


def r_slf(ctx, n):
    c0 = points()
    c0['_lat'] = np.array([[30., 31., 32., 33., 34., 35.]]).T

    def fly(c):
        m = len(c['throttle'])
        net = NW.Solar_Low_Fidelity()
        net.number_of_engines = n
        net.motor = C.Motor_Lo_Fid()
        net.motor.resistance, net.motor.no_load_current, net.motor.speed_constant, net.motor.gear_ratio, net.motor.gearbox_efficiency, net.motor.motor_efficiency = .01, .5, 6., 1., 1., .9
        net.propeller = C.Propeller_Lo_Fid()
        net.propeller.tip_radius, net.propeller.propulsive_efficiency = .9, .8
        net.esc, net.battery = esc(.93), battery()
        net.solar_flux = SUAVE.Components.Energy.Processes.Solar_Radiation()
        net.solar_panel = C.Solar_Panel()
        net.solar_panel.area, net.solar_panel.efficiency = 30., .25
        net.solar_logic = DI.Solar_Logic()
        net.solar_logic.system_voltage, net.solar_logic.MPPT_efficiency = 40., .96
        peripherals(net)
        con = cond(c)
        con.propulsion.battery_energy = np.full((m, 1), 1e7)
        con.frames.planet.start_time = time.struct_time((2014, 6, 1, 12, 0, 0, 0, 150, 0))
        con.frames.planet.latitude, con.frames.planet.longitude = c['_lat'], c['_lat'] * 0
        con.frames.inertial.time, con.frames.body.inertial_rotations = np.zeros((m, 1)), np.zeros((m, 3))
        con.propulsion.battery_pack_temperature = np.full((m, 1), 290.)
        st = SUAVE.Analyses.Mission.Segments.Conditions.State()
        st.conditions, st.numerics = con, times(m)
        st._size = m
        r = net(st)
        return net, con, r
    net, con, r = fly(copy.deepcopy(c0))
    thr = c0['throttle']
    m = copy.deepcopy(net.motor)
    m.inputs.voltage = np.clip(thr, 0, 1) * 40.
    w = np.array(m.omega(con))
    q, i = np.array(m.outputs.torque), np.array(m.current(con))
    boost = np.where(thr > 1, thr, 1.)
    F = .8 * q * w / c0['velocity'] * boost
    I = i * thr / .93 * n
    near(ctx, r.thrust_force_vector, n * F * np.array([1., 0, 0]), 'slf:thrust', 'thrust of all propellers', rtol=1e-8)
    flux = sun_eval(150, 43200, c0['_lat'], c0['_lat'] * 0, np.zeros((6, 3)), c0['altitude'], np.zeros((6, 1)))[0]
    near(ctx, con.propulsion.battery_power_draw, .96 * flux * 7.5 - 50. - 40. * I, 'slf:power', 'surplus power goes to the battery', rtol=1e-8, atol=1e-6)
    near(ctx, con.propulsion.battery_current, I, 'slf:current', 'reported current', rtol=1e-8)
    near(ctx, con.propulsion.propeller_rpm, w * 30 / np.pi, 'slf:rpm', 'reported speed')
    near(ctx, con.propulsion.propeller_tip_mach, .9 * w / c0['speed_of_sound'], 'slf:tip', 'reported tip Mach number')
    near(ctx, con.propulsion.disc_loading, F / (np.pi * .81), 'slf:disc', 'thrust per disc area')
    near(ctx, con.propulsion.power_loading, F / (q * w * boost), 'slf:loading', 'thrust per power')
    near(ctx, con.propulsion.electronics_efficiency, -n * q * w * boost / (.96 * flux * 7.5 - 50. - 40. * I), 'slf:electronics', 'electronics efficiency', rtol=1e-8)
    near(ctx, r.vehicle_mass_rate, 0., 'slf:mass', 'no fuel is burnt')

    def f(c):
        net, con, r = fly(c)
        return dict(F=r.thrust_force_vector, p=con.propulsion.battery_power_draw, rpm=con.propulsion.propeller_rpm)
    R.rowcheck(ctx, 'slf', f, c0)


def piston(k, tag):
    e = C.Internal_Combustion_Engine()
    e.tag, e.sea_level_power, e.flat_rate_altitude, e.power_specific_fuel_consumption = tag, 1e5 + 2e4 * k, 1000. * k, .36 + .02 * k
    return e


def r_ic(ctx, n, mode):
    c0 = points()
    c0['_rpm'] = np.array([[2000., 2200., 2400., 2100., 2300., 2500.]]).T
    ks, ident = kinds(n, mode), mode == 'same'
    for order in perms(n, mode):
        def fly(c):
            m = len(c['throttle'])
            net = NW.Internal_Combustion_Propeller()
            for j in order:
                net.propellers.append(stand_in(ks[j], 'prop%d' % j))
                net.engines.append(piston(ks[j], 'engine%d' % j))
            net.number_of_engines, net.identical_propellers = n, ident
            seg, net = segment(m, net)
            load(seg, c)
            seg.state.conditions.propulsion.throttle = c['throttle']
            seg.state.unknowns.rpm = c['_rpm']
            seg.process.iterate.unknowns.network(seg)
            r = net(seg.state)
            seg.process.iterate.residuals.network(seg)
            return net, seg, r
        net, seg, r = fly(copy.deepcopy(c0))
        con = seg.state.conditions
        evs, factor = ([ks[j] for j in order], 1.) if not ident else (ks[:1], n)
        w = c0['_rpm'] * np.pi / 30
        thr = c0['throttle']
        boost = np.where(thr > 1, thr, 1.)
        F, P, mf, res, out = 0., 0., 0., [], []
        for k in evs:
            p, e = stand_in(k, 'x'), piston(k, 'x')
            nn, D = w / 2 / np.pi, 2 * p.tip_radius
            T = p.kt * c0['density'] * nn ** 2 * D ** 4 * (1 - .002 * c0['velocity'])
            Q = p.kq * c0['density'] * nn ** 2 * D ** 5
            o = dict(w=w, F=T * np.array(p.axis) * boost, Q=Q, P=Q * w * boost, R=p.tip_radius, etap=.8 * p.fm + .001 * c0['velocity'], fm=p.fm + 0 * w)
            out.append(o)
            pe = np.maximum(pavail(e, c0['altitude']) * thr, 0)
            F, P, mf = F + o['F'] * factor, P + o['P'] * factor, mf + factor * pe * e.power_specific_fuel_consumption * LBHPH
            res.append(pe / w - Q)
        near(ctx, r.thrust_force_vector, F, 'ic:thrust', 'thrust of all propellers')
        near(ctx, r.vehicle_mass_rate, mf, 'ic:fuel', 'fuel of all engines', rtol=1e-6)
        near(ctx, con.propulsion.power, P, 'ic:power', 'power of all propellers')
        near(ctx, seg.state.residuals.network, np.hstack(res), 'ic:residual', 'torque residual of every engine', rtol=1e-8, atol=1e-6)
        columns(ctx, 'ic', con, out, factor, c0, noeta=True)
        for p in (list(net.propellers)[:1] if ident else net.propellers):
            near(ctx, p.seen[-1][0]['omega'], w, 'ic:speed', 'propellers turn at engine speed')
            ctx.check(con.noise.sources.propellers[p.tag].who == p.tag, 'ic:noise', 'noise source of %s' % p.tag)
        ctx.state(('ic', n, mode, order))
        ctx.trace()

        def f(c):
            net, seg, r = fly(c)
            P = seg.state.conditions.propulsion
            return dict(F=r.thrust_force_vector, mf=r.vehicle_mass_rate, P=P.power, res=seg.state.residuals.network, rpm=P.propeller_rpm, disc=P.disc_loading, fm=P.figure_of_merit, eta=P.propeller_efficiency)
        R.rowcheck(ctx, 'ic', f, c0)


def r_cs(ctx, n, mode):
    c0 = points()
    c0['_rpm'] = np.array([[200., 220., 240., 210., 230., 250.]]).T
    ks, ident = kinds(n, mode), mode == 'same'
    for order in perms(n, mode):
        def fly(c):
            m = len(c['throttle'])
            net = NW.Internal_Combustion_Propeller_Constant_Speed()
            for j in order:
                net.propellers.append(stand_in(ks[j], 'prop%d' % j))
                net.engines.append(piston(ks[j], 'engine%d' % j))
            net.number_of_engines, net.identical_propellers = n, ident
            con = cond(c)
            con.propulsion.rpm = c['_rpm']
            st = SUAVE.Analyses.Mission.Segments.Conditions.State()
            st.conditions, st.numerics = con, times(m)
            st._size = con._size = m
            return net, con, net(st)
        net, con, r = fly(copy.deepcopy(c0))
        evs, factor = ([ks[j] for j in order], 1.) if not ident else (ks[:1], n)
        w, thr = c0['_rpm'], c0['throttle']
        F, P, mf, th, out = 0., 0., 0., [], []
        for k in evs:
            p, e = stand_in(k, 'x'), piston(k, 'x')
            nn, D = w / 2 / np.pi, 2 * p.tip_radius
            pitch = 1. + thr - .5
            T = p.kt * pitch * c0['density'] * nn ** 2 * D ** 4 * (1 - .002 * c0['velocity'])
            Q = p.kq * pitch * c0['density'] * nn ** 2 * D ** 5
            o = dict(w=w, F=T * np.array(p.axis), Q=Q, P=Q * w, R=p.tip_radius, etap=.8 * p.fm + .001 * c0['velocity'])
            out.append(o)
            F, P, mf = F + o['F'] * factor, P + o['P'] * factor, mf + factor * o['P'] * e.power_specific_fuel_consumption * LBHPH
            th.append(o['P'] / pavail(e, c0['altitude']))
        near(ctx, r.thrust_force_vector, F, 'cs:thrust', 'thrust of all propellers')
        near(ctx, r.vehicle_mass_rate, mf, 'cs:fuel', 'fuel of all engines', rtol=1e-6)
        near(ctx, con.propulsion.power, P, 'cs:power', 'power of all propellers')
        for k, g in (('combustion_engine_throttle', lambda j: th[j]), ('propeller_torque', lambda j: out[j]['Q']), ('propeller_tip_mach', lambda j: out[j]['R'] * w / c0['speed_of_sound']), ('propeller_efficiency', lambda j: out[j]['etap']),
                     ('disc_loading', lambda j: np.linalg.norm(out[j]['F'], axis=1)[:, None] / np.pi / out[j]['R'] ** 2), ('power_loading', lambda j: np.linalg.norm(out[j]['F'], axis=1)[:, None] / out[j]['P'])):
            want = np.hstack([g(j) for j in range(len(out))])
            if np.shape(con.propulsion[k]) != want.shape:
                ctx.fail('cs:column:' + k, 'reported in shape %s' % (np.shape(con.propulsion[k]),))
            else:
                near(ctx, con.propulsion[k], want, 'cs:column:' + k, 'reported ' + k)
        ctx.state(('cs', n, mode, order))
        ctx.trace()

        def f(c):
            net, con, r = fly(c)
            return dict(F=r.thrust_force_vector, mf=r.vehicle_mass_rate, P=con.propulsion.power, t=con.propulsion.combustion_engine_throttle, tip=con.propulsion.propeller_tip_mach)
        R.rowcheck(ctx, 'cs', f, c0)


# ---------------------------------------------------------------- ducted fans, hybrid, superconducting, engine decks
def fan_stub(n, flat=False):
    class Fan(Data):
        def evaluate_thrust(self, state):
            v = state.conditions.freestream.velocity
            t = state.conditions.propulsion.throttle
            r = Data()
            r.thrust_force_vector = np.hstack([900. * n * t, 0 * t, 0 * t])
            r.power = 900. * n * t * v / .8
            self.thrust.outputs.power = r.power * 1.
            r.power = np.ravel(r.power)
            r.network_y_axis_rotation = 0 * t
            return r
    f = Fan()
    f.thrust = Data()
    f.thrust.outputs = Data()
    f.number_of_engines = n
    return f


def duct_points():
    c = points()
    c['throttle'] = np.array([[.2, .9, 1., .55, .4, .7]]).T
    return c


def r_duct(ctx, n, hybrid=False):
    c0 = duct_points()
    for em, ee in itertools.product((1., .9), (1., .95)):
        def fly(c):
            m = len(c['throttle'])
            net = NW.Serial_Hybrid_Ducted_Fan() if hybrid else NW.Battery_Ducted_Fan()
            net.propulsor, net.battery, net.motor_efficiency, net.esc, net.voltage, net.number_of_engines = fan_stub(n), battery(), em, esc(ee), 400., n
            peripherals(net)
            if hybrid:
                net.generator = C.Generator_Zero_Fid()
                net.generator.sfc, net.generator.max_power = 8e-8, 3e4
            con = cond(c)
            con.propulsion.battery_energy = np.full((m, 1), 1e7)
            con.propulsion.battery_pack_temperature = np.full((m, 1), 290.)
            st = SUAVE.Analyses.Mission.Segments.Conditions.State()
            st.conditions, st.numerics = con, times(m)
            st._size = con._size = m
            net.battery.max_energy = 5e7
            return net, con, net(st)
        net, con, r = fly(copy.deepcopy(c0))
        key = 'hybrid' if hybrid else 'duct'
        P = 900. * n * c0['throttle'] * c0['velocity'] / .8
        gen = 3e4 if hybrid else 0.
        draw = -(P / em / ee + 50.) + gen
        near(ctx, net.battery.inputs.power_in, draw, key + ':power', 'battery power: shaft power through motor and controller, avionics and payload' + (', less what the generator supplies' if hybrid else ''))
        near(ctx, net.battery.inputs.current * 400., -draw, key + ':current', 'battery current at the system voltage')
        near(ctx, con.propulsion.battery_power_draw, draw, key + ':reported', 'reported battery power')
        near(ctx, con.propulsion.current * 400., P / em / ee, key + ':reported-current', 'reported motor current')
        near(ctx, r.thrust_force_vector, np.hstack([900. * n * c0['throttle'], 0 * P, 0 * P]), key + ':thrust', 'thrust of the fan')
        near(ctx, r.vehicle_mass_rate, 3e4 * 8e-8 if hybrid else 0., key + ':mass', 'mass rate')
        ctx.state((key, n, em, ee))
        ctx.trace()

        def f(c):
            net, con, r = fly(c)
            return dict(F=r.thrust_force_vector, p=net.battery.inputs.power_in, i=net.battery.inputs.current, mf=r.vehicle_mass_rate)
        R.rowcheck(ctx, key, f, c0)


def r_hybrid(ctx, n):
    r_duct(ctx, n, True)


def r_cryo(ctx, dynamo, n, supplies, share):
    c0 = duct_points()
    from SUAVE.Methods.Weights.Cooling.Cryogen.Consumption import Coolant_use
    skins = (False, True)
    from SUAVE.Attributes.Solids.Copper import Copper
    mat = Copper()
    made = DI.Cryogenic_Lead()
    made.cold_temp, made.hot_temp, made.current, made.length, made.material = 65., 300., 1000., .3, mat
    made.initialize_material_lead(None)
    for skin, fuel, cur in itertools.product(skins, (0., 1.), (800., 1000.)):
        def fly(c):
            m = len(c['throttle'])
            net = NW.Turboelectric_HTS_Dynamo_Ducted_Fan() if dynamo else NW.Turboelectric_HTS_Ducted_Fan()
            net.ducted_fan, net.motor, net.esc = fan_stub(n), Data(), esc(.97)
            net.motor.motor_efficiency = .95
            net.rotor = C.Motor_HTS_Rotor()
            net.rotor.temperature, net.rotor.resistance, net.rotor.surface_area, net.rotor.current = 65., 1e-3, 2., cur
            net.number_of_engines, net.number_of_powersupplies, net.skin_temp, net.ambient_skin, net.cryogen_proportion, net.leads = n, supplies, 290., skin, share, 2.
            if dynamo:
                net.hts_dynamo = DI.HTS_DC_Dynamo_Basic()
                net.hts_dynamo.efficiency, net.hts_dynamo.rated_current = .6, 900.
                net.dynamo_esc = DI.HTS_Dynamo_Supply()
                net.dynamo_esc.rated_RPM = 1000.
            else:
                net.lead = copy.deepcopy(made)
                net.ccs = DI.HTS_DC_Supply()
                net.ccs.efficiency = .9
            net.cryocooler = SUAVE.Components.Energy.Cooling.Cryocooler()
            net.cryocooler.cooler_type, net.cryocooler.ambient_temp = 'GM', 300.
            net.heat_exchanger = SUAVE.Components.Energy.Cooling.Cryogenic_Heat_Exchanger()
            net.heat_exchanger.cryogen_inlet_temperature, net.heat_exchanger.cryogen_outlet_temperature, net.heat_exchanger.cryogen_pressure, net.heat_exchanger.cryogen_is_fuel = 20., 65., 1e5, fuel
            net.powersupply = C.Turboelectric()
            net.powersupply.propellant = Data()
            net.powersupply.propellant.specific_energy, net.powersupply.efficiency, net.powersupply.number_of_engines = 4.3e7, .4, supplies
            con = cond(c)
            st = SUAVE.Analyses.Mission.Segments.Conditions.State()
            st.conditions, st.numerics = con, times(m)
            st._size = con._size = m
            return net, con, net(st)
        net, con, r = fly(copy.deepcopy(c0))
        key = 'dynamo-fan' if dynamo else 'lead-fan'
        shaft = 900. * n * c0['throttle'] * c0['velocity'] / .8
        elec = shaft / .95 / .97
        Ts = c0['temperature'] if skin else 290.
        coil = 1e-3 * cur ** 2
        leak = (Ts - 65.) * 2. / 125.
        one = 0 * shaft + 1
        if dynamo:
            e = .6 * (1 - (cur / 900. - 1) ** 2)
            each_cryo = coil + leak + (coil / e - coil)
            right = n * coil / e / e * one
            coded = n * (coil + coil / e + coil / e / e) * one
        else:
            s = cur / 1000.
            lq = 2 * (made.outputs.unpowered_Q + s * (made.outputs.minimum_Q - made.outputs.unpowered_Q))
            lp = 2 * made.outputs.minimum_Q * s * s
            each_cryo = coil + leak + lq
            right = n * (coil + lp) / .9 * one
            coded = (n * coil + n * lp + n * ((lp + n * coil) / .9 - (lp + n * coil))) * one
        Q = n * each_cryo * one
        cooler = (1 - share) * Q / (.0005 * (65. - 5.4 + 292.15 - 300.))
        mc = share * Q / (Coolant_use(net.heat_exchanger.cryogen, 20., 65., 1., 1e5) ** -1)
        burn = lambda aux: (elec + aux + cooler) / (4.3e7 * .4)
        mf = np.array(r.vehicle_fuel_rate)
        ok = R.same(mf * one, burn(right), 1e-8)
        ctx.ev()
        if not ok:
            known = R.same(mf * one, burn(coded), 1e-8)
            ctx.fail(key + (':supply-power' if known else ':fuel'), '%d engines, %g supplies, coolant share %g: fuel flow %s, the rotors, leads and losses need %s' % (n, supplies, share, np.ravel(mf)[:3], np.ravel(burn(right))[:3]))
        near(ctx, r.vehicle_additional_fuel_rate * one, mc, key + ':cryogen', 'coolant flow for the heat that reaches the cold parts', rtol=1e-8)
        near(ctx, r.vehicle_mass_rate, mf + mc * (1 - fuel), key + ':mass', 'mass rate: fuel, and coolant unless it is burnt', rtol=1e-8)
        near(ctx, r.thrust_force_vector, np.hstack([900. * n * c0['throttle'], 0 * one, 0 * one]), key + ':thrust', 'thrust of the fan')
        ctx.state((key, n, supplies, share, skin, fuel, cur))
        ctx.trace()

        def f(c):
            net, con, r = fly(c)
            z = 0 * c['throttle']
            return dict(F=r.thrust_force_vector, mf=r.vehicle_fuel_rate + z, mc=r.vehicle_additional_fuel_rate + z, m=r.vehicle_mass_rate + z)
        if cur == 1000.:
            R.rowcheck(ctx, key, f, c0)


class Lin:
    """a surrogate that is an explicit function of altitude, Mach number and throttle"""
    def __init__(self, k):
        self.k = k

    def predict(self, x):
        x = np.atleast_2d(x)
        return (self.k[0] + self.k[1] * x[:, :1] + self.k[2] * x[:, 1:2] + self.k[3] * x[:, 2:3] + self.k[4] * x[:, 2:3] ** 2)


def blend(x, a, b):
    y = np.clip((x - a) / (b - a), 0, 1)
    return 1 - (3 * y ** 2 - 2 * y ** 3) if True else y


def r_deck(ctx, kind, ext):
    thr = np.array([[-.2, 0., .004, .01, .5, .985, .994, 1., 1.3]]).T
    m = len(thr)
    alt, mach = np.linspace(0., 8000., m)[:, None], np.linspace(.2, .7, m)[:, None]
    for n, neg, ang in itertools.product((1, 2, 4), (False, True), (0., .1)):
        net = NW.Propulsor_Surrogate()
        net.number_of_engines, net.negative_throttle_values, net.use_extended_surrogate = n, neg, bool(ext)
        net.orientation_euler_angles = [0., ang, 0.]
        net.surrogate_type = kind
        if kind == 'stub':
            net.thrust_surrogate, net.sfc_surrogate = Lin([.1, -.2, .1, .9, .1]), Lin([.5, .1, .2, .1, .05])
            net.altitude_input_scale, net.thrust_input_scale, net.sfc_input_scale, net.thrust_anchor_scale, net.sfc_anchor_scale = 1e4, 2e4, 1.6e-5, 1.05, .97
            T_, s_ = net.thrust_surrogate.predict, net.sfc_surrogate.predict
        else:
            path = '%s/deck%d.csv' % (ctx.scratch(), n)
            pts = [(a, b, c) for a in (0., 4000., 8000.) for b in (.2, .5, .8) for c in (.2, .6, 1.)]
            val = lambda a, b, c: (2e4 * (.2 - .05 * a / 8000. + .05 * b + .7 * c), 1.5e-5 * (1 + .1 * a / 8000. + .2 * b - .1 * c))
            with open(path, 'w') as fh:
                fh.write('alt,mach,throttle,thrust,sfc\n')
                for p in pts + pts[:2]:
                    fh.write('%r,%r,%r,%r,%r\n' % (p + val(*p)))
            net.input_file = path
            if n == 4:
                net.thrust_anchor, net.thrust_anchor_conditions = 1.5e4, np.array([[4000., .5, 1.]])
                net.sfc_anchor, net.sfc_anchor_conditions = 1.2e-5, np.array([[4000., .5, .6]])
            net.build_surrogate()

        def ev(c):
            con = cond(dict(throttle=c['t'], altitude=c['h'], mach_number=c['m']))
            st = SUAVE.Analyses.Mission.Segments.Conditions.State()
            st.conditions = con
            st._size = len(c['t'])
            r = net.evaluate_thrust(st)
            return dict(F=r.thrust_force_vector, mf=r.vehicle_mass_rate)
        cols = dict(t=thr, h=alt, m=mach)
        if n == 2 or kind == 'stub':
            R.rowcheck(ctx, 'deck', ev, cols, pairs=kind in ('stub', 'linear'), rtol=1e-8)
        if kind == 'stub':
            o = ev({k: v.copy() for k, v in cols.items()})
            X = np.hstack([alt / 1e4, mach, thr])
            T, s = T_(X), s_(X)
            if ext:
                X0, X1 = X * 1., X * 1.
                X0[:, 2], X1[:, 2] = 0., 1.
                lo, hi = T_(X0), T_(X1)
                wl, wh = blend(thr, 0., .01), blend(thr, .99, 1.)
                low, high = lo + thr * (hi - lo), hi + (thr - 1) * (hi - lo)
                T = np.where(thr < 0, low, np.where(thr < .01, low * wl + T * (1 - wl), np.where(thr < .99, T, np.where(thr < 1, T * wh + high * (1 - wh), high))))
                s = np.where(thr < 0, s_(X0), np.where(thr < .01, s_(X0) * wl + s * (1 - wl), np.where(thr < .99, s, np.where(thr < 1, s * wh + s_(X1) * (1 - wh), s_(X1)))))
            T, s = T * 2e4 * 1.05 * n, s * 1.6e-5 * .97
            if not neg:
                T = np.where(thr <= 0, 0., T)
            near(ctx, o['mf'], T * s, 'deck:fuel', 'fuel flow of all engines')
            near(ctx, np.linalg.norm(o['F'], axis=1), np.abs(T[:, 0]), 'deck:thrust', 'thrust of all engines')
            near(ctx, o['F'], T * np.array([np.cos(ang), 0, -np.sin(ang)]), 'deck:axis', 'thrust along the engine axis', rtol=1e-9, atol=1e-6)
        else:
            X = np.array(pts)
            o = ev(dict(t=X[:, 2:3], h=X[:, :1], m=X[:, 1:2]))
            w = np.array([val(*p) for p in pts])
            T, s = w[:, :1] * n, w[:, 1:]
            if n == 4:
                j, k = pts.index((4000., .5, 1.)), pts.index((4000., .5, .6))
                T, s = T * 1.5e4 / w[j, 0], s * 1.2e-5 / w[k, 1]
                near(ctx, np.linalg.norm(o['F'][j]), 4 * 1.5e4, 'deck:anchor', 'thrust at its anchor', rtol=1e-6)
                near(ctx, o['mf'][k, 0], np.linalg.norm(o['F'][k]) * 1.2e-5, 'deck:anchor', 'fuel consumption at its anchor', rtol=1e-6)
            tol = dict(gaussian=2e-4, knn=1e-9, linear=1e-8)[kind]
            near(ctx, np.linalg.norm(o['F'], axis=1)[:, None], T, 'deck:data', '%s surrogate at its own data: thrust' % kind, rtol=tol)
            near(ctx, o['mf'], T * s, 'deck:data', '%s surrogate at its own data: fuel flow' % kind, rtol=2 * tol)
        ctx.state(('deck', kind, ext, n, neg, ang))
        ctx.trace()
