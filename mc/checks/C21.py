"""Battery packs keep account of energy, charge, heat and ageing in every current history."""
import copy, itertools
import numpy as np
from mc import gaskit as G
LEVEL = 'model_checking'
BOUNDS = ('three lithium chemistries x pack circuits x charge/discharge x 8 current profiles x initial charge 0..1 x control points 2..16 x ageing factors x temperatures; cell voltage map on its own '
          'grid, between and outside it, every row alone and every ordered pair; sizing on circuits up to 140 x 60; ragone grid; all missions of charge/discharge segments to length 3 (4), never charging twice in a row; hand-over from every flag combination')
ASSUMPTIONS = ['cell correlations of the package (open circuit voltage, resistance, entropy, ageing coefficients) are the given model',
               'the energy cap is claimed where the whole segment charges, and as an upper bound only there',
               'NMC: ageing factors enter through the aged capacity only']
MIN = {'evals': 20000}
TIME_LIMIT = 400
PROFILES = ('const', 'up', 'down', 'hump', 'zero', 'spike', 'tiny', 'big')
CIRC = [(1, 1), (14, 10), (3, 2)]


def scenarios(tier):
    out = [['energy', ch, fl, s, p] for ch in ('li', 'lfp', 'nmc') for fl in (1, 0) for s, p in CIRC]
    out += [['map', k] for k in range(7)] + [['heat', n] for n in ('one', 'module')] + [['size', m] for m in ('li', 'lfp', 'nmc')] + [['ragone'], ['mass'], ['age'], ['handover'], ['pack'], ['start']]
    d = 4 if tier == 'thorough' else 3
    ops = ('D', 'd', 'C', 'c')
    out += [['fly', ch, ''.join(h)] for ch in ('lfp', 'nmc') for n in range(1, d + 1) for h in itertools.product(ops, repeat=n) if h[0] in 'Dd' and not any(a in 'Cc' and b in 'Cc' for a, b in zip(h, h[1:]))]
    out += [['over', x] for x in (1.0, 1.1, 1.25, 1.5)]
    return out


def run(ctx, sc):
    S = G.S()
    globals()['SUAVE'] = S
    globals()['B'] = S.Components.Energy.Storages.Batteries.Constant_Mass
    globals()['PB'] = __import__('SUAVE.Methods.Power.Battery', fromlist=['x'])
    with np.errstate(all='ignore'):
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


def make(ch, s=1, p=1):
    from SUAVE.Methods.Power.Battery.Sizing import initialize_from_circuit_configuration, initialize_from_mass
    b = {'li': B.Lithium_Ion, 'lfp': B.Lithium_Ion_LiFePO4_18650, 'nmc': B.Lithium_Ion_LiNiMnCoO2_18650}[ch]()
    if ch == 'li':
        b.mass_properties.mass = .05 * s * p
        b.max_voltage = 4. * s
        initialize_from_mass(b)
    b.pack_config.series, b.pack_config.parallel, b.pack_config.total = s, p, s * p
    if ch != 'li':
        initialize_from_circuit_configuration(b)
    b.module_config.normal_count, b.module_config.parallel_count, b.module_config.total = s, p, s * p
    return b


def numerics(n, T):
    from SUAVE.Methods.Utilities.Chebyshev import chebyshev_data
    from SUAVE.Core import Data
    x, D, I = chebyshev_data(N=n)
    q = Data()
    q.time = Data()
    q.time.control_points, q.time.differentiate, q.time.integrate = x[:, None] * T, D / T, I * T
    q.number_control_points = n
    return q


def profile(kind, n):
    x = (.5 * (1 - np.cos(np.pi * np.arange(n) / (n - 1))))[:, None]
    return {'const': 1. + 0 * x, 'up': .2 + x, 'down': 1.2 - x, 'hump': .3 + 4 * x * (1 - x), 'zero': 0 * x,
            'spike': .2 + 2. * (np.arange(n) == n // 2)[:, None], 'tiny': 1e-6 + 0 * x, 'big': 3. + x}[kind]


def clip01(x):
    return np.minimum(np.maximum(x, 0.), 1.)


def trapz0(y, t):
    y, t = y[:, 0], t[:, 0]
    return np.concatenate([[0.], np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(t))])[:, None]


def curve(deg):
    x = np.linspace(0, max(deg[:, 0]), 15)
    return np.interp(x, deg[:, 0], deg[:, 1])


_ref = {}


def table():
    if 'V' not in _ref:
        import os
        raw = SUAVE.Input_Output.SUAVE.load(os.path.join(os.path.dirname(B.__file__), 'NMC_Raw_Data.res'))
        _ref['V'] = np.array([[curve(np.asarray(d)) for d in a] for a in raw.Voltage])
    return _ref['V']


def nmc_v(soc, T, I):
    V = table()
    soc, T, I = clip01(np.array(soc, float)), np.clip(np.array(T, float), 272.65, 322.65), np.clip(np.array(I, float), 0., 8.)
    u = [I / 2., (T - 272.65) / 10., (1 - soc) * 14.]
    lo = [np.minimum(np.floor(a + 1e-12).astype(int), m) for a, m in zip(u, (3, 4, 13))]
    fr = [a - b for a, b in zip(u, lo)]
    out = 0.
    for c in itertools.product((0, 1), repeat=3):
        w = 1.
        for k in range(3):
            w = w * (fr[k] if c[k] else 1 - fr[k])
        out = out + w * V[lo[0] + c[0], lo[1] + c[1], lo[2] + c[2]]
    return out


def cooling(b, Q, I, T0, Tc, Ta):
    """temperature history of one cell (n_total 1) or a module of cells in a cross flow bank"""
    n = b.module_config.normal_count * b.module_config.parallel_count
    m, Cp = b.cell.mass, b.cell.specific_heat_capacity
    if b.pack_config.total == 1:
        net = Q - b.convective_heat_transfer_coefficient * b.cell.surface_area * (Tc - Ta)
    else:
        f, D, H = b.cooling_fluid, b.cell.diameter, b.cell.height
        ST, SL = b.module_config.normal_spacing, b.module_config.parallel_spacing
        SD = np.hypot(ST, SL)
        U = f.cooling_flowspeed
        Vm = U * ST / (2 * (SD - D)) if 2 * (SD - D) < ST - D else U * ST / (ST - D)
        T = (Ta + Tc) / 2
        Re = Vm * D / f.kinematic_viscosity + 0 * T
        lam = .51 * Re ** .5
        tur = .35 * (ST / SL) ** .2 * Re ** .6
        mu = 1.458e-6 * T ** 1.5 / (T + 110.4)
        K = .000399 + 9.89e-5 * T - 4.57e-8 * T ** 2 + 1.4e-11 * T ** 3
        Prw = mu * 1006. / K
        Nu = np.where(Re > 1000, tur, lam) * f.prandtl_number ** .36 * (f.prandtl_number / Prw) ** .25
        h = Nu * f.thermal_conductivity / D
        d = T - Ta
        NTU = np.pi * D * n * h / (f.density * U * b.module_config.normal_count * ST * f.specific_heat_capacity)
        lm = d * (1 - np.exp(-NTU)) / NTU
        net = Q * n - b.heat_transfer_efficiency * h * np.pi * D * H * n * lm
    out = T0 + I @ (net / (m * n * Cp))
    return np.maximum(out, Ta)


def fluid(b, n, rows=True):
    k = np.linspace(0, 1, n)[:, None] if rows else np.zeros((n, 1))
    f = b.cooling_fluid
    f.thermal_conductivity, f.prandtl_number, f.kinematic_viscosity, f.density = .0253 + .001 * k, .71 + .01 * k, 1.48e-5 + 2e-6 * k, 1.2 - .2 * k


def setup(b, n, amp, kind, fl, soc, T, fade, grow, q0, volt):
    I = amp * profile(kind, n)
    b.inputs.current = I.copy() if fl else -I
    b.inputs.power_in = -(I * volt) if fl else I * volt
    b.pack_temperature = np.full((n, 1), T)
    b.cell_temperature = np.full((n, 1), T)
    b.ambient_temperature = np.full((n, 1), 288.15)
    b.current_energy = np.full((n, 1), soc * b.max_energy)
    b.cell_charge_throughput = np.full((n, 1), q0)
    b.R_growth_factor, b.E_growth_factor = grow, fade
    fluid(b, n)
    return I


def r_energy(ctx, ch, fl, s, p):
    base = make(ch, s, p)
    nomV = (base.cell.nominal_voltage if ch != 'li' else 4.) * s
    cap = base.max_energy / nomV / 3600.                        # Ah of the pack
    for n, kind, soc, T, (fade, grow, q0), hrs in itertools.product((2, 5, 16), PROFILES, (0., .3, .9, 1.), (260., 293., 330.), ((1, 1, 0.), (.9, 1.2, 7.)), (.05, 1.2)):
        if not ctx.quick or T == 293. or (n == 5 and hrs == .05):
            one(ctx, base, ch, fl, s, p, n, kind, soc, T, fade, grow, q0, hrs, cap, nomV)


def one(ctx, base, ch, fl, s, p, n, kind, soc, T, fade, grow, q0, hrs, cap, nomV):
    b = copy.copy(base)
    b.inputs = copy.deepcopy(base.inputs)
    I = setup(b, n, cap * .5, kind, fl, soc, T, fade, grow, q0, nomV)
    Emax = b.max_energy
    num = numerics(n, hrs * 3600.)
    J, Dm, t = num.time.integrate, num.time.differentiate, num.time.control_points
    keep = [b.inputs.current.copy(), b.inputs.power_in.copy(), Emax, b.current_energy.copy(), b.cell_charge_throughput.copy()]
    arrs = [b.inputs.current, b.inputs.power_in, b.current_energy, b.cell_charge_throughput]
    P, E0 = b.inputs.power_in.copy(), soc * Emax
    b.energy_calc(num, bool(fl))
    ctx.step()
    ctx.state((ch, fl, s, p, n, kind, soc, T, fade, hrs))
    K = 'energy:%s:%s:' % (ch, 'discharge' if fl else 'charge')
    for a, k, nm in zip(arrs, [keep[0], keep[1], keep[3], keep[4]], ('current', 'power', 'energy', 'throughput')):
        ctx.check(np.array_equal(a, k), K + 'input:' + nm, 'the %s handed in was changed' % nm)
    ctx.check(b.max_energy == Emax, K + 'capacity', 'evaluating changed the capacity')
    if ch == 'nmc':
        Icell = I / p                                           # charging hands over the negative of it
        Sold = clip01((J @ P + E0) / Emax)
        Tc = np.full((n, 1), np.clip(T, 272.65, 322.65))
        dS = np.polyval([-496.66, 1729.4, -2278, 1382.2, -380.47, 46.508, -10.692], Sold)
        i = Icell / b.cell.electrode_area
        qe, qj = -Tc * dS * i / 96485., i * i / 139.
        Q = (qe + qj) * b.cell.surface_area
        loss, Temp = s * p * Q, cooling(b, Q, J, Tc[0], Tc, b.ambient_temperature)
        R0 = .01483 * Sold ** 2 - .02518 * Sold + .1036
        Vul = nmc_v(Sold, Tc, Icell)
        Voc, Cap = Vul + Icell * R0, Emax
        Qtot = q0 + trapz0(Icell, t) / 3600.
        want = dict(internal_resistance=R0 * s, voltage_open_circuit=Voc * s, voltage_under_load=Vul * s, cell_voltage_under_load=Vul, cell_voltage_open_circuit=Voc,
                    cell_current=Icell, load_power=Vul * s * keep[0], heat_energy_generated=Q * s * p, resistive_losses=loss)
        if kind not in ('zero',):
            want.update(cell_joule_heat_fraction=qj / (qj + qe), cell_entropy_heat_fraction=qe / (qj + qe))
        Ipack = keep[0]
    else:
        Cap = Emax * fade
        Sold = clip01((J @ P + E0) / Cap)
        R0 = np.maximum(np.polyval([-.0169, .0418, -.0273, .0069, .0043], Sold) * grow, 0.)
        loss = I * I * R0
        Temp = T + J @ (loss / (b.mass_properties.mass * b.specific_heat_capacity))
        want = dict(internal_resistance=R0, resistive_losses=loss, heat_energy_generated=loss)
        Qtot = q0 + trapz0(I, t) / 3600.
        Ipack = I
    net = P - np.abs(loss)
    raw = E0 + J @ net
    charging = bool(np.all(net > 0))
    # the uncapped energy balance; capped when the whole segment charges
    if np.all(J @ net - (Cap - E0) <= 0):
        ctx.close(b.current_energy, raw, K + 'balance', 'stored energy is not what went in and out', rtol=1e-9, atol=1e-9 * Emax, n=n, kind=kind, soc=soc)
    if charging:
        capd = np.minimum(raw, Cap) if E0 <= Cap else None
        if capd is not None:
            ctx.close(b.current_energy, capd, K + 'cap', 'a charging battery does not stop at its capacity', rtol=1e-8, atol=1e-8 * Emax, n=n, kind=kind, soc=soc)
    Enow = b.current_energy
    S1 = clip01(Enow / Cap)
    if ch != 'nmc':
        Vn = (-1.031 * np.exp(-35. * S1) + np.polyval([.3201, -.1178, .2156, 3.685], S1)) / 4.1
        Voc = np.minimum(Vn * b.max_voltage, b.max_voltage)
        Vul = Voc - I * R0 if fl else Voc + I * R0
        want.update(voltage_open_circuit=Voc, voltage_under_load=Vul, load_power=Vul * I)
    want.update(state_of_charge=S1, depth_of_discharge=1 - S1, cell_temperature=Temp, pack_temperature=Temp, cell_charge_throughput=Qtot, current=Ipack)
    for k in want:
        ctx.close(getattr(b, k) if hasattr(b, k) else b[k], want[k], K + k, '%s of the pack' % k, rtol=1e-8, atol=1e-9 * max(1e-12, float(np.max(np.abs(want[k])))), n=n, kind=kind, soc=soc, T=T)
    q = np.asarray(b.cell_charge_throughput)
    ctx.check(np.all(np.diff(q[:, 0]) >= 0), K + 'throughput', 'the charge throughput falls: %s' % q[:, 0])
    ctx.check(np.shape(b.current_energy) == (n, 1) and np.all((b.state_of_charge >= 0) & (b.state_of_charge <= 1)), K + 'range', 'state of charge %s' % b.state_of_charge[:, 0])
    if fl:
        ctx.check(np.all(b.voltage_under_load <= b.voltage_open_circuit + 1e-12), K + 'sag', 'the voltage under load is above the open circuit voltage')


def r_map(ctx, k):
    from SUAVE.Methods.Power.Battery.Cell_Cycle_Models.LiNiMnCoO2_cell_cycle_model import compute_NMC_cell_state_variables as f
    b = B.Lithium_Ion_LiNiMnCoO2_18650()
    data = b.discharge_performance_map
    amps = [-3., 0., 1.3, 2., 4., 5.5, 7.9, 8., 11.]
    tmps = [200., 272.65, 277., 282.65, 301.3, 322.65, 400.]
    socs = [-.2, 0., 1e-6, 1 / 14., .1, .333, .5, 13 / 14., .97, 1., 1.3]
    rows = np.array([(s, tmps[k], a) for s in socs for a in amps])
    col = lambda j, r=rows: r[:, j:j + 1].copy()
    args = [col(0), col(1), col(2)]
    keep = [a.copy() for a in args]
    full = f(data, *args)
    for a, q, nm in zip(args, keep, ('SOC', 'T', 'I')):
        ctx.check(np.array_equal(a, q), 'map:input:' + nm, 'the cell model changed the %s it was given' % nm)
    ctx.close(full, nmc_v(*keep), 'map:value', 'cell voltage off the measured map', rtol=1e-9)
    for i in range(len(rows)):
        r = f(data, *[a[i:i + 1].copy() for a in keep])
        ctx.close(r, full[i:i + 1], 'map:row', 'a row alone gives another voltage', rtol=1e-12)
        ctx.state((k, i))
        ctx.step()
    pick = range(0, len(rows), 6 if ctx.quick else 2)
    for i, j in itertools.permutations(pick, 2):
        r = f(data, *[a[[i, j]].copy() for a in keep])
        ctx.close(r, full[[i, j]], 'map:pair', 'a pair of rows gives other voltages', rtol=1e-12)
    nan = [a.copy() for a in keep]
    nan[1][:] = np.nan
    ctx.close(f(data, *nan), nmc_v(keep[0], 302.65 + 0 * keep[0], keep[2]), 'map:nan', 'unknown temperature', rtol=1e-9)
    # the whole pack: compute_voltage
    from SUAVE.Core import Data
    for s, p in CIRC:
        b.pack_config.series, b.pack_config.parallel = s, p
        st = Data()
        st.conditions = Data()
        st.conditions.propulsion = Data()
        st.conditions.propulsion.battery_state_of_charge = keep[0].copy()
        st.conditions.propulsion.battery_cell_temperature = keep[1].copy()
        st.conditions.propulsion.battery_current = keep[2] * p
        ctx.close(b.compute_voltage(st), s * nmc_v(*keep), 'map:pack', 'pack voltage %ds%dp' % (s, p), rtol=1e-9)


def r_heat(ctx, kind):
    from SUAVE.Methods.Power.Battery.compute_net_generated_battery_heat import compute_net_generated_battery_heat as f
    for ch in ('lfp', 'nmc'):
        for n, U, (s, p), sp, T, Q, eff in itertools.product((2, 7), (.01, 2., 12.), [(1, 1)] if kind == 'one' else [(2, 1), (6, 5)], ((.02, .02), (.025, .019), (.04, .0205)), (280., 288.15, 300., 320.), (0., .3, -.05), (1., .6)):
            b = make(ch, s, p)
            b.module_config.normal_spacing, b.module_config.parallel_spacing = sp
            b.cooling_fluid.cooling_flowspeed = U
            b.heat_transfer_efficiency = eff
            b.ambient_temperature = np.full((n, 1), 288.15)
            b.pack_temperature = b.cell_temperature = T + np.linspace(0, 4, n)[:, None]
            fluid(b, n)
            num = numerics(n, 600.)
            q = Q * np.linspace(.5, 1., n)[:, None]
            w = cooling(b, q, num.time.integrate, b.pack_temperature[0], b.cell_temperature, b.ambient_temperature)
            keep = [b.pack_temperature.copy(), b.ambient_temperature.copy(), q.copy()]
            got = f(s * p, b, q, num)
            ctx.close(got, w, 'heat:%s' % kind, 'temperature of the cells', rtol=1e-9, atol=0, U=U, T=T, Q=Q, ch=ch)
            ctx.check(np.all(got >= 288.15 - 1e-9), 'heat:ambient', 'cells colder than their surroundings')
            ctx.check(np.array_equal(keep[0], b.pack_temperature) and np.array_equal(keep[1], b.ambient_temperature) and np.array_equal(keep[2], q), 'heat:input', 'the heat model changed its inputs')
            again = f(s * p, b, q, num)
            ctx.check(np.array_equal(got, again), 'heat:repeat', 'asking again gives another temperature')
            ctx.state((kind, ch, n, U, s, p, sp, T, Q, eff))
            ctx.step()


def r_size(ctx, ch):
    from SUAVE.Methods.Power.Battery.Sizing import initialize_from_circuit_configuration as circ, initialize_from_mass as mas, initialize_from_energy_and_power as ep
    if ch != 'li':
        for s, p, w in itertools.product((1, 2, 3, 7, 14, 60, 128, 140), (1, 3, 10, 40, 60), (1., 1.42, 1.7)):
            b = make(ch)
            b.pack_config.series, b.pack_config.parallel = s, p
            circ(b, w)
            c = b.cell
            ctx.state((ch, s, p, w))
            ctx.step()
            ctx.close(b.mass_properties.mass, c.mass * s * p * w, 'size:circuit:mass', 'mass', rtol=1e-12)
            ctx.close(b.max_energy, c.nominal_capacity * c.nominal_voltage * 3600. * s * p, 'size:circuit:energy', 'the pack does not hold the energy of its cells', rtol=1e-12)
            ctx.close(b.max_voltage, c.max_voltage * s, 'size:circuit:voltage', 'voltage', rtol=1e-12)
            ctx.check(b.pack_config.total == s * p and b.initial_max_energy == b.max_energy, 'size:circuit:count', 'cell count')
            ctx.close([b.charging_voltage, b.charging_current], [c.charging_voltage * s, c.charging_current * p], 'size:circuit:charger', 'charger', rtol=1e-12)
            E, m, V, Pw = b.max_energy, b.mass_properties.mass, b.max_voltage, b.max_power
            # the same pack from its mass and voltage
            b2 = make(ch)
            b2.mass_properties.mass, b2.max_voltage, b2.specific_energy, b2.specific_power = m, V, b.specific_energy, b.specific_power
            mas(b2, w)
            ctx.close(b2.max_energy, E, 'size:mass:energy', 'the same mass holds another energy', rtol=1e-12)
            ctx.close(b2.max_power, Pw, 'size:mass:power', 'the same pack sized from its mass has another power', rtol=1e-12)
            ctx.check(abs(b2.pack_config.total - s * p) <= 1, 'size:mass:total', '%d cells sized from the mass of %d' % (b2.pack_config.total, s * p))
            ctx.check(abs(b2.pack_config.series - s) <= 1 and b2.pack_config.series * b2.pack_config.parallel <= b2.pack_config.total, 'size:mass:circuit', 'circuit %s of %d cells' % ((b2.pack_config.series, b2.pack_config.parallel), b2.pack_config.total))
            ctx.check(b2.mass_properties.mass == m and b2.initial_max_energy == b2.max_energy, 'size:mass:kept', 'mass changed')
            ctx.close([b2.charging_voltage, b2.charging_current], [c.charging_voltage * b2.pack_config.series, c.charging_current * b2.pack_config.parallel], 'size:mass:charger', 'charger', rtol=1e-12)
    for m, w in itertools.product((.5, 3.7, 120., 800.3), (1., 1.42, 1.6)):
        b = make('li') if ch == 'li' else make(ch)
        b.mass_properties.mass = m
        b.max_voltage = 50.
        mas(b, w)
        ctx.close([b.max_energy, b.max_power], [m / w * b.specific_energy, m / w * b.specific_power], 'size:mass:scale', 'energy and power of a mass', rtol=1e-12)
    for E, Pw in itertools.product((1e3, 1e6, 3.6e7, 4e8), (10., 1e3, 1e5, 2e6)):
        b = make(ch)
        ep(b, E, Pw)
        m = max(E / b.specific_energy, Pw / b.specific_power)
        ctx.close([b.mass_properties.mass, b.max_energy, b.max_power], [m, m * b.specific_energy, m * b.specific_power], 'size:need', 'mass for an energy and a power', rtol=1e-12)
        ctx.check(b.max_energy >= E * (1 - 1e-12) and b.max_power >= Pw * (1 - 1e-12), 'size:need:enough', 'the battery is too small')
        ep(b, E, Pw, max='soft')
        ctx.check(m <= b.mass_properties.mass <= m + np.log(2.) + 1e-9 * m, 'size:need:soft', 'soft sizing gives %s, needed %s' % (b.mass_properties.mass, m))
        ctx.state((ch, E, Pw))
        ctx.step()
        ev, pv = np.array([[E], [2 * E], [E]]), np.array([[Pw], [Pw], [100 * Pw]])
        ep(b, ev, pv)
        ctx.close(b.mass_properties.mass, np.maximum(ev / b.specific_energy, pv / b.specific_power), 'size:need:rows', 'several needs at once', rtol=1e-12)


def r_ragone(ctx):
    from SUAVE.Methods.Power.Battery.Ragone import find_ragone_optimum, find_ragone_properties, find_specific_power
    VM = SUAVE.Components.Energy.Storages.Batteries.Variable_Mass
    for cls in (B.Lithium_Ion, B.Lithium_Sulfur, B.Lithium_Ion_LiFePO4_18650, VM.Aluminum_Air):
        for E, Pw in itertools.product((1e5, 1e7, 1e8, 1e9), (1e2, 1e4, 1e5, 1e6)):
            b = cls()
            r = b.ragone
            keep = dict(r)
            find_ragone_optimum(b, E, Pw)
            xs = np.linspace(r.lower_bound, r.upper_bound, 4001)
            sp = r.const_1 * 10. ** (r.const_2 * xs)
            m = np.maximum(E / xs, Pw / sp)
            k = '%s' % cls.__name__
            ctx.check(b.mass_properties.mass <= m.min() * (1 + 1e-3), 'ragone:optimum:' + k, 'mass %s, a scan finds %s' % (b.mass_properties.mass, m.min()))
            ctx.check(r.lower_bound * (1 - 1e-9) <= b.specific_energy <= r.upper_bound * (1 + 1e-9), 'ragone:bounds:' + k, 'outside the curve')
            ctx.close(b.specific_power, r.const_1 * 10. ** (r.const_2 * b.specific_energy), 'ragone:curve:' + k, 'off the ragone curve', rtol=1e-9)
            ctx.close([b.max_energy, b.max_power], [b.mass_properties.mass * b.specific_energy, b.mass_properties.mass * b.specific_power], 'ragone:pack:' + k, 'pack', rtol=1e-9)
            ctx.check(b.max_energy >= E * (1 - 1e-6) and b.max_power >= Pw * (1 - 1e-6), 'ragone:enough:' + k, 'too small')
            ctx.check(dict(r) == keep, 'ragone:input', 'the curve changed')
            for x in xs[::500]:
                got = find_ragone_properties(x, b, E, Pw)
                ctx.close(got, max(E / x, Pw / (r.const_1 * 10. ** (r.const_2 * x))), 'ragone:point:' + k, 'mass at a point of the curve', rtol=1e-12)
            ctx.state((k, E, Pw))
            ctx.step()


def r_mass(ctx):
    from SUAVE.Methods.Power.Battery.Variable_Mass import find_mass_gain_rate, find_total_mass_gain
    VM = SUAVE.Components.Energy.Storages.Batteries.Variable_Mass
    for cls, kg_per_J in ((VM.Aluminum_Air, .000110145 / 3600.), (VM.Lithium_Air, .000192 / 3600.)):
        b = cls()
        for Pw in (-5e4, -1., 0., 2e3, np.array([[-10.], [300.], [-4e5]])):
            ctx.close(find_mass_gain_rate(b, Pw), -np.asarray(Pw) * kg_per_J, 'mass:rate:' + cls.__name__, 'mass gain rate', rtol=1e-9)
            ctx.state((cls.__name__, str(Pw)))
            ctx.step()
        for E in (0., 1e6, 3.6e9):
            b.max_energy = E
            ctx.close(find_total_mass_gain(b), E * kg_per_J, 'mass:total:' + cls.__name__, 'total mass gain', rtol=1e-9)
            if cls is VM.Aluminum_Air:
                ctx.close([b.find_water_mass(E), b.find_aluminum_mass(E)], [E * .000123913 / 3600., E * .000123828 / 3600.], 'mass:reactants', 'reactant masses', rtol=1e-9)


def seg_of(n):
    seg = SUAVE.Analyses.Mission.Segments.Ground.Battery_Charge_Discharge()
    seg.state.numerics.number_control_points = n
    seg.state.expand_rows(n)
    return seg


def r_age(ctx):
    b = make('nmc', 14, 10)
    for n, v0, v1, s0, s1, T, day, Q, cap, res, inc in itertools.product((2, 9), (3.2, 4.1), (3., 3.9), (1., .4), (.1, .4, .95), (285., 310.), (0, 1, 30), (0., 5., 900.), (1., .93), (1., 1.05), (False, True)):
        seg = seg_of(n)
        p = seg.state.conditions.propulsion
        k = np.linspace(0, 1, n)[:, None]
        V, S_, Tm = v0 + (v1 - v0) * k ** 2, s0 + (s1 - s0) * k, T + 6. * k ** 3
        p.battery_voltage_under_load, p.battery_state_of_charge, p.battery_cell_temperature = 14 * V, S_, Tm
        p.battery_cycle_day, p.battery_cell_charge_throughput = day, Q * (.5 + .5 * k)
        p.battery_capacity_fade_factor, p.battery_resistance_growth_factor = cap, res
        b.update_battery_state_of_health(seg, increment_battery_cycle_day=inc)
        Tb, vb, rms, dd = Tm.mean(), V.mean(), np.sqrt((V ** 2).mean()), abs(S_[0, 0] - S_[-1, 0])
        f = 1 - (7.542 * vb - 23.75) * 1e6 * np.exp(-6976 / Tb) * day ** .75 - (7.348e-3 * (rms - 3.667) ** 2 + 7.6e-4 + 4.081e-3 * dd) * Q ** .5
        g = 1 + (5.27 * vb - 16.32) * 1e5 * np.exp(-5986 / Tb) * day ** .75 + (2.153e-4 * (rms - 3.725) ** 2 - 1.521e-5 + 2.798e-4 * dd) * Q
        ctx.close(p.battery_capacity_fade_factor, min(f, cap), 'age:capacity', 'capacity fade', rtol=1e-10)
        ctx.close(p.battery_resistance_growth_factor, max(g, res), 'age:resistance', 'resistance growth', rtol=1e-10)
        ctx.check(p.battery_capacity_fade_factor <= cap and p.battery_resistance_growth_factor >= res, 'age:monotonic', 'the battery got younger')
        ctx.check(p.battery_cycle_day == day + (1 if inc else 0), 'age:day', 'cycle day %s after %s' % (p.battery_cycle_day, day))
        ctx.state((n, v0, v1, s0, s1, T, day, Q, cap, res, inc))
        ctx.step()


def r_handover(ctx):
    f = SUAVE.Methods.Missions.Segments.Common.Energy.initialize_battery
    for n, flag, fade, own, first in itertools.product((2, 6), (True, False), (1., .9), (None, 301.5), (0, 1)):
        seg = seg_of(n)
        seg.battery_discharge = flag
        if own:
            seg.battery_pack_temperature = own
        p = seg.state.conditions.propulsion
        prev = seg_of(5)
        q = prev.state.conditions.propulsion
        k = np.linspace(0, 1, 5)[:, None]
        q.battery_energy, q.battery_pack_temperature, q.battery_cell_temperature, q.battery_cell_charge_throughput = 9e5 - 3e5 * k, 290 + 7 * k, 291 + 9 * k, 3 + 2 * k
        q.battery_max_initial_energy, q.battery_max_aged_energy, q.battery_cycle_day, q.battery_resistance_growth_factor, q.battery_capacity_fade_factor = 1e6, 9.7e5, 4, 1.1, fade
        if not first:
            seg.state.initials = prev.state
        before = copy.deepcopy(dict(q))
        f(seg)
        ctx.step()
        ctx.state((n, flag, fade, own, first))
        K = 'handover:'
        if not first:
            ctx.close(p.battery_energy, 6e5 + np.zeros((n, 1)), K + 'energy', 'energy does not carry over')
            ctx.close(p.battery_pack_temperature, (own or 297.) + np.zeros((n, 1)), K + 'pack-temperature', 'temperature does not carry over')
            ctx.close(p.battery_cell_temperature, (own or 300.) + np.zeros((n, 1)), K + 'cell-temperature', 'temperature does not carry over')
            ctx.close(p.battery_cell_charge_throughput, 5. + np.zeros((n, 1)), K + 'throughput', 'throughput does not carry over')
            ctx.close([p.battery_max_initial_energy, p.battery_max_aged_energy, p.battery_cycle_day, p.battery_resistance_growth_factor, p.battery_capacity_fade_factor],
                      [1e6, 9.7e5 if flag else 1e6 * fade, 4, 1.1, fade], K + 'ageing', 'ageing does not carry over')
            ctx.check(p.battery_discharge_flag == flag, K + 'flag', 'charging flag')
            for nm, v in before.items():
                if isinstance(v, np.ndarray):
                    ctx.check(np.array_equal(v, q[nm]), K + 'previous', 'the previous segment was changed: ' + nm)
            p.battery_energy[:] = -1.
            ctx.check(np.all(q.battery_energy > 0), K + 'alias', 'the new segment shares the energy of the previous one')
        elif own:
            ctx.close([p.battery_pack_temperature[:, 0], p.battery_cell_temperature[:, 0]], own, K + 'own', 'own temperature')


def r_pack(ctx):
    from SUAVE.Methods.Power.Battery.pack_battery_conditions import pack_battery_conditions as f
    for ch, fl, (s, p), n, kind in itertools.product(('li', 'lfp', 'nmc'), (1, 0), CIRC, (2, 6), ('const', 'hump', 'big')):
        b = make(ch, s, p)
        I = setup(b, n, 2. * p, kind, fl, .7, 295., 1., 1., 1., 3.5 * s)
        b.age = 3
        b.energy_calc(numerics(n, 300.), bool(fl))
        seg = seg_of(n)
        c = seg.state.conditions
        pay, Pw = np.full((n, 1), 11.), np.full((n, 1), 50.)
        f(c, b, pay, Pw)
        d, q = b.inputs.power_in, c.propulsion
        want = dict(battery_current=b.inputs.current, battery_energy=b.current_energy, battery_voltage_open_circuit=b.voltage_open_circuit, battery_voltage_under_load=b.voltage_under_load,
                    battery_power_draw=d, battery_max_aged_energy=b.max_energy, battery_cycle_day=3, battery_internal_resistance=b.internal_resistance, battery_state_of_charge=b.state_of_charge,
                    battery_pack_temperature=b.pack_temperature, battery_efficiency=(d + b.resistive_losses) / d, payload_efficiency=(d + pay) / d, battery_specfic_power=-d / b.mass_properties.mass,
                    electronics_efficiency=-Pw / d, battery_cell_power_draw=d / (s * p), battery_cell_energy=b.current_energy / (s * p), battery_cell_voltage_under_load=b.cell_voltage_under_load,
                    battery_cell_voltage_open_circuit=b.cell_voltage_open_circuit, battery_cell_current=np.abs(b.cell_current), battery_cell_temperature=b.cell_temperature,
                    battery_cell_charge_throughput=b.cell_charge_throughput, battery_cell_heat_energy_generated=b.heat_energy_generated,
                    battery_cell_joule_heat_fraction=b.cell_joule_heat_fraction, battery_cell_entropy_heat_fraction=b.cell_entropy_heat_fraction)
        for k, v in want.items():
            ctx.close(q[k], v, 'pack:' + k, 'reported %s' % k, rtol=1e-12)
        ctx.close(q.battery_cell_power_draw * (s * p), q.battery_power_draw, 'pack:cells', 'the cells do not add up to the pack', rtol=1e-12)
        ctx.state((ch, fl, s, p, n, kind))
        ctx.step()


def r_start(ctx):
    from SUAVE.Methods.Power.Battery.append_initial_battery_conditions import append_initial_battery_conditions as f
    opts = dict(battery_discharge=False, increment_battery_cycle_day=True, battery_pack_temperature=305., battery_max_aged_energy=8e5, battery_energy=4e5, battery_cycle_day=7,
                battery_cell_charge_throughput=2.5, battery_resistance_growth_factor=1.3, battery_capacity_fade_factor=.85)
    names = list(opts)
    b = make('nmc', 14, 10)
    for mask in range(2 ** len(names)):
        seg = SUAVE.Analyses.Mission.Segments.Climb.Constant_Speed_Constant_Rate() if mask % 2 else SUAVE.Analyses.Mission.Segments.Cruise.Constant_Speed_Constant_Altitude()
        on = {k: opts[k] for i, k in enumerate(names) if mask >> i & 1}
        seg.state.conditions.frames.inertial.position_vector[:, 2] = -1500.
        for k, v in on.items():
            seg[k] = v
        seg.temperature_deviation = 10. if mask % 3 else 0.
        for k in names:
            if k not in on and k in seg.keys():
                on[k] = seg[k]
        f(seg, b)
        p = seg.state.conditions.propulsion
        g = lambda k, d: on.get(k, d)
        T = g('battery_pack_temperature', 288.15 - .0065 * 1500. * 6356766. / (6356766. + 1500.) + seg.temperature_deviation)
        K = 'start:'
        ctx.close(p.battery_pack_temperature, T, K + 'temperature', 'start temperature', rtol=1e-3)
        ctx.close(p.battery_cell_temperature, p.battery_pack_temperature, K + 'cell', 'cell temperature', rtol=0)
        ctx.check(p.battery_discharge_flag == g('battery_discharge', True), K + 'flag', 'discharge flag')
        ctx.check(seg.increment_battery_cycle_day == g('increment_battery_cycle_day', False), K + 'day', 'day counter')
        ctx.close(p.battery_max_aged_energy, g('battery_max_aged_energy', b.max_energy), K + 'aged', 'aged capacity')
        if 'battery_energy' in on:
            ctx.close([p.battery_max_initial_energy, p.battery_energy[0, 0], p.battery_cycle_day, p.battery_cell_charge_throughput[0, 0], p.battery_resistance_growth_factor, p.battery_capacity_fade_factor, p.battery_state_of_charge[0, 0]],
                      [4e5, 4e5, g('battery_cycle_day', 0), g('battery_cell_charge_throughput', 0.), g('battery_resistance_growth_factor', 1), g('battery_capacity_fade_factor', 1), 4e5 / g('battery_max_aged_energy', b.max_energy)],
                      K + 'values', 'start values', rtol=1e-12)
        ctx.state(mask)
        ctx.step()


# ---------------------------------------------------------------- missions of charge and discharge segments
def rig(ch, cur, over=None):
    from SUAVE.Core import Units
    Analyses = SUAVE.Analyses
    v = SUAVE.Vehicle()
    v.reference_area = 1.
    v.mass_properties.takeoff = v.mass_properties.max_takeoff = 1.
    net = SUAVE.Components.Energy.Networks.Battery_Cell_Cycler()
    net.tag = 'battery_cell'
    b = make(ch)
    b.charging_voltage, b.charging_current = b.cell.nominal_voltage, cur
    b.convective_heat_transfer_coefficient = 7.17
    net.voltage, net.battery = b.cell.nominal_voltage, b
    net.avionics = SUAVE.Components.Energy.Peripherals.Avionics()
    net.avionics.current = cur
    v.append_component(net)
    an = Analyses.Vehicle()
    en = Analyses.Energy.Energy()
    en.network = v.networks
    pl = Analyses.Planets.Planet()
    at = Analyses.Atmospheric.US_Standard_1976()
    at.features.planet = pl.features
    we = Analyses.Weights.Weights_eVTOL()
    we.vehicle = v
    for a in (en, pl, at, we):
        an.append(a)
    return v, b, net, an


def segment(v, b, net, an, op, i, ch, cur, over=None):
    Sg = SUAVE.Analyses.Mission.Segments
    E = SUAVE.Methods.Missions.Segments.Common.Energy
    base = Sg.Segment()
    base.process.initialize.initialize_battery = E.initialize_battery
    base.process.finalize.post_process.update_battery_state_of_health = E.update_battery_state_of_health
    s = Sg.Ground.Battery_Charge_Discharge(base)
    s.analyses.extend(an)
    s.tag = '%s%d' % (op, i)
    s.state.numerics.number_control_points = 8
    s.process.iterate.conditions.stability = SUAVE.Methods.skip
    s.process.iterate.conditions.aerodynamics = SUAVE.Methods.skip
    s.altitude = 0.
    s.battery_discharge = op in 'Dd'
    if op in 'Dd':
        s.time = (.35 if op == 'D' else .1) * b.cell.nominal_capacity / cur * 3600.
    if i == 0:
        s.battery_energy = b.max_energy * (1. if op == 'D' else .8)
    if over:
        s.overcharge_contingency = over
    if op == 'c':
        s.increment_battery_cycle_day = True
    return net.add_unknowns_and_residuals_to_segment(s, initial_battery_cell_temperature=295.)


def r_fly(ctx, ch, hist):
    cur = 1.5
    v, b, net, an = rig(ch, cur)
    cap0 = b.max_energy
    m = SUAVE.Analyses.Mission.Sequential_Segments()
    for i, op in enumerate(hist):
        m.append_segment(segment(v, b, net, an, op, i, ch, cur))
    res = m.evaluate()
    prev, day = None, 0
    for i, (op, s) in enumerate(zip(hist, res.segments.values())):
        c = s.conditions
        p = c.propulsion
        K = 'fly:%s:' % ch
        ctx.check(bool(s.state.numerics.converged), K + 'converged', '%s segment %d' % (hist, i))
        E, q, T, t = p.battery_energy, p.battery_cell_charge_throughput, p.battery_cell_temperature, c.frames.inertial.time
        cap = float(np.ravel(p.battery_max_aged_energy)[0])
        J = s.state.numerics.time.integrate
        if prev is not None:
            o = prev.conditions.propulsion
            ctx.close([E[0, 0], q[0, 0], T[0, 0], t[0, 0]], [o.battery_energy[-1, 0], o.battery_cell_charge_throughput[-1, 0], o.battery_cell_temperature[-1, 0], prev.conditions.frames.inertial.time[-1, 0]],
                      K + 'continuity', '%s: segment %d does not start where %d ended' % (hist, i, i - 1), rtol=2e-5)
            ctx.check(p.battery_capacity_fade_factor <= o.battery_capacity_fade_factor and p.battery_resistance_growth_factor >= o.battery_resistance_growth_factor, K + 'younger', 'the battery got younger in %s' % hist)
            ctx.close(cap, float(np.ravel(o.battery_max_aged_energy)[0]) if op in 'Dd' else cap0 * (o.battery_capacity_fade_factor) * (1. if hist[0] == 'D' else .8), K + 'aged', 'usable capacity in %s segment %d' % (hist, i), rtol=1e-9)
        else:
            ctx.close(E[0, 0], cap0 * (1. if op == 'D' else .8), K + 'start', 'start energy')
        day += op == 'c'
        ctx.check(p.battery_cycle_day == (day if ch == 'nmc' else 0), K + 'day', '%s: cycle day %s expected %s' % (hist, p.battery_cycle_day, day))
        ctx.check(np.all(np.diff(q[:, 0]) > 0), K + 'throughput', 'throughput does not grow')
        ctx.close(q[-1, 0] - q[0, 0], cur * (t[-1, 0] - t[0, 0]) / 3600., K + 'ampere-hours', 'throughput is not current times time', rtol=1e-6)
        if op in 'Dd':
            ctx.check(np.all(np.diff(E[:, 0]) < 0), K + 'draining', 'a discharging battery gains energy')
            Pd = p.battery_power_draw
            ctx.check(np.all(Pd < 0), K + 'sign', 'power draw sign')
            ctx.close(t[-1, 0] - t[0, 0], s.time, K + 'time', 'discharge time', rtol=1e-9)
        else:
            ctx.check(np.all(np.diff(E[:, 0]) >= -1e-6 * cap0), K + 'filling', 'a charging battery loses energy')
        ctx.check(E.max() <= max(cap, E[0, 0]) * (1 + 1e-6), K + 'overfull', '%s: more energy than the battery holds' % hist)
        ctx.check(np.all(T >= 288.15 - 1e-6), K + 'cold', 'colder than the surroundings')
        ctx.check(np.all((p.battery_state_of_charge >= 0) & (p.battery_state_of_charge <= 1)), K + 'soc', 'state of charge')
        ctx.state((ch, hist[:i + 1]))
        ctx.step()
        prev = s
    ctx.trace()


def r_over(ctx, x):
    cur = 1.5
    for ch in ('lfp', 'nmc'):
        v, b, net, an = rig(ch, cur)
        m = SUAVE.Analyses.Mission.Sequential_Segments()
        m.append_segment(segment(v, b, net, an, 'D', 0, ch, cur))
        m.append_segment(segment(v, b, net, an, 'C', 1, ch, cur, over=x))
        r = m.evaluate()
        d, c = list(r.segments.values())
        E = d.conditions.propulsion.battery_energy[-1, 0]
        cap = b.max_energy if ch == 'lfp' else b.max_energy
        t = c.conditions.frames.inertial.time
        aged = float(np.ravel(d.conditions.propulsion.battery_max_aged_energy)[0])
        want = (aged - E) * x / (b.cell.charging_current * b.cell.charging_voltage)
        ctx.close(t[-1, 0] - t[0, 0], want, 'over:time:%s' % ch, 'charging time with contingency %s' % x, rtol=1e-9)
        ctx.state((ch, x))
        ctx.step()
    ctx.trace()
