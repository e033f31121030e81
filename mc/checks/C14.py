"""C14  Atmosphere, gravity and gas models: table values, layer laws, state relations, row independence, no memory."""
import contextlib, io, itertools
import numpy as np

LEVEL = 'model_checking'
BOUNDS = ('altitudes: every layer break, both sides of it, three interior points per layer and both out-of-range ends; every scalar/list/1-D/column form; every ordered batch of up to 3 '
          '(quick) / 4 (thorough) of 9 representative altitudes; temperature deviations {-40, 0, 15, 40, per-row}; both gas-constant-ratio options; all histories of up to 3 requests on '
          'one model; gravity and gas functions on the same altitudes')
ASSUMPTIONS = ['the 1976 standard in its layer form with the published base temperatures, pressures and heights']
MIN = {'evals': 5000}
Re, G0, R = 6.371e6, 9.80665, 287.0528742
HB = [-2000., 0., 11000., 20000., 32000., 47000., 51000., 71000., 84852.]
TB = [301.15, 288.15, 216.65, 216.65, 228.65, 270.65, 270.65, 214.65, 186.95]
PB = [127774.0, 101325.0, 22632.1, 5474.89, 868.019, 110.906, 66.9389, 3.95642, 0.3734]
FIELDS = ('pressure', 'temperature', 'density', 'speed_of_sound', 'dynamic_viscosity', 'kinematic_viscosity', 'thermal_conductivity', 'prandtl_number')


def geom(h):
    return h / (1 - h / Re)


def ref(z, dT=0., vg=False):
    h = z / (1 + z / Re)
    h = min(max(h, HB[0]), HB[-1])
    out = []
    for i in range(8):
        if HB[i] - 1e-6 <= h <= HB[i + 1] + 1e-6:
            L = (TB[i + 1] - TB[i]) / (HB[i + 1] - HB[i])
            T = TB[i] + L * (h - HB[i])
            p = PB[i] * np.exp(-G0 * (h - HB[i]) / (R * TB[i])) if L == 0 else PB[i] * (T / TB[i]) ** (-G0 / (L * R))
            out.append(state(T + dT, p, vg))
    return out                                     # both neighbouring layers at a break


def state(T, p, vg=False):
    g = 1.629e-10 * T ** 3 - 3.588e-7 * T ** 2 + 1.418e-4 * T + 1.386 if vg else 1.4
    mu = 1.458e-6 * T ** 1.5 / (T + 110.4)
    k = 3.99e-4 + 9.89e-5 * T - 4.57e-8 * T ** 2 + 1.4e-11 * T ** 3
    rho = p / (R * T)
    return dict(pressure=p, temperature=T, density=rho, speed_of_sound=np.sqrt(g * R * T), dynamic_viscosity=mu, kinematic_viscosity=mu / rho, thermal_conductivity=k, prandtl_number=mu * 1006. / k)


def altitudes():
    a = []
    for i, h in enumerate(HB):
        z = geom(h)
        a += [z, z - .5, z + .5]
        if i < 8:
            w = HB[i + 1] - h
            a += [geom(h + w * f) for f in (.1, .5, .83)]
    return sorted(a) + [-5000., 95000., 2e5]


REP = [-3000., 0., 1500., 11019.06, 15000., 32000., 48000., 80000., 1e5]


def scenarios(tier):
    out = [dict(k='point', form=f, vg=v, dT=d) for f in ('float', 'int', 'list', '1d', 'col', 'tuple', 'big') for v in (False, True) for d in (-40., 0., 15., 40.)]
    out += [dict(k='batch', n=n, model=m, first=i) for n in ((2, 3) if tier != 'thorough' else (2, 3, 4)) for m in ('us', 'ct') for i in range(len(REP))]
    out += [dict(k='hist', model=m, first=i) for m in ('us', 'ct') for i in range(5)]
    out += [dict(k='ct'), dict(k='gas'), dict(k='gravity')]
    return out


def make(m):
    import SUAVE
    return SUAVE.Analyses.Atmospheric.US_Standard_1976() if m == 'us' else SUAVE.Analyses.Atmospheric.Constant_Temperature()


def check_rows(ctx, r, zs, dTs, vg, what, n=None):
    for f in FIELDS:
        v = np.asarray(r[f], dtype=float)
        if not ctx.check(v.shape == (len(zs), 1), 'row-shape', '%s: %s has shape %r for %d altitudes' % (what, f, v.shape, len(zs))):
            continue
        for i, (z, d) in enumerate(zip(zs, dTs)):
            ok = any(abs(v[i, 0] - e[f]) <= 1e-7 * abs(e[f]) for e in ref(z, d, vg))
            ctx.check(ok, 'value:' + f, '%s: %s at %.2f m (deviation %g) is %.9g, expected %.9g' % (what, f, z, d, v[i, 0], ref(z, d, vg)[0][f]))


def run(ctx, sc):
    with contextlib.redirect_stdout(io.StringIO()):
        globals()['r_' + sc['k']](ctx, sc)


def forms(form, zs):
    if form == 'float':
        return [(float(z), [float(z)]) for z in zs]
    if form == 'int':
        return [(int(z), [float(int(z))]) for z in zs]
    if form in ('list', 'tuple'):
        return [((list if form == 'list' else tuple)(zs[i:i + 3]), zs[i:i + 3]) for i in range(0, len(zs), 3)]
    if form == '1d':
        return [(np.array(zs[i:i + 4]), zs[i:i + 4]) for i in range(0, len(zs), 4)]
    if form == 'col':
        return [(np.array(zs[i:i + 5])[:, None], zs[i:i + 5]) for i in range(0, len(zs), 5)]
    return [(np.array(zs[::-1])[:, None], zs[::-1])]


def r_point(ctx, sc):
    m = make('us')
    for arg, zs in forms(sc['form'], altitudes()):
        keep = np.array(arg, dtype=float, copy=True)
        r = m.compute_values(arg, sc['dT'], sc['vg'])
        check_rows(ctx, r, list(zs), [sc['dT']] * len(zs), sc['vg'], 'form %s' % sc['form'])
        ctx.check(np.array_equal(keep, np.array(arg, dtype=float)), 'argument-modified', sc['form'])
        ctx.state((sc['form'], sc['vg'], sc['dT'], tuple(zs)))
        ctx.step(len(zs))
        ctx.ev(('p', tuple(np.round(zs, 2))))
        ctx.trace()
    if sc['dT'] == 0.:
        # pressure falls and is hydrostatic across the whole range: dp/dh = -rho g
        z = np.array(altitudes()[:-3])
        z = z[(z / (1 + z / Re) > HB[0]) & (z / (1 + z / Re) < HB[-1])]
        p = np.ravel(m.compute_values(z)['pressure'])
        ctx.check(np.all(np.diff(p) < 0), 'pressure-monotone', '')


def r_batch(ctx, sc):
    m = make(sc['model'])
    single = {z: {f: float(np.ravel(m.compute_values(z)[f])[0]) for f in FIELDS} for z in REP}
    for rest in itertools.product(REP, repeat=sc['n'] - 1):
        zs = (REP[sc['first']],) + rest
        dts = [0.] if sc['model'] == 'ct' else [0., 'row']
        for d in dts:
            if d == 'row':
                dT = np.array([-10., 0., 25., 5.])[:sc['n'], None]
                check_rows(ctx, m.compute_values(np.array(zs)[:, None], dT), zs, np.ravel(dT), False, 'per-row deviations')
            else:
                r = m.compute_values(np.array(zs))
                for f in FIELDS:
                    ctx.close(np.broadcast_to(np.asarray(r[f]), (len(zs), 1))[:, 0], [single[z][f] for z in zs], 'row-independence:' + f, '%r' % (zs,), rtol=1e-12)
                    ctx.check(np.shape(r[f]) == (len(zs), 1), 'row-shape', '%s: %s has shape %r for %d altitudes' % (sc['model'], f, np.shape(r[f]), len(zs)))
            ctx.state((sc['model'], zs, d))
            ctx.trace()
        ctx.step(sc['n'])
        ctx.ev((sc['model'], zs))


REQ = [(0., 0.), (5000., 20.), (15000., -30.), (90000., 0.), (30000., 10.)]


def r_hist(ctx, sc):
    from copy import deepcopy
    T0 = 280.
    def ask(m, q):
        r = m.compute_values(q[0], q[1] if sc['model'] == 'us' else T0 + q[1])
        return {f: np.array(r[f], dtype=float) for f in FIELDS}
    fresh = {q: ask(make(sc['model']), q) for q in REQ}
    for n in (1, 2, 3):
        for rest in itertools.product(REQ, repeat=n - 1):
            m = make(sc['model'])
            before = {k: np.array(v) for k, v in m.breaks.items()}
            held = []
            for q in (REQ[sc['first']],) + rest:
                r = ask(m, q)
                held.append((q, m.compute_values(q[0], q[1] if sc['model'] == 'us' else T0 + q[1])))
                for f in FIELDS:
                    ctx.close(r[f], fresh[q][f], 'history:' + f, '%r then %r' % (REQ[sc['first']], rest), rtol=1e-12)
                ctx.step()
            for q, h in held:                       # earlier answers are not rewritten by later requests
                for f in FIELDS:
                    ctx.close(np.asarray(h[f], dtype=float), fresh[q][f], 'earlier-answer:' + f, '', rtol=1e-12)
            for k, v in before.items():
                ctx.check(np.array_equal(v, m.breaks[k]), 'model-modified:' + k, 'requests changed the break table: %r -> %r' % (v, m.breaks[k]))
            ctx.state((sc['model'], sc['first'], rest))
            ctx.trace()


def r_ct(ctx, sc):
    m = make('ct')
    for T in (220., 288.15, 300., 310.):
        for zs in ([0.], [1000., 2000.], REP, [70000., -1000.]):
            r = m.compute_values(np.array(zs), T)
            for i, z in enumerate(zs):
                h = min(max(z / (1 + z / Re), HB[0]), HB[-1])
                cand = []
                for k in range(8):
                    if HB[k] - 1e-6 <= h <= HB[k + 1] + 1e-6:
                        cand.append(state(T, PB[k] * np.exp(-G0 * (h - HB[k]) / (R * T))))
                for f in FIELDS:
                    v = np.asarray(r[f], dtype=float)
                    if not ctx.check(v.shape == (len(zs), 1), 'row-shape', 'constant temperature: %s has shape %r for %d altitudes' % (f, v.shape, len(zs))):
                        continue
                    ctx.check(any(abs(v[i, 0] - c[f]) <= 1e-7 * c[f] for c in cand), 'constant-temperature:' + f, '%s at %g, T=%g: %.9g expected %.9g' % (f, z, T, v[i, 0], cand[0][f]))
            ctx.state(('ct', T, tuple(zs)))
            ctx.step(len(zs))
            ctx.trace()


def r_gas(ctx, sc):
    from SUAVE.Attributes.Gases import Air
    a = Air()
    Ts = [180., 216.65, 288.15, 300., 350.]
    ps = [10., 22632.1, 101325., 2e5]
    for T in Ts:
        for p in ps:
            for shape in ('scalar', 'col'):
                t, q = (T, p) if shape == 'scalar' else (np.full((3, 1), T), np.full((3, 1), p))
                s, sv = state(T, p), state(T, p, True)
                ctx.close(a.compute_density(t, q), s['density'], 'gas-density', '', rtol=1e-9)
                ctx.close(a.compute_speed_of_sound(t, q), s['speed_of_sound'], 'gas-sound', '', rtol=1e-9)
                ctx.close(a.compute_speed_of_sound(t, q, True), sv['speed_of_sound'], 'gas-sound-gamma', '', rtol=1e-9)
                ctx.close(a.compute_absolute_viscosity(t, q), s['dynamic_viscosity'], 'gas-viscosity', '', rtol=1e-9)
                ctx.close(a.compute_thermal_conductivity(t, q), s['thermal_conductivity'], 'gas-conductivity', '', rtol=1e-9)
                cp, g = a.compute_cp(t, q), a.compute_gamma(t, q)
                ctx.check(np.all(np.abs(np.asarray(cp) - 1004.) < 40) and np.all(np.abs(np.asarray(g) - 1.4) < .02), 'gas-cp-gamma', '%r %r' % (cp, g))
                ctx.state(('gas', T, p, shape))
                ctx.step()
                ctx.trace()
    ctx.check(abs(sum(v for v in a.composition.values() if not isinstance(v, str)) - 2.0) < 1e-3 or abs(sum(a.composition[k] for k in ('O2', 'Ar', 'CO2', 'N2', 'other')) - 1.) < 1e-3, 'composition', '')


def r_gravity(ctx, sc):
    from SUAVE.Attributes.Planets import Earth
    import SUAVE
    for e in (Earth(), SUAVE.Analyses.Planets.Planet().features):
        for z in altitudes():
            for arg in (z, np.array([[z], [0.]])):
                g = np.asarray(e.compute_gravity(arg))
                ctx.close(np.ravel(g)[0], G0 * (Re / (Re + z)) ** 2, 'gravity', '%g' % z, rtol=1e-9)
                if g.ndim:
                    ctx.close(g[1, 0], G0, 'gravity', '0', rtol=1e-9)
            ctx.state(('g', z))
            ctx.trace()
