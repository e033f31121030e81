"""Certification envelopes and field, range and speed performance follow their defining relations and keep the vehicle as it was given."""
import contextlib, copy, io, itertools, os, sys, warnings
import numpy as np
from mc import gaskit as G, rowkit as R, missionkit as K
LEVEL = 'model_checking'
BOUNDS = ('V-n envelopes over every combination of a grid of weights, altitudes, cruise Mach numbers, lift limits, specified load limits, categories and orders of the wings, vertex by vertex; payload range of every mass statement of a grid; '
          'field lengths for every engine count from one to six, altitude, deviation, weight and specified constants; the fastest and most economic speeds of analytic drag polars over a grid; every grid point of V-h diagrams; '
          'every ordered pair of vehicles evaluated one after the other')
ASSUMPTIONS = ['the gust and load factor relations quoted from FAR 23 and 25 (with the rounding of the tables the code uses) are what is specified', 'matplotlib drawing calls are replaced by a stand-in that records nothing',
               'envelopes whose rough gust line meets the stall line beyond the cruise speed are left out', 'the network, propeller and aerodynamics are analytic stand-ins']
MIN = {'evals': 5000}
TIME_LIMIT = 400
P = 'SUAVE.Methods.Performance.'


def scenarios(tier):
    T = tier == 'thorough'
    out = [['vn', cat, k] + [1] * T for cat in ('p25', 'normal', 'commuter', 'utility', 'acrobatic') for k in range(4 if T else 2)] + [['vnhist', k] for k in range(3)]
    out += [['pr', k] for k in range(4)] + [['epr', 0], ['land', 0], ['land', 1], ['tofl', 0], ['tofl', 1], ['tow', 0], ['stall', 0], ['second', 0], ['second', 1]]
    out += [['ld', k] for k in range(6 if T else 3)] + [['vh', k] for k in range(3)]
    return out


class Stub(object):
    """accepts every drawing call"""
    def __getattr__(self, n):
        if n == 'subplots':
            return lambda *a, **k: (Stub(), Stub())
        return lambda *a, **k: Stub()


def mod(n):
    __import__(P + n)
    return sys.modules[P + n]


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    import matplotlib
    matplotlib.use('Agg', force=True)
    from SUAVE.Core import Data, Units
    globals().update(Data=Data, Units=Units)
    here = os.getcwd()
    os.chdir(ctx.scratch())
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            globals()['r_' + sc[0]](ctx, *sc[1:])
    finally:
        os.chdir(here)
    ctx.sample(sc)


def close(a, b, t):
    return abs(a - b) <= t * max(1e-12, abs(b))


# ---------------------------------------------------------------- V-n envelope
FT, KT, LB = .3048, .514444444, .45359237


def vn_vehicle(cat, W, wl, AR, Mc, clmax, clmin, npos, nneg, order=0, chord=1.):
    """W [lb], wing loading [psf]; order places a tail before or behind the main wing"""
    v = SUAVE.Vehicle()
    v.tag = 'v'
    v.reference_area = W / wl * FT ** 2
    v.mass_properties.max_takeoff = W * LB

    def wing(cls, tag, S):
        w = cls()
        w.tag = tag
        w.areas.reference = S
        w.aspect_ratio = AR
        w.spans.projected = (S * AR) ** .5
        w.chords.mean_aerodynamic = chord * (S / AR) ** .5
        w.chords.root = 1.2 * (S / AR) ** .5
        w.chords.tip = .8 * (S / AR) ** .5
        w.taper = .8 / 1.2
        w.sweeps.quarter_chord = .15
        w.thickness_to_chord = .12
        w.symmetric = True
        return w
    main = wing(SUAVE.Components.Wings.Main_Wing, 'main_wing', v.reference_area)
    tail = wing(SUAVE.Components.Wings.Horizontal_Tail, 'horizontal_stabilizer', .2 * v.reference_area)
    for w in {0: [main], 1: [main, tail], 2: [tail, main]}[order]:
        v.append_component(w)
    v.envelope = Data() if 'envelope' not in v else v.envelope
    v.envelope.FAR_part_number = 25 if cat == 'p25' else 23
    v.envelope.category = cat
    v.envelope.cruise_mach = Mc
    v.envelope.limit_loads = Data()
    v.envelope.limit_loads.positive = npos
    v.envelope.limit_loads.negative = nneg
    if clmax is not None:
        v.maximum_lift_coefficient = clmax
    v.minimum_lift_coefficient = clmin
    return v


def an():
    a = SUAVE.Analyses.Vehicle()
    p = SUAVE.Analyses.Planets.Planet()
    a.append(p)
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    atm.features.planet = p.features
    a.append(atm)
    return a


def vn(v, W, alt, dev, a=None):
    m = mod('V_n_diagram')
    m.plt = Stub()
    return m.V_n_diagram(v, a or an(), W * LB, alt * FT, dev)


def table(x, xs, ys):
    return float(np.interp(x, xs, ys))


def vn_oracle(ctx, key, cat, W, wl, AR, Mc, clmax, clmin, npos, nneg, alt, dev, chord, r):
    """everything the diagram says, from the regulations"""
    from SUAVE.Methods.Flight_Dynamics.Static_Stability.Approximations.datcom import datcom
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    A, B = atm.compute_values(alt * FT, dev), atm.compute_values(0., dev)
    T, rho, rho0 = float(A.temperature.ravel()[0]), float(A.density.ravel()[0]), float(B.density.ravel()[0])
    sig = (rho / rho0) ** .5
    slug = 515.378818
    w = vn_vehicle(cat, W, wl, AR, Mc, clmax, clmin, npos, nneg, 0, chord).wings.main_wing
    a = float(datcom(w, np.array([Mc]))[0])
    c = w.chords.mean_aerodynamic / FT
    g = 32.174
    what = lambda s: '%s: %s W=%g lb, W/S=%g, Mc=%g, %g ft, dT=%g, CL %g/%g, n %g/%g' % (s, cat, W, wl, Mc, alt, dev, clmax, clmin, npos, nneg)

    def ok(cond, k, s):
        ctx.ev()
        return ctx.check(bool(cond), 'vn:%s:%s' % (k, key), what(s))
    # limit load factors
    f = min(3.8, max(2.5, 2.1 + 24000. / (W + 10000.)))
    n1 = {'utility': max(4.4, npos), 'acrobatic': max(6., npos)}.get(cat, max(f, npos))
    n2 = {'p25': min(nneg, -1.), 'acrobatic': min(-.5 * n1, nneg)}.get(cat, min(-.4 * n1, nneg))
    # stall and maneuver speeds, KEAS
    vs = lambda cl: (2 * wl / (rho0 / slug * abs(cl))) ** .5 * FT / KT
    Vs1, Vs2 = vs(clmax), vs(clmin)
    Va1, Va2 = Vs1 * n1 ** .5, Vs2 * (-n2) ** .5
    for x, y, nm in ((r.Vs1.positive, Vs1, 'Vs1 +'), (r.Vs1.negative, Vs2, 'Vs1 -'), (r.Va.positive, Va1, 'Va +'), (r.Va.negative, Va2, 'Va -')):
        ok(close(x, y, 1e-3), 'speeds', '%s is %g KEAS, expected %g' % (nm, x, y))
    # gusts
    mu = 2 * wl / (rho / slug * c * a * g)
    Kg = .88 * mu / (5.3 + mu)
    if cat == 'p25':
        U = table(alt, [0, 15000, 50000], [56, 44, 26])
        Ud, Ur = U / 2, U
    else:
        U, Ud = table(alt, [20000, 50000], [50, 25]), table(alt, [20000, 50000], [25, 12.5])
        Ur = table(alt, [20000, 50000], [66, 38]) if cat == 'commuter' else U
    gd = r.gust_data.airspeeds
    ok(close(gd.cruise_gust, U, 1e-3) and close(gd.dive_gust, Ud, 1e-3) and close(gd.rough_gust, Ur, 2e-3), 'gusts', 'reference gusts %g, %g, %g, expected %g, %g, %g' % (gd.cruise_gust, gd.dive_gust, gd.rough_gust, U, Ud, Ur))
    # cruise and dive speed
    Vc0 = Mc * (1.4 * 287 * T) ** .5 / KT * sig
    if max(Va1, Va2) > Vc0 * (1 + 1e-9):
        Vc0 = 1.15 * max(Va1, Va2)
    if cat == 'p25':
        s = Kg * a / (498 * wl)
        Vmin = Vs1
        for _ in range(200):                                  # fixed point of Vc = Vs1 sqrt(1 + Kg U Vc a / 498 w) + 1.32 U
            Vmin = Vs1 * (1 + s * U * Vmin) ** .5 + 1.32 * U
    else:
        Vmin = table(wl, [20, 100], {'acrobatic': [36, 28.6]}.get(cat, [33, 28.6])) * wl ** .5
    Vc = max(Vc0, Vmin)
    ok(close(r.Vc, Vc, 1e-3), 'cruise', 'Vc is %g KEAS, expected %g (minimum %g)' % (r.Vc, Vc, Vmin))
    Vd = 1.25 * Vc if cat == 'p25' else max(1.15 * Vc, Vmin * table(wl, [20, 100], {'acrobatic': [1.55, 1.35], 'utility': [1.5, 1.35]}.get(cat, [1.4, 1.35])))
    ok(close(r.Vd, Vd, 1e-3), 'dive', 'Vd is %g KEAS, expected %g' % (r.Vd, Vd))
    Vc, Vd = r.Vc, r.Vd
    # gust lines and envelope, with the reported speeds and gusts
    k = Kg * a / (498 * wl)
    for sgn, side, cl, nl, Va in ((1, 'positive', clmax, n1, Va1), (-1, 'negative', clmin, n2, Va2)):
        gc, gdv = 1 + sgn * k * Vc * gd.cruise_gust, 1 + sgn * k * Vd * gd.dive_gust
        ga = 1 + sgn * k * Va * gd.rough_gust
        G4 = r.gust_load_factors[side]
        ok(close(G4[2] - 1, gc - 1, 2e-3) and close(G4[3] - 1, gdv - 1, 2e-3) and close(G4[1] - 1, ga - 1, 2e-3), 'gustload', '%s gust load factors %s, expected %g at Va, %g at Vc, %g at Vd' % (side, G4[1:4], ga, gc, gdv))
        V, n = np.array(r.airspeeds[side], float), np.array(r.load_factors[side], float)
        if abs(ga) > abs(nl) and float(r.Vb[side]) > Vc:      # the rough gust line meets the stall line beyond the cruise speed
            continue
        ok(len(V) == len(n) and np.all(np.diff(V[1:]) >= -1e-6 * Vd) and close(V[-1], Vd, 1e-9) and abs(n[-1]) < 1e-12 and abs(n[0]) < 1e-12, 'shape', '%s envelope is not an ordered curve from stall to dive speed: V %s n %s' % (side, V[[0, 1, -2, -1]], n[[0, 1, -2, -1]]))
        Vs = vs(cl)
        stall = lambda x: sgn * (x / Vs) ** 2
        vb = abs(ga) > abs(nl)
        Vb = float(r.Vb[side]) if vb else Va
        if vb:
            ok(Vb >= Va * (1 - 1e-6) and close(stall(Vb), 1 + sgn * k * Vb * gd.rough_gust, 3e-3), 'Vb', '%s Vb %g KEAS: stall line %g, gust line %g' % (side, Vb, stall(Vb), 1 + sgn * k * Vb * gd.rough_gust))
        if sgn > 0:
            man = lambda x: nl
        else:
            end = -1. if cat in ('utility', 'acrobatic') else 0.
            man = lambda x: nl if x <= Vc else nl + (end - nl) * (x - Vc) / (Vd - Vc)
        gust = lambda x: gc * (x / Vc) + 1 - x / Vc if x <= Vc else gc + (gdv - gc) * (x - Vc) / (Vd - Vc)
        pick = max if sgn > 0 else min
        for x, y in zip(V[1:-1], n[1:-1]):
            if x <= max(Vb, Va) * (1 + 1e-6):
                want, tol = stall(x), 4e-3
                ok(abs(y - want) <= tol * max(1, abs(want)), 'stall-line', '%s envelope at %g KEAS is %g, the stall line %g' % (side, x, y, want))
            elif x < Vd * (1 - 1e-9):
                want = pick(man(x), gust(x)) if vb or x > Va else man(x)
                bent = sgn < 0 and gc < nl and x > Vc
                ok(abs(y - want) <= 4e-3 * max(1, abs(want)) or (bent and y < want), 'envelope', '%s envelope at %g KEAS is %g, expected %g (maneuver %g, gust %g)' % (side, x, y, want, man(x), gust(x)))
        # the envelope covers every load it is made of
        x0, y0 = V[1:-1], n[1:-1]
        for x in np.linspace(max(Va, Vb), Vd, 23)[:-1]:
            have = np.interp(x, x0, y0)
            want = pick(man(x), gust(x) if (x >= Vc or gc * sgn > nl * sgn or vb) else man(x))
            if vb and x < Vc:
                want = pick(nl, 1 + (gc - 1) / Vc * x) if gd.rough_gust == gd.cruise_gust else nl
            ok(sgn * have >= sgn * want - 6e-3 * max(1, abs(want)), 'cover', '%s envelope at %g KEAS is %g and does not reach the load %g' % (side, x, have, want))
        at = lambda x: pick(y for v_, y in zip(V, n) if abs(v_ - x) <= 1e-6 * Vd)
        ok(any(abs(v_ - Vc) < 1e-6 * Vd for v_ in V) or abs(gc) <= abs(nl), 'corner', '%s envelope has no point at Vc' % side)
        wd = pick(nl if sgn > 0 else end, gdv)
        if sgn > 0 and abs(gc) > abs(nl) and abs(gdv) > abs(nl):
            wd = gdv
        ok(close(at(Vd), wd, 4e-3) if abs(wd) > 1e-9 else abs(at(Vd)) < 1e-9, 'dive-load', '%s load at Vd is %g, expected %g' % (side, at(Vd), wd))
        ok(close(float(r.limit_loads.dive[side]), wd, 4e-3) if abs(wd) > 1e-9 else abs(float(r.limit_loads.dive[side])) < 1e-9, 'dive-load', 'reported %s load at Vd is %g, expected %g' % (side, float(r.limit_loads.dive[side]), wd))
        ok(close(float(r.limit_loads[side]), pick(n), 1e-9), 'limit', 'reported %s limit load is %g, the envelope reaches %g' % (side, float(r.limit_loads[side]), pick(n)))


def r_vn(ctx, cat, k, T=False):
    order_ref = {}
    heavy = cat == 'p25'
    Ws = ((30000., 170000.) if heavy else (4000., 12000.)) if k % 2 else ((60000., 500000.) if heavy else (2000., 18500.))
    wls = ((60., 95.) if heavy else (10., 19.9)) if k < 2 and k % 2 else ((110., 80.) if heavy else (25., 60.))
    alts = (0., 14000., 15000., 35000.) if heavy else (0., 19999., 20000., 30000.)
    if k >= 2:
        alts = (7000., 45000.) if heavy else (9000., 42000.)
    for W, wl, alt, (clmax, clmin), (npos, nneg), Mc in itertools.product(Ws, wls, alts, ((1.4, -.7), (2.1, -1.9), (1.5, -1.5)), ((2.5, -1.), (3.4, -1.7), (7., -7.)), (.22, .45, .75) if T else (.22, .6)):
        dev = 15. if alt in (14000., 19999.) else 0.
        chord = 1. if wl != 25. else 1.3
        res = []
        for order in (0, 1, 2) if W == Ws[0] and wl == wls[0] else (0,):
            v = vn_vehicle(cat, W, wl, 8. if heavy else 9., Mc, clmax, clmin, npos, nneg, order, chord)
            before = R.flat(v)
            r = vn(v, W, alt, dev)
            now = R.flat(v)
            ctx.trace()
            ctx.check(set(before) == set(now) and all(R.same(before[n], now[n], 0.) for n in before), 'vn:vehicle', 'the vehicle changed')
            res.append(R.flat(r))
            if order == 0:
                vn_oracle(ctx, cat, cat, W, wl, 8. if heavy else 9., Mc, clmax, clmin, npos, nneg, alt, dev, chord, r)
            else:
                ctx.ev()
                ctx.check(all(R.same(res[0][n], res[-1][n], 1e-12) for n in res[0]), 'vn:order', 'the envelope depends on the order of the wings (%d): %s' % (order, [n for n in res[0] if not R.same(res[0][n], res[-1].get(n), 1e-12)][:3]))
        ctx.state((cat, W, wl, alt, clmax, npos, Mc))


def r_vnhist(ctx, k):
    """every ordered pair of diagrams of a vehicle, and the lift limit of the wing where none is given"""
    cases = [('normal', 4000., 20., .3, 0.), ('normal', 4000., 20., .3, 25000.), ('utility', 8000., 30., .3, 12000.), ('p25', 170000., 110., .78, 35000.)]
    a = an()
    ae = SUAVE.Analyses.Aerodynamics.Fidelity_Zero()
    a.append(ae)
    a.aerodynamics.settings.maximum_lift_coefficient_factor = (1., .8, 1.1)[k]
    from SUAVE.Methods.Aerodynamics.Fidelity_Zero.Lift import compute_max_lift_coeff as cm
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()

    def make(c):
        v = vn_vehicle(c[0], c[1], c[2], 8., c[3], None, -.8, 2.5, -1.)
        v.wings.main_wing.high_lift = True
        return v
    fresh = []
    for c in cases:
        v = make(c)
        try:
            r = vn(v, c[1], c[4], 0., a)
        except Exception as e:
            ctx.check(False, 'vn:clmax', 'no envelope for a vehicle without a specified maximum lift coefficient: %s' % e)
            return
        A = atm.compute_values(c[4] * FT, 0.)
        Vc = c[3] * (1.4 * 287 * A.temperature) ** .5
        st = Data(conditions=Data(freestream=Data(density=A.density, dynamic_viscosity=A.dynamic_viscosity, velocity=.333 * Vc)))
        cl = float(np.ravel(cm(st, a.aerodynamics.settings, v)[0])[0])
        ctx.ev()
        ctx.check(close(float(r.maximum_lift_coefficient), cl, 1e-9), 'vn:clmax', 'maximum lift coefficient %s, the wing has %g' % (r.maximum_lift_coefficient, cl))
        vn_oracle(ctx, 'clmax', c[0], c[1], c[2], 8., c[3], cl, -.8, 2.5, -1., c[4], 0., 1., r)
        fresh.append(R.flat(r))
    for i, j in itertools.product(range(4), repeat=2):
        if cases[i][0] == cases[j][0] and cases[i][1] == cases[j][1]:
            v = make(cases[i])
            vn(v, cases[i][1], cases[i][4], 0., a)
            r = R.flat(vn(v, cases[j][1], cases[j][4], 0., a))
        else:
            vn(make(cases[i]), cases[i][1], cases[i][4], 0., a)
            r = R.flat(vn(make(cases[j]), cases[j][1], cases[j][4], 0., a))
        ctx.ev()
        ctx.trace()
        ctx.state((k, i, j))
        ctx.check(all(R.same(fresh[j][n], r[n], 1e-12) for n in fresh[j]), 'vn:history', 'the envelope of case %d differs after case %d: %s' % (j, i, [n for n in fresh[j] if not R.same(fresh[j][n], r.get(n), 1e-12)][:3]))


# ---------------------------------------------------------------- payload and range
class Mission(object):
    """a cruise between fixed climb and descent legs; fuel burn exponential in distance"""
    def __init__(self, rate=9e-8, climb=(150e3, .02), descent=(180e3, .006)):
        self.rate, self.climb, self.descent = rate, climb, descent
        self.calls = []

        class Segs(dict):
            def __getitem__(s, k):
                return list(s.values())[k] if isinstance(k, int) else dict.__getitem__(s, k)
        self.Segs = Segs
        self.segments = Segs()
        for t in ('climb', 'cruise', 'descent'):
            self.segments[t] = Data(distance=2e6, tag=t)
        w = Data(vehicle=Data(mass_properties=Data(takeoff=0.)))
        self.segments['climb'].analyses = Data(weights=w)

    def burn(self, m, d):
        m1 = m * (1 - self.climb[1])
        m2 = m1 * np.exp(-self.rate * d)
        return m1, m2, m2 * (1 - self.descent[1])

    def evaluate(self):
        m, d = self.segments['climb'].analyses.weights.vehicle.mass_properties.takeoff, self.segments['cruise'].distance
        self.calls.append((m, d))
        m1, m2, m3 = self.burn(m, d)
        x = [0, self.climb[0], self.climb[0] + d, self.climb[0] + d + self.descent[0]]
        r = Data(segments=self.Segs())
        for t, a, b, xa, xb in (('climb', m, m1, x[0], x[1]), ('cruise', m1, m2, x[1], x[2]), ('descent', m2, m3, x[2], x[3])):
            pos = np.zeros((4, 3))
            pos[:, 0] = np.linspace(xa, xb, 4)
            r.segments[t] = Data(conditions=Data(frames=Data(inertial=Data(position_vector=pos)), weights=Data(total_mass=np.linspace(a, b, 4)[:, None])))
        return r

    def reach(self, m, fuel):
        """the distance that burns this fuel"""
        m3 = m - fuel
        m2 = m3 / (1 - self.descent[1])
        return np.log(m * (1 - self.climb[1]) / m2) / self.rate + self.climb[0] + self.descent[0]


def veh_mass(oew, mzfw, mtow, pld, fuel):
    v = SUAVE.Vehicle()
    m = v.mass_properties
    m.operating_empty, m.max_zero_fuel, m.max_takeoff = oew, mzfw, mtow
    if pld:
        m.max_payload = pld
    if fuel:
        m.max_fuel = fuel
    return v


def r_pr(ctx, k):
    m = mod('payload_range')
    sys.modules.setdefault('pylab', Stub())
    import pylab
    pylab.figure = pylab.plot = pylab.xlabel = pylab.ylabel = pylab.title = pylab.grid = pylab.show = lambda *a, **q: None
    oew = 28000.
    kept = []
    for mzfw, mtow, pld, fuel, res, rate in itertools.product((38000., 41000.), (43000., 51000., 60000.), (None, 9000., 14000.), (None, 4000., 9000., 13000., 24000.), (0., 1500.), (9e-8, 1.4e-7)):
        if (int(mzfw + mtow + (pld or 0) + (fuel or 0) + res) // 500 + int(rate * 1e8)) % 4 != k:
            continue
        v = veh_mass(oew, mzfw, mtow, pld, fuel)
        P = min(pld or mzfw - oew, mzfw - oew)
        F = min(fuel or mtow - oew, mtow - oew)
        if min(mtow - oew - P, F) - res < 1500:
            continue
        before = R.flat(v)
        mi = Mission(rate)
        r = m.payload_range(v, mi, 'cruise', res)
        ctx.trace()
        ctx.state((mzfw, mtow, pld, fuel, res, rate))
        now = R.flat(v)
        ctx.check(all(R.same(before[n], now[n], 0.) for n in before), 'pr:vehicle', 'the vehicle changed')
        f1 = min(mtow - oew - P, F)
        p2 = min(P, mtow - oew - F)
        pts = [(P, f1), (p2, F), (0., F)]
        lab = 'OEW %g MZFW %g MTOW %g payload %s fuel %s reserve %g' % (oew, mzfw, mtow, pld, fuel, res)
        ctx.check(list(r.payload)[0] == P and r.range[0] == 0, 'pr:first', 'the diagram starts at %s, %s' % (r.payload[0], r.range[0]))
        for i, (p, f) in enumerate(pts):
            t = oew + p + f
            ctx.ev(3)
            ctx.check(close(r.payload[i + 1], p, 1e-9) or abs(r.payload[i + 1] - p) < 1e-6, 'pr:payload', '%s: payload of point %d is %g, expected %g' % (lab, i + 1, r.payload[i + 1], p))
            ctx.check(close(r.fuel[i + 1], f, 1e-9), 'pr:fuel', '%s: fuel of point %d is %g, expected %g' % (lab, i + 1, r.fuel[i + 1], f))
            ctx.check(close(r.takeoff_weight[i + 1], t, 1e-9), 'pr:tow', '%s: take-off mass of point %d is %g, the parts sum to %g' % (lab, i + 1, r.takeoff_weight[i + 1], t))
            want = mi.reach(t, f - res)
            # the iteration ends within 1 kg of the target fuel
            ctx.check(abs(r.range[i + 1] - want) <= 2. / (t * .7 * rate) + 1, 'pr:range', '%s: range of point %d is %g km, the fuel reaches %g km' % (lab, i + 1, r.range[i + 1] / 1e3, want / 1e3))
        ctx.check(all(r.payload[i] >= r.payload[i + 1] - 1e-6 for i in range(3)) and all(r.range[i] <= r.range[i + 1] + 30e3 for i in range(3)), 'pr:shape', '%s: payload %s, range %s' % (lab, r.payload, r.range))
        kept.append((r, copy.deepcopy([np.array(getattr(r, q), float) for q in ('range', 'payload', 'fuel', 'takeoff_weight')])))
    for r, old in kept:
        ctx.ev()
        ctx.check(all(np.array_equal(np.array(getattr(r, q), float), o) for q, o in zip(('range', 'payload', 'fuel', 'takeoff_weight'), old)), 'pr:history', 'the result of a diagram changed when a later one was computed')


def r_epr(ctx, k):
    m = mod('electric_payload_range')
    m.plt = Stub()
    for pld, oew, extra, unit, show in itertools.product((400., 900.), (2000., 4000.), (0., 300.), ('mile', 'nautical_mile', 'km', 'm'), (True, False)):
        v = veh_mass(oew, 0., oew + pld + extra, pld, 0.)
        mi = Mission()
        real = mi.evaluate

        def ev():
            t = mi.segments['climb'].analyses.weights.vehicle.mass_properties.takeoff
            mi.segments['cruise'].distance = 4e8 / t                      # a battery takes a lighter aircraft further
            return real()
        mi.evaluate = ev
        r = m.electric_payload_range(v, mi, 'cruise', display_plot=show, unit=unit)
        ctx.trace()
        ctx.state((pld, oew, extra, unit, show))
        w = [0.] + [(150e3 + 4e8 / t) / Units[unit] for t in (oew + pld + extra, oew)]
        ctx.ev(3)
        ctx.check(np.allclose(r.range, w, rtol=1e-9), 'epr:range', 'range %s %s, expected %s' % (r.range, unit, w))
        ctx.check(np.allclose(r.payload, [pld, pld, 0.]), 'epr:payload', 'payload %s' % r.payload)
        ctx.check(np.allclose(r.takeoff_weight, [0., oew + pld + extra, oew]), 'epr:tow', 'take-off mass %s' % r.takeoff_weight)


# ---------------------------------------------------------------- field lengths
def field_vehicle(n=2, F=120e3, mass=50e3, y=5., S=100., tail=True, height=7., nac=2, idx=0):
    v = vn_vehicle('p25', mass / LB, mass / LB / (S / FT ** 2), 9., .78, None, -1., 2.5, -1.)
    v.wings.main_wing.high_lift = True
    v.wings.main_wing.origin = [[10., 0., 1.]]
    v.mass_properties.takeoff, v.mass_properties.landing = mass, .85 * mass
    v.mass_properties.max_takeoff, v.mass_properties.operating_empty = mass, .55 * mass
    v.mass_properties.center_of_gravity = [[13., .1, -.4]]

    class Net(SUAVE.Components.Energy.Networks.Turbofan):
        def evaluate_thrust(self, state):
            c = state.conditions
            th = np.array(c.propulsion.throttle)
            M = np.atleast_2d(np.array(c.freestream.mach_number, dtype=float))
            T = th * F * self.number_of_engines * (1 - .35 * M) * np.atleast_2d(c.freestream.pressure) / 101325.
            vec = np.zeros((1, 3))
            vec[:, 0] = T.ravel()[0]
            return Data(thrust_force_vector=vec, vehicle_mass_rate=T * 1e-5, thrust_total=T, network_y_axis_rotation=0 * T)
        __call__ = evaluate_thrust
    net = Net()
    net.tag = 'turbofan'
    net.number_of_engines = n
    net.origin = [[9., y, -1.], [9., -y, -1.]]
    v.networks.append(net) if hasattr(v, 'networks') else v.append_component(net)
    for j in range(nac):
        q = SUAVE.Components.Nacelles.Nacelle()
        q.tag = 'n%d' % j
        q.areas.wetted = 12. + j
        v.append_component(q)
    if tail:
        t = SUAVE.Components.Wings.Vertical_Tail()
        t.tag = 'vertical_stabilizer'
        t.vertical = True
        t.spans.projected = height
        t.areas.reference = 14.
        t.aerodynamic_center = [1.3, 0., 2.] if idx == 0 else np.array([1.3, 0., 2.])
        t.origin = [[29., 0., 1.5]]
        v.append_component(t)
    return v


def field_analyses(fac=1.):
    a = an()
    ae = SUAVE.Analyses.Aerodynamics.Fidelity_Zero()
    a.append(ae)
    a.aerodynamics.settings.maximum_lift_coefficient_factor = fac
    return a


def airport(alt, dev):
    p = SUAVE.Attributes.Airports.Airport()
    p.altitude, p.delta_isa = alt, dev
    p.atmosphere = an().atmosphere
    return p


def clmax(v, a, alt, dev, V=90 * KT):
    from SUAVE.Methods.Aerodynamics.Fidelity_Zero.Lift import compute_max_lift_coeff as cm
    A = a.atmosphere.compute_values(alt * FT, dev)
    st = Data(conditions=Data(freestream=Data(density=A.density, dynamic_viscosity=A.dynamic_viscosity, velocity=90. * Units.knots if V == 90 * KT else V)))
    return float(np.ravel(cm(st, a.aerodynamics.settings, v)[0])[0]), A


def r_land(ctx, k):
    m = mod('estimate_landing_field_length')
    for alt, dev, mass, ratio, const, fac in itertools.product((0., 2000., 8000.), (0., 15., -20.), (30e3, 52e3), (None, 1.23, 1.3), (None, [300., 0., .3], [200., 5., .2]), (1., .9) if k else (1.1,)):
        v, a = field_vehicle(mass=mass), field_analyses(fac)
        if ratio:
            v.Vref_VS_ratio = ratio
        if const:
            v.landing_constants = const
        before = R.flat(v)
        got = float(np.ravel(m.estimate_landing_field_length(v, a, airport(alt, dev)))[0])
        now = R.flat(v)
        ctx.ev()
        ctx.trace()
        ctx.state((alt, dev, mass, ratio, str(const), fac))
        ctx.check(all(R.same(before[n], now[n], 0.) for n in before), 'land:vehicle', 'the vehicle changed')
        cl, A = clmax(v, a, alt, dev)
        g = a.atmosphere.planet.sea_level_gravity
        V = (ratio or 1.23) * (2 * .85 * mass * g / (float(A.density.ravel()[0]) * v.reference_area * cl)) ** .5
        c = const or [250., 0., 2.485 / g]
        want = c[0] + c[1] * V + c[2] * V ** 2
        ctx.check(close(got, want, 1e-9), 'land:length', 'landing field length %g, expected %g (altitude %g, constants %s, ratio %s)' % (got, want, alt, const, ratio))


TOC = {2: (857.4, 2.476, .00014), 3: (667.9, 2.343, .000093), 4: (486.7, 2.282, .0000705)}


def tofl(v, a, alt, dev, n, ratio, const, F):
    cl, A = clmax(v, a, alt, dev)
    g, mass = a.atmosphere.planet.sea_level_gravity, v.mass_properties.takeoff
    V2 = ratio * (2 * mass * g / (float(A.density.ravel()[0]) * v.reference_area * cl)) ** .5
    T = n * F * (1 - .35 * .7 * V2 / float(A.speed_of_sound.ravel()[0])) * float(A.pressure.ravel()[0]) / 101325.
    x = V2 ** 2 / (T / mass)
    c = const or TOC.get(n, TOC[4] if n > 4 else TOC[2])
    return (c[0] + c[1] * x + c[2] * x ** 2) * FT, cl, A, V2


def r_tofl(ctx, k):
    m = mod('estimate_take_off_field_length')
    for n, alt, dev, mass, ratio, const in itertools.product((1, 2, 3, 4, 5, 6), (0., 6000.), (0., 20.), (38e3, 61e3), (None, 1.25), (None, [500., 2., .0001])):
        if (n + int(alt)) % 2 != k:
            continue
        v, a = field_vehicle(n, mass=mass), field_analyses()
        if ratio:
            v.V2_VS_ratio = ratio
        if const:
            v.takeoff_constants = const
        before = R.flat(v)
        got = float(m.estimate_take_off_field_length(v, a, airport(alt, dev)))
        now = R.flat(v)
        ctx.ev()
        ctx.trace()
        ctx.state((n, alt, dev, mass, ratio, str(const)))
        ctx.check(all(R.same(before[q], now[q], 0.) for q in before), 'tofl:vehicle', 'the vehicle changed')
        want = tofl(v, a, alt, dev, n, ratio or 1.2, const, 120e3)[0]
        ctx.check(close(got, want, 1e-9), 'tofl:length', 'take-off field length %g with %d engines, expected %g (altitude %g ft, constants %s)' % (got, n, want, alt, const))


def r_second(ctx, k):
    """second segment climb gradient of a vehicle with one engine out, and its parts"""
    m = mod('estimate_take_off_field_length')
    for n, alt, mass, y, h, nac, S in itertools.product((2, 3, 4), (0., 4000.), (40e3, 60e3), (5., 9.), (6., 9.), (1, 2), (100., 125.)):
        for order in (0, 1):
            if (nac + order) % 2 != k:
                continue
            v, a = field_vehicle(n, mass=mass, y=y, height=h, nac=nac, S=S, idx=order), field_analyses()
            lab = '%d engines, %g ft, %g kg, engine at %g, tail %g' % (n, alt, mass, y, h)
            try:
                L, grad = m.estimate_take_off_field_length(v, a, airport(alt, 0.), 1)
            except Exception as e:
                ctx.check(False, 'second:raises', '%s: %s: %s' % (lab, type(e).__name__, e))
                continue
            ctx.ev(2)
            ctx.trace()
            ctx.state((n, alt, mass, y, h, nac, S, order))
            want, cl, A, V2 = tofl(v, a, alt, 0., n, 1.2, None, 120e3)
            ctx.check(close(float(L), want, 1e-9), 'second:length', '%s: field length %g, expected %g' % (lab, L, want))
            rho, snd, pr = (float(A[q].ravel()[0]) for q in ('density', 'speed_of_sound', 'pressure'))
            q = .5 * rho * V2 ** 2
            one = 120e3 * (1 - .35 * V2 / snd) * pr / 101325.
            cwm = .007274 * sum(12. + j for j in range(nac)) / S
            lv = 1.3 + 29. - 13.
            asym = y ** 2 * (one + cwm * q * S) ** 2 / (q * np.pi * (h * lv) ** 2) / q / S
            cl2 = clmax(v, a, alt, 0., np.array([[V2]]))[0] / 1.44
            LD = -6.464 * cl2 + 7.264 * 9. ** .5
            c0 = cl / 1.44
            want = one * (n - 1) / (mass * a.atmosphere.planet.sea_level_gravity) - (c0 / LD + asym + cwm) / c0
            ctx.check(close(float(grad), want, 1e-6), 'second:gradient', '%s: climb gradient %g, expected %g' % (lab, grad, want))


def r_tow(ctx, k):
    m = mod('find_take_off_weight_given_tofl')
    e = mod('estimate_take_off_field_length')
    for n, alt, mass, cur in itertools.product((2, 3, 4), (0., 5000.), (45e3, 60e3), (None, 39e3)):
        v, a = field_vehicle(n, mass=mass), field_analyses()
        if cur:
            v.mass_properties.takeoff = cur
        before = R.flat(v)
        p = airport(alt, 0.)
        grid = np.linspace(.55 * mass, 1.1 * mass, 50)
        ask = []
        for t in (grid[3], .5 * (grid[10] + grid[11]), grid[30], grid[48]):
            w = copy.deepcopy(v)
            w.mass_properties.takeoff = t
            ask.append((t, e.estimate_take_off_field_length(w, a, p)))
        for sel in ([0], [1], [0, 1, 2, 3], [3, 0]):
            got = np.ravel(m.find_take_off_weight_given_tofl(v, a, p, np.array([ask[i][1] for i in sel]) if len(sel) > 1 else ask[sel[0]][1]))
            ctx.ev()
            ctx.trace()
            ctx.state((n, alt, mass, cur, tuple(sel)))
            want = [ask[i][0] for i in sel]
            ctx.check(len(got) == len(sel) and np.allclose(got, want, rtol=2e-4), 'tow:mass', 'take-off masses %s for the field lengths of %s' % (got, want))
            now = R.flat(v)
            ctx.check(all(R.same(before[q], now[q], 0.) for q in before), 'tow:vehicle', 'the vehicle changed: %s' % [q for q in before if not R.same(before[q], now[q], 0.)])


def r_stall(ctx, k):
    m = mod('estimate_stall_speed')
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    for mass, S, alt, cl in itertools.product((500., 5e3, 2e5), (10., 122., 500.), (0., 3000., 12000., 25000.), (.9, 1.6, 3.)):
        rho = float(atm.compute_values(alt, 0.).density.ravel()[0])
        got, want = m.estimate_stall_speed(mass, S, alt, cl), (2 * mass * 9.81 / rho / S / cl) ** .5
        ctx.ev()
        ctx.state((mass, S, alt, cl))
        ctx.check(close(got, want, 1e-9), 'stall', 'stall speed %g, expected %g' % (got, want))


# ---------------------------------------------------------------- best speeds
class Polar(object):
    def __init__(self, CD0, k, mass, S):
        self.CD0, self.k = CD0, k
        self.geometry = Data(mass_properties=Data(takeoff=mass), reference_area=S)
        self.settings = Data(maximum_lift_coefficient=np.inf)

    def __call__(self, state):
        CL = 5. * state.conditions.aerodynamics.angle_of_attack
        state.conditions.aerodynamics.lift_coefficient, state.conditions.aerodynamics.drag_coefficient = CL, self.CD0 + self.k * CL ** 2
        return Data(lift=Data(total=CL * 1.), drag=Data(total=self.CD0 + self.k * CL ** 2))

    def __deepcopy__(self, memo):
        return self


def polar_analyses(CD0, k, mass):
    K.S_REF, K.MASS, K.LANDING = 30., 6000., 5400.
    a = K.analyses(SUAVE)
    a.aerodynamics = Polar(CD0, k, mass, 30.)
    a.weights.vehicle.mass_properties.takeoff = mass
    a.atmosphere.planet = an().atmosphere.planet
    return a


def r_ld(ctx, j):
    m1, m2 = mod('maximum_lift_to_drag'), mod('propeller_range_endurance_speeds')
    CD0, k = ((.02, .045), (.035, .06), (.015, .03), (.028, .09), (.05, .05), (.012, .07))[j]
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    for mass, alt, dev, cm in itertools.product((4000., 9000.), (0., 6000.), (0., 15.), (1.4, 2.2)):
        a = polar_analyses(CD0, k, mass)
        rho = float(atm.compute_values(alt, dev).density.ravel()[0])
        g = K.gravity(SUAVE, alt)
        speed = lambda cl: (2 * mass * g / (rho * 30. * cl)) ** .5
        Vs = (2 * mass * 9.80665 / (rho * 30. * cm)) ** .5
        for up in (3.5 * Vs, 1.2 * Vs):
            best = np.clip(speed((CD0 / k) ** .5), Vs, up)
            end = np.clip(speed((3 * CD0 / k) ** .5), Vs, up)
            cl = lambda V: 2 * mass * g / (rho * 30. * V ** 2)
            LD = lambda V: cl(V) / (CD0 + k * cl(V) ** 2)
            E = lambda V: cl(V) ** 1.5 / (CD0 + k * cl(V) ** 2)
            r1 = m1.maximum_lift_to_drag(a, alt, cm, up, dev)
            r2 = m2.propeller_range_endurance_speeds(a, alt, cm, up, dev)
            ctx.ev(3)
            ctx.trace()
            ctx.state((j, mass, alt, dev, cm, up))
            lab = 'CD0 %g k %g mass %g altitude %g deviation %g' % (CD0, k, mass, alt, dev)
            for nm, q, f, V in (('L/D', r1.L_D_max, LD, best), ('L/D', r2.L_D_max, LD, best), ('CL^1.5/CD', r2.CL32, E, end)):
                v, w = float(np.ravel(q.air_speed)[0]), float(np.ravel(q.value)[0])
                ctx.check(Vs * (1 - 1e-6) <= v <= up * (1 + 1e-6) and close(v, V, 1e-3), 'best:speed', '%s: best %s at %g m/s, expected %g in [%g, %g]' % (lab, nm, v, V, Vs, up))
                ctx.check(close(w, f(V), 1e-5), 'best:value', '%s: best %s is %g, expected %g' % (lab, nm, w, f(V)))


# ---------------------------------------------------------------- V-h diagram
class Prop(object):
    def __init__(self, p0, tag):
        self.p0, self.tag, self.inputs = p0, tag, Data()

    def spin(self, c):
        rho, V, T = c.freestream.density, c.frames.inertial.velocity_vector[:, 0:1], c.freestream.temperature
        Pw = self.p0 * rho * (self.inputs.omega / 80.) ** 3 * (1 - V / 400.) * (T / 288.15) ** .25
        z = np.ones((1, 3, 4))
        o = Data({n: z for n in ('disc_axial_induced_velocity', 'disc_tangential_induced_velocity', 'disc_radial_distribution', 'disc_thrust_distribution', 'disc_tangential_velocity', 'disc_axial_velocity', 'disc_torque_distribution')})
        return np.concatenate([Pw, 0 * Pw, 0 * Pw], axis=1), Pw / self.inputs.omega, Pw, Pw * 0 + .1, o, Pw * 0 + .8


def r_vh(ctx, k):
    m = mod('electric_V_h_diagram')
    m.plt = Stub()
    for dev, same, cap, mass, om in itertools.product((0., 12.), (True, False), (9e5, 1.2e6), (4000., 6000.), (70., 84.)):
        CD0, kk = ((.03, .05), (.02, .08), (.045, .045))[k]
        a = polar_analyses(CD0, kk, mass)
        v = SUAVE.Vehicle()
        v.mass_properties.takeoff, v.reference_area = mass, 30.
        props = {'a': Prop(6e5, 'a'), 'b': Prop(4e5, 'b')}
        v.networks.battery_propeller = Data(number_of_propeller_engines=2, identical_propellers=same, propellers=props, battery=Data(max_power=cap))
        kw = {}
        if not (k == 0 and dev == 0 and same and cap == 9e5 and mass == 4000. and om == 70.):
            kw['grid_points'] = 5
        try:
            got = m.electric_V_h_diagram(v, a, 1.5, delta_isa=dev, test_omega=om, display_plot=k == 1, **kw)
        except Exception as e:
            ctx.check(False, 'vh:raises', 'V-h diagram raises %s: %s with grid %s' % (type(e).__name__, e, kw))
            continue
        n = kw.get('grid_points', 20)
        ctx.trace()
        ctx.check(np.shape(got) == (n, n), 'vh:shape', 'shape %s' % (np.shape(got),))
        atm = SUAVE.Analyses.Atmospheric.US_Standard_1976()
        W = mass * 9.80665
        for i, j in itertools.product(range(n), repeat=2):
            h, V = np.linspace(0, 20000 * FT, n)[j], 130. * i / n
            A = atm.compute_values(h, dev)
            rho, T = float(A.density.ravel()[0]), float(A.temperature.ravel()[0])
            want = 0.
            if V > (2 * W / (rho * 30. * 1.5)) ** .5:
                cl = 2 * mass * K.gravity(SUAVE, h) / (rho * 30. * V ** 2)
                D = .5 * rho * V ** 2 * 30. * (CD0 + kk * cl ** 2)
                one = lambda p0: p0 * rho * (om / 80.) ** 3 * (1 - V / 400.) * (T / 288.15) ** .25
                Pw = min(2 * one(6e5) if same else one(6e5) + one(4e5), cap)
                want = max(0., (Pw - D * V) / W) * 60 / FT
            ctx.ev()
            ctx.state((k, dev, same, cap, mass, om, i, j))
            ctx.check(abs(got[i, j] - want) <= 1e-4 * max(abs(want), 500.), 'vh:rate', 'climb rate at %g m/s, %g m (deviation %g) is %g ft/min, expected %g' % (V, h, dev, got[i, j], want))
