"""Stability derivatives and flight modes are those of the linearised equations of motion, whatever the history of calls."""
import copy, itertools, warnings
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('every set of a grid of stability derivatives (both signs of spiral stability, with and without product of inertia) against generalised eigenvalues of the equations of motion; every wing of a planform grid against '
          'integrated chords; every shift, scale, twist and order of the surfaces of a tail-aft, canard and wing-alone aircraft; every history of up to three evaluations of the stability analysis over a set of states; '
          'every single row, ordered pair and reversal of batches; every case order and batch of the flight modes; every state of a grid for the finite difference derivatives of an analytic aircraft')
ASSUMPTIONS = ['the linearised equations of motion (Blakelock) and the DATCOM lift slope formula are what is specified', 'Mach 1 itself is outside the validity of the lift slope']
MIN = {'evals': 20000}
TIME_LIMIT = 400
FD = 'SUAVE.Methods.Flight_Dynamics.'


def scenarios(tier):
    T = tier == 'thorough'
    out = [['approx', k] for k in range(4)] + [['lat', k] for k in range(6)] + [['lon', k] for k in range(4)] + [['slope', k] for k in range(4)] + [['plan', k] for k in range(3)]
    out += [['cm', k] for k in range(4)] + [['cn', k] for k in range(3)] + [['fz', k, d] for k in range(3) for d in ((2, 3) if T else (2,))] + [['modes', k] for k in range(4)] + [['deriv', k] for k in range(6 if T else 4)]
    return out


def imp(mod, *names):
    for n in names:
        globals()[n] = getattr(__import__(FD + mod, fromlist=['x']), n)


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    from SUAVE.Core import Data
    globals()['Data'] = Data
    imp('Dynamic_Stability.Approximations', 'dutch_roll', 'phugoid', 'roll', 'short_period', 'spiral')
    imp('Dynamic_Stability.Full_Linearized_Equations', 'lateral_directional', 'longitudinal')
    s = 'Static_Stability.Approximations.'
    imp(s + 'datcom', 'datcom')
    imp(s + 'Supporting_Functions.trapezoid_ac_x', 'trapezoid_ac_x')
    imp(s + 'Supporting_Functions.trapezoid_mac', 'trapezoid_mac')
    imp(s + 'Supporting_Functions.extend_to_ref_area', 'extend_to_ref_area')
    imp(s + 'Tube_Wing.taw_cmalpha', 'taw_cmalpha')
    imp(s + 'Tube_Wing.taw_cnbeta', 'taw_cnbeta')
    imp('Dynamic_Stability.compute_dynamic_flight_modes', 'compute_dynamic_flight_modes')
    imp('Static_Stability.compute_aero_derivatives', 'compute_aero_derivatives')
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


# ---------------------------------------------------------------- modes of the equations of motion
def base():
    """a four-engined jet transport, after Blakelock, in SI units"""
    ft, slug = .3048, 14.5939029
    return dict(V=440 * ft, S=2400 * ft ** 2, rho=1.2256, b=130 * ft, Ix=1.995e6 * slug * ft ** 2, Iz=4.2e6 * slug * ft ** 2, Iy=2.62e6 * slug * ft ** 2, m=5900 * slug, c=20.2 * ft, Cnb=.096, Cnr=-.107, Clp=-.38, Cyphi=.344, Clb=-.057,
                Clr=.086, Jxz=0., Cnp=-.0228, Cypsi=0., Cyb=-.6, Cmq=-11.4, Cza=-4.46, Cma=-.14 * 4.42, Cmad=-3.27, Czu=-1.48, Czad=-1.13, Czq=-3.94, Cw=-.74, Th=0., Cxu=-.088, Cxa=.392)


def eigs(M2, M1, M0):
    """finite eigenvalues of M2 s^2 + M1 s + M0, by companion linearisation"""
    from scipy.linalg import eig
    n = len(M0)
    A = np.block([[np.zeros((n, n)), np.eye(n)], [-M0, -M1]])
    B = np.block([[np.eye(n), np.zeros((n, n))], [np.zeros((n, n)), M2]])
    a, b = eig(A, B, right=False, homogeneous_eigvals=True)
    keep = np.abs(b) > 1e-9 * np.max(np.abs(b))
    # infinite eigenvalues of the singular mass matrix are dropped
    s = a[keep] / b[keep]
    return s[np.abs(s) < 1e6]


def lat_eigs(p):
    q = .5 * p['rho'] * p['V'] ** 2
    k, t, I = p['b'] / 2 / p['V'], p['m'] * p['V'] / p['S'] / q, q * p['S'] * p['b']
    M2 = np.array([[p['Ix'] / I, -p['Jxz'] / I, 0], [-p['Jxz'] / I, p['Iz'] / I, 0], [0, 0, 0]])
    M1 = np.array([[-k * p['Clp'], -k * p['Clr'], 0], [-k * p['Cnp'], -k * p['Cnr'], 0], [0, t, t]])
    M0 = np.array([[0, 0, -p['Clb']], [0, 0, -p['Cnb']], [-p['Cyphi'], -p['Cypsi'], -p['Cyb']]])
    return eigs(M2, M1, M0)


def lon_eigs(p):
    q = .5 * p['rho'] * p['V'] ** 2
    k, t = p['c'] / 2 / p['V'], p['m'] * p['V'] / p['S'] / q
    M2 = np.array([[0, 0, 0], [0, 0, 0], [0, 0, p['Iy'] / (q * p['S'] * p['c'])]])
    M1 = np.array([[t, 0, 0], [0, t - k * p['Czad'], -t - k * p['Czq']], [0, -k * p['Cmad'], -k * p['Cmq']]])
    M0 = np.array([[-p['Cxu'], -p['Cxa'], -p['Cw'] * np.cos(p['Th'])], [-p['Czu'], -p['Cza'], -p['Cw'] * np.sin(p['Th'])], [0, -p['Cma'], 0]])
    return eigs(M2, M1, M0)


def near(ctx, key, got, want, tol, msg):
    got = float(np.ravel(got)[0])
    ctx.ev()
    ctx.check(np.isfinite(got) and abs(got - want) <= tol * abs(want) + 1e-14, key, '%s: %.9g, the equations of motion give %.9g' % (msg, got, want))


def r_approx(ctx, k):
    p0 = base()
    for a in itertools.product((.6, 1., 1.7), repeat=5):
        p = dict(p0)
        for n, f in zip((('V', 'rho', 'm', 'Iy', 'Cma'), ('V', 'rho', 'Iz', 'Cnb', 'Cnr'), ('Ix', 'Clp', 'b', 'rho', 'V'), ('Clb', 'Clr', 'Cnr', 'Cnb', 'm'))[k], a):
            p[n] = p0[n] * f
        ctx.state((k, a))
        q = .5 * p['rho'] * p['V'] ** 2
        kb, kc, t = p['b'] / 2 / p['V'], p['c'] / 2 / p['V'], p['m'] * p['V'] / p['S'] / q
        I = q * p['S'] * p['b']
        if k == 0:
            o = short_period(p['V'], p['rho'], p['S'], p['c'], p['Cmq'], p['Cza'], p['m'], p['Cma'], p['Iy'], p['Cmad'])
            # the speed is constant, the weight and the force rates are neglected; one root at the origin
            P, iy = np.polynomial.polynomial, p['Iy'] / (q * p['S'] * p['c'])
            det = P.polysub(P.polymul([-p['Cza'], t], [0, -kc * p['Cmq'], iy]), P.polymul([0, -t], [-p['Cma'], -kc * p['Cmad']]))
            s = np.roots(det[:0:-1])
            w = np.sqrt((s[0] * s[1]).real)
            near(ctx, 'short:w', o.natural_frequency, w, 1e-9, 'short period frequency at %s' % (a,))
            near(ctx, 'short:z', o.damping_ratio, -(s[0] + s[1]).real / 2 / w, 1e-9, 'short period damping at %s' % (a,))
            g, CD, CL = 9.81, .044 * a[4], .74 * a[2]
            o = phugoid(g, p['V'], CD, CL)
            # flat mode: u' = -2 D/(mV) u - g th, th' = 2 g/V^2 u
            A = np.array([[-2 * g * CD / CL / p['V'], -g], [2 * g / p['V'] ** 2, 0]])
            l = np.linalg.eigvals(A)
            w = np.sqrt(np.prod(l).real)
            near(ctx, 'phugoid:w', o.natural_frequency, w, 1e-9, 'phugoid frequency')
            near(ctx, 'phugoid:z', o.damping_ratio, -np.sum(l).real / 2 / w, 1e-9, 'phugoid damping')
        elif k == 1:
            o = dutch_roll(p['V'], p['Cnb'], p['S'], p['rho'], p['b'], p['Iz'], p['Cnr'])
            s = np.roots([p['Iz'] / I, -kb * p['Cnr'], p['Cnb']])
            w = np.sqrt((s[0] * s[1]).real)
            near(ctx, 'dutch:w', o.natural_frequency, w, 1e-9, 'dutch roll frequency at %s' % (a,))
            near(ctx, 'dutch:z', o.damping_ratio, -(s[0] + s[1]).real / 2 / w, 1e-9, 'dutch roll damping at %s' % (a,))
        elif k == 2:
            near(ctx, 'roll', roll(p['Ix'], p['S'], p['rho'], p['V'], p['b'], p['Clp']), p['Ix'] / I / (kb * p['Clp']), 1e-9, 'roll time constant at %s' % (a,))
        else:
            e = p['Clb'] * p['Cnr'] - p['Cnb'] * p['Clr']
            near(ctx, 'spiral', spiral(p['m'], p['V'], p['rho'], p['S'], p['Clp'], p['Cnb'], p['Cyphi'], p['Clb'], p['Cnr'], p['Clr']), t * p['Clp'] * p['Cnb'] / (p['Cyphi'] * e), 1e-9, 'spiral time constant at %s' % (a,))
            near(ctx, 'spiral:sign', np.sign(spiral(p['m'], p['V'], p['rho'], p['S'], p['Clp'], p['Cnb'], p['Cyphi'], p['Clb'], p['Cnr'], p['Clr'])), -np.sign(e), 0, 'a spiral is stable when Clb Cnr exceeds Cnb Clr')
    V = np.array([[100.], [150.], [220.]])
    one = np.ones_like(V)
    f = [lambda c: dict(short_period(c['v'], p0['rho'], p0['S'], p0['c'], c['x'] * p0['Cmq'], p0['Cza'], p0['m'], p0['Cma'] * c['x'], p0['Iy'], p0['Cmad'])), lambda c: dict(dutch_roll(c['v'], p0['Cnb'] * c['x'], p0['S'], p0['rho'], p0['b'], p0['Iz'], p0['Cnr'])),
         lambda c: dict(t=roll(p0['Ix'], p0['S'], p0['rho'], c['v'], p0['b'], p0['Clp'] * c['x'])), lambda c: dict(t=spiral(p0['m'], c['v'], p0['rho'], p0['S'], p0['Clp'], p0['Cnb'], p0['Cyphi'], p0['Clb'] * c['x'], p0['Cnr'], p0['Clr']))][k]
    R.rowcheck(ctx, 'approx%d' % k, f, dict(v=V, x=np.array([[1.], [.7], [1.4]])))


def r_lat(ctx, k):
    p0 = base()
    names, vals = [(('Clb', 'Clr', 'Cnr'), ((-.2, -.057, -.3), (.086, .02, .2), (-.107, -.3, -.05))), (('Cnb', 'Clp', 'Cyb'), ((.096, .05, .25), (-.38, -.2, -.6), (-.6, -.2, -1.))), (('Jxz', 'Cnp', 'Clb'), ((0., .08, -.08), (-.0228, .05), (-.057, -.25))),
                   (('V', 'rho', 'Clb'), ((90., 134., 200.), (1.2, .4), (-.057, -.2, -.4))), (('Ix', 'Iz', 'm'), ((.6, 1., 1.5), (.8, 1., 1.6), (.6, 1., 1.4))), (('Cypsi', 'Cyphi', 'Clb'), ((0., .05, -.05), (.2, .344, .7), (-.057, -.2)))][k]
    stable = un = 0
    for v in itertools.product(*vals):
        p = dict(p0)
        for n, x in zip(names, v):
            p[n] = x * p0['Ix'] if n == 'Jxz' else x * p0[n] if n in ('Ix', 'Iz', 'm') else x
        s = lat_eigs(p)
        s = s[np.abs(s) > 1e-9 * np.max(np.abs(s))]  # the heading is neutral
        osc = s[np.abs(s.imag) > 1e-6 * np.abs(s)]
        real = np.sort(np.abs(s[np.abs(s.imag) <= 1e-6 * np.abs(s)]))
        ctx.state((k, v))
        if len(s) != 4 or len(osc) != 2 or real[1] < 1.01 * real[0] or real[0] < 1e-7 * real[1]:
            ctx.note('other structure of modes', 1)
            continue
        re = s[np.abs(s.imag) <= 1e-6 * np.abs(s)].real
        re = re[np.argsort(np.abs(re))]
        o = lateral_directional(p['V'], p['Cnb'], p['S'], p['rho'], p['b'], p['Iz'], p['Cnr'], p['Ix'], p['Clp'], p['Jxz'], p['Clr'], p['Clb'], p['Cnp'], p['Cyphi'], p['Cypsi'], p['Cyb'], p['m'])
        m = 'with %s = %s' % (names, v)
        near(ctx, 'lat:spiral', o.spiral_tau, 1 / re[0], 1e-5, 'spiral time constant ' + m)
        near(ctx, 'lat:roll', o.roll_tau, 1 / re[1], 1e-6, 'roll time constant ' + m)
        near(ctx, 'lat:w', o.dutch_natural_frequency, abs(osc[0]), 1e-6, 'dutch roll frequency ' + m)
        near(ctx, 'lat:z', o.dutch_damping_ratio, -osc[0].real / abs(osc[0]), 1e-6, 'dutch roll damping ' + m)
        stable += re[0] < 0
        un += re[0] > 0
        ctx.trace()
    ctx.check(stable + un > 0 and (k not in (0, 3, 5) or stable and un), 'lat:vacuous', 'the grid has stable and unstable spirals', )


def r_lon(ctx, k):
    p0 = base()
    p0.update(V=182.88, rho=.3015, m=5800 * 14.5939029)
    names, vals = [(('Cma', 'Cmq', 'Cza'), ((-.3, -.62, -1.2), (-8., -11.4, -20.), (-3.5, -4.46, -6.))), (('Cxu', 'Cxa', 'Cw'), ((-.03, -.088, -.15), (.1, .392), (-.3, -.74))), (('V', 'rho', 'm'), ((150., 183., 240.), (.3, .6), (.7, 1., 1.3))),
                   (('Th', 'Czad', 'Czq'), ((0., .05, -.05), (0., -1.13), (0., -3.94)))][k]
    for v in itertools.product(*vals):
        p = dict(p0)
        for n, x in zip(names, v):
            p[n] = x * p0[n] if n == 'm' else x
        s = lon_eigs(p)
        s = s[np.argsort(np.abs(s))]
        ctx.state((k, v))
        r = abs(s[0]) / abs(s[-1])
        if len(s) != 4 or abs(s[0].imag) < 1e-9 or abs(s[3].imag) < 1e-9 or r > .25:
            ctx.note('other structure of modes', 1)
            continue
        o = longitudinal(p['V'], p['rho'], p['S'], p['c'], p['Cmq'], p['Cza'], p['m'], p['Cma'], p['Iy'], p['Cmad'], p['Czu'], p['Czad'], p['Czq'], p['Cw'], p['Th'], p['Cxu'], p['Cxa'])
        # one step of the factorisation leaves an error of the order of the square of the ratio of the frequencies (damping: relative to critical)
        t, m = 4 * r ** 2 + 1e-9, 'with %s = %s' % (names, v)
        for key, got, want in (('short:w', o.short_natural_frequency, abs(s[3])), ('phugoid:w', o.phugoid_natural_frequency, abs(s[0]))):
            near(ctx, 'lon:' + key, got, want, t, key + ' ' + m)
        for key, got, want in (('short:z', o.short_damping_ratio, -s[3].real / abs(s[3])), ('phugoid:z', o.phugoid_damping_ratio, -s[0].real / abs(s[0]))):
            ctx.ev()
            ctx.check(abs(got - want) <= t, 'lon:' + key, '%s %s: %.9g, the equations of motion give %.9g' % (key, m, got, want))
        ctx.trace()


# ---------------------------------------------------------------- surfaces
def surface(cls, S, AR, l, sw, org, symm=True, vert=False, **kw):
    w = getattr(SUAVE.Components.Wings, cls)()
    w.areas.reference = S
    w.aspect_ratio = AR
    b = np.sqrt(S * AR)
    w.spans.projected = b
    w.taper = l
    w.chords.root = 2 * S / b / (1 + l)
    w.chords.tip = l * w.chords.root
    w.chords.mean_aerodynamic = 2 / 3. * w.chords.root * (1 + l + l * l) / (1 + l)
    w.sweeps.quarter_chord = sw
    w.symmetric, w.vertical = symm, vert
    w.origin = [list(org)]
    w.dynamic_pressure_ratio = 1.
    w.aerodynamic_center = [.25 * w.chords.mean_aerodynamic, 0., 0.]
    w.twists.root = w.twists.tip = 0.
    w.dihedral = .05
    w.exposed_root_chord_offset = 0.
    w.ep_alpha = 0.
    for n, v in kw.items():
        w[n] = v
    return w


def r_slope(ctx, k):
    sw = (0., .3, .6, -.3)[k]
    M = np.array([[0.], [.3], [.5], [.78], [.9], [1.2], [1.4], [2.]])
    for AR, l in itertools.product((4., 7., 11.), (.2, .5, 1.)):
        w = surface('Main_Wing', 50., AR, l, sw, (0, 0, 0))
        keep = R.flat(w)
        o = R.rowcheck(ctx, 'slope', lambda c: dict(a=datcom(w, c['m'])), dict(m=M), pairs=False)['a']
        now = R.flat(w)
        ctx.check(set(keep) == set(now) and all(R.same(keep[n], now[n], 0.) for n in keep), 'slope:wing', 'the wing changed')
        th = np.tan(sw) - 4 * .25 * (1 - l) / (AR * (1 + l))  # half chord
        b2 = np.abs(1 - M ** 2)
        kk = np.where(M < 1, 6.13 / (2 * np.pi), 4 / (2 * np.pi))
        want = 2 * np.pi * AR / (2 + np.sqrt(4 + AR ** 2 * b2 / kk ** 2 * (1 + th ** 2 / b2)))
        ctx.ev(len(M))
        ctx.check(R.same(o, want, 1e-9), 'slope:formula', 'lift slope of AR %g taper %g sweep %g: %s, expected %s' % (AR, l, sw, o.ravel(), want.ravel()))
        ctx.check(np.all(np.diff(o[M < 1]) > 0) and np.all(o[M < 1] < 2 * np.pi / np.sqrt(b2[M < 1])), 'slope:mach', 'the lift slope grows with Mach and stays below the section slope')
        big = datcom(surface('Main_Wing', 50., AR * 1.5, l, sw, (0, 0, 0)), M)
        ctx.check(np.all(big[M < 1] > o[M < 1]), 'slope:AR', 'the lift slope grows with aspect ratio')
        for n in ('effective_aspect_ratio', 'extended'):
            v = surface('Main_Wing', 50., AR, l, sw, (0, 0, 0))
            other = datcom(surface('Main_Wing', 50., AR * 1.3, l, sw, (0, 0, 0)), M)
            v[n] = AR * 1.3 if n[1] == 'f' else Data()
            if n[1] == 'x':
                v.extended.aspect_ratio = AR * 1.3
            ctx.check(R.same(datcom(v, M), other, 1e-12), 'slope:' + n, 'the %s is used instead of the geometric aspect ratio' % n)
            ctx.ev()


def r_plan(ctx, k):
    symm = k != 1
    for S, AR, l, sw in itertools.product((10., 80.), (2., 8.), (.1, .3, .5, .9, .999, 1.), (-.3, 0., .5)):
        for drop in range(4):
            w = surface('Main_Wing', S, AR, l, sw, (1, 0, 0), symm=symm)
            c, b = w.chords.root, w.spans.projected
            h = b / 2 if symm else b
            # exact integrals of the straight chord distribution, Gauss-Legendre
            x, g = np.polynomial.legendre.leggauss(6)
            y = .5 * h * (x + 1)
            ch = c * (1 - (1 - l) * y / h)
            area = np.sum(g * ch) * h / 2
            mac = np.sum(g * ch ** 2) * h / 2 / area
            ym = np.sum(g * ch * y) * h / 2 / area
            if drop >= 1:
                w.chords.mean_aerodynamic = 0.
            if drop >= 2:
                w.chords.tip = 0.
            if drop >= 3:
                w.chords.root = 0.
            keep = R.flat(w)
            ctx.state((S, AR, l, sw, drop))
            near(ctx, 'plan:mac', trapezoid_mac(w), mac, 1e-9, 'mean chord of S %g AR %g taper %g, data missing %d' % (S, AR, l, drop))
            if k < 2:
                near(ctx, 'plan:ac', trapezoid_ac_x(w), ym * np.tan(sw) + mac / 4, 1e-7, 'aerodynamic center of S %g AR %g taper %g sweep %g symmetric %d, data missing %d' % (S, AR, l, sw, symm, drop))
            now = R.flat(w)
            ctx.check(set(keep) == set(now) and all(R.same(keep[n], now[n], 0.) for n in keep), 'plan:wing', 'the wing changed')
        if k == 2:
            for sy, dh in itertools.product((True, False), (0., .3, 1.)):
                w = surface('Vertical_Tail', S, AR, l, sw, (1., 2., 3.), symm=sy, exposed_root_chord_offset=dh)
                e = extend_to_ref_area(w).extended
                b1 = w.spans.projected / (2 if sy else 1)
                cr, ct = w.chords.root, w.chords.tip
                c0 = cr + dh * (cr - ct) / b1
                A = (c0 + ct) / 2 * (b1 + dh)
                n = 2 if sy else 1
                for key, got, want in (('root', e.chords.root, c0), ('area', e.areas.reference, n * A), ('span', e.spans.projected, n * (b1 + dh)), ('AR', e.aspect_ratio, n * (b1 + dh) ** 2 / A),
                                       ('x', e.origin[0][0], 1 - dh * np.tan(sw)), ('y', e.origin[0][1], 2.), ('z', e.origin[0][2], 3.)):
                    near(ctx, 'plan:ext:' + key, got, want, 1e-9, 'extended surface (taper %g, sweep %g, offset %g, symmetric %d)' % (l, sw, dh, sy))
                ctx.check(w.origin == [[1., 2., 3.]] and w.areas.reference == S and w.chords.root == cr, 'plan:ext:surface', 'the surface itself changed')
                e2 = extend_to_ref_area(w).extended
                ctx.check(all(R.same(R.flat(e)[n], R.flat(e2)[n], 0.) for n in R.flat(e)), 'plan:ext:again', 'extending twice gives another surface')


# ---------------------------------------------------------------- static stability of an aircraft
def aircraft(kind=0, fus=True, scale=1., shift=0., order=(0, 1, 2), tensor=None):
    v = SUAVE.Vehicle()
    v.tag = 'a'
    m = surface('Main_Wing', 120., 9., .3, .4, (12., 0., -.5), tag='main_wing')
    h = surface('Horizontal_Tail', 30., 4.5, .4, .5, (28., 0., 1.) if kind != 1 else (2., 0., 0.), tag='horizontal_stabilizer', dynamic_pressure_ratio=.9)
    t = surface('Vertical_Tail', 22., 1.6, .35, .6, (26., 0., 1.), symm=False, vert=True, tag='vertical_stabilizer', exposed_root_chord_offset=.8)
    m.ep_alpha, h.ep_alpha = np.array([[0.]]), np.array([[.35 if kind != 1 else 0.]])
    for w in (m, h, t):
        w.CL_alpha = np.array([[5.1 if w is m else 4.2]])
    ws = [m, h, t] if kind != 2 else [m]
    for i in order:
        if i < len(ws):
            w = ws[i]
            w.origin = [[x * scale for x in w.origin[0]]]
            w.origin[0][0] += shift
            for n in ('projected',):
                w.spans[n] *= scale
            for n in ('root', 'tip', 'mean_aerodynamic'):
                w.chords[n] *= scale
            w.areas.reference *= scale ** 2
            w.aerodynamic_center = [x * scale for x in w.aerodynamic_center]
            w.exposed_root_chord_offset *= scale
            v.append_component(w)
    if fus:
        f = SUAVE.Components.Fuselages.Fuselage()
        f.tag = 'fuselage'
        f.lengths.total = 33. * scale
        f.width = 3.7 * scale
        f.heights.maximum = 3.9 * scale
        f.heights.at_quarter_length = 3.7 * scale
        f.heights.at_three_quarters_length = 3.5 * scale
        f.heights.at_wing_root_quarter_chord = 3.8 * scale
        f.areas.side_projected = 110. * scale ** 2
        v.append_component(f)
    v.reference_area = 120. * scale ** 2
    p = v.mass_properties
    p.center_of_gravity = [[(13. if kind != 1 else 10.5) * scale + shift, 0., .3 * scale]]
    p.zero_fuel_center_of_gravity = np.array([[(13. if kind != 1 else 10.5) * scale + shift, 0., .3 * scale]])
    p.max_zero_fuel = 50000.
    p.max_takeoff = 60000.
    p.mass = 60000.
    p.moments_of_inertia.tensor = np.zeros((3, 3)) if tensor is None else np.array(tensor)
    v.fuel = SUAVE.Components.Physical_Component()
    v.fuel.origin = np.array([[0., 0., 0.]])
    v.fuel.mass_properties.center_of_gravity = np.array([[13.5 * scale + shift, 0., 0.]])
    return v


def cond(alpha, mass, cla=5.1):
    c = Data()
    c.weights = Data()
    c.aerodynamics = Data()
    a, m = np.broadcast_arrays(np.array(alpha, dtype=float).reshape(-1, 1), np.array(mass, dtype=float).reshape(-1, 1))
    c.weights.total_mass = m * 1.
    c.aerodynamics.angle_of_attack = a * 1.
    c.lift_curve_slope = np.full_like(c.weights.total_mass, cla)
    return c


def cm(v, alpha=0., mass=60000.):
    c = cond(alpha, mass)
    return [np.array(np.broadcast_to(x, c.weights.total_mass.shape)) for x in taw_cmalpha(v, np.full_like(c.weights.total_mass, .5), c, v)]


def r_cm(ctx, k):
    if k == 3:
        v = aircraft(0)
        R.rowcheck(ctx, 'cm', lambda c: dict(zip(('a', '0', 'm'), taw_cmalpha(v, c['m'], cc(c), v))), dict(m=np.full((4, 1), .5), w=np.array([[52000.], [60000.], [50000.], [55000.]]), al=np.array([[0.], [.1], [-.05], [.2]])))
        return
    al = np.array([-.05, 0., .1])
    for fus, mass in itertools.product((True, False), (50000., 60000.)):
        v = aircraft(k, fus)
        xcg = (v.mass_properties.zero_fuel_center_of_gravity[0, 0] * 50000. + 13.5 * (mass - 50000.)) / mass
        a, a0, m = cm(v, al, mass)
        ctx.ev(9)
        ctx.check(R.same(m, a * al.reshape(-1, 1) + a0, 1e-12), 'cm:linear', 'CM is not Cm_alpha alpha + Cm0')
        mac, want = v.wings.main_wing.chords.mean_aerodynamic, 0.
        for w in v.wings.values():
            if not w.vertical:
                want -= (w.origin[0][0] + w.aerodynamic_center[0] - xcg) * w.areas.reference / (mac * 120.) * float(w.CL_alpha[0, 0]) * w.dynamic_pressure_ratio * (1 - float(w.ep_alpha[0, 0]))
        bare = cm(aircraft(k, False), 0., mass)[0][0, 0]
        near(ctx, 'cm:surfaces', bare, want, 1e-9, 'Cm_alpha of the surfaces of aircraft %d' % k)
        body = a[0, 0] - bare
        ctx.check((body > 0) == fus and (fus or body == 0), 'cm:body', 'a fuselage destabilises: %g' % body)
        for s in (.5, 1.7):
            near(ctx, 'cm:scale', cm(aircraft(k, fus, scale=s), 0., mass)[0][0, 0], a[0, 0], 1e-9, 'Cm_alpha of the aircraft scaled by %g' % s)
        if not fus:
            for d in (3., -2.):
                near(ctx, 'cm:shift', cm(aircraft(k, fus, shift=d), 0., mass)[0][0, 0], a[0, 0], 1e-9, 'Cm_alpha of the aircraft moved by %g' % d)
        for o in itertools.permutations(range(3)):
            ctx.state((k, fus, mass, o))
            o_ = cm(aircraft(k, fus, order=o), al, mass)
            ctx.check(all(R.same(x, y, 1e-9) for x, y in zip(o_, (a, a0, m))), 'cm:order', 'the moment depends on the order %s of the surfaces' % (o,))
            ctx.ev(3)
        # twisting an untapered surface is rotating it
        for n in v.wings.keys():
            u = aircraft(k, fus)
            u.wings[n].taper = 1.
            u.wings[n].ep_alpha = np.array([[0.]])
            z = cm(u, 0., mass)
            u.wings[n].twists.root = u.wings[n].twists.tip = .03
            z1 = cm(u, 0., mass)
            w = u.wings[n]
            l = w.origin[0][0] + w.aerodynamic_center[0] - xcg
            dm = 0. if w.vertical else -l * w.areas.reference / (mac * 120.) * float(w.CL_alpha[0, 0]) * w.dynamic_pressure_ratio * .03
            ctx.ev(3)
            ctx.check(abs(z1[1][0, 0] - z[1][0, 0] - dm) <= 1e-12 + 1e-9 * abs(dm), 'cm:twist:' + ('v' if w.vertical else 'h'), 'twisting %s by .03 changes Cm0 by %g, its lift makes %g' % (n, z1[1][0, 0] - z[1][0, 0], dm))
            ctx.check(R.same(z1[0], z[0], 1e-12), 'cm:twist:slope', 'twist changes Cm_alpha')


def cc(c):
    x = cond(c['al'], c['w'])
    return x


def r_cn(ctx, k):
    def con(v, M):
        c = Data()
        c.freestream = Data(velocity=v, mach_number=M, density=np.full_like(M, .8), dynamic_viscosity=np.full_like(M, 1.6e-5))
        return c
    V, M = np.array([[80.], [150.], [230.]]), np.array([[.24], [.5], [.78]])
    if k == 0:
        v = aircraft(0)
        keep = R.flat(v)
        R.rowcheck(ctx, 'cn', lambda c: dict(n=taw_cnbeta(v, con(c['v'], c['m']), v)), dict(v=V, m=M))
        now = R.flat(v)
        ctx.check(set(keep) == set(now) and all(R.same(keep[n], now[n], 0.) for n in keep), 'cn:vehicle', 'the vehicle changed: %s' % sorted(set(now) ^ set(keep))[:3])
        return
    for f in ((True,) if k == 1 else (True,)):
        b = np.array(taw_cnbeta(aircraft(0), con(V, M), aircraft(0)))
        for s in (.5, 2.):
            # at the same Reynolds number
            u = aircraft(0, scale=s)
            ctx.ev(3)
            ctx.check(R.same(taw_cnbeta(u, con(V / s, M), u), b, 1e-9), 'cn:scale', 'the scaled aircraft has another Cn_beta')
        for d in (1., -1.):
            u = aircraft(0)
            u.wings.vertical_stabilizer.origin[0][0] += d
            c1 = np.array(taw_cnbeta(u, con(V, M), u))
            ctx.check(np.all((c1 - b) * d > 0), 'cn:arm', 'a fin further aft stabilises')
            u = aircraft(0)
            u.wings.vertical_stabilizer.aerodynamic_center[0] += d
            ctx.check(R.same(taw_cnbeta(u, con(V, M), u), c1, 1e-9), 'cn:ac', 'moving the fin or its aerodynamic center is the same')
            ctx.ev(6)
        # the moment of the fin is proportional to its arm
        x = []
        for d in (0., 1., 3.):
            u = aircraft(0)
            u.wings.vertical_stabilizer.origin[0][0] += d
            x.append(np.array(taw_cnbeta(u, con(V, M), u)))
        ctx.ev(3)
        ctx.check(R.same((x[2] - x[0]), 3 * (x[1] - x[0]), 1e-7), 'cn:linear', 'the contribution of the fin is not proportional to its arm')
        lv = 26. - .8 * np.tan(.6) + aircraft(0).wings.vertical_stabilizer.aerodynamic_center[0] - 13.
        fin = (x[1] - x[0]) * lv
        body = b - fin
        ctx.check(np.all(fin > 0) and np.all(body < 0), 'cn:body', 'the fin stabilises and the body destabilises')
        # the fin carries between .76 and 1 of its load as it rises from 2 to 3.5 body depths, and the side wash factor is linear in the height of the wing
        S_v, b_v = (lambda e: (e.areas.reference, e.spans.projected))(extend_to_ref_area(copy.deepcopy(aircraft(0).wings.vertical_stabilizer)).extended)

        def law(bf, z):
            return np.interp(bf, [2., 3.5], [.76, 1.]) * (.724 + 3.06 * S_v / 120. / (1 + np.cos(aircraft(0).wings.main_wing.sweeps.quarter_chord)) + .4 * z / 3.9 + .009 * 9.)
        ref = law(b_v / 3.8, -.5)
        for bf in list(np.linspace(1.3, 5., 75)) + [2., 3.5]:
            for z in (-.5, 0., 1.5, -2.) if bf in (1.3, 3.5) else (-.5,):
                u = aircraft(0)
                u.fuselages.fuselage.heights.at_wing_root_quarter_chord = b_v / bf
                u.wings.main_wing.origin[0][2] = z
                ctx.ev()
                got = (np.array(taw_cnbeta(u, con(V, M), u)) - body) / fin
                ctx.check(np.allclose(got, law(bf, z) / ref, rtol=1e-6), 'cn:fin', 'a fin %g body depths high on an aircraft with its wing at %g carries %s of the load of another, the correlation gives %g' % (bf, z, got.ravel()[:2], law(bf, z) / ref))
        for o in itertools.permutations(range(3)):
            u = aircraft(0, order=o)
            ctx.state((k, o))
            ctx.check(R.same(taw_cnbeta(u, con(V, M), u), b, 1e-12), 'cn:order', 'order of the surfaces matters')
        if k == 2:
            u = aircraft(0)
            f2 = copy.deepcopy(u.fuselages.fuselage)
            f2.tag = 'boom'
            u.append_component(f2)
            ctx.check(R.same(np.array(taw_cnbeta(u, con(V, M), u)) - b, body, 1e-6), 'cn:twobodies', 'two bodies do not add up')


STATES = [(.3, 0., .4, .03, .05), (.5, 4000., .5, .035, .03), (.78, 11000., .55, .028, .02), (.65, 9000., .3, .02, .0)]


def analysis(v):
    a = SUAVE.Analyses.Stability.Fidelity_Zero()
    a.geometry = v
    a.finalize()
    return a


def fstate(idx):
    pts = [STATES[i][:2] for i in idx]
    c = G.conditions(G.freestream(pts))
    col = lambda j: np.array([[STATES[i][j]] for i in idx])
    c.freestream.dynamic_pressure = .5 * c.freestream.density * c.freestream.velocity ** 2
    c.aerodynamics.lift_coefficient, c.aerodynamics.drag_coefficient, c.aerodynamics.angle_of_attack = col(2), col(3), col(4)
    c.aerodynamics.drag_breakdown.parasite = Data(main_wing=Data(parasite_drag_coefficient=col(3) * .3))
    c.weights.total_mass = np.array([[60000. - 1500. * i] for i in idx])
    return c


TENSOR = [[1.2e6, 0., -2e4], [0., 2.6e6, 0.], [-2e4, 0., 3.5e6]]


def call(a, idx):
    c = fstate(idx)
    keep = R.flat(c)
    s = a(c)
    now = R.flat(c)
    bad = [n for n in keep if not R.same(keep[n], now[n], 0.)]
    return R.flat(s), bad


def r_fz(ctx, k, depth):
    kind, tens = ((0, TENSOR), (1, TENSOR), (0, None))[k]
    fresh = {}
    subsets = [(i,) for i in range(len(STATES))] + [(0, 1), (2, 0), (3, 2, 1, 0), (0, 1, 2, 3)]
    v0 = R.flat(aircraft(kind, tensor=tens))
    for s in subsets:
        v = aircraft(kind, tensor=tens)
        fresh[s], bad = call(analysis(v), s)
        ctx.check(not bad, 'fz:input', 'the state was changed: %s' % bad)
        now = R.flat(v)
        ctx.check(all(R.same(now[n], v0[n], 0.) for n in v0 if n in now and not n.endswith(('CL_alpha', 'ep_alpha'))), 'fz:vehicle', 'the vehicle was changed')
    full = fresh[(0, 1, 2, 3)]
    ctx.check(len(full) >= (20 if tens is not None else 4), 'fz:vacuous', 'outputs %s' % sorted(full))
    for s in subsets:
        for n, x in fresh[s].items():
            F = full[n]
            want = F[list(s)] if F.ndim and F.shape[0] == 4 else F
            ctx.ev()
            ctx.check(R.same(np.broadcast_to(x, np.broadcast(x, want).shape), np.broadcast_to(want, np.broadcast(x, want).shape), 1e-9), 'fz:rows:' + n, '%s of states %s in one call is %s, in the full batch %s' % (n, s, x.ravel(), np.ravel(want)))
            ctx.check(x.ndim == 0 or x.shape in ((len(s), 1), (1,)), 'fz:shape:' + n, '%s of %d states has shape %s' % (n, len(s), x.shape))
    # every history
    for hist in itertools.product(range(len(subsets)), repeat=depth):
        a = analysis(aircraft(kind, tensor=tens))
        ctx.trace()
        for j in hist:
            r, _ = call(a, subsets[j])
            ctx.step()
        w = fresh[subsets[hist[-1]]]
        ctx.state((k, hist))
        bad = [n for n in w if n not in r or not R.same(w[n], r[n], 1e-12)]
        ctx.ev(len(w))
        for n in bad:
            ctx.fail('fz:history:' + n, '%s after the calls %s is %s, of a fresh analysis %s' % (n, [subsets[j] for j in hist], r.get(n), w[n]))
    # relations between the outputs and the state
    v = aircraft(kind, tensor=tens)
    a = analysis(v)
    c = fstate((0, 1, 2, 3))
    s = a(c)
    st, f = s.static, c.freestream
    mac, b, S = v.wings.main_wing.chords.mean_aerodynamic, v.wings.main_wing.spans.projected, v.reference_area
    ctx.check(R.same(st.CM, st.Cm_alpha * c.aerodynamics.angle_of_attack + st.Cm0, 1e-12), 'fz:CM', 'CM')
    ctx.check(R.same(c.lift_curve_slope, datcom(v.wings.main_wing, f.mach_number), 1e-12), 'fz:slope', 'lift slope')
    ctx.check(R.same(st.static_margin * c.lift_curve_slope, -st.Cm_alpha, 1e-12), 'fz:margin', 'static margin')
    ctx.check(R.same(st.neutral_point, v.mass_properties.center_of_gravity[0][0] + mac * st.static_margin, 1e-12), 'fz:neutral', 'neutral point %s' % np.array(st.neutral_point))
    # the neutral point does not move with the centre of gravity (all mass at it, no fuel)
    def np_at(x, alone=False):
        u = aircraft(2 if alone else kind, fus=not alone)
        u.mass_properties.center_of_gravity = [[x, 0., 0.]]
        u.mass_properties.zero_fuel_center_of_gravity = np.array([[x, 0., 0.]])
        u.fuel.mass_properties.center_of_gravity = np.array([[x, 0., 0.]])
        return np.array(analysis(u)(fstate((0, 1, 2, 3))).static.neutral_point), u
    if k == 2:
        for x in (11., 13.):
            n, u = np_at(x, True)
            ac = u.wings.main_wing.origin[0][0] + u.wings.main_wing.aerodynamic_center[0]
            ctx.check(R.same(n, np.full_like(n, ac), 1e-9), 'fz:alone', 'neutral point of a wing alone with its centre of gravity at %g: %s, its aerodynamic centre is at %g' % (x, n.ravel(), ac))
    if tens is None:
        return
    I = np.array(tens)
    q = f.dynamic_pressure
    dy = s.dynamic
    kb, kc, t = b / 2 / f.velocity, mac / 2 / f.velocity, c.weights.total_mass * f.velocity / S / q
    ctx.check(R.same(dy.rollSubsistenceTimeConstant, I[0, 0] / (q * S * b) / (kb * st.Cl_p), 1e-9), 'fz:roll', 'roll time constant %s, Ixx p\' = Lp p gives %s' % (np.ravel(dy.rollSubsistenceTimeConstant), np.ravel(I[0, 0] / (q * S * b) / (kb * st.Cl_p))))
    ctx.check(R.same(dy.dutchRollFreqHz, np.sqrt(st.Cn_beta * q * S * b / I[2, 2]), 1e-9), 'fz:dutch', 'dutch roll frequency')
    ctx.check(R.same(dy.dutchRollDamping, -kb * st.Cn_r * q * S * b / I[2, 2] / 2 / np.sqrt(st.Cn_beta * q * S * b / I[2, 2]), 1e-9), 'fz:dutchz', 'dutch roll damping')
    ctx.check(R.same(dy.phugoidFreqHz, np.sqrt(2) * f.gravity / f.velocity, 1e-9), 'fz:phugoid', 'phugoid frequency')
    ctx.check(R.same(dy.phugoidDamp, c.aerodynamics.drag_coefficient / c.aerodynamics.lift_coefficient / np.sqrt(2), 1e-9), 'fz:phugoidz', 'phugoid damping')
    iy = I[1, 1] / (q * S * mac)
    w2 = (st.Cz_alpha * kc * st.Cm_q - t * st.Cm_alpha) / (t * iy)
    ctx.check(R.same(np.array(dy.shortPeriodFreqHz) ** 2, w2, 1e-8), 'fz:short', 'short period frequency')
    ctx.check(R.same(dy.spiralSubsistenceTimeConstant, t * st.Cl_p * st.Cn_beta / (c.aerodynamics.lift_coefficient * (st.Cl_beta * st.Cn_r - st.Cn_beta * st.Cl_r)), 1e-9), 'fz:spiral', 'spiral time constant')
    ctx.ev(12)


# ---------------------------------------------------------------- flight modes from stability derivatives
def modes_in(kind, tens, al):
    n = len(al)
    r = Data()
    one = np.ones((n, 1))
    r.aerodynamics = Data(AoA=np.array(al, dtype=float).reshape(-1, 1), lift_coefficient=.3 * one + .04 * np.array(al).reshape(-1, 1), drag_coefficient=.03 * one, oswald_efficiency=.85 * one)
    st = dict(Cl_beta=-.1, Cn_r=-.2, Cl_r=.1, Cn_beta=.12, CX_u=-.05, CL_alpha=5., CZ_u=-.3, CL_q=6., Cm_q=-15., Cm_u=.02, Cm_alpha=-1., CY_beta=-.6, CY_p=.05, CY_r=.2, Cl_p=-.45, Cn_p=-.04)
    if kind == 1:
        st.update(Cl_beta=-.02, Cl_r=.2)
    r.stability = Data(static=Data({k: v * one for k, v in st.items()}), dynamic=Data())
    r.stability.static.control_surfaces_cases = Data()
    r.b_ref, r.c_ref, r.S_ref = np.sqrt(9 * 120.) * one, 4. * one, 120. * one
    v = aircraft(0, tensor=tens)
    c = Data()
    fs = G.freestream([(.5, 4000.)] * n)
    c.freestream = Data(gravity=9.81 * one, mach_number=fs['mach_number'], density=fs['density'], velocity=fs['velocity'])
    c.freestream.density = c.freestream.density * (1 + .02 * np.array(al).reshape(-1, 1))
    return r, v, c, [Data(tag='case_%d' % i) for i in range(n)], st


def oracle(al, v, c, i, st, mass):
    """small perturbation equations in stability axes of one case, dimensional derivatives written out"""
    a = np.radians(al[i])
    CL, CD = .3 + .04 * al[i], .03
    rho, V, g = c.freestream.density[i, 0], c.freestream.velocity[i, 0], 9.81
    S, b, cb = 120., np.sqrt(9 * 120.), 4.
    q = .5 * rho * V * V
    I = np.array(v.mass_properties.moments_of_inertia.tensor, dtype=float)
    e1, e3 = np.array([np.cos(a), 0, np.sin(a)]), np.array([-np.sin(a), 0, np.cos(a)])  # along the velocity, and normal to it, in the axes of the tensor
    ix, iz, ixz, iy = e1 @ I @ e1, e3 @ I @ e3, -(e1 @ I @ e3), I[1, 1]
    Yb = q * S * st['CY_beta'] / V
    k = b / 2 / V
    Y = np.array([Yb, q * S * k * st['CY_p'], q * S * k * st['CY_r']])
    L = q * S * b * np.array([st['Cl_beta'] / V, k * st['Cl_p'], k * st['Cl_r']])
    N = q * S * b * np.array([st['Cn_beta'] / V, k * st['Cn_p'], k * st['Cn_r']])
    M = np.array([[mass, 0, 0, 0], [0, ix, -ixz, 0], [0, -ixz, iz, 0], [0, 0, 0, 1.]])
    K = np.zeros((4, 4))
    K[0, :3] = Y
    K[0, 2] -= mass * V
    K[0, 3] = mass * g * np.cos(a)
    K[1, :3], K[2, :3] = L, N
    K[3, 1], K[3, 2] = 1, np.tan(a)
    lat = np.linalg.eigvals(np.linalg.solve(M, K))
    hs, mw = v.wings.horizontal_stabilizer, v.wings.main_wing
    eps = 2 * float(np.ravel(datcom(hs, c.freestream.mach_number[i:i + 1]))[0]) / np.pi / hs.aspect_ratio
    lt = hs.origin[0][0] + hs.aerodynamic_center[0] - mw.origin[0][0] - mw.aerodynamic_center[0]
    Cmad, Czad = 2 * st['Cm_alpha'] * eps * lt / mw.chords.mean_aerodynamic, 2 * st['Cm_alpha'] * eps
    kc = cb / 2 / V
    Cw = mass * g / (q * S)
    X = q * S / V * np.array([2 * Cw * np.sin(a) + st['CX_u'], CL - 2 * CL / (np.pi * 9. * .85) * st['CL_alpha']])
    Z = q * S / V * np.array([-2 * Cw * np.cos(a) + st['CZ_u'], -CD - st['CL_alpha']])
    Mm = q * S * cb / V * np.array([st['Cm_u'], st['Cm_alpha']])
    M = np.eye(4)
    M[0, 0], M[1, 1], M[2, 2] = mass, mass - q * S * kc * Czad / V, iy
    M[2, 1] = -q * S * cb * kc * Cmad / V
    K = np.zeros((4, 4))
    K[0, :2], K[1, :2], K[2, :2] = X, Z, Mm
    K[0, 3], K[1, 3] = -mass * g * np.cos(a), -mass * g * np.sin(a)
    K[1, 2] = -q * S * kc * st['CL_q'] + mass * V
    K[2, 2] = q * S * cb * kc * st['Cm_q']
    K[3, 2] = 1
    return lat, np.linalg.eigvals(np.linalg.solve(M, K))


def r_modes(ctx, k):
    kind, tens = ((0, TENSOR), (1, TENSOR), (0, [[1.2e6, 0., -3e5], [0., 2.6e6, 0.], [-3e5, 0., 1.2e6]]), (0, [[2e6, 0., 0.], [0., 2.6e6, 0.], [0., 0., 2e6]]))[k]
    ALL = (0., 2., 5., 9.)
    for mass, mtow in ((60000., 60000.), (55000., 0.), (0., 60000.), (50000., 60000.)):
        for al in [(x,) for x in ALL] + list(itertools.permutations(ALL, 2)) + [ALL, ALL[::-1]]:
            r, v, c, cases, st = modes_in(kind, tens, al)
            v.mass_properties.mass, v.mass_properties.max_takeoff = mass, mtow
            ctx.state((k, mass, mtow, al))
            ctx.trace()
            try:
                o = compute_dynamic_flight_modes(r, v, c, cases).dynamic_stability
            except AttributeError as e:
                ctx.fail('modes:mass', 'mass %g, maximum takeoff %g: %s' % (mass, mtow, e))
                continue
            for i in range(len(al)):
                lat, lon = oracle(al, v, c, i, st, mass or mtow)
                m = 'case %d of the angles %s' % (i, al)
                for n, got, want in (('lat', o.LatModes.LatModes[i], lat), ('lon', o.LongModes.LongModes[i], lon)):
                    ctx.ev()
                    ctx.check(np.allclose(np.sort_complex(np.round(got, 9)), np.sort_complex(np.round(want, 9)), rtol=1e-6, atol=1e-8), 'modes:' + n, '%s: eigenvalues %s, the equations of motion give %s' % (m, np.sort_complex(got), np.sort_complex(want)))
                lon = lon[np.argsort(np.abs(lon))]
                if abs(lon[0].imag) > 1e-9 and abs(lon[3].imag) > 1e-9 and abs(lon[3]) > 3 * abs(lon[0]):
                    for n, s in (('phugoid', lon[0]), ('shortPeriod', lon[3])):
                        near(ctx, 'modes:%s:w' % n, o.LongModes[n + 'FreqHz'][i], abs(s) / 2 / np.pi, 1e-6, n + ' of ' + m)
                        ctx.check(abs(o.LongModes[n + 'Damp'][i][0] + s.real / abs(s)) < 1e-6, 'modes:%s:z' % n, n + ' damping of ' + m)
                        near(ctx, 'modes:%s:t' % n, o.LongModes[n + 'TimeDoubleHalf'][i], np.log(2) / abs(s.real), 1e-5, n + ' time to double or half of ' + m)
                else:
                    ctx.note('other structure of modes', 1)
                osc, re = lat[np.abs(lat.imag) > 1e-9], lat[np.abs(lat.imag) <= 1e-9].real
                re = re[np.argsort(np.abs(re))]
                if len(osc) == 2 and abs(re[1]) > 1.5 * abs(re[0]):
                    near(ctx, 'modes:dutch:w', o.LatModes.dutchRollFreqHz[i], abs(osc[0]) / 2 / np.pi, 1e-6, 'dutch roll of ' + m)
                    near(ctx, 'modes:dutch:z', o.LatModes.dutchRollDamping[i], -osc[0].real / abs(osc[0]), 1e-5, 'dutch roll of ' + m)
                    near(ctx, 'modes:roll', o.LatModes.rollSubsistenceTimeConstant[i], -1 / re[1], 1e-6, 'roll time constant of ' + m)
                    near(ctx, 'modes:spiral', o.LatModes.spiralTimeDoubleHalf[i], np.log(2) / abs(re[0]), 1e-4, 'spiral time of ' + m)
                    ctx.check(o.LatModes.spiralDamping[i][0] == -np.sign(re[0]), 'modes:spiral:sign', 'spiral of ' + m)
                else:
                    ctx.note('other structure of modes', 1)


# ---------------------------------------------------------------- finite difference derivatives
def model(seg):
    """an analytic aircraft: everything smooth in attitude, speed, throttle and deflections"""
    c = seg.state.conditions
    v = c.frames.inertial.velocity_vector
    speed = np.sqrt(np.sum(v ** 2, axis=1))[:, None]
    c.freestream.velocity = speed
    rot = c.frames.body.inertial_rotations
    gam = np.arctan2(-v[:, 2], np.hypot(v[:, 0], v[:, 1]))[:, None]
    al = rot[:, 1:2] - gam
    be = rot[:, 2:3] - np.arctan2(v[:, 1], v[:, 0])[:, None]
    t = c.propulsion.throttle
    de = sum(x.deflection * w for w, wing in ((1., seg.analyses.aerodynamics.geometry.wings.main_wing), (2., seg.analyses.aerodynamics.geometry.wings.tail)) for x in wing.control_surfaces.values())
    a = c.aerodynamics
    a.angle_of_attack, a.side_slip_angle = al, be
    a.lift_coefficient = .2 + 5. * al + .3 * t + .4 * de + .002 * speed
    a.drag_coefficient = .02 + .6 * al - .05 * t + .01 * de + .0003 * speed
    a.moment_coefficient = .1 - 1.2 * al - .8 * de
    a.side_force_coefficient = -.6 * be
    c.stability.static.Cm_alpha = -1.2 * np.ones_like(al)
    c.stability.static.yawing_moment_coefficient = .11 * be + .02 * de
    c.stability.static.rolling_moment_coefficient = -.07 * be + .05 * de
    for j, p in enumerate(c.noise.sources.propellers.values()):
        p.thrust_coefficient = .1 + (.2 + j) * t + .05 * al + .03 * be + .01 * de
        p.power_coefficient = .08 + (.1 + j) * t + .02 * al - .01 * be - .02 * de


def segment(rows, sur, nprop):
    s = Data()
    s.analyses = Data(aerodynamics=Data(settings=Data(use_surrogate=sur), geometry=Data(wings=Data())))
    w = s.analyses.aerodynamics.geometry.wings
    w.main_wing = Data(control_surfaces=Data(flap=Data(deflection=.1), aileron=Data(deflection=0.)))
    w.tail = Data(control_surfaces=Data(elevator=Data(deflection=-.05)))
    w.fin = Data(control_surfaces=Data())
    r = np.array(rows, dtype=float)  # pitch, psi, gamma, heading, speed, throttle
    n = len(r)
    c = Data(frames=Data(body=Data(inertial_rotations=np.zeros((n, 3))), inertial=Data(velocity_vector=np.zeros((n, 3)))), propulsion=Data(throttle=r[:, 5:6] * 1.), freestream=Data(), aerodynamics=Data(), stability=Data(static=Data()),
             noise=Data(sources=Data(propellers=Data({'p%d' % j: Data() for j in range(nprop)}))), aero_derivatives=Data())
    c.frames.body.inertial_rotations[:, 1], c.frames.body.inertial_rotations[:, 2] = r[:, 0], r[:, 1]
    c.frames.inertial.velocity_vector[:] = r[:, 4:5] * np.stack([np.cos(r[:, 2]) * np.cos(r[:, 3]), np.cos(r[:, 2]) * np.sin(r[:, 3]), -np.sin(r[:, 2])], axis=1)
    s.state = Data(conditions=c)
    s.process = Data(iterate=Data(conditions=model))
    model(s)
    return s


def r_deriv(ctx, k):
    import contextlib, io
    psi = (0., .2, 0., .3, -.4, 1.2)[k]
    sur = k == 3
    for nprop, th, pit in itertools.product((0, 1, 2), (0., .4, 1.), (0., .03, -.1)):
        rows = [(pit, psi, 0., psi, 100., th), (.05, psi + .02, .03, psi, 60., .6), (pit - .05, psi, pit - .08, psi, 220., th)]
        s = segment(rows, sur, nprop)
        keep = R.flat(s)
        with contextlib.redirect_stdout(io.StringIO()):
            compute_aero_derivatives(s)
        d = s.state.conditions.aero_derivatives
        now = R.flat(s)
        ctx.trace()
        ctx.state((k, nprop, th, pit))
        ctx.check(all(R.same(keep[n], now[n], 0.) for n in keep), 'deriv:segment', 'the segment changed: %s' % [n for n in keep if not R.same(keep[n], now[n], 0.)][:3])
        want = dict(dCL_dAlpha=5., dCD_dAlpha=.6, dCM_dAlpha=-1.2, dCL_dThrottle=.3, dCD_dThrottle=-.05, dCL_dV=.002, dCD_dV=.0003)
        if not sur:
            want.update(dCn_dBeta=.11, dCl_dBeta=-.07, dCY_dBeta=-.6)
        for cs, w in (('flap', 1.), ('aileron', 1.), ('elevator', 2.)):
            want.update({'dCL_dDelta_' + cs: .4 * w, 'dCD_dDelta_' + cs: .01 * w, 'dCM_dDelta_' + cs: 0. if sur else -.8 * w, 'dCn_dDelta_' + cs: 0. if sur else .02 * w, 'dCl_dDelta_' + cs: 0. if sur else .05 * w})
        for n, x in want.items():
            ctx.ev()
            if not ctx.check(n in d, 'deriv:missing:' + n, '%s is not computed' % n):
                continue
            g = np.array(d[n], dtype=float)
            ctx.check(g.shape in ((3, 1), ()) and np.all(np.abs(g - x) <= 1e-6 * max(1, abs(x)) if n[-1] != 'V' else np.abs(g - x) <= 1e-7), 'deriv:' + n, '%s with pitch %g, throttle %g, heading %g is %s, the aircraft has %g' % (n, pit, th, psi, g.ravel()[:9], x))
        for j in range(nprop):
            for n, x in dict(dCT_dAlpha=.05, dCP_dAlpha=.02, dCT_dBeta=.03, dCP_dBeta=-.01, dCT_dThrottle=.2 + j, dCP_dThrottle=.1 + j, dCT_dDelta_elevator=.02, dCP_dDelta_elevator=-.04).items():
                g = np.array(d[n], dtype=float)
                ctx.ev()
                ctx.check(g.shape == (nprop, 3, 1) and np.all(np.abs(g[j] - x) < 1e-6), 'deriv:' + n, '%s of propeller %d is %s, expected %g' % (n, j, g.ravel(), x))
