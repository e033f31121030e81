"""Rotors obey blade element vortex theory at every operating point, row by row."""
import contextlib, copy, io, itertools
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('rotor geometry grid (2..5 blades, hub, twist, chord, thickness, section polars, 6..12 stations) x 8 operating points x {batch, single rows, every ordered pair, reversed, repeated}; axial against azimuthal analysis; '
          'every rotation of the azimuth stations; orientations x tilt x body attitude grid; pitch against twist; density, size and stream scalings; design grid; slipstream points grid x networks')
ASSUMPTIONS = ['operating points at which the wake iteration of the rotor converges (others announce themselves)', 'the section model of the code (flat plate with Karman-Tsien and stall cap, or the given polar table)']
MIN = {'evals': 20000}
TIME_LIMIT = 500


def scenarios(tier):
    out = []
    geos = range(6) if tier != 'thorough' else range(9)
    for g in geos:
        for pol in (0, 1, 2):
            out.append(['bem', g, pol])
    for g in (0, 1, 3):
        for pol in (0, 1):
            out += [['flat', g, pol], ['turn', g, pol], ['scale', g, pol], ['pitch', g, pol]]
    out += [['orient', k] for k in range(3)] + [['stop', 0], ['stop', 1], ['stream', 0], ['stream', 1], ['sweep', 0], ['slip', 0], ['slip', 1], ['rhs', 0]]
    out += [['design', b, k] for b in (2, 3, 5) for k in range(4)]
    return out


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    globals()['Data'] = SUAVE.Core.Data
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


GEO = [(2, .9, .12, 8, .7, .25, .14), (3, 1., .15, 8, .8, .2, .12), (5, .6, .1, 6, .9, .35, .1), (2, 1.4, .2, 12, .55, .15, .16), (4, .45, .05, 7, .6, .3, .13), (3, 2., .4, 9, .5, .1, .12),
       (6, .8, .2, 10, .75, .4, .12), (2, .3, .03, 6, .5, .2, .1), (3, 3., .3, 11, .6, .12, .14)]


def section(k):
    """a polar table that is an explicit function of Reynolds number and angle"""
    a = np.linspace(-.4, .6, 21)
    Re = np.array([1e1, 1e4, 1e5, 5e5, 2e6, 2e7])
    p = Data()
    p.reynolds_numbers, p.angle_of_attacks = Re, a
    x = np.log10(Re)[:, None] - 5
    lo, hi = -.9, 1.3 + .05 * k
    cl = (5.5 + .2 * k + .1 * x) * (a[None] + .03 * k)
    p.lift_coefficients = np.clip(cl, lo, hi) + .02 * a[None]
    p.drag_coefficients = .012 - .001 * x + (.02 + .005 * k) * p.lift_coefficients ** 2 + .05 * a[None] ** 2
    f = Data()
    f.tag, f.polars = 'section%d' % k, p
    return f


def rotor(g, pol=0, cls='Propeller', Na=6):
    B, Rt, Rh, N, tw, rt, ch = GEO[g]
    p = getattr(SUAVE.Components.Energy.Converters, cls)()
    p.number_of_blades, p.tip_radius, p.hub_radius = B, Rt, Rh
    chi = np.linspace(Rh / Rt, 1., N + 1)[:-1]
    p.radius_distribution = chi * Rt
    p.twist_distribution = np.linspace(tw, rt, N)
    p.chord_distribution = ch * Rt * (1.1 - .6 * chi)
    p.thickness_to_chord = np.linspace(.18, .09, N)
    p.mid_chord_alignment = 0. * chi
    p.number_azimuthal_stations = Na
    p.sol_tolerance = 1e-10
    if pol:
        for k in range(pol):
            p.append_airfoil(section(k))
        p.airfoil_polar_stations = [(j % pol) for j in range(N)] if pol > 1 else [0] * N
    return p


NP = 6


def points(g, n=NP):
    """operating points: density, temperature, speed, shaft speed"""
    return R.take(points8(g), range(n))


def points8(g):
    Rt = GEO[g][1]
    h = np.array([0., 500., 1500., 3000., 0., 2000., 4000., 1000.])
    a = SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(h)
    tip = np.array([150., 170., 190., 180., 120., 200., 160., 140.])
    J = np.array([.15, .1, .2, .05, .12, .18, .08, .14])
    col = lambda x: np.array(x, dtype=float).reshape(-1, 1) * np.ones((8, 1))
    return dict(rho=col(a.density), T=col(a.temperature), a=col(a.speed_of_sound), mu=col(a.dynamic_viscosity), V=col(J * tip), w=col(tip / Rt), thr=col([1.] * 8), vy=col([0.] * 8), vz=col([0.] * 8), th=col([0.] * 8))


def cond(c):
    n = len(c['rho'])
    con = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    con.expand_rows(n)
    con._size = n
    f = con.freestream
    f.density, f.temperature, f.speed_of_sound, f.dynamic_viscosity = c['rho'], c['T'], c['a'], c['mu']
    con.propulsion.throttle = c['thr']
    con.frames.inertial.velocity_vector = np.hstack([c['V'], c['vy'], c['vz']])
    t = c['th'][:, 0]
    M = np.zeros((n, 3, 3))     # body to inertial for a pitch attitude
    M[:, 0, 0], M[:, 0, 2], M[:, 1, 1], M[:, 2, 0], M[:, 2, 2] = np.cos(t), np.sin(t), 1., -np.sin(t), np.cos(t)
    con.frames.body.transform_to_inertial = M
    return con


def spin(p, c, pitch=None, tilt=None):
    p = copy.deepcopy(p)
    con = cond(c)
    p.inputs.omega = c['w']
    if pitch is not None:
        p.inputs.pitch_command = pitch
    if tilt is not None:
        p.inputs.y_axis_rotation = tilt
    r = p.spin(con)
    return p, con, r


def outs(r, con=None):
    F, Q, P, Cp, o, eta = r
    d = dict(F=F, Q=Q, P=P, Cp=Cp, eta=eta)
    for k in ('thrust_coefficient', 'torque_coefficient', 'power_coefficient', 'propeller_efficiency', 'figure_of_merit', 'tip_mach', 'thrust_per_blade', 'torque_per_blade', 'blade_thrust_distribution', 'blade_torque_distribution',
              'blade_axial_induced_velocity', 'blade_tangential_induced_velocity', 'blade_axial_velocity', 'blade_tangential_velocity', 'disc_circulation', 'disc_effective_angle_of_attack', 'disc_dT_dr', 'disc_dQ_dr', 'blade_dT_dr', 'blade_dQ_dr',
              'lift_coefficient', 'drag_coefficient', 'disc_axial_velocity', 'disc_tangential_velocity', 'omega', 'converged_inflow_ratio'):
        d[k] = o[k]
    return d


def bilin(x, y, xs, ys, z):
    x, y = np.clip(x, xs[0], xs[-1]), np.clip(y, ys[0], ys[-1])
    i = np.clip(np.searchsorted(xs, x, side='right') - 1, 0, len(xs) - 2)
    j = np.clip(np.searchsorted(ys, y, side='right') - 1, 0, len(ys) - 2)
    u, v = (x - xs[i]) / (xs[i + 1] - xs[i]), (y - ys[j]) / (ys[j + 1] - ys[j])
    return z[i, j] * (1 - u) * (1 - v) + z[i + 1, j] * u * (1 - v) + z[i, j + 1] * (1 - u) * v + z[i + 1, j + 1] * u * v


def section_ref(p, pol, beta, Wa, Wt, a, nu, j):
    """lift and drag coefficient of one blade element"""
    al = beta - np.arctan2(Wa, Wt)
    W = np.hypot(Wa, Wt)
    Ma, Re = W / a, W * p.chord_distribution[j] / nu
    if pol:
        t = list(p.Airfoils.values())[p.airfoil_polar_stations[j]].polars
        cl, cd = bilin(Re, al, t.reynolds_numbers, t.angle_of_attacks, t.lift_coefficients), bilin(Re, al, t.reynolds_numbers, t.angle_of_attacks, t.drag_coefficients)
    else:
        x = 100 * p.thickness_to_chord[j]
        top = max(.7, -.0009 * x ** 3 + .0217 * x ** 2 - .0442 * x + .7005) * (Re / 9e6) ** .1
        cl = min(2 * np.pi * al, top)
        if al >= np.pi / 2:
            cl = 0.
        if Ma < 1 and cl > 0:
            b = np.sqrt(1 - Ma ** 2)
            cl = cl / (b + Ma ** 2 / (1 + b) * cl / 2)
        cd = (.108 * cl ** 4 - .2612 * cl ** 3 + .181 * cl ** 2 - .0139 * cl + .0278) * (5e4 / Re) ** .2
        if al >= np.pi / 2:
            cd = 2.
    return cl, cd, al, Ma, W


def element(p, pol, j, V, w, rho, T, a, mu, psi):
    B, Rt = p.number_of_blades, p.tip_radius
    r, beta = p.radius_distribution[j], p.twist_distribution[j]
    Ut = w * r
    U = np.hypot(V, Ut)
    Wa, Wt = .5 * V + .5 * U * np.sin(psi), .5 * Ut + .5 * U * np.cos(psi)
    cl, cd, al, Ma, W = section_ref(p, pol, beta, Wa, Wt, a, mu / rho, j)
    lam = r * Wa / (Rt * Wt)
    F = 2 / np.pi * np.arccos(np.exp(-B / 2. * (Rt / r - 1) / lam))
    g1 = (Ut - Wt) * 4 * np.pi * r / B * F * np.sqrt(1 + (4 * lam * Rt / (np.pi * B * r)) ** 2)
    g2 = .5 * W * p.chord_distribution[j] * cl
    return g1 - g2, Wa, Wt, cl, cd, al, Ma, W, F


def r_bem(ctx, g, pol):
    p = rotor(g, pol)
    c0 = points(g)
    f = lambda c: outs(spin(p, c)[2])
    o = R.rowcheck(ctx, 'spin', f, c0, rtol=2e-6, atol=1e-9)
    q, con, r = spin(p, c0)
    out = r[4]
    N = len(p.radius_distribution)
    dr = np.gradient(p.radius_distribution) * 1.
    dr[0], dr[-1] = dr[0] / 2, dr[-1] / 2
    n = c0['w'][:, 0] / (2 * np.pi)
    D, B, Rt = 2 * p.tip_radius, p.number_of_blades, p.tip_radius
    for i in range(len(c0['V'])):
        V, w, rho, T, a, mu = [c0[k][i, 0] for k in ('V', 'w', 'rho', 'T', 'a', 'mu')]
        Th = Q = 0.
        for j in range(N):
            rj = p.radius_distribution[j]
            Wa, Wt = o['blade_axial_velocity'][i, j], o['blade_tangential_velocity'][i, j]
            U = np.hypot(V, w * rj)
            s, k = (2 * Wa - V) / U, (2 * Wt - w * rj) / U
            ctx.check(abs(s * s + k * k - 1) < 1e-9, 'bem:circle', 'point %d station %d: the velocities at the blade are not those of a vortex wake' % (i, j))
            res, Wa2, Wt2, cl, cd, al, Ma, W, F = element(p, pol, j, V, w, rho, T, a, mu, np.arctan2(s, k))
            scale = W * p.chord_distribution[j]
            ctx.check(abs(res) < 1e-5 * scale, 'bem:wake', 'geometry %d polar %d point %d station %d: circulation of the wake and of the blade differ by %g of %g' % (g, pol, i, j, res, scale))
            ctx.close(o['lift_coefficient'][i, j], cl, 'bem:lift', 'section lift', rtol=1e-8, atol=2e-6)
            ctx.close(o['disc_effective_angle_of_attack'][i, j, 0], al, 'bem:alpha', 'section angle of attack', rtol=1e-8, atol=1e-12)
            Tw = 1 + 1.78 * Ma ** 2
            Tp = 1 + .035 * Ma ** 2 + .45 * (Tw - 1)
            Rr = Tp ** 2.5 * (Tp * T + 110.4) / (T + 110.4)
            cdc = cd / Tp * Rr ** -.2
            ctx.close(o['drag_coefficient'][i, j], cdc, 'bem:drag', 'section drag', rtol=1e-7)
            L, Dg = .5 * rho * W ** 2 * p.chord_distribution[j] * cl, .5 * rho * W ** 2 * p.chord_distribution[j] * cdc
            dT, dQ = (L * Wt - Dg * Wa) / W, (L * Wa + Dg * Wt) / W * rj
            ctx.close(o['blade_dT_dr'][i, j], dT, 'bem:dT', 'thrust per length', rtol=1e-6, atol=1e-4 * rho * W)
            ctx.close(o['blade_dQ_dr'][i, j], dQ, 'bem:dQ', 'torque per length', rtol=1e-6, atol=1e-4 * rho * W)
            ctx.close(o['disc_circulation'][i, j, :], .5 * W * p.chord_distribution[j] * cl * np.ones(6), 'bem:gamma', 'circulation', rtol=1e-7, atol=1e-6 * scale)
            ctx.close(o['blade_axial_induced_velocity'][i, j], F * (Wa - V), 'bem:va', 'axial induced velocity', rtol=1e-7, atol=1e-9)
            ctx.close(o['blade_tangential_induced_velocity'][i, j], F * (w * rj - Wt), 'bem:vt', 'tangential induced velocity', rtol=1e-7, atol=1e-9)
            Th += dT * dr[j]
            Q += dQ * dr[j]
        Th, Q = B * Th, B * Q
        P = Q * w
        want = dict(Q=Q, P=P, Cp=P / (rho * n[i] ** 3 * D ** 5), thrust_coefficient=Th / (rho * n[i] ** 2 * D ** 4), torque_coefficient=Q / (rho * n[i] ** 2 * D ** 5), eta=V * Th / P, tip_mach=w * Rt / a, thrust_per_blade=Th / B, torque_per_blade=Q / B,
                    figure_of_merit=Th * np.sqrt(Th / (2 * rho * np.pi * (Rt ** 2 - p.hub_radius ** 2))) / P, omega=w)
        want['propeller_efficiency'] = want['eta']
        for k, v in want.items():
            if k in ('Cp', 'thrust_coefficient', 'torque_coefficient'):
                v = max(v, 0.)
            if not np.isnan(v):
                ctx.close(o[k][i, 0], v, 'bem:' + k, 'geometry %d polar %d point %d: %s' % (g, pol, i, k), rtol=1e-5, atol=1e-9 * abs(v))
        ctx.close(o['F'][i], np.array([Th, 0., 0.]), 'bem:thrust', 'thrust vector', rtol=1e-5, atol=1e-6 * abs(Th))
        ctx.close(con.propulsion.etap[i, 0], want['eta'], 'bem:stored', 'stored efficiency', rtol=1e-5)
        ctx.state(('bem', g, pol, i))
        ctx.trace()


def r_flat(ctx, g, pol):
    """the azimuthal analysis of an axial stream gives the axial one, at every azimuth"""
    p1 = rotor(g, pol)
    c0 = points(g, 4)
    a = outs(spin(p1, c0)[2])
    for Na in (4, 6):
        p2 = rotor(g, pol, Na=Na)
        p2.use_2d_analysis = True
        b = outs(spin(p2, c0)[2])
        for k in a:
            x, y = np.asarray(a[k]), np.asarray(b[k])
            if x.ndim == 3:
                x = np.repeat(x[:, :, :1], Na, axis=2)
            if y.ndim == 3 and x.ndim == 2:
                x = np.repeat(x[:, :, None], Na, axis=2)
            ctx.close(y, x, 'flat:' + k, '%s of the azimuthal analysis with %d stations' % (k, Na), rtol=2e-6, atol=1e-8 * (1 + np.max(np.abs(np.nan_to_num(x)))))
        ctx.state(('flat', g, pol, Na))
        ctx.trace()


def r_turn(ctx, g, pol):
    """a side stream turned by whole azimuth stations turns the disc and leaves thrust and torque alone"""
    Na = 6
    p = rotor(g, pol, Na=Na)
    p.use_2d_analysis = True
    c0 = points(g, 3)
    side = np.array([6., 12., 3.])[:, None]
    ref = None
    for k in range(Na):
        c = copy.deepcopy(c0)
        ang = 2 * np.pi * k / Na
        c['vy'], c['vz'] = side * np.sin(ang), side * np.cos(ang)
        r = spin(p, c)[2]
        o = outs(r)
        if k == 0:
            ref = o
            mean = np.ptp(o['disc_dT_dr'], axis=2)
            ctx.check(bool(np.all(mean[:, 1:] > 0)), 'turn:uneven', 'a side stream leaves the disc evenly loaded')
        for key in ('Q', 'P', 'Cp', 'eta', 'thrust_coefficient', 'blade_thrust_distribution', 'blade_torque_distribution'):
            ctx.close(o[key], ref[key], 'turn:' + key, '%s with the side stream turned by %d stations' % (key, k), rtol=2e-6, atol=1e-8)
        ctx.close(o['F'][:, 0], ref['F'][:, 0], 'turn:F', 'thrust with the side stream turned', rtol=2e-6)
        found = any(R.same(o['disc_dT_dr'], np.roll(ref['disc_dT_dr'], s * k, axis=2), 2e-6, 1e-6) for s in (1, -1))
        ctx.check(found, 'turn:disc', 'the loading does not turn with the side stream (%d stations)' % k)
        ctx.state(('turn', g, pol, k))
        ctx.trace()
    c = copy.deepcopy(c0)
    c['vz'] = side * 1.
    f = lambda c: outs(spin(p, c)[2])
    R.rowcheck(ctx, 'side', f, c, rtol=5e-6, atol=1e-7)
    B, N = p.number_of_blades, len(p.radius_distribution)
    dr = np.gradient(p.radius_distribution) * 1.
    dr[0], dr[-1] = dr[0] / 2, dr[-1] / 2
    o = f(c)
    ctx.close(o['thrust_per_blade'][:, 0], (o['disc_dT_dr'].mean(axis=2) * dr).sum(axis=1), 'turn:sum', 'blade thrust is the mean over the disc', rtol=1e-9)
    ctx.close(o['torque_per_blade'][:, 0], (o['disc_dQ_dr'].mean(axis=2) * dr).sum(axis=1), 'turn:sum', 'blade torque is the mean over the disc', rtol=1e-9)


def r_scale(ctx, g, pol):
    p = rotor(g, pol)
    c0 = points(g)
    a = outs(spin(p, c0)[2])
    for k in (.25, .5, 3.):
        c = copy.deepcopy(c0)
        c['rho'], c['mu'] = c['rho'] * k, c['mu'] * k
        b = outs(spin(p, c)[2])
        for key in ('F', 'Q', 'P'):
            ctx.close(b[key], a[key] * k, 'scale:density', '%s with %g times the density at the same Reynolds number' % (key, k), rtol=2e-6, atol=1e-6)
        for key in ('Cp', 'eta', 'thrust_coefficient', 'torque_coefficient', 'figure_of_merit'):
            ctx.close(b[key], a[key], 'scale:density', '%s with another density' % key, rtol=2e-6)
        q = rotor(g, pol)
        q.tip_radius, q.hub_radius, q.radius_distribution, q.chord_distribution = q.tip_radius * k, q.hub_radius * k, q.radius_distribution * k, q.chord_distribution * k
        c = copy.deepcopy(c0)
        c['w'], c['mu'] = c['w'] / k, c['mu'] * k
        b = outs(spin(q, c)[2])
        for key, e in (('F', 2), ('Q', 3), ('P', 2)):
            ctx.close(b[key], a[key] * k ** e, 'scale:size', '%s of a rotor %g times as large at the same tip speed' % (key, k), rtol=2e-6, atol=1e-6)
        for key in ('Cp', 'eta', 'thrust_coefficient', 'torque_coefficient', 'tip_mach'):
            ctx.close(b[key], a[key], 'scale:size', '%s of a larger rotor' % key, rtol=2e-6)
        if not pol:
            pass
        ctx.state(('scale', g, pol, k))
        ctx.trace()


def r_pitch(ctx, g, pol):
    c0 = points(g, 3)
    for flat, d in itertools.product((False, True), (0., -.05, .04)):
        q = rotor(g, pol)
        q.twist_distribution = q.twist_distribution + d
        q.use_2d_analysis = flat
        want = outs(spin(q, c0)[2])
        for shape in ('scalar', 'column'):
            p = rotor(g, pol)
            p.variable_pitch = True
            p.use_2d_analysis = flat
            cmd = d if shape == 'scalar' else d * np.ones((3, 1))
            got = outs(spin(p, c0, pitch=cmd)[2])
            for k in want:
                ctx.close(got[k], want[k], 'pitch:' + k, '%s with a pitch of %g (%s, azimuthal %s), against as much twist' % (k, d, shape, flat), rtol=2e-6, atol=1e-8 * (1 + np.max(np.abs(np.nan_to_num(want[k])))))
            ctx.state(('pitch', g, pol, flat, d, shape))
            ctx.trace()
    p = rotor(g, pol)
    p.variable_pitch = True
    for flat in (False, True):
        p.use_2d_analysis = flat
        c = dict(c0, pc=np.linspace(-.05, .05, 3)[:, None])
        f = lambda c: outs(spin(p, {k: v for k, v in c.items() if k != 'pc'}, pitch=c['pc'])[2])
        R.rowcheck(ctx, 'pitch%s' % ('2d' if flat else ''), f, c, rtol=5e-6, atol=1e-7, pairs=not flat)


def rotv(v):
    a = np.linalg.norm(v)
    if a == 0:
        return np.eye(3)
    k = np.array(v) / a
    K = np.array([[0, -k[2], k[1]], [k[2], 0, -k[0]], [-k[1], k[0], 0]])
    return np.eye(3) + np.sin(a) * K + (1 - np.cos(a)) * K @ K


def r_orient(ctx, which):
    """thrust acts along the rotor axis in body axes; only the stream along the axis counts for the axial analysis"""
    g = (0, 1, 3)[which]
    c0 = points(g, 3)
    base = outs(spin(rotor(g), c0)[2])
    for cls in ('Propeller', 'Lift_Rotor', 'Rotor'):
        for ang, tilt, th in itertools.product(([0., 0., 0.], [0., .3, 0.], [0., np.pi / 2, 0.], [0., 0., .2], [.1, .2, -.1]), (0., .4, np.pi / 2), (0., .1, -.3)):
            p = rotor(g, cls=cls)
            p.orientation_euler_angles = list(ang)
            Ry = np.diag([-1., 1., -1.])
            T = Ry @ rotv(np.array(ang) + [0., tilt, 0.]) @ Ry
            ax = T[:, 0]                                    # rotor axis in body axes: a positive tilt lifts it
            c = copy.deepcopy(c0)
            n = 3
            body = c0['V'] * ax[None, :]                    # stream along the rotor axis, in body axes
            M = cond(dict(c0, th=np.full((n, 1), th))).frames.body.transform_to_inertial
            iner = np.einsum('nij,nj->ni', M, body)
            c['V'], c['vy'], c['vz'], c['th'] = iner[:, :1].copy(), iner[:, 1:2].copy(), iner[:, 2:].copy(), np.full((n, 1), th)
            for shape in (np.array([[tilt]]), np.full((n, 1), tilt)):
                q, con, r = spin(p, c, tilt=shape)
                o = outs(r)
                for k in ('Q', 'P', 'Cp', 'eta'):
                    ctx.close(o[k], base[k], 'orient:' + k, '%s of %s turned by %s and tilted by %g at attitude %g' % (k, cls, ang, tilt, th), rtol=5e-6)
                ctx.close(o['F'], base['F'][:, :1] * ax[None, :], 'orient:F', 'thrust of %s turned by %s, tilted by %g' % (cls, ang, tilt), rtol=5e-6, atol=1e-6 * np.max(np.abs(base['F'])))
                ctx.close(q.body_to_prop_vel() @ q.prop_vel_to_body(), np.broadcast_to(np.eye(3), np.shape(q.body_to_prop_vel())), 'orient:inverse', 'the way back', rtol=0, atol=1e-12)
            ctx.state(('orient', g, cls, tuple(ang), tilt, th))
            ctx.trace()


def r_stop(ctx, flat):
    """rows at rest, without throttle or turning backwards"""
    p = rotor(1)
    p.use_2d_analysis = bool(flat)
    c0 = points(1, 3)
    base = outs(spin(p, c0)[2])
    for i in range(3):
        for what in ('idle', 'negative', 'rest'):
            c = copy.deepcopy(c0)
            if what == 'rest':
                c['w'][i] = 0.
            else:
                c['thr'][i] = 0. if what == 'idle' else -.5
            r = spin(p, c)[2]
            o = outs(r)
            for k in ('F', 'Q', 'P'):
                ctx.close(o[k][i], 0 * o[k][i], 'stop:' + k, '%s of the rotor in row %d (%s)' % (k, i, what), rtol=0, atol=0)
            if what == 'rest':
                for k in ('Cp', 'thrust_coefficient', 'eta'):
                    ctx.close(o[k][i], 0 * base[k][i], 'stop:' + k, '%s at rest' % k, rtol=0, atol=0)
            rest = [j for j in range(3) if j != i]
            if what != 'rest':
                for k in ('F', 'Q', 'P', 'Cp', 'eta', 'blade_thrust_distribution'):
                    ctx.close(np.asarray(o[k])[rest], np.asarray(base[k])[rest], 'stop:others', '%s of the other rows when row %d is %s' % (k, i, what), rtol=2e-6, atol=1e-7)
            ctx.state(('stop', flat, i, what))
            ctx.trace()


def r_stream(ctx, k):
    """an uneven stream that is even all over the disc is the same as flying faster; a swirl is the same as turning slower"""
    p = rotor((1, 3)[k])
    p.nonuniform_freestream = True
    c0 = points((1, 3)[k], 3)
    Na, N = p.number_azimuthal_stations, len(p.radius_distribution)
    for du in (-3., 0., 5.):
        q = copy.deepcopy(p)
        q.axial_velocities_2d, q.tangential_velocities_2d, q.radial_velocities_2d = np.full((3, N, Na), du), np.zeros((3, N, Na)), np.zeros((3, N, Na))
        o = outs(spin(q, c0)[2])
        c = copy.deepcopy(c0)
        c['V'] = c['V'] + du
        plain = rotor((1, 3)[k])
        plain.use_2d_analysis = True
        b = outs(spin(plain, c)[2])
        for key in ('F', 'Q', 'P', 'Cp', 'thrust_coefficient', 'disc_dT_dr'):
            ctx.close(o[key], b[key], 'stream:axial', '%s in a stream %g faster' % (key, du), rtol=5e-6, atol=1e-6)
        ctx.state(('stream', k, du))
        ctx.trace()
    for fr in (-.1, .05, .2):
        q = copy.deepcopy(p)
        sw = fr * c0['w'][:, :, None] * p.radius_distribution[None, :, None] * np.ones((3, N, Na))
        q.axial_velocities_2d, q.tangential_velocities_2d, q.radial_velocities_2d = np.zeros((3, N, Na)), sw, np.zeros((3, N, Na))
        o = outs(spin(q, c0)[2])
        c = copy.deepcopy(c0)
        c['w'] = c['w'] * (1 - fr)
        plain = rotor((1, 3)[k])
        plain.use_2d_analysis = True
        b = outs(spin(plain, c)[2])
        for key in ('F', 'Q', 'disc_dT_dr', 'disc_dQ_dr'):
            ctx.close(o[key], b[key], 'stream:swirl', '%s in a stream swirling with %g of the rotor speed' % (key, fr), rtol=5e-6, atol=1e-6)
        ctx.close(o['P'], b['Q'] * c0['w'], 'stream:power', 'power', rtol=5e-6)
        ctx.state(('swirl', k, fr))
        ctx.trace()
    # a stream that changes from row to row and around the disc: rows stay independent
    i = np.arange(3)[:, None, None]
    psi = 2 * np.pi * np.arange(Na) / Na
    wave = (1. + i) * np.cos(psi)[None, None, :] * np.linspace(.5, 1., N)[None, :, None]

    def f(c):
        q = copy.deepcopy(p)
        q.axial_velocities_2d, q.tangential_velocities_2d, q.radial_velocities_2d = c['ua'], c['ut'], c['ur']
        return outs(spin(q, {k: v for k, v in c.items() if k not in ('ua', 'ut', 'ur')})[2])
    R.rowcheck(ctx, 'stream', f, dict(c0, ua=wave, ut=.5 * wave, ur=.2 * wave), rtol=5e-6, atol=1e-7, pairs=False)


def r_sweep(ctx, k):
    """blade sweep moves the stations around the disc; with an axial stream it changes nothing else"""
    p = rotor(1)
    c0 = points(1, 3)
    q = copy.deepcopy(p)
    r = q.radius_distribution
    q.sweep_distribution = .05 * (r - r[0]) ** 2
    p.use_2d_analysis = True
    a, b = spin(p, c0)[2], spin(q, c0)[2]
    for key in ('F', 'Q', 'P', 'Cp', 'eta', 'disc_dT_dr'):
        ctx.close(outs(b)[key], outs(a)[key], 'sweep:' + key, '%s of a swept blade in an axial stream' % key, rtol=5e-6, atol=1e-6)
    d = b[4].disc_azimuthal_distribution - a[4].disc_azimuthal_distribution
    ctx.close(d, np.broadcast_to(np.arctan(q.sweep_distribution / r)[None, :, None], d.shape), 'sweep:angle', 'azimuth offset of the swept stations', rtol=1e-9, atol=1e-12)
    ctx.state(('sweep', k))
    ctx.trace()


def r_design(ctx, B, k):
    """the designed blade satisfies the minimum induced loss conditions it was designed for"""
    from SUAVE.Methods.Propulsion import propeller_design
    V, Rt, om, alt, Cl = [(50., .9, 220., 1000., .7), (70., 1.2, 180., 3000., .6), (30., .5, 350., 0., .8), (60., 1., 200., 2000., .5)][k]
    atm = SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(alt)
    rho, T, a, mu = [float(np.ravel(x)[0]) for x in (atm.density, atm.temperature, atm.speed_of_sound, atm.dynamic_viscosity)]
    nu = mu / rho
    q = .5 * rho * V ** 2 * np.pi * Rt ** 2
    for kind, load in (('T', .02), ('T', .08), ('T', .2), ('P', .05), ('P', .15), ('P', .3)):
        for N, pol in ((10, 0), (20, 0), (20, 1)):
            p = SUAVE.Components.Energy.Converters.Propeller()
            p.number_of_blades, p.tip_radius, p.hub_radius, p.angular_velocity, p.freestream_velocity, p.design_Cl, p.design_altitude = B, Rt, .12 * Rt, om, V, Cl, alt
            if kind == 'T':
                p.design_thrust = load * q
            else:
                p.design_power = load * q * V
            if pol:
                s = section(0)
                geo = Data()
                geo.max_thickness, geo.thickness_to_chord = .11, .11
                s.geometry = geo
                p.append_airfoil(s)
                p.airfoil_polar_stations = [0] * N
            p = propeller_design(p, number_of_stations=N)
            chi = np.linspace(.12, 1, N + 1)[:-1]
            lam = V / (om * Rt)
            x = om * chi * Rt / V

            def shape(z):
                ph_t = np.arctan(lam * (1 + z / 2))
                phi = np.arctan(lam * (1 + z / 2) / chi)
                F = 2 / np.pi * np.arccos(np.exp(-B / 2. * (1 - chi) / np.sin(ph_t)))
                Gc = F * x * np.cos(phi) * np.sin(phi)
                Wc = 4 * np.pi * lam * Gc * V * Rt * z / (Cl * B)
                Ma, Re = Wc / a, Wc / nu
                if pol:
                    pd = s.polars
                    lo, hi = np.full(N, -.1), np.full(N, .3)
                    for _ in range(60):
                        m = .5 * (lo + hi)
                        low = bilin(Re, m, pd.reynolds_numbers, pd.angle_of_attacks, pd.lift_coefficients) < Cl
                        lo, hi = np.where(low, m, lo), np.where(low, hi, m)
                    al = lo
                    cd = bilin(Re, al, pd.reynolds_numbers, pd.angle_of_attacks, pd.drag_coefficients)
                else:
                    al = Cl / (2 * np.pi) * np.ones(N)
                    cd = (.108 * Cl ** 4 - .2612 * Cl ** 3 + .181 * Cl ** 2 - .0139 * Cl + .0278) * (5e4 / Re) ** .2
                Tp = 1 + .035 * Ma ** 2 + .45 * 1.78 * Ma ** 2
                Rr = Tp ** 2.5 * (Tp * T + 110.4) / (T + 110.4)
                e = cd / Tp * Rr ** -.2 / Cl
                W = V * (1 + z / 2 * np.cos(phi) ** 2 * (1 - e * np.tan(phi))) / np.sin(phi)
                d = chi[1] - chi[0]
                I1 = np.sum(4 * chi * Gc * (1 - e * np.tan(phi))) * d
                I2 = lam * np.sum(2 * Gc * (1 - e * np.tan(phi)) * (1 + e / np.tan(phi)) * np.sin(phi) * np.cos(phi)) * d
                J1 = np.sum(4 * chi * Gc * (1 + e / np.tan(phi))) * d
                J2 = np.sum(2 * chi * Gc * (1 + e / np.tan(phi)) * (1 - e * np.tan(phi)) * np.cos(phi) ** 2) * d
                return Wc / W, al + phi, I1, I2, J1, J2
            n, D = om / (2 * np.pi), 2 * Rt
            Tc = float(np.ravel(p.design_thrust_coefficient)[0]) * rho * n ** 2 * D ** 4 / q
            Pc = float(np.ravel(p.design_power_coefficient)[0]) * rho * n ** 3 * D ** 5 / (q * V)
            # the displacement velocity that gives the thrust
            lo, hi = 1e-6, 1.
            for _ in range(50):
                z = .5 * (lo + hi)
                c, be, I1, I2, J1, J2 = shape(z)
                val = I1 * z - I2 * z ** 2 if kind == 'T' else J1 * z + J2 * z ** 2
                if val < load:
                    lo = z
                else:
                    hi = z
            ctx.close(Tc, I1 * z - I2 * z * z, 'design:thrust', '%s load %g: thrust of the design' % (kind, load), rtol=1e-6)
            ctx.close(Pc, J1 * z + J2 * z * z, 'design:power', '%s load %g: power of the design' % (kind, load), rtol=1e-6)
            ctx.close(Tc if kind == 'T' else Pc, load, 'design:load', 'the design carries the load asked for', rtol=1e-6)
            ctx.close(p.chord_distribution, c, 'design:chord', 'chord', rtol=1e-5)
            ctx.close(p.twist_distribution, be, 'design:twist', 'twist', rtol=1e-5)
            ctx.close(p.radius_distribution, chi * Rt, 'design:radius', 'stations', rtol=1e-12)
            ctx.close(float(np.ravel(p.design_torque)[0]) * om, float(np.ravel(p.design_power)[0]), 'design:torque', 'torque', rtol=1e-9)
            ctx.close(float(np.ravel(p.design_thrust)[0]), Tc * q, 'design:stored', 'stored thrust', rtol=1e-9)
            ctx.close(float(np.ravel(p.design_power)[0]), Pc * q * V, 'design:stored', 'stored power', rtol=1e-9)
            area = B * np.sum(.5 * (c[1:] + c[:-1])) * (chi[1] - chi[0]) * Rt
            ctx.close(float(p.blade_solidity), area / (np.pi * Rt ** 2), 'design:solidity', 'solidity', rtol=1e-5)
            ctx.close(p.max_thickness_distribution / p.chord_distribution, (.11 if pol else p.thickness_to_chord) * np.ones(N), 'design:thickness', 'thickness', rtol=1e-6)
            ctx.state(('design', B, k, kind, load, N, pol))
            ctx.trace()


def slip_ref(p, va, vt, X, Y):
    """induced velocity behind the disc at points in its wake"""
    ox, oy = p.origin[0][0], p.origin[0][1]
    r = p.radius_distribution
    s = X - ox
    kd = 1 + s / np.sqrt(s ** 2 + p.tip_radius ** 2)
    d = np.abs(Y - oy)
    inside = (d > r[0]) & (d < r[-1])
    out = np.zeros((len(X), 3))
    out[inside, 0] = kd[inside] * np.interp(d[inside], r, va)
    sign = np.where(Y < oy, -1., 1.)
    out[inside, 2] = sign[inside] * kd[inside] * np.interp(d[inside], r, vt) * p.rotation
    return out


def r_slip(ctx, k):
    from SUAVE.Methods.Propulsion.Rotor_Wake.Fidelity_Zero.compute_fidelity_zero_induced_velocity import compute_fidelity_zero_induced_velocity as slip
    X, Y = [v.ravel() for v in np.meshgrid(np.linspace(-2., 4., 7), np.linspace(-3.3, 3.3, 41))]
    ev = Data()
    ev.XC, ev.YC, ev.ZC = X, Y, 0 * X
    c0 = points(1)
    for rots, n in itertools.product(([(0.3, 1.)], [(.3, 1.), (.1, -2.)], [(0., .5), (-.5, -.5), (1., 2.)]), (1, 2, 5)):
        for sg in itertools.product((1, -1), repeat=len(rots)):
            box = Data()
            want = np.zeros((n, len(X), 3))
            full = []
            for j, (ox, oy) in enumerate(rots):
                p = rotor((1, 0, 4)[j])
                p.tag = 'prop%d' % j
                p.origin, p.rotation = [[ox, oy, 0.]], sg[j]
                c = R.take(points((1, 0, 4)[j]), range(n))
                q, con, r = spin(p, c)
                box[q.tag] = q
                full.append((q, r[4]))
            # discs apart from one another: every point lies behind at most one
            for q, o in full:
                for i in range(n):
                    w = slip_ref(q, o.blade_axial_induced_velocity[i], o.blade_tangential_induced_velocity[i], X, Y)
                    want[i] = np.where(w != 0, w, want[i])
            if k == 0:
                got = slip(ev, box, n)
            else:
                got = sum(q.Wake.evaluate_wake_velocities(q, ev, n) for q, o in full)
            overlap = sum((np.abs(Y - q.origin[0][1]) < q.tip_radius).astype(int) for q, o in full) > 1
            ok = ~overlap
            ctx.close(got[:, ok], want[:, ok], 'slip:velocity', 'stream behind %d rotors at %d control points' % (len(rots), n), rtol=1e-7, atol=1e-9)
            ctx.state(('slip', k, len(rots), n, sg))
            ctx.trace()


def r_rhs(ctx, k):
    """the slipstreams of every rotor of every network reach the wing, at every control point"""
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.compute_RHS_matrix import compute_RHS_matrix
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift import generate_vortex_distribution
    NW = SUAVE.Components.Energy.Networks

    class Blow:
        def __init__(self, v):
            self.v = np.array(v, dtype=float)

        def evaluate_slipstream(self, p, geometry, n, wing=None):
            m = len(geometry.vortex_distribution.XC)
            return np.arange(1, n + 1)[:, None, None] * self.v[None, None, :] * np.ones((n, m, 3))
    v = SUAVE.Vehicle()
    w = SUAVE.Components.Wings.Main_Wing()
    w.spans.projected, w.chords.root, w.chords.tip, w.aspect_ratio, w.areas.reference, w.sweeps.quarter_chord, w.taper, w.symmetric = 8., 1.2, .8, 8., 8., .1, .66, True
    w.twists.root, w.twists.tip, w.dihedral, w.chords.mean_aerodynamic = .05, .02, .03, 1.
    v.append_component(w)
    v.reference_area = 8.
    st = SUAVE.Analyses.Aerodynamics.Vortex_Lattice().settings
    st.number_spanwise_vortices, st.number_chordwise_vortices = 5, 2
    base = generate_vortex_distribution(v, st)
    n = 3
    con = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    con.expand_rows(n)
    con.aerodynamics.angle_of_attack = np.array([[.0], [.05], [-.03]])
    con.aerodynamics.side_slip_angle = np.array([[0.], [.02], [.0]])
    con.freestream.velocity = np.array([[40.], [50.], [60.]])
    z = np.zeros((n, 1))
    con.stability.dynamic.pitch_rate, con.stability.dynamic.roll_rate, con.stability.dynamic.yaw_rate = z, z, z

    def rhs(groups):
        x = copy.deepcopy(v)
        x.vortex_distribution = copy.deepcopy(base)
        for j, (cls, props, rots) in enumerate(groups):
            net = getattr(NW, cls)()
            net.tag = 'net%d' % j
            for name, vs in (('propellers', props), ('lift_rotors', rots)):
                for i, u in enumerate(vs):
                    p = Data()
                    p.tag, p.Wake = 'r%d%d%s' % (j, i, name), Blow(u)
                    net[name].append(p)
            x.append_component(net) if hasattr(x, 'append_component') else x.networks.append(net)
        VD = x.vortex_distribution
        m = int(np.sum(VD.leading_edge_indices))
        VD.XBAR, VD.ZBAR = np.ones(m), np.ones(m) * 0.
        ph = np.arctan((VD.ZBC - VD.ZAC) / (VD.YBC - VD.YAC)) * np.ones((n, 1))
        d = np.arctan((VD.ZC - VD.ZCH) / ((VD.XC - VD.XCH) * np.ones((n, 1))))
        return compute_RHS_matrix(d, ph, con, st, x, propeller_wake_model=bool(groups))
    V1, V2, V3 = (3., 0., 1.), (2., .5, -1.), (-1., 0., .7)
    bp = 'Battery_Propeller'
    lc = 'Lift_Cruise'

    def total(vs):
        s = tuple(np.sum(np.array(vs), axis=0)) if vs else (0., 0., 0.)
        return rhs([(bp, [s], [])])
    for groups in ([(bp, [V1, V2], [])], [(bp, [V1], []), (bp, [V2], [])], [(bp, [V1, V3], []), (bp, [V2], []), (bp, [V3], [])], [(lc, [V1], [V2])], [(lc, [V1], [V2, V3]), (bp, [V3], [])], [(lc, [], [V2]), (lc, [V1], [])], [(bp, [V1], []), (lc, [], [V3])]):
        vs = [u for _, a, b in groups for u in list(a) + list(b)]
        got, want = rhs(groups), total(vs)
        for key in ('RHS', 'Vx_ind_total', 'Vz_ind_total', 'V_distribution'):
            if key in want.keys():
                ctx.close(np.asarray(got[key]), np.asarray(want[key]), 'rhs:' + key, '%s with rotors %s' % (key, [(g[0], len(g[1]), len(g[2])) for g in groups]), rtol=1e-9, atol=1e-12)
        plain = rhs([])
        ctx.check(not np.allclose(np.asarray(got['RHS']), np.asarray(plain['RHS'])), 'rhs:none', 'no slipstream reaches the wing')
        ctx.state(('rhs', tuple((g[0], len(g[1]), len(g[2])) for g in groups)))
        ctx.trace()
