"""A small vehicle with closed-form aerodynamics and propulsion, every mission segment type with its commanded quantities,
and an independent check of everything a finished segment says about itself."""
import numpy as np

DEG = np.pi / 180.
S_REF, MASS, LANDING = 30., 6000., 5400.
LIFT = 90000.        # full lift thrust of the transition stub [N]


class Aero(object):
    """CL = CL0 + a alpha, CD = CD0 + k CL^2, row by row"""
    def __init__(self, D, CL0=0.25, a=5.2, CD0=0.022, k=0.045, clmax=1.6):
        self.CL0, self.a, self.CD0, self.k = CL0, a, CD0, k
        self.geometry = D(reference_area=S_REF)
        self.settings = D(maximum_lift_coefficient=clmax)
        self.D = D
        self.calls = 0

    def coefficients(self, alpha):
        CL = self.CL0 + self.a * alpha
        return CL, self.CD0 + self.k * CL ** 2

    def __call__(self, state):
        self.calls += 1
        CL, CD = self.coefficients(state.conditions.aerodynamics.angle_of_attack)
        r = self.D()
        r.lift = self.D(total=CL * 1.)
        r.drag = self.D(total=CD * 1.)
        return r

    def __deepcopy__(self, memo):
        return self


class Energy(object):
    """thrust = throttle * F0 * (rho/1.225)^0.7 along the body axes (ax, az); fuel flow = sfc * thrust"""
    def __init__(self, D, F0=40000., sfc=2.0e-5, axis=(1., 0.)):
        self.D, self.F0, self.sfc, self.axis = D, F0, sfc, axis
        self.network = D()

    def evaluate_thrust(self, state):
        c = state.conditions
        F = c.propulsion.throttle * self.F0 * (c.freestream.density / 1.225) ** 0.7
        vec = np.zeros((len(F), 3))
        vec[:, 0] = F[:, 0] * self.axis[0]
        vec[:, 2] = F[:, 0] * self.axis[1]
        if 'throttle_lift' in c.propulsion:
            vec[:, 2] -= c.propulsion.throttle_lift[:, 0] * LIFT
        r = self.D()
        r.thrust_force_vector = vec
        r.vehicle_mass_rate = self.sfc * F + 0.01
        r.network_y_axis_rotation = np.zeros((len(F), 1))
        return r

    def __deepcopy__(self, memo):
        return self


def analyses(SUAVE, axis=(1., 0.), **kw):
    from SUAVE.Core import Data

    class D(Data):
        pass
    a = SUAVE.Analyses.Analysis.Container()
    a.atmosphere = SUAVE.Analyses.Atmospheric.US_Standard_1976()
    a.planet = SUAVE.Analyses.Planets.Planet()
    a.aerodynamics = Aero(D)
    a.stability = None
    a.noise = None
    a.energy = Energy(D, axis=axis, **kw)
    w = D()
    w.vehicle = D()
    w.vehicle.mass_properties = D(takeoff=MASS, landing=LANDING)
    a.weights = w
    return a


def grid(**k):
    """cross product of lists -> list of dicts"""
    out = [{}]
    for key, vals in k.items():
        out = [dict(o, **{key: v}) for o in out for v in vals]
    return out


# ------------------------------------------------------------------ segment types
# name -> (module path, list of commanded parameter sets, axis, kind)
def table(quick):
    q = quick
    T = {}
    alts = [(0., 2500.), (9500., 12500.)] if q else [(0., 2500.), (2000., 9000.), (9500., 12500.), (100., 700.)]

    def climb(name, extra, **kw):
        ps = []
        for a0, a1 in alts:
            for e in extra:
                ps.append(dict(e, altitude_start=a0, altitude_end=a1))
        T['Climb.' + name] = dict(params=ps, **kw)
    rates = [3., 9.] if q else [1.5, 3., 9.]
    climb('Constant_Speed_Constant_Rate', grid(air_speed=[110., 150.], climb_rate=rates))
    climb('Constant_Speed_Constant_Angle', grid(air_speed=[110., 150.], climb_angle=[2 * DEG, 5 * DEG]))
    climb('Constant_EAS_Constant_Rate', grid(equivalent_air_speed=[95., 110.], climb_rate=rates))
    climb('Constant_CAS_Constant_Rate', grid(calibrated_air_speed=[95., 110.], climb_rate=rates))
    climb('Constant_Mach_Constant_Rate', grid(mach_number=[.4, .55], climb_rate=rates))
    climb('Constant_Mach_Constant_Angle', grid(mach=[.4, .55], climb_angle=[2 * DEG, 4 * DEG]))
    climb('Constant_Mach_Linear_Altitude', grid(mach=[.4, .55], distance=[60e3, 150e3]))
    climb('Constant_Speed_Linear_Altitude', grid(air_speed=[110., 150.], distance=[60e3, 150e3]))
    climb('Constant_Dynamic_Pressure_Constant_Rate', grid(dynamic_pressure=[6500., 9000.], climb_rate=rates))
    climb('Constant_Dynamic_Pressure_Constant_Angle', grid(dynamic_pressure=[6500., 9000.], climb_angle=[2 * DEG, 4 * DEG]))
    climb('Constant_Throttle_Constant_Speed', grid(air_speed=[120., 150.], throttle=[.7, 1.]))
    climb('Linear_Mach_Constant_Rate', grid(mach_start=[.35, .5], mach_end=[.4, .55], climb_rate=rates))
    climb('Linear_Speed_Constant_Rate', grid(air_speed_start=[110., 150.], air_speed_end=[120., 150.], climb_rate=rates))

    def cruise(name, extra, **kw):
        T['Cruise.' + name] = dict(params=[dict(e, altitude=a) for a in ([500., 11500.] if q else [0., 500., 4000., 11500.]) for e in extra], **kw)
    cruise('Constant_Speed_Constant_Altitude', grid(air_speed=[110., 180.], distance=[5e3, 400e3]))
    cruise('Constant_Speed_Constant_Altitude_Loiter', grid(air_speed=[110., 180.], time=[60., 3600.]))
    cruise('Constant_Mach_Constant_Altitude', grid(mach=[.4, .6], distance=[5e3, 400e3]))
    cruise('Constant_Mach_Constant_Altitude_Loiter', grid(mach=[.4, .6], time=[60., 3600.]))
    cruise('Constant_Dynamic_Pressure_Constant_Altitude', grid(dynamic_pressure=[6500., 9000.], distance=[5e3, 400e3]))
    cruise('Constant_Dynamic_Pressure_Constant_Altitude_Loiter', grid(dynamic_pressure=[6500., 9000.], time=[60., 3600.]))
    cruise('Constant_Acceleration_Constant_Altitude', grid(acceleration=[.3, 1.], air_speed_start=[110.], air_speed_end=[125., 170.]))
    cruise('Constant_Throttle_Constant_Altitude', grid(throttle=[.8, 1.], air_speed_start=[110.], air_speed_end=[140., 150.]))
    T['Cruise.Constant_Pitch_Rate_Constant_Altitude'] = dict(
        params=[dict(altitude=a, pitch_rate=r, pitch_initial=1. * DEG, pitch_final=4. * DEG) for a in (500., 4000.) for r in (.002, .01)],
        unknown=dict(velocity=120.))

    def descent(name, extra, **kw):
        T['Descent.' + name] = dict(params=[dict(e, altitude_start=b, altitude_end=a) for a, b in alts for e in extra], **kw)
    descent('Constant_Speed_Constant_Rate', grid(air_speed=[110., 150.], descent_rate=[2., 4.]))
    descent('Constant_Speed_Constant_Angle', grid(air_speed=[110., 150.], descent_angle=[1 * DEG, 2 * DEG]))
    descent('Constant_EAS_Constant_Rate', grid(equivalent_air_speed=[95., 110.], descent_rate=[2., 4.]))
    descent('Constant_CAS_Constant_Rate', grid(calibrated_air_speed=[95., 110.], descent_rate=[2., 4.]))
    descent('Linear_Mach_Constant_Rate', grid(mach_start=[.4, .5], mach_end=[.4, .5], descent_rate=[2., 4.]))
    T['Hover.Hover'] = dict(params=grid(altitude=[0., 3000.], time=[30., 600.]), axis=(0., -1.), F0=120000.)
    T['Hover.Climb'] = dict(params=grid(altitude_start=[0., 1000.], altitude_end=[1100., 3000.], climb_rate=[1., 5.]), axis=(0., -1.), F0=120000.)
    T['Hover.Descent'] = dict(params=grid(altitude_start=[1100., 3000.], altitude_end=[0., 1000.], descent_rate=[1., 5.]), axis=(0., -1.), F0=120000.)
    T['Single_Point.Set_Speed_Set_Altitude'] = dict(params=grid(altitude=[0., 11500.], air_speed=[110., 170.], x_accel=[0., .4], z_accel=[0., -.5]), single=True)
    T['Single_Point.Set_Speed_Set_Throttle'] = dict(params=grid(altitude=[0., 11500.], air_speed=[110., 170.], throttle=[.3, .9], z_accel=[0., -.5]), single=True)
    T['Single_Point.Set_Speed_Set_Altitude_No_Propulsion'] = dict(params=grid(altitude=[0., 11500.], air_speed=[110., 170.], z_accel=[0., -.5]), single=True)
    T['Transition.Constant_Acceleration_Constant_Pitchrate_Constant_Altitude'] = dict(
        params=grid(altitude=[500., 4000.], acceleration=[.4, 1.], air_speed_start=[100.], air_speed_end=[120., 150.], pitch_initial=[1 * DEG, 5 * DEG], pitch_final=[3 * DEG]), free_body=True)
    T['Transition.Constant_Acceleration_Constant_Angle_Linear_Climb'] = dict(
        params=grid(altitude_start=[500.], altitude_end=[600., 900.], air_speed=[100., 120.], climb_angle=[2 * DEG, 5 * DEG], acceleration=[.2, .6], pitch_initial=[1 * DEG], pitch_final=[3 * DEG]), free_body=True)
    T['Ground.Takeoff'] = dict(params=grid(altitude=[0., 1500.], velocity_start=[0., 20.], velocity_end=[50., 70.], friction_coefficient=[.02, .05], throttle=[1., .8]), ground=True)
    T['Ground.Landing'] = dict(params=grid(altitude=[0., 1500.], velocity_start=[60., 70.], velocity_end=[10., 25.], friction_coefficient=[.2, .4], throttle=[0.]), ground=True)
    return T


def unpack_lift(segment):
    segment.state.conditions.propulsion.throttle_lift = segment.state.unknowns.throttle_lift * 1.


def unpack_thrust(segment):
    segment.state.conditions.propulsion.throttle = segment.state.unknowns.throttle * 1.


def build(SUAVE, name, spec, params, n=8, dev=0., course=0., start_alt_given=True, an=None):
    pack, cls = name.split('.')
    seg = getattr(getattr(SUAVE.Analyses.Mission.Segments, pack), cls)()
    seg.tag = cls.lower()
    kw = {}
    if 'F0' in spec:
        kw['F0'] = spec['F0']
    seg.analyses.update(an or analyses(SUAVE, axis=spec.get('axis', (1., 0.)), **kw))
    for k, v in params.items():
        if k == 'altitude_start' and not start_alt_given:
            continue
        if k == 'altitude' and not start_alt_given:
            seg.altitude = None
            continue
        seg[k] = v
    seg.temperature_deviation = dev
    seg.true_course = course
    if not spec.get('single'):
        seg.state.numerics.number_control_points = n
    if spec.get('free_body'):
        # these two segments leave the unknowns to the network: a cruise throttle and a lift throttle, pitch is commanded
        one = seg.state.ones_row
        seg.state.unknowns.throttle = one(1) * 0.5
        seg.state.unknowns.throttle_lift = one(1) * 0.1
        seg.process.iterate.unknowns.network = unpack_lift
        seg.process.iterate.unknowns.mission = unpack_thrust
    for k, v in spec.get('unknown', {}).items():
        seg.state.unknowns[k] = seg.state.ones_row(1) * v
    return seg


# ------------------------------------------------------------------ independent relations
def rot_y(a):
    """inertial <- rotated about y by a (pitch up positive, z down): columns are the rotated axes"""
    c, s = np.cos(a), np.sin(a)
    return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])


def cheb(n):
    x = 0.5 * (1 - np.cos(np.pi * np.arange(n) / (n - 1)))
    return x


def barycentric_diff(x):
    """differentiation matrix of polynomial interpolation on the points x (independent of SUAVE)"""
    n = len(x)
    w = np.array([1. / np.prod(x[j] - np.delete(x, j)) for j in range(n)])
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            if i != j:
                D[i, j] = w[j] / w[i] / (x[i] - x[j])
        D[i, i] = -D[i].sum()
    return D


def poly_int(x, f):
    """integral from x[0] of the lowest-degree polynomial through (x[1:], f[1:]) -- what a spectral integration operator with F(x0)=0 computes"""
    D = barycentric_diff(x)
    F = np.zeros(len(x))
    F[1:] = np.linalg.solve(D[1:, 1:], f[1:])
    return F


G0_RADIUS = (9.80665, 6356766.0)


def gravity(SUAVE, h):
    f = SUAVE.Attributes.Planets.Earth()
    return f.sea_level_gravity * (f.mean_radius / (f.mean_radius + h)) ** 2


def col(a):
    return np.asarray(a, dtype=float)[:, 0]


def check_state(ctx, SUAVE, seg, key, spec, initials=None, t0=0., forces=True):
    """everything that must hold of a finished segment whatever its type; initials: state of the previous segment"""
    an = seg.analyses
    c = seg.state.conditions
    n = int(seg.state.numerics.number_control_points)
    fr, fs = c.frames, c.freestream
    pos, vel, acc = (np.asarray(fr.inertial[k], float) for k in ('position_vector', 'velocity_vector', 'acceleration_vector'))
    h = -pos[:, 2]
    for nm, a, w in (('position', pos, 3), ('velocity', vel, 3), ('acceleration', acc, 3), ('total force', fr.inertial.total_force_vector, 3),
                     ('time', fr.inertial.time, 1), ('altitude', fs.altitude, 1), ('mass', c.weights.total_mass, 1), ('mach', fs.mach_number, 1),
                     ('throttle', c.propulsion.throttle, 1), ('alpha', c.aerodynamics.angle_of_attack, 1)):
        if not ctx.check(np.shape(a) == (n, w), key + ':shape:' + nm, '%s has shape %s, expected (%d, %d)' % (nm, np.shape(a), n, w)):
            return
        ctx.check(bool(np.all(np.isfinite(np.asarray(a, float)))), key + ':finite:' + nm, '%s is not finite' % nm)
    ctx.close(col(fs.altitude), h, key + ':altitude', 'freestream altitude is minus the inertial z', atol=1e-6)
    at = SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(h, seg.temperature_deviation)
    for k in ('pressure', 'temperature', 'density', 'speed_of_sound', 'dynamic_viscosity', 'thermal_conductivity', 'kinematic_viscosity', 'prandtl_number'):
        ctx.close(col(fs[k]), col(at[k]), key + ':atmosphere:' + k, 'freestream %s is the atmosphere at the altitude flown' % k, rtol=1e-9)
    V = np.linalg.norm(vel, axis=1)
    ctx.close(col(fs.velocity), V, key + ':speed', 'freestream speed is the length of the velocity')
    ctx.close(col(fs.mach_number), V / col(at.speed_of_sound), key + ':mach', 'Mach is speed over speed of sound', rtol=1e-9)
    ctx.close(col(fs.dynamic_pressure), .5 * col(at.density) * V ** 2, key + ':q', 'dynamic pressure', rtol=1e-9)
    ctx.close(col(fs.reynolds_number), col(at.density) * V / col(at.dynamic_viscosity), key + ':Re', 'Reynolds per metre', rtol=1e-9)
    g = gravity(SUAVE, h)
    ctx.close(col(fs.gravity), g, key + ':gravity', 'gravity at altitude', rtol=1e-9)
    # time, mass
    t = col(fr.inertial.time)
    m = col(c.weights.total_mass)
    single = spec.get('single')
    m0 = MASS if initials is None else float(initials.conditions.weights.total_mass[-1, 0])
    if seg.tag == 'landing':
        pass
    t_start = 0. if initials is None else float(initials.conditions.frames.inertial.time[-1, 0])
    if not single:
        ctx.close(t[0], t_start, key + ':t0', 'a segment starts when the previous one ended', atol=1e-9)
        back = key.startswith('Ground.Takeoff') and np.all(np.diff(t) < 0)
        if not ctx.check(bool(np.all(np.diff(t) > 0)), 'Ground.Takeoff:negative-duration' if back else key + ':time-increases', 'time increases along the segment: %s' % t[:4]):
            return
        x = (t - t[0]) / (t[-1] - t[0])
        ctx.close(x, cheb(n), key + ':points', 'control points are the cosine-spaced points of the time span', atol=1e-9)
        burn = poly_int(t, col(c.weights.vehicle_mass_rate))
        ctx.close(m, m0 - burn, key + ':mass', 'mass is the initial mass less the integral of the mass rate', rtol=1e-9, atol=1e-6)
        D = barycentric_diff(t)
        Dv = D @ vel
        if not spec.get('noacc'):
            vs = max(1., np.abs(vel).max()) / (t[-1] - t[0])
            k = 1 if spec.get('solved_speed') else 0   # the first row is fixed by the initial conditions, not solved
            ctx.close(acc[k:], Dv[k:], key + ':acceleration', 'acceleration is the time derivative of velocity', rtol=1e-6, atol=1e-6 * vs + 1e-8 + (1e-3 if k else 0.))
        b = seg.true_course
        p0 = np.zeros(2) if initials is None else np.asarray(initials.conditions.frames.inertial.position_vector[-1, :2], float)
        r0 = 0. if initials is None else float(initials.conditions.frames.inertial.aircraft_range[-1, 0])
        s = poly_int(t, vel[:, 0])
        ctx.close(pos[:, :2], p0 + np.outer(s, [np.cos(b), np.sin(b)]), key + ':position', 'ground position is the integral of the horizontal velocity along the course', rtol=1e-9, atol=1e-6)
        ctx.close(col(fr.inertial.aircraft_range), r0 + s, key + ':range', 'range is the integral of the horizontal velocity', rtol=1e-9, atol=1e-6)
        R = SUAVE.Attributes.Planets.Earth().mean_radius + h
        gm = np.arctan2(-vel[:, 2], vel[:, 0])
        la0, lo0 = (0., 0.) if initials is None else [float(initials.conditions.frames.planet[k][-1, 0]) for k in ('latitude', 'longitude')]
        if initials is None and 'latitude' in seg:
            la0, lo0 = seg.latitude, seg.longitude
        lat = la0 + poly_int(t, V / R * np.cos(gm) * np.cos(b)) / DEG
        lon = lo0 + poly_int(t, V / R * np.cos(gm) * np.sin(b) / np.cos(lat * DEG)) / DEG
        ctx.close(col(fr.planet.latitude), lat, key + ':latitude', 'latitude advances with the northward speed over the planet', atol=1e-7)
        ctx.close(col(fr.planet.longitude), lon, key + ':longitude', 'longitude advances with the eastward speed over the parallel at that latitude', atol=1e-7)
    else:
        ctx.close(m, m0, key + ':mass', 'single point keeps the mass')
    W = np.asarray(fr.inertial.gravity_force_vector, float)
    ctx.close(W, np.column_stack([0 * m, 0 * m, m * g]), key + ':weight', 'weight is mass times gravity, downwards', rtol=1e-6 if single is None else 1e-9, atol=1e-9)
    # orientation
    theta = np.asarray(fr.body.inertial_rotations, float)[:, 1]
    gam = np.arctan2(-vel[:, 2], vel[:, 0])
    alpha = col(c.aerodynamics.angle_of_attack)
    if V.min() > 0:
        ctx.close(np.sin(alpha), np.sin(theta - gam), key + ':alpha', 'angle of attack is pitch less flight path angle', atol=1e-9)
        ctx.close(np.cos(alpha), np.cos(theta - gam), key + ':alpha-c', 'angle of attack is pitch less flight path angle', atol=1e-9)
    ctx.close(col(c.aerodynamics.side_slip_angle), 0., key + ':beta', 'no side slip in plane flight', atol=1e-9)
    Tb, Tw = np.asarray(fr.body.transform_to_inertial, float), np.asarray(fr.wind.transform_to_inertial, float)
    ctx.close(Tb, np.array([rot_y(a) for a in theta]), key + ':body-frame', 'body to inertial transform', atol=1e-9)
    # aerodynamics and propulsion as the models return them
    aero, en = an.aerodynamics, an.energy
    CL, CD = aero.coefficients(alpha)
    CLl = np.clip(CL, -aero.settings.maximum_lift_coefficient, aero.settings.maximum_lift_coefficient)
    q = .5 * col(at.density) * V ** 2
    CLl, CD = np.where(q > 0, CLl, 0.), np.where(q > 0, CD, 0.)
    if spec.get('hover'):                       # hovering flight is flown on thrust alone
        CLl, CD = 0. * CLl, 0. * CD
    ctx.close(col(c.aerodynamics.lift_coefficient), CLl, key + ':CL', 'lift coefficient of the model, limited', atol=1e-9)
    ctx.close(col(c.aerodynamics.drag_coefficient), CD, key + ':CD', 'drag coefficient of the model', atol=1e-9)
    L, Dg = CLl * q * S_REF, CD * q * S_REF
    ctx.close(np.asarray(fr.wind.lift_force_vector), np.column_stack([0 * L, 0 * L, -L]), key + ':lift', 'lift is up in the wind frame', rtol=1e-9, atol=1e-6)
    ctx.close(np.asarray(fr.wind.drag_force_vector), np.column_stack([-Dg, 0 * L, 0 * L]), key + ':drag', 'drag is backwards in the wind frame', rtol=1e-9, atol=1e-6)
    thr = col(c.propulsion.throttle)
    if spec.get('noprop'):
        F = np.zeros((n, 3))
    else:
        Fm = thr * en.F0 * (col(at.density) / 1.225) ** 0.7
        F = np.column_stack([Fm * en.axis[0], 0 * Fm, Fm * en.axis[1]])
        if 'throttle_lift' in c.propulsion:
            F[:, 2] -= col(c.propulsion.throttle_lift) * LIFT
        ctx.close(np.asarray(fr.body.thrust_force_vector), F, key + ':thrust', 'thrust of the model at the final throttle', rtol=1e-7, atol=1e-6)
    tot = np.zeros((n, 3))
    for i in range(n):
        tw = rot_y(gam[i]) if V[i] > 0 else rot_y(0.)
        tot[i] = tw @ np.array([-Dg[i], 0, -L[i]]) + rot_y(theta[i]) @ F[i] + np.array([0, 0, m[i] * g[i]])
    if spec.get('ground'):
        N = -(m * g - L)
        mu = seg.friction_coefficient
        N_ = np.asarray(fr.inertial.ground_force_vector, float)
        up = -(m * g + np.array([(rot_y(gam[i]) @ np.array([0, 0, -L[i]]))[2] for i in range(n)]))
        ctx.close(N_[:, 2], up, key + ':normal', 'the ground carries weight less lift', rtol=1e-7, atol=1e-5)
        ctx.close(N_[:, 0], mu * up, key + ':friction', 'friction is the coefficient times the normal force', rtol=1e-7, atol=1e-5)
        tot += N_
    ctx.close(np.asarray(fr.inertial.total_force_vector), tot, key + ':force-sum', 'total force is lift + drag + thrust + weight (+ ground)', rtol=1e-6, atol=1e-2)
    if forces and seg.state.numerics.converged:
        r = tot / m[:, None] - acc
        rows = slice(1, None) if spec.get('ground') else slice(None)
        if spec.get('hover'):
            r = tot / m[:, None]
        cols = [0] if spec.get('ground') else [2] if (spec.get('noprop') or spec.get('hover')) else [0, 2]
        ctx.check(float(np.abs(r[rows][:, cols]).max()) < spec.get('rtol', 1e-4), key + ':balance',
                  'converged, but force/mass differs from acceleration by %.3g m/s2' % np.abs(r[rows][:, cols]).max())


def cas_of(p, M, p0=101325., a0=340.294):
    qc = p * ((1 + .2 * M ** 2) ** 3.5 - 1)
    return a0 * np.sqrt(5 * ((qc / p0 + 1) ** (2 / 7.) - 1))


def check_commanded(ctx, SUAVE, name, seg, p, key, a0=None, h_given=True):
    """the quantities the user asked for, at every control point"""
    c = seg.state.conditions
    vel = np.asarray(c.frames.inertial.velocity_vector, float)
    V = np.linalg.norm(vel, axis=1)
    h = -np.asarray(c.frames.inertial.position_vector, float)[:, 2]
    t = col(c.frames.inertial.time)
    n = len(t)
    T = t[-1] - t[0]
    x = cheb(n) if n > 1 else np.zeros(1)
    at = SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(h, seg.temperature_deviation)
    a, rho, pr = col(at.speed_of_sound), col(at.density), col(at.pressure)
    sl = SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(0., 0.)
    rho0 = float(sl.density[0, 0])
    cl = ctx.close
    pack, cls = name.split('.')
    get = p.get
    h0 = a0 if a0 is not None else get('altitude_start')
    h1 = get('altitude_end')
    if pack in ('Climb', 'Descent') or name in ('Hover.Climb', 'Hover.Descent', 'Transition.Constant_Acceleration_Constant_Angle_Linear_Climb'):
        cl([h[0], h[-1]], [h0, h1], key + ':ends', 'starts and ends at the commanded altitudes', rtol=1e-6, atol=1e-3)
    if pack == 'Cruise' or name == 'Hover.Hover' or pack == 'Single_Point' or 'Constant_Altitude' in cls:
        cl(h, h0 if a0 is not None else p['altitude'], key + ':level', 'keeps the commanded altitude', atol=1e-6)
    # speed law
    if 'air_speed' in p and pack != 'Transition':
        cl(V, p['air_speed'], key + ':airspeed', 'true airspeed', rtol=1e-7)
    if 'equivalent_air_speed' in p:
        cl(V * np.sqrt(rho / rho0), p['equivalent_air_speed'], key + ':eas', 'equivalent airspeed', rtol=1e-6)
    if 'calibrated_air_speed' in p:
        cl(cas_of(pr, V / a), p['calibrated_air_speed'], key + ':cas', 'calibrated airspeed', rtol=4e-3)
    # where the altitudes are unknowns of the solver they are as good as its tolerance
    loose = 1e-4 if name in ('Climb.Constant_Mach_Constant_Angle', 'Climb.Constant_Dynamic_Pressure_Constant_Angle') else 1e-7
    M = get('mach', get('mach_number'))
    if M is not None:
        cl(V / a, M, key + ':mach', 'Mach number', rtol=loose)
    if 'dynamic_pressure' in p:
        wrong = np.abs(.5 * float(SUAVE.Analyses.Atmospheric.US_Standard_1976().compute_values(0., seg.temperature_deviation).density[0, 0]) * V ** 2 / p['dynamic_pressure'] - 1).max()
        cl(.5 * rho * V ** 2, p['dynamic_pressure'], key + (':q-with-sea-level-density' if wrong < 1e-9 else ':q'), 'dynamic pressure', rtol=10 * loose)
    if 'mach_start' in p:
        cl(V / a, p['mach_start'] + (p['mach_end'] - p['mach_start']) * x, key + ':linear-mach', 'Mach varies linearly in time', rtol=1e-7)
    if 'air_speed_start' in p and name != 'Cruise.Constant_Throttle_Constant_Altitude':
        cl(V, p['air_speed_start'] + (p['air_speed_end'] - p['air_speed_start']) * x, key + ':linear-speed', 'speed varies linearly in time', rtol=1e-7)
    # path law
    if 'climb_rate' in p:
        cl(-vel[:, 2], p['climb_rate'], key + ':rate', 'climb rate', rtol=1e-9)
        cl(h, h0 + (h1 - h0) * x, key + ':path', 'altitude grows linearly in time', atol=1e-6)
        cl(T, (h1 - h0) / p['climb_rate'], key + ':duration', 'time to climb', rtol=1e-9)
    if 'descent_rate' in p:
        cl(vel[:, 2], p['descent_rate'], key + ':rate', 'descent rate', rtol=1e-9)
        cl(h, h0 + (h1 - h0) * x, key + ':path', 'altitude falls linearly in time', atol=1e-6)
        cl(T, (h0 - h1) / p['descent_rate'], key + ':duration', 'time to descend', rtol=1e-9)
    if 'climb_angle' in p:
        g_ = p['climb_angle']
        lvl = pack == 'Transition' and vel[0, 2] == 0 and abs(vel[0, 0] - p['air_speed'] * np.cos(g_)) < 1e-9 and np.allclose(vel[:, 2], -np.tan(g_) * (vel[:, 0] - vel[0, 0]), atol=1e-9)
        cl(-vel[:, 2] / vel[:, 0], np.tan(g_), key + (':angle-from-level-start' if lvl else ':angle'), 'climb angle', rtol=1e-7)
    if 'descent_angle' in p:
        cl(vel[:, 2] / vel[:, 0], np.tan(p['descent_angle']), key + ':angle', 'descent angle', rtol=1e-7)
    if pack in ('Climb', 'Descent') and 'distance' in p:
        cl(-vel[:, 2] / vel[:, 0], (h1 - h0) / p['distance'], key + ':angle', 'path angle of the commanded distance', rtol=1e-7)
        R = col(c.frames.inertial.aircraft_range)
        cl(R[-1] - R[0], p['distance'], key + ':distance', 'distance flown', rtol=2e-3)
    if pack == 'Cruise' and 'distance' in p:
        R = col(c.frames.inertial.aircraft_range)
        cl(R[-1] - R[0], p['distance'], key + ':distance', 'distance flown', rtol=1e-7)
    if 'time' in p:
        cl(T, p['time'], key + ':duration', 'duration', rtol=1e-9)
    # altitude is the integral of the climb speed
    if n > 1 and pack in ('Climb', 'Descent', 'Hover'):
        cl(h - h[0], poly_int(t, -vel[:, 2]), key + ':integral', 'altitude is the integral of the vertical speed', rtol=5e-3, atol=max(1., .01 * abs(h[-1] - h[0])))
    if 'throttle' in p:
        cl(col(c.propulsion.throttle), p['throttle'], key + ':throttle', 'throttle', rtol=1e-12)
    if name == 'Cruise.Constant_Acceleration_Constant_Altitude' or name.endswith('Pitchrate_Constant_Altitude'):
        cl(poly_int(t, np.zeros(n) + p['acceleration'])[-1], V[-1] - V[0], key + ':accel', 'speed gain is acceleration times duration', rtol=1e-7)
        cl(T, (p['air_speed_end'] - p['air_speed_start']) / p['acceleration'], key + ':duration', 'duration', rtol=1e-9)
    if name == 'Cruise.Constant_Throttle_Constant_Altitude':
        cl([V[0], V[-1]], [p['air_speed_start'], p['air_speed_end']], key + ':speeds', 'starts and ends at the commanded speeds', rtol=1e-5)
    th = np.asarray(c.frames.body.inertial_rotations, float)[:, 1]
    if name == 'Cruise.Constant_Pitch_Rate_Constant_Altitude':
        cl(th, p['pitch_initial'] + p['pitch_rate'] * (t - t[0]), key + ':pitch', 'pitch follows the pitch rate from the initial pitch', atol=1e-9)
        cl(th[-1], p['pitch_final'], key + ':pitch-end', 'ends at the final pitch', atol=1e-9)
    if pack == 'Transition':
        cl(th, p['pitch_initial'] + (p['pitch_final'] - p['pitch_initial']) * (t - t[0]) / T, key + ':pitch', 'pitch goes evenly from the initial to the final pitch', atol=1e-9)
    if pack == 'Single_Point':
        A = np.asarray(c.frames.inertial.acceleration_vector, float)
        cl(A[:, 2], p['z_accel'], key + ':z', 'vertical acceleration')
        if 'x_accel' in p:
            cl(A[:, 0], p['x_accel'], key + ':x', 'forward acceleration')
    if pack == 'Ground':
        cl(V[0], max(p['velocity_start'], .01), key + ':v0', 'starts at the commanded speed', rtol=1e-9)
        cl(V[-1], p['velocity_end'], key + ':v1', 'ends at the commanded speed', rtol=1e-5)
        cl(h, p['altitude'], key + ':level', 'stays on the runway', atol=1e-6)
