"""The vortex lattice solves its boundary condition on the geometry it was given and sums forces correctly."""
import contextlib, copy, io, itertools, os
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('11 vehicles (plain, swept, twisted, segmented, cambered, tail, canard, fin, canted fin, fuselage, delta) x {subsonic, supersonic} x angle, sideslip and rate grid x lattice options; '
          'every ordered pair of operating points; all permutations of three surfaces; scalings and shifts; every placement of control surfaces against segment breaks; deflection histories to depth 3; training grids of the surrogate')
ASSUMPTIONS = ['linear (Prandtl-Glauert and supersonic) potential flow with a flat wake, as the method states', 'kernels are evaluated by the code in single precision']
MIN = {'evals': 15000}
TIME_LIMIT = 500
DEG = np.pi / 180.


def scenarios(tier):
    out = []
    for g in GEO:
        out += [['grid', g], ['tangency', g, .0], ['tangency', g, .3], ['tangency', g, .8], ['rows', g], ['mirror', g], ['same', g]]
        if tier == 'thorough':
            out += [['tangency', g, .6], ['tangency', g, .95]]
    out += [['order', 0], ['order', 1], ['fin', 0], ['force', 0], ['force', 1], ['sup', 0], ['sup', 1], ['sup', 2], ['body', 0], ['body', 1], ['refs', 0]]
    out += [['place', k] for k in range(12)]
    out += [['deflect', k, s] for k in DEFL for s in (1., -1., 0.)]
    out += [['moving', k, s] for k in range(6) for s in (1., -1., 0.)]
    out += [['parts', g] for g in ('tail', 'cs', 'fuse', 'seg')]
    out += [['surrogate', k] for k in range(4 if tier == 'thorough' else 3)]
    return out


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    globals()['Data'] = SUAVE.Core.Data
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.VLM import VLM as V
    globals()['VLM'] = V
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


def wing(tag='main_wing', span=8., cr=1.5, taper=.5, sweep=.3, dih=.05, tw=(0., 0.), sym=True, vert=False, org=(0, 0, 0), cls='Main_Wing', segs=None, airfoil=None):
    w = getattr(SUAVE.Components.Wings, cls)()
    w.tag = tag
    w.spans.projected, w.chords.root, w.chords.tip, w.taper = span, cr, cr * taper, taper
    w.sweeps.quarter_chord, w.sweeps.leading_edge = sweep, None
    w.dihedral, w.symmetric, w.vertical, w.origin, w.thickness_to_chord = dih, sym, vert, [list(map(float, org))], .1
    w.twists.root, w.twists.tip = tw
    w.areas.reference = (cr + cr * taper) * span / 2
    w.chords.mean_aerodynamic = 2 / 3 * cr * (1 + taper + taper ** 2) / (1 + taper)
    w.aspect_ratio = span ** 2 / w.areas.reference
    w.aerodynamic_center = [.4, 0, 0]
    if airfoil:
        f = SUAVE.Components.Airfoils.Airfoil()
        f.coordinate_file = airfoil
        w.append_airfoil(f)
    for k, (eta, ch, tws, dh, sw, le) in enumerate(segs or []):
        s = SUAVE.Components.Wings.Segment()
        s.tag = 'seg%d' % k
        s.percent_span_location, s.root_chord_percent, s.twist, s.dihedral_outboard, s.thickness_to_chord = eta, ch, tws, dh, .1
        if le:
            s.sweeps.leading_edge = sw
        else:
            s.sweeps.quarter_chord = sw
        w.append_segment(s)
    return w


def surf(cls, a, b, cf, d=0., hf=0., sd=1., tag=None):
    c = getattr(SUAVE.Components.Wings.Control_Surfaces, cls)()
    if tag:
        c.tag = tag
    c.span_fraction_start, c.span_fraction_end, c.chord_fraction, c.deflection, c.hinge_fraction, c.sign_duplicate = a, b, cf, d, hf, sd
    return c


def camber(ctx, m=.04, p=.4):
    """a cambered section file: closed, from trailing edge over the top and back is not needed; Lednicer order"""
    x = np.linspace(0, 1, 31)
    zc = np.where(x < p, m / p ** 2 * (2 * p * x - x * x), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x * x))
    t = .1 * 5 * (.2969 * np.sqrt(x) - .126 * x - .3516 * x ** 2 + .2843 * x ** 3 - .1036 * x ** 4)
    path = os.path.join(ctx.scratch(), 'section.txt')
    with open(path, 'w') as f:
        f.write('section\n 31. 31.\n\n')
        for z in (zc + t, zc - t):
            f.write('\n'.join('%.8f %.8f' % q for q in zip(x, z)) + '\n\n')
    return path


def tailw(**k):
    return wing('tail', 3., .8, .6, .4, 0., (.02, .02), org=(5., 0., .5), cls='Horizontal_Tail', **k)


def finw(dih=0.):
    return wing('fin', 1.6, 1.1, .5, .5, dih, org=(5., 0., .3), sym=False, vert=True, cls='Vertical_Tail')


SEGS = [(0., 1., .04, .02, .4, False), (.4, .7, .02, .08, .25, False), (.75, .5, .0, .2, .5, True), (1., .3, -.03, 0., 0., False)]
GEO = {'plain': lambda c: [wing(span=10., cr=1., taper=1., sweep=0., dih=0.)],
       'swept': lambda c: [wing()],
       'twist': lambda c: [wing(tw=(.05, -.02), dih=0.)],
       'aft': lambda c: [wing(sweep=-.3, dih=-.1, taper=.8)],
       'seg': lambda c: [wing(segs=SEGS)],
       'camber': lambda c: [wing(airfoil=camber(c), sweep=.1, dih=0.)],
       'tail': lambda c: [wing(), tailw()],
       'canard': lambda c: [wing(tw=(.02, 0.)), wing('canard', 2.5, .6, .7, .2, .1, org=(-3., 0., -.2), cls='Wing')],
       'canted': lambda c: [wing(), finw(.3)],
       'delta': lambda c: [wing(span=4., cr=3., taper=.05, sweep=.8, dih=0.)],
       'cs': lambda c: [withcs(wing()), tailw()]}


def withcs(w):
    w.append_control_surface(surf('Flap', .1, .5, .3, .1))
    w.append_control_surface(surf('Aileron', .6, .9, .25, .05, sd=-1.))
    w.append_control_surface(surf('Slat', .15, .85, .15, .05))
    return w


def vehicle(ws, cg=(1.2, 0., .1)):
    v = SUAVE.Vehicle()
    for w in ws:
        v.append_component(w)
    v.reference_area = ws[0].areas.reference
    v.mass_properties.center_of_gravity = [list(cg)]
    return v


def conditions(c):
    d = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    col = lambda x: np.array(x, dtype=float).reshape(-1, 1)
    d.freestream.velocity, d.freestream.mach_number = col(c['V']), col(c['M'])
    d.aerodynamics.angle_of_attack, d.aerodynamics.side_slip_angle = col(c['a']), col(c['b'])
    d.stability.dynamic.roll_rate, d.stability.dynamic.pitch_rate, d.stability.dynamic.yaw_rate = col(c['p']), col(c['q']), col(c['r'])
    return d


def rows(a, b=(0.,), M=(.3,), rates=((0., 0., 0.),), V=100.):
    L = list(itertools.product(a, b, M, rates))
    f = lambda i: np.array([x[i] for x in L], dtype=float)
    return dict(V=np.full(len(L), V), a=f(0), b=f(1), M=f(2), p=np.array([x[3][0] for x in L]), q=np.array([x[3][1] for x in L]), r=np.array([x[3][2] for x in L]))


def settings(**k):
    s = SUAVE.Analyses.Aerodynamics.Vortex_Lattice().settings
    s.number_spanwise_vortices, s.number_chordwise_vortices, s.floating_point_precision = 8, 3, np.float64
    for x, y in k.items():
        s[x] = y
    return s


CO = ('CL', 'CDi', 'CM', 'CYTOT', 'CRTOT', 'CRMTOT', 'CNTOT', 'CYMTOT', 'CL_wing', 'CDi_wing', 'cl_y', 'cdi_y', 'CP', 'gamma')
ODD = ('CYTOT', 'CRTOT', 'CRMTOT', 'CNTOT', 'CYMTOT')


def solve(ctx, ws, c, cg=(1.2, 0., .1), veh=None, **k):
    v = veh if veh is not None else vehicle(ws, cg)
    r = VLM(conditions(c), settings(**k), v)
    ctx.trace()
    return {x: np.array(r[x], dtype=float) for x in CO}, r.VD, v


def opts(g):
    return dict(number_spanwise_vortices=14, discretize_control_surfaces=True) if g == 'cs' else {}


# ------------------------------------------------------------------ lattice geometry
def lifting_point(w, eta, xc, camb=None):
    """point of a wing at span fraction eta and chord fraction xc (right side): piecewise linear planform, twist about the leading edge"""
    semi = w.spans.projected * (.5 if w.symmetric else 1.)
    segs = list(w.Segments.values()) if len(w.Segments.keys()) else None
    if segs:
        E = [s.percent_span_location for s in segs]
        C = [s.root_chord_percent * w.chords.root for s in segs]
        T = [s.twist for s in segs]
        Dh = [s.dihedral_outboard for s in segs]
        Sw = [(s.sweeps.leading_edge, 'le') if s.sweeps.leading_edge is not None else (s.sweeps.quarter_chord, 'qc') for s in segs]
    else:
        E, C, T, Dh = [0., 1.], [w.chords.root, w.chords.root * w.taper], [w.twists.root, w.twists.tip], [w.dihedral, 0.]
        Sw = [(w.sweeps.quarter_chord, 'qc') if w.sweeps.leading_edge is None else (w.sweeps.leading_edge, 'le'), (0, 'le')]
    X, Z = [0.], [0.]
    for i in range(len(E) - 1):
        ds = (E[i + 1] - E[i]) * semi
        t = np.tan(Sw[i][0])
        X.append(X[-1] + ds * t + (0. if Sw[i][1] == 'le' else .25 * (C[i] - C[i + 1])))
        Z.append(Z[-1] + ds * np.tan(Dh[i]))
    ip = lambda L: np.interp(eta, E, L)
    ch, tw = ip(C), ip(T)
    x, z = xc * ch, (np.interp(xc, *camb) * ch if camb is not None else 0. * xc)
    px, pz = ip(X) + np.cos(tw) * x + np.sin(tw) * z, ip(Z) - np.sin(tw) * x + np.cos(tw) * z
    py = eta * semi
    o = w.origin[0]
    if w.vertical:
        return np.stack([o[0] + px, o[1] + pz, o[2] + py], -1)
    return np.stack([o[0] + px, o[1] + py, o[2] + pz], -1)


def r_grid(ctx, g):
    for spc in (True, False):
        for n_sw, n_cw in ((8, 3), (15, 5), (11, 1)) if g != 'cs' else ((14, 4), (20, 6)):
            ws = GEO[g](ctx)
            v = vehicle(ws)
            s = settings(number_spanwise_vortices=n_sw, number_chordwise_vortices=n_cw, spanwise_cosine_spacing=spc)
            from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.generate_vortex_distribution import generate_vortex_distribution as gvd
            before = [copy.deepcopy(dict(R.flat(w))) for w in ws]
            VD = gvd(v, s)
            ctx.trace()
            for w, b in zip(ws, before):
                now = dict(R.flat(w))
                ctx.check(sorted(now) == sorted(b) and all(R.same(now[k], b[k], 0.) for k in b), 'grid:input', 'the lattice changed the wing')
            ctx.close(VD.n_cp, sum(n_sw * n_cw * (2 if w.symmetric else 1) for w in ws), 'grid:count', 'number of panels of %s' % g)
            i = 0
            f = lambda *k: np.stack([np.array(VD[x], dtype=float) for x in k], -1)
            for w in ws:
                cam = None
                if w.Airfoil:
                    from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.import_airfoil_geometry import import_airfoil_geometry as iag
                    q = iag(w.Airfoil.airfoil.coordinate_file)
                    cam = (np.ravel(q.x_lower_surface), np.ravel(q.camber_coordinates))
                semi = w.spans.projected * (.5 if w.symmetric else 1.)
                area = 0.
                for side in ((1., -1.) if w.symmetric else (1.,)):
                    m = slice(i, i + n_sw * n_cw)
                    i += n_sw * n_cw
                    mir = np.array([1., side, 1.])
                    sp = 2 if w.vertical else 1
                    A1, B1 = f('XA1', 'YA1', 'ZA1')[m] * mir, f('XB1', 'YB1', 'ZB1')[m] * mir
                    ea = (A1[:, sp] - w.origin[0][sp]) / semi
                    eb = (B1[:, sp] - w.origin[0][sp]) / semi
                    ea, eb = ea[::n_cw], eb[::n_cw]
                    ctx.check(abs(ea[0]) < 1e-6 and abs(eb[-1] - 1) < 1e-6 and np.allclose(ea[1:], eb[:-1], atol=1e-6) and np.all(eb > ea), 'grid:strips', 'strips of %s do not tile the span: %s %s' % (w.tag, ea, eb))
                    for sg in (w.Segments.values() if len(w.Segments.keys()) else []):
                        ctx.check(np.min(np.abs(np.append(ea, 1.) - sg.percent_span_location)) < 1e-6, 'grid:breaks', 'no strip edge at the break %s' % sg.percent_span_location)
                    ea, eb = np.repeat(ea, n_cw), np.repeat(eb, n_cw)
                    j = np.tile(np.arange(n_cw), n_sw)
                    for nm, e, x in (('A1', ea, j), ('AH', ea, j + .25), ('AC', ea, j + .75), ('A2', ea, j + 1.), ('B1', eb, j), ('BH', eb, j + .25), ('BC', eb, j + .75), ('B2', eb, j + 1.), ('CH', (ea + eb) / 2, j + .25), ('C', (ea + eb) / 2, j + .75)):
                        got = f('X' + nm, 'Y' + nm, 'Z' + nm)[m] * mir
                        want = lifting_point(w, e, x / n_cw, cam)
                        kx = 'grid:point:' + nm + (':camber' if cam is not None else '')
                        ctx.close(got, want, kx, 'points %s of %s %s (side %g)' % (nm, g, w.tag, side), 1e-6, 2e-6)
                    P = [f('X' + q, 'Y' + q, 'Z' + q)[m] for q in ('A1', 'B1', 'A2', 'B2')]
                    tri = lambda a, b, c: .5 * np.linalg.norm(np.cross(b - a, c - a), axis=1)
                    ctx.close(np.ravel(VD.panel_areas)[m], tri(P[0], P[1], P[2]) + tri(P[1], P[2], P[3]), 'grid:area', 'panel areas', 1e-6)
                    N = np.cross(P[3] - P[0], P[1] - P[2])
                    N /= np.linalg.norm(N, axis=1)[:, None]
                    ctx.close(np.abs((N * np.array(VD.normals)[m]).sum(1)), np.ones(n_sw * n_cw), 'grid:normal', 'panel normals', 3e-3 if not cam else 2e-2)
                    e = np.unique(np.round(np.append(ea, 1.), 12))
                    ch = [np.linalg.norm(lifting_point(w, np.array(q), np.array(1.)) - lifting_point(w, np.array(q), np.array(0.))) for q in e]
                    area += np.sum(np.diff(e) * semi * (np.array(ch)[1:] + np.array(ch)[:-1]) / 2)
                k = list(VD.VLM_wings.keys()).index(w.tag)
                first = sum(2 if u.symmetric else 1 for u in ws[:k])
                got = np.sum(np.array(VD.wing_areas)[first:first + (2 if w.symmetric else 1)])
                ctx.close(got, area, 'grid:wingarea', 'area of %s' % w.tag, 1e-5)
            ctx.state((g, spc, n_sw, n_cw))


# ------------------------------------------------------------------ boundary condition
def kernel(VD, M):
    """velocity at every control point of every unit horseshoe vortex, Prandtl-Glauert, independent of the code"""
    be = np.sqrt(1 - M * M)
    f = lambda *k: np.stack([np.array(VD[x], dtype=float) for x in k], -1)
    sc = np.array([1 / be, 1., 1.])
    A, B, P = f('XAH', 'YAH', 'ZAH'), f('XBH', 'YBH', 'ZBH'), f('XC', 'YC', 'ZC')
    flip = A[:, 1] > B[:, 1]
    A, B = np.where(flip[:, None], B, A) * sc, np.where(flip[:, None], A, B) * sc
    P = P * sc
    a, b = P[:, None] - A[None], P[:, None] - B[None]
    na, nb = np.linalg.norm(a, axis=-1, keepdims=True), np.linalg.norm(b, axis=-1, keepdims=True)
    bound = np.cross(a, b) * (1 / na + 1 / nb) / (na * nb + (a * b).sum(-1, keepdims=True))
    ex = np.array([1., 0., 0.])
    tr = lambda r, n: np.cross(r, np.broadcast_to(ex, r.shape)) / (n * (n - (r * ex).sum(-1, keepdims=True)))
    return (bound + tr(a, na) - tr(b, nb)) / (4 * np.pi) * np.array([1 / be, 1., 1.])


def onset(VD, c, ref):
    """velocity of the air relative to every control point: rows, panels, 3 (axes aft, right, up)"""
    P = np.stack([np.array(VD[x], dtype=float) for x in ('XC', 'YC', 'ZC')], -1) - np.array([ref[0], 0., ref[1]])
    a, b = c['a'][:, None], c['b'][:, None]
    V = np.stack([np.cos(a) * np.cos(b), np.cos(a) * np.sin(b), np.sin(a) + 0 * b], -1)
    w = np.stack([c['p'], c['q'], c['r']], -1)[:, None] / c['V'][:, None, None]
    return V - np.cross(np.broadcast_to(w, (len(w), len(P), 3)), P[None])


def truenormals(VD):
    f = lambda q: np.stack([np.array(VD[x + q], dtype=float) for x in 'XYZ'], -1)
    N = np.cross(f('B1') - f('A1'), f('A2') - f('A1'))
    return N / np.linalg.norm(N, axis=1)[:, None]


RATES = [(0., 0., 0.), (3., 0., 0.), (0., 4., 0.), (0., 0., 5.), (2., -3., 4.)]


def r_tangency(ctx, g, M):
    for vx in (False, True):
        if vx and g in ('camber', 'cs', 'twist', 'seg', 'canard', 'tail', 'aft'):
            continue
        c = rows((-.08, 0., .03, .12), (-.06, 0., .05), (M,), RATES)
        cg = (1.2, 0., .1)
        out, VD, v = solve(ctx, GEO[g](ctx), c, cg, use_VORLAX_matrix_calculation=vx, **opts(g))
        from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.compute_wing_induced_velocity import compute_wing_induced_velocity as cwiv
        K = kernel(VD, M)
        C = np.array(cwiv(VD, np.array([[M]]))[0][0], dtype=float)
        N = truenormals(VD)
        tilt = max(.02, np.max(np.abs(np.ravel(VD.SLOPE))))
        ctx.close(np.einsum('pmk,pk->pm', C, N), np.einsum('pmk,pk->pm', K, N), 'kernel:normal', 'normal velocity of unit vortices of %s at Mach %g' % (g, M), 1e-3, 2e-3 * max(1., np.abs(K).max() / 10.) * (1. + 20 * tilt))
        tot = onset(VD, c, (cg[0], cg[2])) + np.einsum('pmk,rm->rpk', K, out['gamma'])
        res = np.einsum('rpk,pk->rp', tot, N)
        tol = {'camber': .03, 'cs': .06, 'twist': .012, 'seg': .016, 'canard': 6e-3, 'tail': .03, 'canted': 3e-3, 'delta': 4e-3, 'aft': 3e-3}.get(g, 2e-3) * (2. if M > .9 else 1.)
        w = np.abs(res).max(1)
        k = int(np.argmax(w))
        ctx.check(w.max() < tol, 'tangency:%s' % g, 'flow through the surface of %s: %.4g of the stream at Mach %g, a %g b %g rates %s (vorlax %s)' % (g, w.max(), M, c['a'][k], c['b'][k], (c['p'][k], c['q'][k], c['r'][k]), vx))
        ctx.note('worst_flow_through_' + g + ('_vorlax' if vx else ''), max(float(w.max()), 0.))
        for i in range(len(w)):
            ctx.state((g, M, vx, i))
            ctx.ev(res.shape[1])


def r_fin(ctx, k):
    """a fin that is exactly vertical"""
    for vx in (True, False):
        c = rows((0., .05), (-.05, 0., .05), (.3,), RATES)
        out, VD, v = solve(ctx, [wing(), finw()], c, use_VORLAX_matrix_calculation=vx)
        tot = onset(VD, c, (1.2, .1)) + np.einsum('pmk,rm->rpk', kernel(VD, .3), out['gamma'])
        w = np.abs(np.einsum('rpk,pk->rp', tot, truenormals(VD))).max(1)
        nm = 'fin' if not vx else 'fin-vorlax'
        ctx.check(w.max() < 3e-3, 'tangency:' + nm, 'flow through the surface of a wing with a vertical fin: %.4g of the stream (vorlax %s)' % (w.max(), vx))
        # the same fin, almost vertical
        near, _, _ = solve(ctx, [wing(), finw(1e-3)], c, use_VORLAX_matrix_calculation=vx)
        for q in ('CYTOT', 'CNTOT', 'CL'):
            ctx.close(out[q], near[q], nm + ':near:' + q, '%s of a vertical fin against one canted by 0.06 degrees' % q, .02, 1e-3)
        ctx.ev(w.size)


# ------------------------------------------------------------------ rows, symmetry, scaling
def r_rows(ctx, g):
    c = rows((-.05, .08), (0., .04), (.3,), ((0., 0., 0.), (2., 3., 4.)))
    pick = [0, 3, 5, 6]
    c = R.take(c, pick)
    c['M'] = np.array([.3, .7, 1.6, .3])
    c['V'] = np.array([100., 230., 500., 90.])

    def f(x):
        d = conditions(x)
        keep = copy.deepcopy(d)
        v = vehicle(GEO[g](ctx))
        r = VLM(d, settings(**opts(g)), v)
        for p, q in (('aerodynamics', 'angle_of_attack'), ('freestream', 'velocity'), ('freestream', 'mach_number')):
            ctx.check(np.array_equal(d[p][q], keep[p][q]), 'rows:input', '%s was changed' % q)
        return {k: r[k] for k in CO}
    R.rowcheck(ctx, 'vlm', f, c, rtol=2e-5, atol=2e-6)


FLIP = {'cs': lambda ws: [x for w in ws for x in [setsd(w)]]}


def setsd(w):
    for s in w.control_surfaces.values():
        if s.sign_duplicate == -1.:
            s.deflection = -s.deflection
    return w


def r_mirror(ctx, g):
    for M in (.3, 1.6):
        c = rows((-.05, 0., .1), (-.04, 0., .06), (M,), RATES)
        m = dict(c, b=-c['b'], p=-c['p'], r=-c['r'])
        a, _, _ = solve(ctx, GEO[g](ctx), c, **opts(g))
        if g == 'canted':
            mk = [wing(), finw(-.3)]
        else:
            mk = GEO[g](ctx)
            if g == 'cs':
                mk = [setsd(w) for w in mk]
        b, _, _ = solve(ctx, mk, m, **opts(g))
        for k in ('CL', 'CDi', 'CM') + ODD:
            s = -1. if k in ODD else 1.
            ctx.close(b[k], s * a[k], 'mirror:' + k, '%s of the mirrored flight of %s at Mach %g' % (k, g, M), 2e-4, 2e-5 * max(1., np.abs(a[k]).max()))
        ctx.state((g, M))
        if g not in ('canted', 'cs'):
            z = (c['b'] == 0) & (c['p'] == 0) & (c['r'] == 0)
            for k in ODD:
                ctx.close(a[k][z], 0 * a[k][z], 'mirror:zero:' + k, '%s in symmetric flight of %s' % (k, g), 0., 2e-5 * max(1., np.abs(a['CL']).max()))


def scaled(ws, f):
    for w in ws:
        w.spans.projected *= f
        w.chords.root *= f
        w.chords.tip *= f
        w.chords.mean_aerodynamic *= f
        w.areas.reference *= f * f
        w.origin = [[x * f for x in w.origin[0]]]
    return ws


def r_same(ctx, g):
    """scaling, shifting, speed and reference changes"""
    for M in (.4, 1.5):
        c = rows((-.05, .1), (0., .05), (M,), RATES)
        base, VD, v = solve(ctx, GEO[g](ctx), c, **opts(g))
        for f in (.1, 3., 20.):
            x, _, _ = solve(ctx, scaled(GEO[g](ctx), f), dict(c, p=c['p'] / f, q=c['q'] / f, r=c['r'] / f), tuple(f * q for q in (1.2, 0., .1)), **opts(g))
            for k in ('CL', 'CDi', 'CM', 'CYTOT', 'CRMTOT', 'CYMTOT', 'cl_y'):
                ctx.close(x[k], base[k], 'scale:' + k, '%s of %s made %g times larger (Mach %g)' % (k, g, f, M), 5e-4, 5e-5 * max(1., np.abs(base[k]).max()))
        for sx, sz in ((2., 0.), (-1.5, 3.), (0., -2.)):
            ws = GEO[g](ctx)
            for w in ws:
                w.origin = [[w.origin[0][0] + sx, w.origin[0][1], w.origin[0][2] + sz]]
            x, _, _ = solve(ctx, ws, c, (1.2 + sx, 0., .1 + sz), **opts(g))
            for k in ('CL', 'CDi', 'CM', 'CYTOT', 'CRMTOT', 'CYMTOT', 'cl_y'):
                ctx.close(x[k], base[k], 'shift:' + k, '%s of %s moved by %g, %g (Mach %g)' % (k, g, sx, sz, M), 5e-4, 5e-5 * max(1., np.abs(base[k]).max()))
        x, _, _ = solve(ctx, GEO[g](ctx), dict(c, V=c['V'] * 2.5, p=c['p'] * 2.5, q=c['q'] * 2.5, r=c['r'] * 2.5), **opts(g))
        for k in ('CL', 'CDi', 'CM') + ODD:
            ctx.close(x[k], base[k], 'speed:' + k, '%s of %s at another speed with the same rates per speed' % (k, g), 1e-5, 1e-6)
        # run again on the same vehicle, and after other flights
        for other in (rows((.2,), (.1,), (.8,), RATES[1:2]), rows((0.,), (0.,), (2.,))):
            solve(ctx, None, other, veh=v, **opts(g))
            x, _, _ = solve(ctx, None, c, veh=v, **opts(g))
            for k in CO:
                ctx.check(R.same(x[k], base[k], 0.), 'again:' + k, '%s differs when the same vehicle is analysed again' % k)
        ctx.state((g, M))


def r_refs(ctx, k):
    c = rows((.05,), (.03,), (.3, 1.4), RATES)
    base, _, _ = solve(ctx, GEO['tail'](ctx), c)
    ws = GEO['tail'](ctx)
    v = vehicle(ws)
    v.reference_area *= 2.5
    x, _, _ = solve(ctx, None, c, veh=v)
    for k in ('CL', 'CDi', 'CM') + ODD:
        ctx.close(x[k] * 2.5, base[k], 'refs:area:' + k, '%s against the reference area' % k, 1e-9, 1e-12)
    v = vehicle(GEO['tail'](ctx))
    v.wings.main_wing.chords.mean_aerodynamic *= 1.5
    x, _, _ = solve(ctx, None, c, veh=v)
    for k in ('CL', 'CDi') + ODD:
        ctx.close(x[k], base[k], 'refs:chord:' + k, '%s against the reference chord' % k, 1e-9, 1e-12)
    ctx.close(x['CM'] * 1.5, base['CM'], 'refs:chord:CM', 'CM against the reference chord', 1e-9, 1e-12)
    ctx.close(base['CRMTOT'], -base['CRTOT'] / 8., 'refs:roll', 'roll coefficient per span', 1e-9)
    ctx.close(base['CYMTOT'], -base['CNTOT'] / 8., 'refs:yaw', 'yaw coefficient per span', 1e-9)
    # moments about another centre of gravity, without rates
    c = rows((-.05, .05, .1), (0.,), (.3, 1.4))
    a, _, _ = solve(ctx, GEO['tail'](ctx), c)
    for dx, dz in ((.5, 0.), (-.7, 0.), (0., .8)):
        b, _, _ = solve(ctx, GEO['tail'](ctx), c, (1.2 + dx, 0., .1 + dz))
        cz = a['CL'][:, 0] * np.cos(c['a']) + a['CDi'][:, 0] * np.sin(c['a'])
        cx = a['CDi'][:, 0] * np.cos(c['a']) - a['CL'][:, 0] * np.sin(c['a'])
        mac = wing().chords.mean_aerodynamic
        ctx.close(b['CM'][:, 0], a['CM'][:, 0] + (cz * dx - cx * dz) / mac, 'refs:cg', 'pitching moment about a centre of gravity moved by %g, %g' % (dx, dz), 2e-3, 1e-4)
        ctx.close(b['CL'], a['CL'], 'refs:cg:CL', 'lift and the centre of gravity', 1e-9)


def r_order(ctx, k):
    """the order in which surfaces were added does not matter"""
    mk = lambda: [wing(), tailw(), finw(.2 if k == 0 else 0.)] if k == 0 else [withcs(wing()), tailw(), wing('canard', 2.5, .6, .7, .2, .1, org=(-3., 0., -.2), cls='Wing')]
    o = opts('cs') if k else {}
    c = rows((-.03, .06), (0., .05), (.3, 1.5), RATES[::4])
    ref = None
    for p in itertools.permutations(range(3)):
        ws = mk()
        v = vehicle([ws[i] for i in p])
        v.reference_area = 9.
        x, VD, _ = solve(ctx, None, c, veh=v, **o)
        tags, j = [ws[i].tag for i in p], 0
        per = {}
        for i in p:
            n = 2 if ws[i].symmetric else 1
            per[ws[i].tag] = x['CL_wing'][:, j:j + n]
            j += n
        if ref is None:
            ref, rper = x, per
        for q in ('CL', 'CDi', 'CM') + ODD:
            ctx.close(x[q], ref[q], 'order:' + q, '%s with surfaces added as %s' % (q, tags), 2e-4, 2e-5 * max(1., np.abs(ref[q]).max()))
        for t in per:
            ctx.close(per[t], rper[t], 'order:wing', 'lift of %s with surfaces added as %s' % (t, tags), 5e-4, 1e-4)
        ctx.state((k, p))


# ------------------------------------------------------------------ forces
def r_force(ctx, k):
    """lift and moments are those of the vortices in the stream; limits of thin wing theory"""
    al = (-.06, .02, .05, .1)
    if k == 0:
        for g in ('plain', 'swept', 'twist', 'aft', 'seg', 'tail', 'canard', 'delta'):
            for M in (0., .3, .8):
                c = rows(al, (0.,), (M,))
                o, VD, v = solve(ctx, GEO[g](ctx), c, number_spanwise_vortices=12, number_chordwise_vortices=4)
                f = lambda *q: np.stack([np.array(VD[x], dtype=float) for x in q], -1)
                A, B = f('XAH', 'YAH', 'ZAH'), f('XBH', 'YBH', 'ZBH')
                fl = A[:, 1] > B[:, 1]
                A, B = np.where(fl[:, None], B, A), np.where(fl[:, None], A, B)
                L = B - A
                mid = (A + B) / 2
                S, mac = v.reference_area, wing(**({} if g != 'delta' else dict(span=4., cr=3., taper=.05))).chords.mean_aerodynamic if g not in ('plain', 'aft') else {'plain': 1., 'aft': wing(taper=.8).chords.mean_aerodynamic}[g]
                Fz = 2 * o['gamma'] * L[:, 1] / S
                cz = Fz.sum(1)
                ctx.close(o['CL'][:, 0], cz * np.cos(c['a']), 'force:lift', 'lift of %s at Mach %g against its circulation' % (g, M), 6e-3, 2e-3)
                cm = -(Fz * (mid[:, 0] - 1.2)).sum(1) / mac
                ctx.close(o['CM'][:, 0], cm, 'force:moment', 'pitching moment of %s at Mach %g against its circulation' % (g, M), .02, 6e-3)
                ctx.check(np.all(o['CDi'] > -1e-4), 'force:drag', 'negative induced drag of %s' % g)
                gy = np.add.reduceat(2 * o['gamma'], VD.chordwise_breaks, axis=1) / np.ravel(VD.chord_lengths)[VD.leading_edge_indices]
                if g in ('plain', 'delta', 'swept', 'aft'):
                    ctx.close(o['cl_y'], gy * np.cos(c['a'])[:, None], 'force:section', 'section lift of %s at Mach %g against its circulation' % (g, M), .03, .01)
                ctx.state((g, M))
    else:
        for M in (0., .5, .8):
            be = np.sqrt(1 - M * M)
            for AR in (2., 4., 8., 20., 100.):
                c = rows((.02,), (0.,), (M,))
                o, VD, v = solve(ctx, [wing(span=AR, cr=1., taper=1., sweep=0., dih=0.)], c, number_spanwise_vortices=20, number_chordwise_vortices=4)
                A = AR * be
                helm = 2 * np.pi * A / (2 + np.sqrt(A * A + 4)) / be
                ctx.close(o['CL'][0, 0] / .02, helm, 'force:slope', 'lift slope of a rectangular wing of aspect ratio %g at Mach %g (Helmbold)' % (AR, M), .08)
                # Goethert rule: compressible wing against the stretched wing in incompressible flow
                p, _, _ = solve(ctx, [wing(span=AR * be, cr=1., taper=1., sweep=0., dih=0.)], rows((.02,), (0.,), (0.,)), number_spanwise_vortices=20, number_chordwise_vortices=4)
                ctx.close(o['CL'][0, 0], p['CL'][0, 0] / be, 'force:goethert', 'Prandtl-Glauert similarity at aspect ratio %g Mach %g' % (AR, M), 2e-3)
                ctx.close(np.sum(o['cl_y'][0, :20] - o['cl_y'][0, 20:]), 0., 'force:halves', 'halves of the wing', 0., 1e-4)


def r_sup(ctx, k):
    M = (1.3, 1.5, 2., 2.5, 3.)
    al = (.02, .05)
    for m in M:
        B = np.sqrt(m * m - 1)
        c = rows(al, (0.,), (m,))
        if k == 0:
            cases = [(wing(span=s, cr=1., taper=1., sweep=0., dih=0.), 4 / B * (1 - 1 / (2 * B * s)), 1.5e-2, 'rectangular wing of aspect ratio %g' % s) for s in (3., 4., 8.) if B * s > 1.2]
        elif k == 1:
            cases = [(wing(span=s, cr=2., taper=1e-4, sweep=np.arctan(4 / s - .5 / s * 2), dih=0.), 4 / B, .05, 'delta of span %g' % s) for s in (4., 6.) if B > 4 / s * 1.1]
        else:
            cases = [(wing(span=8., cr=1., taper=1., sweep=.3, dih=0.), 4 / B, .045, 'swept wing')]
        for w, th, tol, nm in cases:
            o, VD, v = solve(ctx, [w], c, number_spanwise_vortices=12, number_chordwise_vortices=6)
            if k == 2 and m == 1.3:
                tol = .05
            ctx.close(o['CL'][:, 0] / np.array(al), th + 0 * np.array(al), 'sup:slope', 'lift slope of a %s at Mach %g (linear theory)' % (nm, m), tol)
            ctx.close(o['CDi'][:, 0], o['CL'][:, 0] * np.tan(np.array(al)), 'sup:drag', 'wave drag of a %s with supersonic leading edges at Mach %g' % (nm, m), 5e-3)
            if k == 0:
                # centre of pressure of the rectangular wing: linear theory
                s = w.spans.projected
                xcp = (1.2 - o['CM'][:, 0] * w.chords.mean_aerodynamic / o['CL'][:, 0])
                th = .5 * (1 - 4 / (3 * 2 * B * s)) / (1 - 1 / (2 * B * s)) * 1.
                ctx.close(xcp, th + 0 * xcp, 'sup:centre', 'centre of pressure of a %s at Mach %g (linear theory)' % (nm, m), .02, .25 / 6 + .01)
            ctx.state((k, m, nm))


def fuselage(y=0., z=0.):
    f = SUAVE.Components.Fuselages.Fuselage()
    f.width, f.heights.maximum = 1., 1.
    f.lengths.total, f.lengths.nose, f.lengths.tail = 8., 1.5, 2.
    f.fineness.nose, f.fineness.tail = 1.5, 2.
    f.origin = [[-2., y, z]]
    return f


def nacelle(tag, y):
    n = SUAVE.Components.Nacelles.Nacelle()
    n.tag, n.diameter, n.length, n.origin = tag, .5, 1.5, [[.2, y, -.4]]
    return n


def r_body(ctx, k):
    """bodies: switched off they do nothing; lattice of a body sits where the body is"""
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.generate_vortex_distribution import generate_vortex_distribution as gvd
    c = rows((-.03, .06), (0., .05), (.3, 1.5), RATES[::4])
    base, _, _ = solve(ctx, GEO['tail'](ctx), c)
    if k == 0:
        for y in (0.,):
            v = vehicle(GEO['tail'](ctx))
            v.append_component(fuselage(y))
            v.append_component(nacelle('n1', 2.))
            v.append_component(nacelle('n2', -2.))
            x, _, _ = solve(ctx, None, c, veh=v)
            for q in CO:
                ctx.close(x[q], base[q], 'body:off:' + q, '%s with bodies that are not modelled' % q, 1e-12)
            for fu, na in ((True, False), (False, True), (True, True)):
                x, VD, _ = solve(ctx, None, c, veh=v, model_fuselage=fu, model_nacelle=na)
                m = dict(c, b=-c['b'], p=-c['p'], r=-c['r'])
                y2, _, _ = solve(ctx, None, m, veh=v, model_fuselage=fu, model_nacelle=na)
                for q in ('CL', 'CDi', 'CM') + ODD:
                    ctx.close(y2[q], (-1. if q in ODD else 1.) * x[q], 'body:mirror:' + q, '%s of the mirrored flight with bodies' % q, 3e-4, 3e-5 * max(1., np.abs(x[q]).max()))
                if fu and not na:
                    tot = onset(VD, R.take(c, range(len(c['a']))), (1.2, .1))
                    s = c['M'] < 1
                    t = tot[s] + np.einsum('pmk,rm->rpk', kernel(VD, .3), x['gamma'][s])
                    w = np.abs(np.einsum('rpk,pk->rp', t, truenormals(VD))).max()
                    ctx.check(w < 4e-3, 'body:tangency', 'flow through a modelled fuselage: %.3g' % w)
                ctx.close(np.sum(x['CL_wing'] * np.array(VD.wing_areas), axis=1) / v.reference_area, x['CL'][:, 0], 'body:sum', 'lift of all surfaces and bodies', 1e-5, 1e-6)
    else:
        for kind in ('fuselage', 'nacelle'):
            for y in (0., 1.5, -2.):
                v = vehicle(GEO['plain'](ctx))
                v.append_component(fuselage(y, .3) if kind == 'fuselage' else nacelle('n', y))
                VD = gvd(v, settings(model_fuselage=kind == 'fuselage', model_nacelle=kind == 'nacelle'))
                ctx.trace()
                n = 2 * 8 * 3
                Y = np.concatenate([VD.YA1[n:], VD.YB1[n:]])
                w = .5 if kind == 'fuselage' else .25
                e = 'off-centre' if y else 'centre'
                ctx.check(Y.max() <= y + w + 1e-6 and Y.min() >= y - w - 1e-6 and Y.max() > y + .9 * w and Y.min() < y - .9 * w, 'body:place:' + kind + ':' + e, 'lattice of a %s at y = %g spans y = %.3f .. %.3f' % (kind, y, Y.min(), Y.max()))
                ctx.close(VD.ZC[n:], np.full(len(VD.ZC[n:]), .3 if kind == 'fuselage' else -.4), 'body:height', 'height of the lattice of a ' + kind, 1e-6)
                X = np.concatenate([VD.XA1[n:], VD.XB2[n:]])
                lo, hi = (-2., 6.) if kind == 'fuselage' else (.2, 1.7)
                ctx.check(X.min() >= lo - 1e-6 and X.max() <= hi + 1e-6 and X.min() < lo + .25 and X.max() > hi - .25, 'body:length', 'lattice of a %s from x = %.3f to %.3f' % (kind, X.min(), X.max()))
                ctx.state((kind, y))


# ------------------------------------------------------------------ control surfaces
BR = (0., .25, .5, .75, 1.)


def r_place(ctx, k):
    """every placement of a control surface against the segment breaks: what is cut out of the wing comes back as control surface"""
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.generate_vortex_distribution import generate_vortex_distribution as gvd
    segs = [(e, 1. - .5 * e, .03 * (1 - e), .05, .2, False) for e in (0., .25, .5, 1.)] if k % 2 else None
    cls = ('Flap', 'Slat', 'Aileron', 'Flap', 'Flap', 'Slat')[k // 2]
    cf = (.3, .2, .25, .5, .1, .4)[k // 2]
    for a, b in itertools.combinations((0., .1, .25, .4, .5, .6, .8, 1.), 2):
        w = wing(tw=(.03, 0.) if not segs else (0., 0.), segs=segs)
        w.append_control_surface(surf(cls, a, b, cf))
        v = vehicle([w])
        VD = gvd(v, settings(number_spanwise_vortices=16, number_chordwise_vortices=4, discretize_control_surfaces=True, spanwise_cosine_spacing=False))
        ctx.trace()
        base = gvd(vehicle([wing(tw=(.03, 0.) if not segs else (0., 0.), segs=segs)]), settings(number_spanwise_vortices=16, number_chordwise_vortices=4, spanwise_cosine_spacing=False))
        nm = '%s from %g to %g of a %s wing' % (cls, a, b, 'segmented' if segs else 'plain')
        ctx.close(np.sum(VD.panel_areas), np.sum(base.panel_areas), 'place:area', 'area of the lattice with a ' + nm, 2e-4)
        cs = [q for q in VD.VLM_wings.values() if q.is_a_control_surface]
        cov = sorted([(round(min(abs(np.concatenate([VD.YA1[m], VD.YB1[m]]))), 6), round(max(abs(np.concatenate([VD.YA1[m], VD.YB1[m]]))), 6)) for q in cs for m in [np.ravel(VD.surface_ID) == q.surface_ID]])
        ctx.check(len(cov) > 0 and abs(cov[0][0] - 4 * a) < 1e-5 and abs(cov[-1][1] - 4 * b) < 1e-5 and all(abs(x[1] - y[0]) < 1e-5 for x, y in zip(cov, cov[1:])), 'place:span', '%s is modelled over %s of the half span 4' % (nm, cov))
        mains = np.abs(np.ravel(VD.surface_ID)) == VD.VLM_wings.main_wing.surface_ID
        ch = lambda e: np.linalg.norm(lifting_point(w, np.array(e), np.array(1.)) - lifting_point(w, np.array(e), np.array(0.)))
        want = 2 * sum(np.trapz([cf * ch(x) for x in np.linspace(lo, hi, 40)], np.linspace(lo, hi, 40)) for lo, hi in zip(sorted({a, b} | {q for q in (.25, .5) if a < q < b and segs}), sorted({a, b} | {q for q in (.25, .5) if a < q < b and segs})[1:])) * 4.
        ctx.close(np.sum(np.ravel(VD.panel_areas)[~mains]), want, 'place:csarea', 'area of a ' + nm, 3e-3)
        flag = np.ravel(VD.exposed_leading_edge_flag)
        ctx.check(len(flag) == np.sum(VD.leading_edge_indices), 'place:strips', 'one leading edge flag per strip')
        ctx.state((k, a, b))


DEFL = {'flap': ('Flap', .1, .6, .3, 0.), 'ail': ('Aileron', .5, .9, .25, .2), 'slat': ('Slat', .1, .8, .2, .5), 'elev': ('Elevator', 0., 1., .4, 0.), 'rudder': ('Rudder', .1, .9, .35, .1)}
ANG = (0., .1, -.2)


def dwing(kind, sd, d):
    if kind == 'rudder':
        w = wing('main_wing', 2., 1.2, .5, .4, .1, sym=False, vert=True, cls='Vertical_Tail')
    else:
        w = wing(tw=(.02, -.01), dih=.05)
    cls, a, b, cf, hf = DEFL[kind]
    w.append_control_surface(surf(cls, a, b, cf, d, hf, sd))
    return w


def rot(P, o, u, t):
    u = u / np.linalg.norm(u)
    p = P - o
    return o + p * np.cos(t) + np.cross(np.broadcast_to(u, p.shape), p) * np.sin(t) + (p @ u)[:, None] * u * (1 - np.cos(t))


PTS = ('A1', 'AH', 'AC', 'A2', 'B1', 'BH', 'BC', 'B2', 'CH', 'C')


def r_deflect(ctx, kind, sd):
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.generate_vortex_distribution import generate_vortex_distribution as gvd
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.deflect_control_surface import deflect_control_surfaces as dcs
    st = lambda: settings(number_spanwise_vortices=10, number_chordwise_vortices=4, discretize_control_surfaces=True)
    flat = gvd(vehicle([dwing(kind, sd, 0.)]), st())
    cls, a, b, cf, hf = DEFL[kind]
    fresh = {}
    for d in ANG:
        VD = gvd(vehicle([dwing(kind, sd, d)]), st())
        ctx.trace()
        fresh[d] = VD
        ids = np.ravel(VD.surface_ID)
        q = [w for w in VD.VLM_wings.values() if w.is_a_control_surface][0]
        pt = lambda D, n, m: np.stack([np.array(D[x + n], dtype=float)[m] for x in 'XYZ'], -1)
        for side in ((1., -1.) if kind != 'rudder' else (1.,)):
            m = ids == side * q.surface_ID
            mir = np.array([1., side, 1.])
            A1, A2, B1, B2 = [pt(flat, n, m) * mir for n in ('A1', 'A2', 'B1', 'B2')]
            n_cw = q.n_cw
            h0 = A1[0] + hf * (A2[n_cw - 1] - A1[0])
            h1 = B1[0] + hf * (B2[n_cw - 1] - B1[0])
            t = d * (sd if side < 0 else 1.) * (-1. if kind == 'slat' else 1.)
            for n in PTS:
                P = pt(flat, n, m) * mir
                if kind == 'rudder':
                    want = rot(P, h0, h1 - h0, d)
                else:
                    want = rot(P, h0, h1 - h0, t)
                ctx.close(pt(VD, n, m) * mir, want, 'deflect:point:%s' % kind, 'points %s of the %s deflected by %g (side %g, sign of the duplicate %g)' % (n, kind, d, side, sd), 1e-6, 3e-6)
        mm = np.abs(ids) != q.surface_ID
        for n in PTS:
            ctx.close(pt(VD, n, mm), pt(flat, n, mm), 'deflect:rest', 'the rest of the wing while the %s moves' % kind, 1e-12)
        ctx.state((kind, sd, d))
    # deflection histories
    for seq in itertools.product(ANG, repeat=3):
        v = vehicle([dwing(kind, sd, seq[0])])
        VD = gvd(v, st())
        for d in seq[1:]:
            for w in VD.VLM_wings.values():
                if w.is_a_control_surface:
                    w.deflection = d
            VD = dcs(VD, v, st())
        ctx.trace()
        for n in PTS:
            for x in 'XYZ':
                ctx.close(np.array(VD[x + n]), np.array(fresh[seq[-1]][x + n]), 'deflect:history', 'lattice after deflections %s of the %s' % (seq, kind), 1e-5, 1e-5)
        for x in ('SLOPE', 'SLE', 'D', 'tangent_incidence_angle', 'chord_lengths', 'normals', 'panel_areas', 'XA_TE', 'ZB_TE'):
            ctx.close(np.array(VD[x]), np.array(fresh[seq[-1]][x]), 'deflect:history:post', '%s after deflections %s of the %s' % (x, seq, kind), 1e-4, 1e-4)
        ctx.check(VD.is_postprocessed is True, 'deflect:history:flag', 'the deflected lattice is not postprocessed')
        ctx.state((kind, sd, seq))
    # loads follow the deflection
    c = rows((0.03,), (0.,), (.3,))
    L = {d: solve(ctx, [dwing(kind, sd, d)], c, number_spanwise_vortices=12, number_chordwise_vortices=4, discretize_control_surfaces=True)[0] for d in ANG}
    if kind in ('flap', 'elev') and sd == 1.:
        ctx.check(L[.1]['CL'][0, 0] > L[0.]['CL'][0, 0] > L[-.2]['CL'][0, 0], 'deflect:lift', 'trailing edge down must add lift: %s' % [float(L[d]['CL'][0, 0]) for d in ANG])
        ctx.close(L[.1]['CRMTOT'], 0 * L[.1]['CRMTOT'], 'deflect:roll', 'roll of a symmetric deflection', 0., 1e-5)
    if kind == 'ail' and sd == -1.:
        ctx.check((L[.1]['CRTOT'] * L[-.2]['CRTOT'])[0, 0] < 0 and L[.1]['CRTOT'][0, 0] > 1e-3, 'deflect:roll:sign', 'right aileron down must lift the right wing')
        ctx.close(L[.1]['CL'], L[0.]['CL'], 'deflect:roll:lift', 'lift of an antisymmetric deflection', .02)
    if kind == 'rudder':
        ctx.check(L[.1]['CYTOT'][0, 0] < L[0.]['CYTOT'][0, 0] < L[-.2]['CYTOT'][0, 0], 'deflect:side', 'rudder trailing edge to the right must push the fin to the left')


def r_moving(ctx, k, sd):
    """all moving surfaces"""
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.generate_vortex_distribution import generate_vortex_distribution as gvd
    from SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Lift.deflect_control_surface import deflect_control_surfaces as dcs
    hinge = ('const', [0., 0., 0.], [0., 1., 0.])[k % 3]
    hf = (.25, .6)[k // 3]
    nm = {'const': 'const'}.get(hinge if isinstance(hinge, str) else '', 'free')

    def mk(d):
        w = wing('main_wing', 3., .8, .6, .4, .1, (.02, 0.), cls='Stabilator')
        w.hinge_fraction, w.deflection, w.sign_duplicate = hf, d, sd
        if hinge == 'const':
            w.use_constant_hinge_fraction = True
        else:
            w.hinge_vector = np.array(hinge)
        return w
    st = lambda: settings(number_spanwise_vortices=6, number_chordwise_vortices=3)
    flat = gvd(vehicle([mk(0.)]), st())
    fresh = {}
    for d in ANG:
        v = vehicle([mk(d)])
        VD = gvd(v, st())
        ctx.trace()
        fresh[d] = VD
        ctx.check(np.array_equal(v.wings.main_wing.hinge_vector, mk(d).hinge_vector), 'moving:input', 'the hinge vector of the wing was changed')
        pt = lambda D, n, m: np.stack([np.array(D[x + n], dtype=float)[m] for x in 'XYZ'], -1)
        for side in (1., -1.):
            m = np.ravel(VD.surface_ID) == side * VD.VLM_wings.main_wing.surface_ID
            mir = np.array([1., side, 1.])
            A1, A2, B1, B2 = [pt(flat, n, m) * mir for n in ('A1', 'A2', 'B1', 'B2')]
            h0 = A1[0] + hf * (A2[2] - A1[0])
            h1 = B1[0] + hf * (B2[2] - B1[0])
            u = h1 - h0
            if hinge != 'const':
                u = np.array([0., u[1], u[2]]) if not np.any(hinge) else np.array(hinge)
            t = d * (sd if side < 0 else 1.)
            for n in PTS:
                ctx.close(pt(VD, n, m) * mir, rot(pt(flat, n, m) * mir, h0, u, t), 'moving:point:%s:%s' % (nm, 'right' if side > 0 else 'left'), 'points %s of a surface turned by %g (side %g, sign of the duplicate %g, hinge %s)' % (n, d, side, sd, hinge), 1e-6, 3e-6)
        ctx.state((k, sd, d))
    for seq in itertools.product(ANG, repeat=2):
        v = vehicle([mk(seq[0])])
        VD = gvd(v, st())
        VD.VLM_wings.main_wing.deflection = seq[1]
        VD = dcs(VD, v, st())
        for n in PTS:
            ctx.close(np.array(VD['Z' + n]), np.array(fresh[seq[-1]]['Z' + n]), 'moving:history:%s' % nm, 'lattice after turning %s (hinge %s)' % (seq, hinge), 1e-5, 1e-5)


# ------------------------------------------------------------------ the analysis
def analysis(v, **k):
    a = SUAVE.Analyses.Aerodynamics.Vortex_Lattice()
    a.geometry = v
    for x, y in k.items():
        a.settings[x] = y
    return a


def r_parts(ctx, g):
    """lift and drag of the wings, times their areas, are those of the vehicle"""
    from SUAVE.Analyses.Aerodynamics.Vortex_Lattice import calculate_VLM
    ws = GEO[g](ctx) if g != 'fuse' else GEO['tail'](ctx)
    c = rows((-.05, .02, .1), (0., .04), (.3, 1.6))
    v = vehicle(ws)
    if g == 'fuse':
        v.append_component(fuselage())
    s = settings(**opts(g))
    out = calculate_VLM(conditions(c), s, v)
    ref, VD, _ = solve(ctx, None, c, veh=v, **opts(g))
    CL, CD, CY, wl, wd = out[:5]
    ctx.close(CL, ref['CL'], 'parts:CL', 'total lift', 1e-9)
    ctx.close(CD, ref['CDi'], 'parts:CDi', 'total drag', 1e-9)
    S = v.reference_area
    ctx.check(list(wl.keys()) == [w.tag for w in ws], 'parts:tags', 'lift is reported for %s' % list(wl.keys()))
    sl = sum(wl[w.tag] * w.areas.reference for w in ws) / S
    sd = sum(wd[w.tag] * w.areas.reference for w in ws) / S
    ctx.close(sl, CL, 'parts:lift:' + ('cs' if g == 'cs' else 'all'), 'lift of the wings of %s against the vehicle' % g, 1e-4, 1e-5)
    ctx.close(sd, CD, 'parts:drag:' + ('cs' if g == 'cs' else 'all'), 'drag of the wings of %s against the vehicle' % g, 1e-4, 1e-5)
    ctx.ev(len(c['a']))


def r_surrogate(ctx, k):
    g = ('swept', 'tail', 'delta', 'canted')[k]
    for mset in (np.array([[0., .2, .4, .6, .8]]).T, np.array([[0., .3, .5, .7, .85, 1.3, 1.5, 2., 2.5]]).T, np.array([[1.2, 1.4, 1.8, 2.5]]).T):
        al = np.array([[-4., 0., 3., 8., 12.]]).T * DEG
        v = vehicle(GEO[g](ctx))
        a = analysis(v, number_spanwise_vortices=6, number_chordwise_vortices=2)
        a.training.angle_of_attack, a.training.Mach = al.copy(), mset.copy()
        a.initialize(True, 6, 2, False, False, False, False)
        ctx.trace()
        d = analysis(vehicle(GEO[g](ctx)))
        d.initialize(False, 6, 2, False, False, False, False)
        nos = len(mset) == 9
        ms = [m for m in mset[:, 0] if m > 0. and (not nos or m <= .85 or m >= 1.25)]

        def call(an, A, M):
            st = Data()
            st.conditions = conditions(dict(V=np.full(len(A), 100.), a=A, b=0 * A, M=M, p=0 * A, q=0 * A, r=0 * A))
            an.evaluate(st, an.settings, an.geometry)
            q = st.conditions.aerodynamics
            o = {'CL': q.lift_coefficient, 'CLb': q.lift_breakdown.total, 'CDi': q.drag_breakdown.induced.inviscid}
            for w in an.geometry.wings.keys():
                o['wl:' + w] = q.lift_breakdown.inviscid_wings[w]
                o['wc:' + w] = q.lift_breakdown.compressible_wings[w]
                o['wd:' + w] = q.drag_breakdown.induced.inviscid_wings[w]
            return {x: np.array(y, dtype=float) for x, y in o.items()}
        L = list(itertools.product(al[:, 0], ms))
        A, M = np.array([x[0] for x in L]), np.array([x[1] for x in L])
        s, t = call(a, A, M), call(d, A, M)
        for q in s:
            ctx.check(s[q].shape == (len(A), 1), 'surrogate:shape', '%s has shape %s' % (q, s[q].shape))
            ctx.close(s[q], t[q], 'surrogate:node:' + q.split(':')[0], '%s of the surrogate at its training points (%s)' % (q, g), 1e-4, 1e-5)
        # between the training points: rows independent, and close to the lattice
        A2 = (al[1:, 0] + al[:-1, 0]) / 2
        M2 = (np.array(ms)[1:] + np.array(ms)[:-1]) / 2
        L = list(itertools.product(A2, M2))
        c = dict(a=np.array([x[0] for x in L]), M=np.array([x[1] for x in L]))
        c = R.take(c, range(0, len(L), max(1, len(L) // 5)))
        s = R.rowcheck(ctx, 'surrogate', lambda x: call(a, x['a'], x['M']), c, rtol=1e-9, atol=1e-12)
        t = call(d, c['a'], c['M'])
        sub = (c['M'] < .85) | ((c['M'] > 1.3) & (len(mset) > 4))
        ctx.close(s['CL'][sub], t['CL'][sub], 'surrogate:between', 'lift of the surrogate between its training points (%s)' % g, .12 if g != 'delta' else .3, .03 if g != 'delta' else .06)
        # a second analysis shares nothing with the first
        b = analysis(vehicle(GEO['plain'](ctx)))
        b.training.angle_of_attack, b.training.Mach = al.copy(), mset.copy()
        b.initialize(True, 6, 2, False, False, False, False)
        s2 = call(a, c['a'], c['M'])
        for q in s:
            ctx.check(R.same(s[q], s2[q], 0.), 'surrogate:shared', 'another analysis changed %s' % q)
        ctx.state((k, len(mset)))
