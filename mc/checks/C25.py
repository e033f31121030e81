"""The drag of a vehicle is the sum of what its parts contribute, at every operating point."""
import contextlib, copy, io, itertools, math
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('9 vehicles (glider, airliner, segmented, blended body, supersonic, four engines, tandem, unswept, no fuselage) x Fidelity_Zero / Supersonic_Zero x settings grid x Mach 0.1..3 (all thresholds from both sides) x Reynolds x temperature x lift; '
          'every ordered pair of operating points; every permutation of up to four components; lifting line: planform x twist x stations grid; AERODAS: angle grid -90..90 x aspect ratio x thickness; flaps and slats grid; call histories to length 3')
ASSUMPTIONS = ['the lift and inviscid induced drag of the wings come from a stand-in with known values (the lattice itself is C24)', 'the correlations are those the code documents; the sums, limits, invariances and continuity around them are the property']
MIN = {'evals': 20000}
TIME_LIMIT = 300
DEG = math.pi / 180.


def scenarios(tier):
    out = []
    for an in ('FZ', 'SZ'):
        for v in VEH:
            for s in range(len(SETTINGS)):
                if tier == 'thorough' or s == 0 or v in ('liner', 'seg', 'super'):
                    out.append(['build', an, v, s])
            out += [['rows', an, v], ['perm', an, v], ['scale', an, v], ['history', an, v]]
    out += [['smooth', v, s] for v in ('liner', 'super', 'glider', 'seg') for s in (0, 1, 2)]
    out += [['plate', 0], ['wet', 0], ['splitseg', 0]]
    out += [['line', k] for k in range(5)]
    out += [['lineana', k] for k in range(3)]
    out += [['aerodas', ar, tc] for ar in (4., 8., 20.) for tc in (.06, .12, .18)]
    out += [['clmax', k] for k in range(4)]
    return out


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    globals()['Data'] = SUAVE.Core.Data
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


# ------------------------------------------------------------------ vehicles
def wing(cls='Main_Wing', tag='main_wing', span=30., cr=6., taper=.4, sweep=.4, tc=.11, vert=False, sym=True, off=0., xt=(0., 0.), wet=None, high=False, area=None):
    w = getattr(SUAVE.Components.Wings, cls)()
    w.tag, w.spans.projected, w.chords.root, w.chords.tip, w.taper = tag, span, cr, cr * taper, taper
    w.sweeps.quarter_chord, w.thickness_to_chord, w.vertical, w.symmetric = sweep, tc, vert, sym
    w.areas.reference = (cr + cr * taper) * span / 2 if area is None else area
    w.areas.wetted = 2.1 * w.areas.reference if wet is None else wet
    w.chords.mean_aerodynamic = 2 / 3 * cr * (1 + taper + taper ** 2) / (1 + taper)
    w.aspect_ratio = span ** 2 / w.areas.reference
    w.exposed_root_chord_offset, w.transition_x_upper, w.transition_x_lower, w.high_mach = off, xt[0], xt[1], high
    w.total_length = span / 2 * math.tan(sweep) + cr
    w.origin = [[0., 0., 0.]]
    return w


def segs(w, brk, tags='abcdef'):
    for i, (eta, ch, sw) in enumerate(brk):
        s = SUAVE.Components.Wings.Segment()
        s.tag, s.percent_span_location, s.root_chord_percent, s.thickness_to_chord = tags[i], eta, ch, w.thickness_to_chord
        s.sweeps.quarter_chord = sw
        w.append_segment(s)
    half = .5 if w.symmetric else 1.
    L = list(w.Segments.values())
    for a, b in zip(L[:-1], L[1:]):
        ca, cb, dy = a.root_chord_percent * w.chords.root, b.root_chord_percent * w.chords.root, (b.percent_span_location - a.percent_span_location) * w.spans.projected * half
        lam = cb / ca
        a.chords.mean_aerodynamic = ca * 2 / 3 * (1 + lam + lam ** 2) / (1 + lam)
        a.areas.reference = (ca + cb) / 2 * dy / half
        a.areas.wetted = 2.06 * a.areas.reference
    return w


def fus(tag='fuselage', l=38., d=4., up=0.):
    f = SUAVE.Components.Fuselages.Fuselage()
    f.tag, f.lengths.total, f.effective_diameter, f.areas.front_projected, f.areas.wetted = tag, l, d, math.pi * d * d / 4, 2.8 * d * l
    return f


def nac(tag, d=2., l=4., n=1):
    x = SUAVE.Components.Nacelles.Nacelle()
    x.tag, x.diameter, x.length, x.areas.wetted, x.origin = tag, d, l, 1.1 * math.pi * d * l, [[12., 5., -1.]] * n
    return x


def veh(wings, fs=(), ns=(), nets=1, ref=None):
    v = SUAVE.Vehicle()
    for w in wings:
        v.append_component(w)
    for f in fs:
        v.append_component(f)
    for n in ns:
        v.append_component(n)
    for i in range(nets):
        e = SUAVE.Components.Energy.Networks.Network()
        e.tag = 'net%d' % i
        v.append_component(e)
    v.reference_area = ref or list(v.wings.values())[0].areas.reference
    v.total_length, v.maximum_cross_sectional_area = 40., 14.
    return v


def ht(**k):
    return wing('Horizontal_Tail', 'horizontal_stabilizer', 12., 3.5, .4, .5, .08, **k)


def vt(**k):
    return wing('Vertical_Tail', 'vertical_stabilizer', 7., 5., .4, .6, .08, True, False, **k)


VEH = {'glider': lambda: ([wing(sweep=0., xt=(.5, .3)), ht()], [], [], 0),
       'liner': lambda: ([wing(), ht(), vt()], [fus()], [nac('n1'), nac('n2', 1.6, 3.)], 1),
       'seg': lambda: ([segs(wing(xt=(.2, 0.)), ((0., 1., .5), (.35, .6, .3), (1., .3, 0.))), vt(xt=(.1, .4))], [fus()], [nac('n1')], 1),
       'bwb': lambda: ([segs(wing(cr=14., taper=.1), ((0., 1., .9), (.3, .5, .6), (.6, .25, .5), (1., .1, 0.)))], [fus('fuselage_bwb', 30., 5.)], [nac('n1'), nac('n2')], 1),
       'super': lambda: ([wing(span=20., cr=22., taper=.05, sweep=1., tc=.03, high=True), vt(high=True)], [fus(l=50., d=2.5)], [nac('n1', 1.2, 9.), nac('n2', 1.2, 9.)], 1),
       'four': lambda: ([wing(), ht(), vt()], [fus(), fus('pod', 9., 1.)], [nac('n%d' % i, 1. + .3 * i, 3. + .2 * i) for i in range(4)], 2),
       'tandem': lambda: ([wing(), wing('Wing', 'second', 18., 3., .5, .2, .1), ht()], [fus()], [nac('n1')], 1),
       'unswept': lambda: ([wing(sweep=0., tc=.14), ht(), vt()], [fus(l=14., d=2.)], [], 1),
       'bare': lambda: ([wing(), vt()], [], [nac('n1', n=1)], 1)}
SETTINGS = [{}, dict(trim_drag_correction_factor=1.07, drag_coefficient_increment=.0021, spoiler_drag_increment=.013, lift_to_drag_adjustment=.04, viscous_lift_dependent_drag_factor=.5, fuselage_lift_correction=1.),
            dict(span_efficiency=.92, wing_parasite_drag_form_factor=1.3, fuselage_parasite_drag_form_factor=1.9, lift_to_drag_adjustment=-.05),
            dict(oswald_efficiency_factor=.81, drag_coefficient_increment=-.001)]
SUPER = [{}, dict(begin_drag_rise_mach_number=.9, end_drag_rise_mach_number=1.15, peak_mach_number=1.06, transonic_drag_multiplier=1.4), dict(wave_drag_type='Sears-Haack', volume_wave_drag_scaling=1.7, fuselage_parasite_drag_begin_blend_mach=.85, fuselage_parasite_drag_end_blend_mach=.97), {}]


def make(v):
    w, f, n, k = VEH[v]()
    return veh(w, f, n, k, ref=None if v != 'tandem' else 150.)


def wing_cl(i, a, M):
    return (3.1 - .4 * i) * a * (1. + .1 * M) + .05 * (i == 0)


def standin(state, settings, geometry):
    """wing lifts of a known law; the total is the area weighted sum"""
    A = state.conditions.aerodynamics
    a, M = A.angle_of_attack, state.conditions.freestream.mach_number
    lb, db = Data(), Data()
    CL, CD = 0. * a, 0. * a
    order = sorted(geometry.wings.keys())
    for t in geometry.wings.keys():
        i, w = order.index(t), geometry.wings[t]
        cl = wing_cl(i, a, M)
        lb[t], db[t] = cl * 1., cl ** 2 / (9. + i)
        CL, CD = CL + cl * w.areas.reference / geometry.reference_area, CD + db[t] * w.areas.reference / geometry.reference_area
    A.lift_coefficient = CL
    A.lift_breakdown.total = CL
    A.lift_breakdown.inviscid_wings, A.lift_breakdown.compressible_wings = lb, copy.deepcopy(lb)
    A.drag_breakdown.induced = Data()
    A.drag_breakdown.induced.inviscid, A.drag_breakdown.induced.total, A.drag_breakdown.induced.inviscid_wings = CD, CD, db


def analysis(an, v, s=0):
    a = getattr(SUAVE.Analyses.Aerodynamics, {'FZ': 'Fidelity_Zero', 'SZ': 'Supersonic_Zero'}[an])()
    a.geometry = v
    for k, x in dict(SETTINGS[s], **(SUPER[s] if an == 'SZ' else {})).items():
        a.settings[k] = x
    a.process.compute.lift.inviscid_wings = standin
    return a


def state(c):
    st = SUAVE.Analyses.Mission.Segments.Conditions.State()
    st.conditions = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    st.expand_rows(len(c['M']))
    f = st.conditions.freestream
    for k, q in (('mach_number', 'M'), ('reynolds_number', 'Re'), ('temperature', 'T')):
        f[k] = np.array(c[q], dtype=float)[:, None]
    f.altitude = 0. * f.mach_number
    st.conditions.aerodynamics.angle_of_attack = np.array(c['a'], dtype=float)[:, None]
    return st


def cols(L):
    return {k: np.array([x[i] for x in L], dtype=float) for i, k in enumerate(('M', 'Re', 'T', 'a'))}


ALL_M = {'FZ': (.1, .3, .55, .75, .85, .9499, .95, .97, .9999, 1., 1.0001, 1.2),
         'SZ': (.1, .4, .7, .89, .91, .95, .955, .97, .99, .9999, 1., 1.0001, 1.01, 1.039, 1.04, 1.041, 1.1, 1.2, 1.21, 1.25, 1.3, 1.6, 2., 3.)}


def results(st):
    A = st.conditions.aerodynamics
    out = R.flat(A.drag_breakdown)
    out.update(CL=A.lift_coefficient, CD=A.drag_coefficient)
    return out


def call(a, c):
    st = state(c)
    a.evaluate(st)
    return results(st)


# ------------------------------------------------------------------ the correlations, one point at a time
def cf_turb(Re):
    return .455 / math.log10(Re) ** 2.58


def cf_mixed(Re, xt):
    if xt == 0.:
        return cf_turb(Re)
    rl = Re * xt
    theta = .671 * xt / math.sqrt(rl)                         # laminar momentum thickness at transition
    xe = (27.78 * theta * Re ** .2) ** 1.25                   # length of turbulent plate with that thickness
    return 1.328 / math.sqrt(rl) * xt + cf_turb(Re * (1 - xt + xe)) * (1 - xt + xe) - cf_turb(Re * xe) * xe


def blend(x, a, b):
    e = min(max((x - a) / (b - a), 0.), 1.)
    return 1. - e * e * (3. - 2. * e)


def k_wing(M, tc, sw, C):
    c2 = math.cos(sw) ** 2
    if M >= 1.:
        return 1.
    b2 = 1. - M * M * c2
    k = 1. + 2. * C * tc * c2 / math.sqrt(b2) + (C * tc) ** 2 * c2 * (1. + 5. * c2) / (2. * b2)
    return 1. + (k - 1.) * blend(M, .95, 1.)


def friction(Re, M, T):
    tw = 1. + .178 * M * M
    td = 1. + .035 * M * M + .45 * (tw - 1.)
    return 1. / td * (1. / (td ** 1.5 * (td * T + 216.) / (T + 216.))) ** .2


def cd_wing(w, M, Re, T, C):
    """on the reference area of the wing"""
    def part(mac, sw, swet):
        m = [cf_mixed(Re * mac, x) for x in (w.transition_x_upper, w.transition_x_lower)]
        return sum(m) / 2. * friction(Re * mac, M, T) * k_wing(M, w.thickness_to_chord, sw, C) * swet
    S = list(w.Segments.values())
    if S:
        return sum(part(s.chords.mean_aerodynamic, s.sweeps.quarter_chord, s.areas.wetted) for s in S[:-1]) / w.areas.reference
    return part(w.chords.mean_aerodynamic, w.sweeps.quarter_chord, w.areas.wetted) / w.areas.reference


def bump(M, d):
    """maximum velocity increment on a body of revolution"""
    D = math.sqrt(1. - (1. - M * M) * d * d)
    a = 2. * (1. - M * M) * d * d * (math.atanh(D) - D) / D ** 3
    return a / ((2. - a) * math.sqrt(1. - M * M))


def cd_fus(f, M, Re, T, st, an):
    d = f.effective_diameter / f.lengths.total
    if an == 'FZ':
        u = bump(M, d) if M < .95 else bump(0., d)
    else:
        lo, hi = st.fuselage_parasite_drag_begin_blend_mach, st.fuselage_parasite_drag_end_blend_mach
        h = blend(M, lo, hi)
        u = (h * bump(M, d) if h > 0. else 0.) + (1. - h) * bump(0., d)
    return (1. + st.fuselage_parasite_drag_form_factor * u) ** 2 * cf_turb(Re * f.lengths.total) * friction(1., M, T) * f.areas.wetted / f.areas.front_projected


def cd_nac(n, M, Re, T, st, an):
    k = .35 * n.diameter / n.length
    if an == 'SZ':
        k *= blend(M, st.begin_drag_rise_mach_number, st.end_drag_rise_mach_number)
    return (1. + k) * cf_turb(Re * n.length) * friction(1., M, T) * n.areas.wetted / (math.pi * n.diameter ** 2 / 4.)


def crest(tc, cl, sw, M):
    c = math.cos(sw)
    t, l = tc / c, cl / c ** 2
    mcc = (.922321524499352 - 1.15388516617062 * t - .304541067183461 * l + .332881324404729 * t * t + .467317361111105 * t * l + .087490431201549 * l * l) / c
    return .0019 * (M / mcc) ** 14.641 * c ** 3


def expected(ctx, an, v, st, c, i, got):
    M, Re, T, al = (float(c[k][i]) for k in ('M', 'Re', 'T', 'a'))
    S = v.reference_area
    order = sorted(v.wings.keys())
    W = {t: v.wings[t] for t in v.wings.keys()}
    cl = {t: float(wing_cl(order.index(t), al, M)) for t in W}
    o = {}
    cdw = {t: cd_wing(w, M, Re, T, st.wing_parasite_drag_form_factor) for t, w in W.items()}
    par = 0.
    for t, w in W.items():
        o['parasite.%s.parasite_drag_coefficient' % t] = cdw[t] * w.areas.reference / S
        par += cdw[t] * w.areas.reference / S
    for f in v.fuselages.values():
        if f.tag != 'fuselage_bwb':
            o['parasite.%s.parasite_drag_coefficient' % f.tag] = x = cd_fus(f, M, Re, T, st, an) * f.areas.front_projected / S
            par += x
    npar = 0.
    for n in v.nacelles.values():
        o['parasite.%s.parasite_drag_coefficient' % n.tag] = x = cd_nac(n, M, Re, T, st, an) * math.pi * n.diameter ** 2 / 4. / S
        npar += x
    if an == 'FZ':
        o['parasite.pylon.parasite_drag_coefficient'] = .2 * npar
        par += 1.2 * npar
    else:
        par += npar
    o['parasite.total'] = par
    CL = sum(cl[t] * W[t].areas.reference for t in W) / S * st.fuselage_lift_correction
    inv = sum(cl[t] ** 2 / (9. + order.index(t)) * W[t].areas.reference for t in W) / S
    big = max(W.values(), key=lambda w: w.areas.reference)
    if st.oswald_efficiency_factor is None:
        vis, known = (sum(st.viscous_lift_dependent_drag_factor * cdw[t] * cl[t] ** 2 * (W[t].areas.reference / S) ** p for t in W) for p in (1, 2))
        if abs(got['induced.viscous'] - known) <= 1e-9 * abs(known) < abs(known - vis):
            ctx.fail('induced:area-twice', 'viscous part of the induced drag takes wings of %g of the reference area by the square of that (%g, the wings have %g)' % (min(w.areas.reference for w in W.values()) / S, known, vis))
            vis = known
        if st.span_efficiency is not None:
            inv = sum(cl[t] ** 2 / (math.pi * W[t].aspect_ratio * st.span_efficiency) * W[t].areas.reference for t in W) / S
        ind = inv + vis
    else:
        ind = CL ** 2 / (math.pi * big.aspect_ratio * st.oswald_efficiency_factor)
        vis = ind - inv
    o['induced.total'], o['induced.viscous'] = ind, vis
    if an == 'FZ':
        cmp_ = sum(crest(W[t].thickness_to_chord, cl[t], W[t].sweeps.quarter_chord, M) * W[t].areas.reference for t in W) / S
        wet = 1.1 * (sum(w.areas.wetted for w in W.values()) + sum(f.areas.wetted for f in v.fuselages.values()) + sum(n.areas.wetted * len(n.origin) for n in v.nacelles.values()))
        mis = .4 * (.0184 + .000469 * wet - 1.13e-7 * wet ** 2) / S
    else:
        lo, hi, pk, mu, sc = st.begin_drag_rise_mach_number, st.end_drag_rise_mach_number, st.peak_mach_number, st.transonic_drag_multiplier, st.volume_wave_drag_scaling
        L, A = v.total_length, v.maximum_cross_sectional_area
        mw = W['main_wing']

        def vol(m):
            if st.wave_drag_type == 'Sears-Haack':
                return 6. * math.pi * (A / L) ** 2 / S * sc
            base = 4.5 * math.pi * (A / L) ** 2 / S * sc
            if m < 1.2:
                return base
            le = math.atan(math.tan(mw.sweeps.quarter_chord) + mw.chords.root * (1. - mw.taper) / 4. / (mw.spans.projected / 2.)) / DEG
            h = blend(m, 1.2, 1.3)
            return base * (h + (1. - h) * (1. - .2 * (m - 1.2) ** .57 * (1. - math.pi * le ** .77 / 100.)))

        def low(m):
            x = 0.
            for t, w in W.items():
                if w.high_mach is True:
                    q = .0019 * (m / .95) ** 14.641
                else:
                    q = crest(w.thickness_to_chord, cl[t] if isinstance(w, SUAVE.Components.Wings.Main_Wing) else 0., w.sweeps.quarter_chord, m)
                x += q * w.areas.reference / S
            return x
        peak = vol(lo) * mu
        if M < pk:
            para = (low(lo) - peak) / (lo - pk) ** 2 * (M - pk) ** 2 + peak
            h = blend(M, lo, pk - .75 * (pk - lo))
            o['compressible.total_volume'] = h * low(M) + (1. - h) * para
        else:
            para = (vol(lo) - peak) / (hi - pk) ** 2 * (M - pk) ** 2 + peak
            h = blend(M, pk, hi)
            o['compressible.total_volume'] = h * para + (1. - h) * vol(M)
        lift = 0.
        if M >= 1.01:
            s_l, b = mw.spans.projected / 2. / mw.total_length, math.sqrt(M * M - 1.)
            p = 2. / mw.aspect_ratio * s_l
            x = b * s_l
            fw = -.0065 - .2382 * x + 1.6306 * x ** 2 - .86 * x ** 3 + .2232 * x ** 4 - .0365 * x ** 5 if x > .178 else 0.
            lift = CL ** 2 * (1. + p) * fw / (2. * math.pi * s_l) * mw.areas.reference / S * (1. - blend(M, pk, hi))
        o['compressible.total_lift'] = lift
        cmp_ = o['compressible.total_volume'] + lift
        mis = (.006 + sum(math.pi * n.diameter * .2 * .5 / 12. for n in v.nacelles.values())) / S
    o['compressible.total'], o['miscellaneous.total'] = cmp_, mis
    o['untrimmed'] = par + ind + cmp_ + mis
    o['trim_corrected_drag'] = o['untrimmed'] * st.trim_drag_correction_factor
    o['CD'] = o['total'] = (o['trim_corrected_drag'] + st.drag_coefficient_increment + st.spoiler_drag_increment) / (1. + st.lift_to_drag_adjustment)
    o['CL'] = CL
    return o


def r_build(ctx, an, vn, s):
    v = make(vn)
    a = analysis(an, v, s)
    c = cols(list(itertools.product(ALL_M[an], (1e5, 3e6, 2e7), (216.65, 300.), (-.03, .0, .06))))
    got = call(a, c)
    n = len(c['M'])
    for i in range(n):
        row = {k: float(np.ravel(g)[i] if np.size(g) == n else np.ravel(g)[0]) for k, g in got.items()}
        for k, x in expected(ctx, an, v, a.settings, c, i, row).items():
            g = row[k]
            ctx.check(abs(g - x) <= 1e-8 * abs(x) + 1e-12, 'build:%s:%s' % (an, k.split('.')[0] + (':' + k.split('.')[-1] if '.' in k else '')),
                      '%s of %s at Mach %g, Re %g, T %g, angle %g: %.9g, the parts say %.9g' % (k, vn, c['M'][i], c['Re'][i], c['T'][i], c['a'][i], g, x))
        ctx.state((an, vn, s, i))
    # the entries of the parts add up to the total
    tot = sum(got[k] for k in got if k.startswith('parasite.') and k.endswith('.parasite_drag_coefficient') and 'fuselage_bwb' not in k)
    ctx.close(tot, got['parasite.total'], 'build:sum:parasite', 'sum of the parasite drags', 1e-10)
    ctx.close(got['parasite.total'] + got['induced.total'] + got['compressible.total'] + got['miscellaneous.total'], got['untrimmed'], 'build:sum:untrimmed', 'sum of the contributions', 1e-10)
    ctx.check(np.isfinite(got['CD']).all() and (got['parasite.total'] > 0).all(), 'build:finite', 'drag is not finite, or the parasite drag not positive')
    # averages reported for the pylons lie between those of the nacelles
    if an == 'FZ':
        for q in ('skin_friction_coefficient', 'compressibility_factor', 'reynolds_factor', 'form_factor'):
            x = [got['parasite.%s.%s' % (t, q)] for t in v.nacelles.keys()]
            if x:
                x = np.array([np.ravel(y) * np.ones(n) for y in x])
                p = np.ravel(got['parasite.pylon.' + q]) * np.ones(n)
                ctx.check((p >= x.min(0) * (1 - 1e-12)).all() and (p <= x.max(0) * (1 + 1e-12)).all(), 'build:pylon:' + q, 'mean %s of the pylons is outside the range of the nacelles' % q)


def r_rows(ctx, an, vn):
    v = make(vn)
    a = analysis(an, v, 1)
    Ms = (.3, .8, .97, 1., 1.02, 1.1, 1.25, 1.8) if an == 'SZ' else (.2, .6, .85, .95, 1., 1.1)
    c = cols([(m, 10. ** (5.5 + .3 * i), 220. + 8 * i, .02 * i - .02) for i, m in enumerate(Ms)])
    R.rowcheck(ctx, 'rows:' + an, lambda x: call(a, x), c, rtol=1e-11, atol=1e-14)


def r_perm(ctx, an, vn):
    """the order in which parts are listed does not matter"""
    c = cols(list(itertools.product((.3, .8, 1.15), (3e6,), (230.,), (-.02, .05))))
    w, f, n, k = VEH[vn]()
    ref = None
    for wo in itertools.permutations(range(len(w))):
        for no in itertools.permutations(range(len(n))) if len(n) < 4 else ([0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]):
            for fo in itertools.permutations(range(len(f))):
                w, f, n, k = VEH[vn]()
                v = veh([w[i] for i in wo], [f[i] for i in fo], [n[i] for i in no], k, ref=130.)
                o = call(analysis(an, v, 1), c)
                ref = ref or o
                ctx.check(set(o) == set(ref), 'perm:names', 'the breakdown has other entries')
                for q in ref:
                    ctx.close(o[q], ref[q], 'perm:' + q.split('.')[0], '%s with the parts listed in another order' % q, 1e-11, 1e-15)
                ctx.state((an, vn, wo, tuple(no), fo))
                ctx.trace()


def grown(v, f):
    v = copy.deepcopy(v)
    v.reference_area *= f * f
    v.total_length *= f
    v.maximum_cross_sectional_area *= f * f
    for w in v.wings.values():
        for x in (w, *w.Segments.values()):
            for k in x.areas.keys():
                if isinstance(x.areas[k], float):
                    x.areas[k] *= f * f
            for k in x.chords.keys():
                if isinstance(x.chords[k], float):
                    x.chords[k] *= f
        w.spans.projected *= f
        w.exposed_root_chord_offset *= f
        w.total_length *= f
    for b in v.fuselages.values():
        b.areas.wetted *= f * f
        b.areas.front_projected *= f * f
        b.lengths.total *= f
        b.effective_diameter *= f
    for b in v.nacelles.values():
        b.areas.wetted *= f * f
        b.diameter *= f
        b.length *= f
    return v


def r_scale(ctx, an, vn):
    """a larger vehicle at the same Reynolds number has the same coefficients; other reference area, other coefficients, same drag"""
    c = cols(list(itertools.product((.3, .8, 1.1, 1.5) if an == 'SZ' else (.3, .8), (3e6,), (230.,), (-.02, .05))))
    v = make(vn)
    o = call(analysis(an, v), c)
    for f in (.5, 3.):
        g = call(analysis(an, grown(v, f)), dict(c, Re=c['Re'] / f))
        for q in ('parasite.total', 'induced.total', 'compressible.total'):
            ctx.close(g[q], o[q], 'scale:size:' + q, '%s of the vehicle grown %g times' % (q, f), 1e-10)
    r = copy.deepcopy(v)
    r.reference_area *= 2.5
    g = call(analysis(an, r), c)
    for q in ('parasite.total', 'miscellaneous.total', 'CL') + (('compressible.total',) if an == 'FZ' else ('compressible.total_volume',)):
        ctx.close(g[q] * 2.5, o[q], 'scale:reference:' + q, '%s with another reference area' % q, 1e-10)
    ctx.state((an, vn))


def r_history(ctx, an, vn):
    """what was asked before does not matter, and evaluating changes neither vehicle nor settings"""
    v = make(vn)
    a = analysis(an, v, 1)
    X = [cols([(.3, 2e6, 250., .03)]), cols([(.8, 9e6, 220., .01), (1.15, 4e6, 220., .05)]), cols([(1.5, 4e6, 220., .05), (.5, 4e6, 230., -.02), (1.04, 3e6, 230., .02)])]
    solo = [call(analysis(an, make(vn), 1), x) for x in X]

    def snap():
        return repr([(w.tag, dict(w.areas), dict(w.chords), dict(w.sweeps), w.thickness_to_chord, [(dict(s.areas), dict(s.sweeps)) for s in w.Segments.values()]) for w in v.wings.values()]) + repr({k: x for k, x in a.settings.items() if not isinstance(x, dict)})
    s0 = snap()
    for h in itertools.product(range(3), repeat=3):
        for i in h:
            o = call(a, X[i])
            ctx.check(set(o) == set(solo[i]), 'history:names', 'the breakdown has other entries after %s' % (h,))
            for q in o:
                ctx.check(R.same(o[q], solo[i][q], 1e-12), 'history:' + q.split('.')[0], '%s depends on what was asked before (%s)' % (q, h))
            ctx.step()
        ctx.state((an, vn, h))
        ctx.trace()
    ctx.check(snap() == s0, 'history:vehicle', 'evaluating the drag changes the vehicle or the settings')
    # the same state again
    st = state(X[1])
    a.evaluate(st)
    one = {k: np.array(x) for k, x in results(st).items()}
    a.evaluate(st)
    for k, x in results(st).items():
        ctx.check(R.same(one[k], x, 1e-12), 'history:again:' + k.split('.')[0], '%s changes when the same state is evaluated again' % k)
    # sweeping the wing afterwards counts
    if an == 'SZ':
        w = v.wings.main_wing
        w.sweeps.quarter_chord += .2
        w2 = make(vn)
        w2.wings.main_wing.sweeps.quarter_chord += .2
        for q, x in call(analysis(an, w2, 1), X[2]).items():
            ctx.close(call(a, X[2])[q], x, 'history:swept:' + q.split('.')[0], '%s after the wing was swept' % q, 1e-10, 1e-14)


def r_smooth(ctx, vn, s):
    """supersonic build-up: no jumps at any of the thresholds"""
    v = make(vn)
    a = analysis('SZ', v, s)
    st = a.settings
    T = sorted({st.begin_drag_rise_mach_number, st.end_drag_rise_mach_number, st.peak_mach_number, st.peak_mach_number - .75 * (st.peak_mach_number - st.begin_drag_rise_mach_number), st.fuselage_parasite_drag_begin_blend_mach,
                st.fuselage_parasite_drag_end_blend_mach, .95, 1., 1.01, 1.2, 1.3})
    L = [(m + d, 5e6, 220., .04) for m in T for d in (-1e-7, 0., 1e-7)]
    o = call(a, cols(L))
    for q in ('parasite.total', 'compressible.total_volume', 'compressible.total_lift', 'compressible.total', 'CD'):
        x = np.ravel(o[q]).reshape(-1, 3)
        scale = np.abs(np.ravel(o['CD'])).max()
        ctx.check((np.abs(x - x[:, 1:2]) < 2e-5 * scale).all(), 'smooth:' + q, '%s of %s jumps at Mach %s' % (q, vn, [T[i] for i in range(len(T)) if np.abs(x[i] - x[i, 1]).max() >= 2e-5 * scale]))
        ctx.ev(x.size)
        ctx.state((vn, s, q))
    # parasite drag falls with Reynolds number, rises with form factor
    hi, lo = call(a, cols([(m, 3e7, 220., .04) for m in T])), call(a, cols([(m, 3e6, 220., .04) for m in T]))
    ctx.check((hi['parasite.total'] < lo['parasite.total']).all(), 'smooth:reynolds', 'parasite drag does not fall with Reynolds number')


def r_plate(ctx, k):
    H = SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Helper_Functions
    mixed, turb = H.compressible_mixed_flat_plate, H.compressible_turbulent_flat_plate
    Re = np.logspace(4.5, 9, 10)
    for M in (0., .5, 1., 2., 4.):
        for T in (200., 288.15, 320.):
            a = lambda: (Re[:, None].copy(), np.full((len(Re), 1), M), np.full((len(Re), 1), T))
            t = turb(*a())
            prev = None
            for xt in (0., .05, .2, .4, .6, .8, 1.):
                x = a()
                m = mixed(x[0], x[1], x[2], xt)
                ctx.check(np.array_equal(x[0][:, 0], Re), 'plate:input', 'the Reynolds number handed in was changed')
                for i, r in enumerate(Re):
                    ctx.check(abs(m[0][i, 0] / (cf_mixed(r, xt) * friction(r, M, T)) - 1) < 1e-10, 'plate:mixed', 'friction of a plate with transition at %g, Re %g, Mach %g, T %g: %g' % (xt, r, M, T, m[0][i, 0]))
                if xt == 0.:
                    ctx.close(m[0], t[0], 'plate:turbulent', 'plate that is turbulent from the start', 1e-12)
                if xt == 1.:
                    ctx.close(m[0][:, 0], 1.328 / np.sqrt(Re) * m[1][:, 0] * m[2][:, 0], 'plate:laminar', 'plate that is laminar throughout', 1e-9)
                if prev is not None:
                    big = Re > 3e5
                    ctx.check((m[0][big] < prev[big]).all(), 'plate:order', 'later transition does not lower the friction')
                prev = m[0]
                ctx.check(R.same(m[1], t[1], 1e-12) and R.same(m[2], t[2], 1e-12), 'plate:factors', 'compressibility factors of mixed and turbulent plates differ')
                ctx.check(M > 0. or R.same(m[1] * m[2], 1. + 0 * m[1], 1e-12), 'plate:incompressible', 'compressibility changes the friction at Mach 0')
                ctx.state((M, T, xt))
    for xt in (-.1, 1.1):
        try:
            mixed(Re[:, None].copy(), 0 * Re[:, None], 0 * Re[:, None] + 250., xt)
            ctx.fail('plate:range', 'transition at %g is accepted' % xt)
        except ValueError:
            ctx.ev()


def r_wet(ctx, k):
    """exposed area of unsegmented wings"""
    D = SUAVE.Methods.Aerodynamics.Common.Fidelity_Zero.Drag.parasite_drag_wing
    for sym, off, tc, taper, again in itertools.product((True, False), (0., .5, 2.), (.04, .05, .12), (1., .3), (True, False)):
        w = wing(sym=sym, off=off, tc=tc, taper=taper, wet=0. if not again else 55.)
        a = analysis('FZ', veh([w]))
        a.settings.recalculate_total_wetted_area = again
        st = state(cols([(.4, 3e6, 250., 0.)]))
        D(st, a.settings, w)
        half = w.spans.projected * (.5 if sym else 1.)
        c_at = w.chords.root + (w.chords.tip - w.chords.root) * off / half
        gone = (w.chords.root + c_at) / 2. * off * (2. if sym else 1.)
        S = (w.areas.reference - gone) * (2.003 if tc < .05 else 1.977 + .52 * tc)
        ctx.close(w.areas.wetted, S, 'wet:area', 'wetted area of a wing hidden to %g m (symmetric %s, taper %g)' % (off, sym, taper), 1e-10)
        e = cd_wing(w, .4, 3e6, 250., a.settings.wing_parasite_drag_form_factor)
        r = st.conditions.aerodynamics.drag_breakdown.parasite[w.tag]
        ctx.close(r.parasite_drag_coefficient, [[e]], 'wet:drag', 'drag of a wing with computed wetted area', 1e-9)
        ctx.close(r.wetted_area, S, 'wet:report', 'reported wetted area', 1e-10)
        ctx.state((sym, off, tc, taper, again))
    # an area that is given stays
    w = wing(wet=321.)
    a = analysis('FZ', veh([w]))
    D(state(cols([(.4, 3e6, 250., 0.)])), a.settings, w)
    ctx.close(w.areas.wetted, 321., 'wet:given', 'given wetted area')


def r_splitseg(ctx, k):
    """segments that do not change the planform do not change the drag much (only through the chord Reynolds number); recalculated areas"""
    P = SUAVE.Methods.Geometry.Two_Dimensional.Planform
    c = cols(list(itertools.product((.3, .8), (1e6, 2e7), (250.,), (.03,))))
    for taper, cut in itertools.product((1., .4), ((.5,), (.3, .7), (.1, .2, .9))):
        one = wing(taper=taper, sweep=.3)
        o = call(analysis('FZ', veh([one])), c)['parasite.total']
        w = wing(taper=taper, sweep=.3)
        E = [0.] + list(cut) + [1.]
        segs(w, [(e, 1. - (1. - taper) * e, .3) for e in E])
        for s in list(w.Segments.values())[:-1]:
            s.areas.wetted = s.areas.reference * 2.1
        p = call(analysis('FZ', veh([w])), c)['parasite.total']
        ctx.close(p, o, 'splitseg:drag', 'drag of a wing cut into %d segments' % (len(E) - 1), 1e-10 if taper == 1. else .02)
        P.segment_properties(w, update_wet_areas=True)
        a = analysis('FZ', veh([w]))
        q = call(a, c)['parasite.total']
        a.settings.recalculate_total_wetted_area = True
        ctx.close(call(a, c)['parasite.total'], q, 'splitseg:recalculated', 'drag with the wetted area computed again', 1e-10)
        ctx.close(sum(s.areas.reference for s in list(w.Segments.values())[:-1]), w.areas.reference, 'splitseg:reference', 'areas of the segments', 1e-10)
        ctx.state((taper, cut))


# ------------------------------------------------------------------ lifting line
def glauert(b, chord, twist, al, N=60):
    """monoplane equation by collocation; returns CL and CDi on the area of the chord distribution"""
    th = np.arange(1, N + 1) * math.pi / (N + 1)
    eta = np.abs(np.cos(th))
    n = np.arange(1, N + 1)
    mu = chord(eta) * 2 * math.pi / (4 * b)
    A = np.linalg.solve(np.sin(np.outer(th, n)) * (n[None] * mu[:, None] + np.sin(th)[:, None]), mu * (al + twist(eta)) * np.sin(th))
    e = np.linspace(0, 1, 20001)
    S = b * np.trapz(chord(e), e)
    AR = b * b / S
    return A[0] * math.pi * AR, math.pi * AR * np.sum(n * A * A), AR, S


def r_line(ctx, k):
    LL = SUAVE.Methods.Aerodynamics.Lifting_Line.lifting_line
    for span, taper, tw in itertools.product((8., 16.), (1., .4), ((0., 0.), (.04, -.03), (-.02, .05))):
        w = wing(span=span, cr=1.5, taper=taper, sweep=0.)
        w.twists.root, w.twists.tip = tw
        lin = lambda e: 1.5 * (1. - (1. - taper) * e)
        tws = lambda e: tw[0] + (tw[1] - tw[0]) * e
        if k == 1:
            segs(w, ((0., 1., 0.), (.5, (1 + taper) / 2, 0.), (1., taper, 0.)))
            for s, e in zip(w.Segments.values(), (0., .5, 1.)):
                s.twist = tws(e)
        elif k == 2:
            segs(w, ((0., 1., 0.), (.3, .9, 0.), (.6, .5, 0.), (1., taper * .5, 0.)))
            lin = lambda e: 1.5 * np.interp(e, (0., .3, .6, 1.), (1., .9, .5, taper * .5))
            tws = lambda e: np.interp(e, (0., .3, .6, 1.), (tw[0], .01, tw[1], -.02))
            for s, t in zip(w.Segments.values(), (tw[0], .01, tw[1], -.02)):
                s.twist = t
            w.chords.tip = 1.5 * taper * .5
            w.twists.tip = -.02
        e = np.linspace(0, 1, 20001)
        w.areas.reference = span * np.trapz(lin(e), e)
        w.aspect_ratio = span ** 2 / w.areas.reference
        w.chords.mean_aerodynamic = np.trapz(lin(e) ** 2, e) / np.trapz(lin(e), e)
        for al in (-.1, 0., .02, .12):
            want = glauert(span, lin, tws, al)
            for r in (20, 60, 100):
                st = Data(number_of_stations=r)
                c = Data()
                c.aerodynamics = Data(angle_of_attack=np.array(al))
                CL, CD = LL(c, st, w)
                CL, CD = float(np.ravel(CL)[0]), float(np.ravel(CD)[0])
                tol = {20: .05, 60: .015, 100: .01}[r]
                ctx.check(abs(CL - want[0]) < tol * max(abs(want[0]), .05), 'line:lift', 'lift of the lifting line: %.6f, the monoplane equation gives %.6f (taper %g twist %s angle %g stations %d kind %d)' % (CL, want[0], taper, tw, al, r, k))
                ctx.check(abs(CD - want[1]) < 3 * tol * max(abs(want[1]), 5e-4), 'line:drag', 'drag of the lifting line: %.6f, the monoplane equation gives %.6f (taper %g twist %s angle %g stations %d kind %d)' % (CD, want[1], taper, tw, al, r, k))
                ctx.check(CD >= CL ** 2 / (math.pi * w.aspect_ratio) * (1 - 1e-9) - 1e-15, 'line:elliptic', 'induced drag below that of elliptic loading')
                ctx.state((k, span, taper, tw, al, r))
                ctx.ev(2)
            if k == 3:
                # stations that fall on a break
                x = copy.deepcopy(w)
                segs(x, ((0., 1., 0.), (.5, (1 + taper) / 2, 0.), (1., taper, 0.)))
                for s, q in zip(x.Segments.values(), (0., .5, 1.)):
                    s.twist = tws(q)
                for r in range(3, 40):
                    st, c = Data(number_of_stations=r), Data()
                    c.aerodynamics = Data(angle_of_attack=np.array(al))
                    ctx.close(np.array([np.ravel(q)[0] for q in LL(c, st, x)]), np.array([np.ravel(q)[0] for q in LL(c, st, w)]), 'line:break', 'segments that do not change the planform, %d stations' % r, 1e-8, 1e-12)
            if k == 4:
                # many angles: linear in angle and twist
                f = lambda a: float(np.ravel(LL(Data(aerodynamics=Data(angle_of_attack=np.array(a))), Data(number_of_stations=30), w)[0])[0])
                ctx.close(f(al) + f(-al), 2 * f(0.), 'line:linear', 'linearity in the angle', 1e-9, 1e-12)
                u = copy.deepcopy(w)
                u.vertical = True
                ctx.check(tuple(LL(Data(aerodynamics=Data(angle_of_attack=np.array(al))), Data(number_of_stations=30), u)) == (0., 0.), 'line:vertical', 'a vertical wing lifts')


def r_lineana(ctx, k):
    """the analysis built on it: every wing its own, totals weighted by area"""
    LL = SUAVE.Methods.Aerodynamics.Lifting_Line.lifting_line
    mk = lambda: [wing(span=20., cr=2., sweep=0.), wing('Wing', 'second', 8., 1., .6, 0.), vt()]
    for o in itertools.permutations(range(3)):
        w = mk()
        w[0].twists.root, w[0].twists.tip, w[1].twists.root = .03, -.02, -.01
        v = veh([w[i] for i in o], ref=25.)
        a = SUAVE.Analyses.Aerodynamics.Lifting_Line()
        a.geometry = v
        a.initialize(True, (None, 30, 41)[k], None, False, False, False, False)
        c = cols(list(itertools.product((.1, .5), (1e6,), (250.,), (-.1, -.02, .03, .1))))
        st = state(c)
        st.conditions.freestream.dynamic_pressure = 1. + 0 * st.conditions.freestream.mach_number
        a.evaluate(st, a.settings, v)
        A = st.conditions.aerodynamics
        n = a.settings.number_of_stations
        ctx.check(k == 0 or n == (None, 30, 41)[k], 'lineana:stations', 'number of stations is not taken over')
        tot = [0., 0.]
        for x in w:
            e = np.array([[float(np.ravel(q)[0]) for q in LL(Data(aerodynamics=Data(angle_of_attack=np.array(al))), Data(number_of_stations=n), x)] for al in c['a']])
            ctx.close(A.lift_breakdown.inviscid_wings[x.tag], e[:, :1], 'lineana:lift', 'lift of %s, listed %s' % (x.tag, o), 1e-6, 1e-9)
            ctx.close(A.drag_breakdown.induced.inviscid_wings[x.tag], e[:, 1:], 'lineana:drag', 'induced drag of %s, listed %s' % (x.tag, o), 1e-6, 1e-9)
            tot = [tot[i] + e[:, i:i + 1] * x.areas.reference / 25. for i in (0, 1)]
        ctx.close(A.lift_coefficient, tot[0], 'lineana:total:lift', 'total lift', 1e-6, 1e-9)
        ctx.close(A.drag_breakdown.induced.inviscid, tot[1], 'lineana:total:drag', 'total induced drag', 1e-6, 1e-9)
        ctx.state((k, o))


# ------------------------------------------------------------------ AERODAS
def r_aerodas(ctx, AR, tc):
    A0s = (0., .03) if AR == 8. else (0.,)
    for A0 in A0s:
        def mk():
            b = math.sqrt(AR * 30.)
            w = [wing(span=b, cr=30. / b, taper=1., sweep=0., tc=tc), wing('Wing', 'second', b / 2, 20. / b, 1., 0., tc * .8), vt()]
            v = veh(w, ref=40.)
            a = SUAVE.Analyses.Aerodynamics.AERODAS()
            a.geometry = v
            a.settings.section_zero_lift_angle_of_attack = A0
            a.settings.drag_coefficient_increment = .002
            return a, v
        a, v = mk()
        al = np.array([-90., -75., -60., -45., -30., -21., -12., -6., -2., 0., 1., 3., 6., 10., 14., 20., 28., 40., 60., 80., 90.]) * DEG
        c = cols([(.2, 3e6, 280., x) for x in al])

        def f(x, a=a):
            st = state(x)
            a.evaluate(st)
            A = st.conditions.aerodynamics
            o = dict(CL=A.lift_coefficient, CD=A.drag_coefficient)
            for w in a.geometry.wings.keys():
                for q, D in (('pre', A.pre_stall_coefficients), ('post', A.post_stall_coefficients)):
                    o[w + q + 'L'], o[w + q + 'D'] = D[w].lift_coefficient, D[w].drag_coefficient
            return o
        o = R.rowcheck(ctx, 'aerodas', f, R.take(c, range(1, 20, 2)), rtol=1e-11, atol=1e-14)
        o = f(c)
        S = {w.tag: w.areas.reference / 40. for w in v.wings.values()}
        CL, CD = 0., .002
        for t, s in S.items():
            p, q = o[t + 'preL'], o[t + 'postL']
            CL = CL + (0. if v.wings[t].vertical else np.where(np.array(c['a'])[:, None] > A0, np.fmax(p, q), np.fmin(p, q))) * s
            CD = CD + np.fmax(o[t + 'preD'], o[t + 'postD']) * s
        ctx.close(o['CL'], CL, 'aerodas:sum:lift', 'lift is the area weighted sum', 1e-10, 1e-14)
        ctx.close(o['CD'], CD, 'aerodas:sum:drag', 'drag is the area weighted sum', 1e-10)
        # antisymmetric about the angle of zero lift, drag symmetric
        if A0 == 0.:
            x = f(dict(c, a=-c['a']))
            ctx.close(x['CL'], -o['CL'], 'aerodas:odd', 'lift at the opposite angle', 1e-9, 1e-12)
            ctx.close(x['CD'], o['CD'], 'aerodas:even', 'drag at the opposite angle', 1e-9, 1e-12)
        m = v.wings.main_wing
        sl = 2 * math.pi * AR / (2 + math.sqrt(4 + AR * AR))
        small = f(cols([(.2, 3e6, 280., A0 + x) for x in (.0, 1e-3, -1e-3, .01)]))
        ctx.close(small['main_wingpreL'][:, 0], sl * np.array((.0, 1e-3, -1e-3, .01)), 'aerodas:slope', 'lift near zero lift', 2e-2, 1e-12)
        # the parameters of the finite wing
        Re = 3e6 * m.chords.mean_aerodynamic
        Cf = .0576 * Re ** -.2
        k = 1. + 2. * 1.1 * tc + 1.1 ** 2 * 6. * tc * tc / 2.
        cd0 = 2. * k * Cf
        ctx.close(small['main_wingpreD'][:1, 0] if A0 == 0. else cd0, cd0, 'aerodas:form', 'drag of the section at zero angle: twice the plate friction times the form factor', 1e-9)
        clm = 1.5 * (.67 + .33 * math.exp(-(4. / AR) ** 2))
        acl = A0 + 1.5 / (2 * math.pi) + 18.2 * 1.5 * AR ** -.9 * DEG
        st = f(cols([(.2, 3e6, 280., acl)]))
        ctx.close(st['main_wingpreL'], [[clm]], 'aerodas:stall-angle', 'largest lift, at the stall angle of the finite wing (aspect ratio %g)' % AR, 1e-6)
        cd90 = 2.3 * math.exp(-(.65 * tc) ** .9) * (.52 + .48 * math.exp(-(6.5 / AR) ** 1.1))
        n = f(cols([(.2, 3e6, 280., math.pi / 2)]))
        ctx.close(n['main_wingpostD'], [[cd90]], 'aerodas:ninety', 'drag broadside on', 1e-6)
        ctx.check((np.diff(o['main_wingpostD'][c['a'] > .6][:, 0]) > 0).all(), 'aerodas:monotone', 'post stall drag does not rise towards 90 degrees')
        for i in range(len(al)):
            ctx.state((AR, tc, A0, i))
        # what was asked before does not matter
        b, _ = mk()
        f(R.take(c, [3]), b)
        y = f(c, b)
        for q in o:
            ctx.check(R.same(y[q], o[q], 1e-12), 'aerodas:history', '%s depends on what was asked before' % q)


# ------------------------------------------------------------------ maximum lift
def r_clmax(ctx, k):
    M = SUAVE.Methods.Aerodynamics.Fidelity_Zero.Lift
    C = SUAVE.Components.Wings.Control_Surfaces

    def run_(v, V=70., factor=1.):
        V = np.atleast_1d(V)
        st = state(cols([(.2, 3e6, 280., 0.)] * len(V)))
        f = st.conditions.freestream
        f.velocity, f.density, f.dynamic_viscosity = V[:, None] * 1., 1.2 + 0 * V[:, None], 1.8e-5 + 0 * V[:, None]
        a, b = M.compute_max_lift_coeff(st, Data(maximum_lift_coefficient_factor=factor), v)
        return np.ravel(a), b

    def clean(w, V):
        tc = w.thickness_to_chord * 100
        c0 = -.0009 * tc ** 3 + .0217 * tc ** 2 - .0442 * tc + .7005
        t, s = w.taper, w.sweeps.quarter_chord / DEG
        p = .919729714285715 - .044504761904771 * t - .0018359 * s + .247071428571446 * t ** 2 + .0031915 * t * s - .000056632142857 * s ** 2 - .279166666666676 * t ** 3 + .0023 * t ** 2 * s + .000049982142857 * t * s ** 2 - .00000028 * s ** 3
        return 1.1 * c0 * (V * 1.2 * w.chords.mean_aerodynamic / 1.8e-5 / 9e6) ** .1 * p - .2
    for tc, sw, taper, hl in itertools.product((.09, .13), (0., .35), (.3, .8), ((True, False), (True, True))):
        w, u = wing(tc=tc, sweep=sw, taper=taper), ht()
        w.high_lift, u.high_lift = hl
        if k >= 1:
            s = C.Slat()
            s.tag, s.deflection = 'slat', (.1, .3)[k % 2]
            w.append_control_surface(s)
        if k >= 2:
            f = C.Flap()
            f.tag, f.deflection, f.chord_fraction, f.configuration_type = 'flap', .4, .28, ('double_slotted', 'single_slotted', 'triple_slotted', None)[k]
            w.append_control_surface(f)
            w.areas.affected = .55 * w.areas.reference
        for ref in (w.areas.reference, 1.3 * w.areas.reference):
            V = np.array([40., 75., 110.])
            got, cd = run_(veh([w, u], ref=ref), V, 1.05)
            e = 0.
            for x in (w, u):
                if not x.high_lift:
                    continue
                d = clean(x, V)
                if x is w and k >= 1:
                    d = d + (.1, .3)[k % 2] / DEG / 23. * math.cos(sw) ** 1.4 * math.cos((.1, .3)[k % 2]) ** 2
                if x is w and k >= 2:
                    T = tc * 100
                    ref2d = (-4e-5 * T ** 4 + .0014 * T ** 3 - .0093 * T ** 2 + .0436 * T + .9734) * (1., .93, 1.08, 0.)[k]
                    fa = .4 / DEG
                    d = d + ref2d * (.0395 * 28. + .0057) * (-.00017857 * fa ** 2 + .029214 * fa - .014) * (1 - .08 * math.cos(sw) ** 2) * math.cos(sw) ** .75 * .55
                e = e + d * x.areas.reference / ref
            ctx.close(got, 1.05 * e, 'clmax:value', 'largest lift coefficient (devices %d, sweep %g, taper %g, reference area %g of that of the wing)' % (k, sw, taper, ref / w.areas.reference), 1e-9)
            ctx.close(cd, sum(.01 * x.areas.reference / ref for x in (w, u) if x.high_lift), 'clmax:drag', 'induced drag of high lift', 1e-9)
            back, _ = run_(veh([u, w], ref=ref), V[::-1], 1.05)
            ctx.close(back[::-1], got, 'clmax:order', 'wings and points in another order', 1e-12)
            ctx.state((k, tc, sw, taper, hl, ref))
    w = wing()
    w.high_lift = False
    ctx.check(np.ravel(run_(veh([w]))[0])[0] == 0., 'clmax:none', 'a vehicle without high lift wing')
