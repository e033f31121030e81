"""A weight estimate adds up, and the centre of gravity is where the masses are."""
import contextlib, copy, io, itertools, math, warnings
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('6 transports x 5 methods x weight reduction factors {0,.2,.35}^3 x accessories x cargo; every permutation of up to four wings, three fuselages and two networks; every history of up to 3 methods on one vehicle; '
          'passenger, range and accessory thresholds from both sides; blended wing body, general aviation, UAV, human powered and eVTOL vehicles; every mass / origin-list assignment to component trees of up to 4 parts; '
          'every tank set up to 4 tanks against every fill order; component placement x nose load x vehicle x repetition')
ASSUMPTIONS = ['the constants of the published correlations are taken as documented; sums, units of totals, thresholds, invariances and placement around them are the property']
MIN = {'evals': 20000}
TIME_LIMIT = 300
LB, FT, NMI = 0.45359237, 0.3048, 1852.
METHODS = ('SUAVE', 'New SUAVE', 'FLOPS Simple', 'FLOPS Complex', 'Raymer')
ACC = ('short-range', 'medium-range', 'long-range', 'business', 'cargo', 'commuter', 'sst', 'other')


def scenarios(tier):
    T = tier == 'thorough'
    out = []
    for v in VEH:
        for m in METHODS:
            out += [['sum', v, m, k] for k in range(len(OPTS))]
            out += [['factor', v, m], ['perm', v, m], ['cg', v, m]]
        for n in ((2, 3) if T else (2,)):
            out += [['hist', v, n, a] for a in range(len(METHODS))]
    out += [['pax', a] for a in ACC] + [['flops', a] for a in ACC] + [['small', k] for k in range(6)]
    out += [['bwb', k] for k in range(4)] + [['ga', k] for k in range(6)] + [['uav', 0], ['human', 0]]
    out += [['tree', k] for k in range(3)] + [['fuel', n, k] for n in range(1, 5 if T else 4) for k in range(3)] + [['mission', 0]]
    out += [['evtol', k, p] for k in range(len(EV)) for p in ((0, 1, 4, 6) if T else (0, 4))] + [['cut', k] for k in range(3)]
    return out


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    globals()['Data'] = SUAVE.Core.Data
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


# ------------------------------------------------------------------ vehicles
def wing(cls, tag, span, cr, taper, sweep, tc, x, ac=None, vert=False):
    w = getattr(SUAVE.Components.Wings, cls)()
    w.tag, w.spans.projected, w.chords.root, w.chords.tip, w.taper, w.thickness_to_chord = tag, span, cr, cr * taper, taper, tc
    w.sweeps.quarter_chord, w.sweeps.leading_edge = sweep, None
    w.vertical, w.symmetric = vert, not vert
    w.areas.reference = cr * (1 + taper) * span / 2
    w.areas.wetted, w.areas.exposed, w.areas.affected = 2. * w.areas.reference, 1.6 * w.areas.reference, .6 * w.areas.reference
    w.aspect_ratio = span ** 2 / w.areas.reference
    w.chords.mean_aerodynamic = 2 / 3 * cr * (1 + taper + taper ** 2) / (1 + taper)
    w.origin, w.aerodynamic_center = [[x, 0., .3]], [(.5 * w.chords.mean_aerodynamic + .05 * span) if ac is None else ac, 0., 0.]
    w.twists.root, w.twists.tip, w.dihedral = .05, -.02, .05
    return w


def segs(w, brk, tc=None):
    for i, (eta, ch, sw) in enumerate(brk):
        s = SUAVE.Components.Wings.Segment()
        s.tag, s.percent_span_location, s.root_chord_percent, s.twist, s.dihedral_outboard = 'abcdef'[i], eta, ch, 0., .05
        s.thickness_to_chord = (w.thickness_to_chord * (1.2 - .4 * eta)) if tc is None else tc[i]
        s.sweeps.quarter_chord = sw
        w.append_segment(s)
    return w


def fus(tag='fuselage', l=38., d=4., x=0.):
    f = SUAVE.Components.Fuselages.Fuselage()
    f.tag, f.lengths.total, f.lengths.nose, f.lengths.structure, f.width, f.heights.maximum, f.effective_diameter = tag, l, .16 * l, .9 * l, d, 1.1 * d, d
    f.areas.wetted, f.differential_pressure, f.origin = 2.9 * d * l, 5.e4, [[x, 0., 0.]]
    f.number_coach_seats = 100
    return f


def net(tag='turbofan', cls='Turbofan', n=2, T=1.1e5, x=12., mounted=True, length=3.):
    e = getattr(SUAVE.Components.Energy.Networks, cls)()
    e.tag, e.number_of_engines, e.sealevel_static_thrust, e.wing_mounted, e.engine_length = tag, n, T, mounted, length
    e.origin = [[x + .7 * i, 5. * (-1) ** i, -1.] for i in range(n)]
    return e


def nac(tag, d=2., l=4.):
    x = SUAVE.Components.Nacelles.Nacelle()
    x.tag, x.diameter, x.length = tag, d, l
    return x


def transport(wings, fs, nets, nacs=2, gear=0, pax=170, mtow=78000.):
    v = SUAVE.Vehicle()
    for w in wings:
        v.append_component(w)
    for f in fs:
        v.append_component(f)
    for n in nets:
        v.append_component(n)
    for i in range(nacs):
        v.append_component(nac('nacelle_%d' % (i + 1)))
    M = v.mass_properties
    M.max_takeoff, M.takeoff, M.max_zero_fuel, M.cargo = mtow, .98 * mtow, .8 * mtow, 0.
    v.envelope.ultimate_load, v.envelope.limit_load = 3.75, 2.5
    v.reference_area = list(v.wings.values())[0].areas.reference
    v.passengers, v.systems.control, v.systems.accessories = pax, 'fully powered', 'medium-range'
    v.design_mach_number, v.design_range, v.design_cruise_alt = .78, 3000 * NMI, 10700.
    if gear == 0:
        g = SUAVE.Components.Landing_Gear.Landing_Gear()
        v.landing_gear = g
    else:
        g = v.landing_gear
    g.main_strut_length, g.nose_strut_length, g.main_wheels, g.nose_wheels = 1.8, 1.3, 4, 2
    return v


def main_(**k):
    return wing('Main_Wing', 'main_wing', **dict(dict(span=34., cr=6.5, taper=.25, sweep=.44, tc=.11, x=13.), **k))


def ht(tag='horizontal_stabilizer', x=32., span=14.):
    return wing('Horizontal_Tail', tag, span, 3.6, .35, .4, .09, x)


def vt(tag='vertical_stabilizer', x=30., span=7.5):
    return wing('Vertical_Tail', tag, span, 6., .4, .6, .1, x, vert=True)


VEH = {'liner': lambda: transport([main_(), ht(), vt()], [fus()], [net()]),
       'seg': lambda: transport([segs(main_(), ((0., 1., .5), (.1, .95, .45), (.4, .6, .4), (1., .2, 0.))), ht(), vt()], [fus()], [net(n=4, mounted=[True, True, True, True])], gear=1),
       'twofus': lambda: transport([main_(), ht(), vt()], [fus(), fus('pod', 12., 2., 9.)], [net(mounted=False)], gear=1),
       'tandem': lambda: transport([main_(), main2(), ht(), vt(), vt('fin', 31., 5.)], [fus()], [net(n=3, mounted=[True, True, False])]),
       'canard': lambda: transport([main_(x=18.), ht(x=30.), ht('second_tail', 33., 6.), vt()], [fus(l=50., d=3.)], [net(cls='Turbojet_Super', tag='jets', n=4, T=1.4e5)], pax=100, mtow=180000.),
       'mixed': lambda: transport([main_(), ht(), vt()], [fus()], [net(), net('boost', n=1, T=4e4, x=30., mounted=False, length=2.)], nacs=3, pax=40)}


def main2():
    return wing('Main_Wing', 'second_wing', 20., 4., .5, .2, .13, 22.)


OPTS = [dict(), dict(acc='sst', pax=100, cargo=0.), dict(cargo=5000., pax=300), dict(acc='short-range', pax=40), dict(acc='cargo', pax=4, cargo=20000.), dict(acc='long-range', pax=0), dict(flap=.41, acc='commuter')]


def make(v, acc=None, pax=None, cargo=None, flap=None):
    x = VEH[v]()
    if flap:
        x.wings.main_wing.flap_ratio = flap
    if acc:
        x.systems.accessories = acc
    if pax is not None:
        x.passengers = pax
    if cargo is not None:
        x.mass_properties.cargo = cargo
    for f in x.fuselages.values():
        f.number_coach_seats = x.passengers
    return x


def analysis(v, wf=(0., 0., 0.)):
    a = SUAVE.Analyses.Weights.Weights_Transport()
    a.vehicle = v
    a.settings.weight_reduction_factors.main_wing, a.settings.weight_reduction_factors.empennage, a.settings.weight_reduction_factors.fuselage = wf
    return a


def num(x):
    return float(np.ravel(x)[0]) if np.size(x) == 1 else x


def geometry(v):
    """everything a weight estimate must not touch"""
    skip = ('mass_properties', 'weight_breakdown')
    out = {}

    def walk(d, pre):
        for k, x in d.items():
            if k in skip or (pre == '' and k in ('systems', 'payload', 'landing_gear', 'NPF', 'NPB', 'NPT', 'flap_ratio')) or k in ('flap_ratio', 'wing_mounted', 'internal_volume'):
                continue
            if isinstance(x, dict):
                walk(x, pre + k + '.')
            elif isinstance(x, (int, float, list, np.ndarray)) and not isinstance(x, bool):
                out[pre + k] = copy.deepcopy(x)
    walk(v, '')
    for k in ('max_takeoff', 'takeoff', 'max_zero_fuel', 'cargo'):
        out[k] = v.mass_properties[k]
    return out


def unchanged(ctx, before, after, key):
    ctx.check(set(before) <= set(after), key + ':gone', 'gone: %s' % (set(before) - set(after)))
    for k in before:
        ctx.check(k not in after or np.array_equal(np.array(before[k], dtype=object), np.array(after[k], dtype=object)) or R.same(before[k], after[k], 0.), key, '%s was changed by a weight estimate' % k)


STRUCT = ('wing', 'horizontal_tail', 'vertical_tail', 'fuselage', 'main_landing_gear', 'nose_landing_gear', 'nacelle', 'paint')
SYS = ('control_systems', 'apu', 'electrical', 'avionics', 'hydraulics', 'furnish', 'air_conditioner', 'instruments')


def books(ctx, v, r, key, struct=STRUCT, sysitems=SYS):
    """every total is the sum of its items"""
    s = lambda d, ks: sum(num(d[k]) for k in ks)
    ctx.check(set(r.structures.keys()) == set(struct) | {'total'}, key + ':structures-items', 'items %s' % list(r.structures.keys()))
    ctx.close(num(r.structures.total), s(r.structures, struct), key + ':structures', 'structures total against its items')
    ctx.close(num(r.systems_breakdown.total), s(r.systems_breakdown, sysitems), key + ':systems', 'systems total against its items')
    others = [k for k in r.operational_items.keys() if k != 'total']
    ctx.close(num(r.operational_items.total), s(r.operational_items, others), key + ':operational', 'operational total against its items')
    p = r.payload_breakdown
    ctx.close(num(p.total), num(p.passengers) + num(p.baggage) + num(p.cargo), key + ':payload', 'payload total against its items')
    ctx.close(num(r.empty), num(r.structures.total) + num(r.propulsion_breakdown.total) + num(r.systems_breakdown.total), key + ':empty', 'empty weight')
    ctx.close(num(r.operating_empty), num(r.empty) + num(r.operational_items.total), key + ':oew', 'operating empty weight')
    ctx.close(num(r.zero_fuel_weight), num(r.operating_empty) + num(p.total), key + ':zfw', 'zero fuel weight')
    ctx.close(num(r.fuel), v.mass_properties.max_takeoff - num(r.zero_fuel_weight), key + ':fuel', 'fuel')
    flat = R.flat(r)
    for k, x in flat.items():
        if k in ('fuel',):
            continue
        ctx.check(np.all(np.isfinite(x)) and np.all(x >= 0.), key + ':range', '%s = %s' % (k, x))
    ctx.ev(n=len(flat))


def kinds(v, cls):
    return [w for w in v.wings.values() if isinstance(w, getattr(SUAVE.Components.Wings, cls))]


def r_sum(ctx, vn, m, o):
    v = make(vn, **OPTS[o])
    before = geometry(v)
    a = analysis(v)
    r = a.evaluate(m)
    unchanged(ctx, before, geometry(v), 'sum:input')
    ctx.check('flap' not in OPTS[o] or v.wings.main_wing.flap_ratio == OPTS[o]['flap'], 'sum:flap', 'the flap ratio of the wing became %s' % v.wings.main_wing.get('flap_ratio'))
    tag = 'flops' if 'FLOPS' in m else ('raymer' if m == 'Raymer' else 'suave')
    ctx.state((vn, m, o))
    ctx.trace()
    if 'FLOPS' in m and v.mass_properties.cargo:
        p = r.payload_breakdown
        ctx.close(num(p.total), num(p.passengers) + num(p.baggage) + num(p.cargo), 'flops:payload-cargo', 'payload total against its items')
        p.total, ex = num(p.passengers) + num(p.baggage) + num(p.cargo), num(p.total) - (num(p.passengers) + num(p.baggage) + num(p.cargo))
        r.zero_fuel_weight, r.fuel = num(r.zero_fuel_weight) - ex, num(r.fuel) + ex
    books(ctx, v, r, 'sum')
    # what the parts carry is what was reported
    M = lambda L: sum(num(x.mass_properties.mass) for x in L)
    ctx.close(M(kinds(v, 'Main_Wing')), num(r.structures.wing), 'part:wing', 'mass of the main wings')
    ctx.close(M(kinds(v, 'Horizontal_Tail')), num(r.structures.horizontal_tail), 'part:htail', 'mass of the horizontal tails')
    ctx.close(M(kinds(v, 'Vertical_Tail')), num(r.structures.vertical_tail), 'part:vtail', 'mass of the vertical tails')
    ctx.close(M(v.fuselages.values()), num(r.structures.fuselage), 'part:fuselage', 'mass of the fuselages')
    ctx.close(M(v.networks.values()), num(r.propulsion_breakdown.total), 'part:propulsion', 'mass of the networks')
    ctx.check(all(num(w.mass_properties.mass) > 0. for w in v.wings.values()) or (m == 'FLOPS Complex'), 'part:weightless', 'a wing without mass')
    ctx.close(num(v.landing_gear.main.mass_properties.mass), num(r.structures.main_landing_gear), 'part:main-gear', 'mass of the main gear')
    ctx.close(num(v.landing_gear.nose.mass_properties.mass), num(r.structures.nose_landing_gear), 'part:nose-gear', 'mass of the nose gear')
    S, B = v.systems, r.systems_breakdown
    for k, want in (('control_systems', B.control_systems), ('electrical_systems', B.electrical), ('furnishings', B.furnish), ('avionics', num(B.avionics) + num(B.instruments)), ('air_conditioner', B.air_conditioner), ('apu', B.apu), ('hydraulics', B.hydraulics),
                    ('optionals', r.operational_items.operating_items_less_crew)):
        ctx.close(num(S[k].mass_properties.mass), num(want), 'part:' + k, 'mass of %s' % k)
    for k in ('passengers', 'baggage', 'cargo'):
        ctx.close(num(v.payload[k].mass_properties.mass), num(r.payload_breakdown[k]), 'part:' + k, 'mass of the %s' % k)
    if not ('FLOPS' in m and v.mass_properties.cargo):
        ctx.close(num(S.fuel.mass_properties.mass), num(r.fuel), 'part:fuel', 'mass of the fuel')
        # the whole vehicle is its parts: everything but the crew is aboard, the nacelles are in the propulsion mass
        crew = num(r.operational_items.flight_crew) + num(r.operational_items.flight_attendants)
        ctx.close(num(v.sum_mass()) + crew + num(r.structures.nacelle), v.mass_properties.max_takeoff, 'part:vehicle', 'mass of the parts, the crew and the nacelles against the takeoff mass', rtol=1e-9)
    if m in ('FLOPS Simple', 'FLOPS Complex', 'Raymer') and len(v.networks) == 1:
        P = r.propulsion_breakdown
        items = num(P.engines) + num(P.thrust_reversers) + num(P.miscellaneous) + num(P.fuel_system)
        ctx.close(num(P.total), items + num(r.structures.nacelle), 'part:propulsion-items', 'the propulsion mass is engines, reversers, controls, starters, fuel system and nacelles')
        ctx.check(num(r.structures.nacelle) == 0. or abs(num(P.total) - items) < 1e-9 * num(P.total), 'nacelle:twice', 'the nacelles count in the structures and in the propulsion')
    else:
        ctx.close(num(r.structures.nacelle), 0., 'part:nacelle', 'nacelle of ' + tag) if tag == 'suave' else None
    r2 = a.evaluate(m)
    compare(ctx, R.flat(r), R.flat(r2), 'sum:repeat', skip=('payload_breakdown.total', 'zero_fuel_weight', 'fuel'))
    ctx.close(num(v.mass_properties.operating_empty), num(r2.empty), 'sum:stored', 'empty mass kept by the vehicle')


def compare(ctx, A, B, key, skip=(), rtol=1e-9):
    ctx.check(set(A) == set(B), key + ':items', 'items %s' % (set(A) ^ set(B)))
    for k in A:
        if k in B and k not in skip:
            ctx.close(A[k], B[k], key, k, rtol=rtol)


def r_factor(ctx, vn, m):
    base = R.flat(analysis(make(vn)).evaluate(m))
    for wf in itertools.product((0., .2, .35), repeat=3):
        v = make(vn)
        a = analysis(v, wf)
        r = R.flat(a.evaluate(m))
        ctx.step()
        ctx.close(r['structures.wing'], base['structures.wing'] * (1 - wf[0]), 'factor:wing', 'main wing factor %s' % (wf,))
        for t in ('horizontal_tail', 'vertical_tail'):
            ctx.close(r['structures.' + t], base['structures.' + t] * (1 - wf[1]), 'factor:tail', '%s, empennage factor %s' % (t, wf))
        if m not in ('SUAVE', 'New SUAVE'):
            ctx.close(r['structures.fuselage'], base['structures.fuselage'] * (1 - wf[2]), 'factor:fuselage', 'fuselage factor %s' % (wf,))
        else:
            ctx.close(r['structures.fuselage'], (1 - wf[2]) * sum(tube(v, f, float(r['structures.wing']), float(r['propulsion_breakdown.total'])) for f in v.fuselages.values()), 'factor:tube', 'fuselage factor %s' % (wf,))
        for k in base:
            if k.startswith(('systems', 'propulsion', 'payload', 'operational')) or 'gear' in k:
                ctx.close(r[k], base[k], 'factor:other', '%s follows the structural factors %s' % (k, wf))
        books(ctx, v, v.weight_breakdown, 'factor')
        ctx.state((vn, m, wf))
        ctx.trace()
    # a factor of one leaves nothing
    r = analysis(make(vn), (1., 1., 1.)).evaluate(m)
    ctx.check(num(r.structures.wing) == 0. and num(r.structures.horizontal_tail) == 0. and num(r.structures.fuselage) == 0., 'factor:one', 'a reduction by everything leaves %s' % r.structures.wing)


def tube(v, f, ww, wp):
    L = (f.lengths.total - v.wings.main_wing.chords.root / 2) / FT
    W = (v.mass_properties.max_zero_fuel - ww - wp) / LB
    ip = 1.5e-3 * f.differential_pressure / (4.4482216152605 / FT ** 2) * f.width / FT
    ib = 1.91e-4 * v.envelope.limit_load * W * L / (f.heights.maximum / FT) ** 2
    i = ip if ip > ib else (ip ** 2 + ib ** 2) / (2 * ib)
    return (1.051 + .102 * i) * f.areas.wetted / FT ** 2 * LB


def reorder(c, order):
    items = [(k, c[k]) for k in c.keys()]
    for k, _ in items:
        del c[k]
    for i in order:
        c[items[i][0]] = items[i][1]


def r_perm(ctx, vn, m):
    base = R.flat(analysis(make(vn)).evaluate(m))
    v0 = make(vn)
    for group in ('wings', 'fuselages', 'networks'):
        n = len(v0[group])
        if n < 2 or (group == 'networks' and m not in ('SUAVE', 'New SUAVE')):
            continue
        for order in itertools.permutations(range(n)):
            v = make(vn)
            reorder(v[group], order)
            ctx.check([k for k in v[group].keys()] != [k for k in v0[group].keys()] or order == tuple(range(n)), 'perm:kit', 'order')
            r = R.flat(analysis(v).evaluate(m))
            compare(ctx, base, r, 'perm:' + group)
            ctx.state((vn, m, group, order))
            ctx.step()
            ctx.trace()


def r_hist(ctx, vn, n, first):
    fresh = {m: R.flat(analysis(make(vn)).evaluate(m)) for m in METHODS}
    masses = {}
    for m in METHODS:
        v = make(vn)
        analysis(v).evaluate(m)
        masses[m] = {k: num(x.mass_properties.mass) for g in ('wings', 'fuselages', 'networks', 'systems', 'payload') for k, x in v[g].items() if hasattr(x, 'mass_properties')}
    for h in itertools.product(METHODS, repeat=n - 1):
        v = make(vn)
        a = analysis(v)
        for m in (METHODS[first],) + h:
            r = R.flat(a.evaluate(m))
            compare(ctx, fresh[m], r, 'hist:result', rtol=1e-9)
            got = {k: num(x.mass_properties.mass) for g in ('wings', 'fuselages', 'networks', 'systems', 'payload') for k, x in v[g].items() if hasattr(x, 'mass_properties')}
            ctx.check(set(got) == set(masses[m]) and all(abs(got[k] - masses[m][k]) <= 1e-9 * (1 + abs(got[k])) for k in got), 'hist:parts', 'after %s %s: the parts weigh something else' % (METHODS[first], h))
            ctx.step()
        ctx.state((vn, METHODS[first]) + h)
        ctx.trace()


# ------------------------------------------------------------------ placement
def trap_chord(w, y):
    return w.chords.root + (w.chords.tip - w.chords.root) * y / (w.spans.projected * (.5 if w.symmetric else 1.))


def pos(c):
    o = np.atleast_2d(np.array(c.origin, dtype=float))
    return o.mean(axis=0) + np.ravel(np.array(c.mass_properties.center_of_gravity, dtype=float))


def place(v, nose_load=.06):
    SUAVE.Methods.Center_of_Gravity.compute_component_centers_of_gravity(v, nose_load)


def r_cg(ctx, vn, m):
    for nl in (.04, .06, .1, .15):
        v = make(vn, cargo=3000. if 'FLOPS' not in m else 0.)
        r = analysis(v).evaluate(m)
        geo = geometry(v)
        place(v, nl)
        key = 'cg'
        after = geometry(v)
        for k in list(geo):
            if k.endswith('leading_edge'):
                geo.pop(k)
        unchanged(ctx, geo, after, 'cg:input')
        L = max(f.lengths.total for f in v.fuselages.values())
        longest = max(v.fuselages.values(), key=lambda f: f.lengths.total)
        nose = longest.lengths.nose
        mw = v.wings.main_wing
        for w in v.wings.values():
            x = float(w.mass_properties.center_of_gravity[0][0])
            if w in kinds(v, 'Main_Wing'):
                ctx.close(x, .05 * w.chords.mean_aerodynamic + w.aerodynamic_center[0], key + ':main', w.tag)
            elif w in kinds(v, 'Horizontal_Tail'):
                y = .35 * w.spans.projected / 2
                ctx.close(x, .3 * trap_chord(w, y) + math.tan(w.sweeps.quarter_chord) * y, key + ':htail', w.tag)
            ctx.check(0. < x < w.chords.root + w.spans.projected * math.tan(.7), key + ':within', 'centre of %s at %s' % (w.tag, x))
        S, Y = v.systems, v.payload
        wx = mw.origin[0][0] + .05 * mw.chords.mean_aerodynamic + mw.aerodynamic_center[0]
        nets = list(v.networks.values())
        mn = np.array([num(n.mass_properties.mass) for n in nets])
        xn = np.array([np.mean(np.array(n.origin)[:, 0]) + n.engine_length * .5 for n in nets])
        px = float((mn * xn).sum() / mn.sum())
        for c, x in ((S.avionics, .4 * nose), (S.furnishings, .51 * L), (S.apu, .9 * L), (Y.passengers, .51 * L), (Y.baggage, .51 * L), (Y.cargo, .51 * L), (S.air_conditioner, nose), (S.optionals, .51 * L),
                     (S.fuel, wx), (S.control_systems, wx + .1 * mw.chords.mean_aerodynamic), (S.electrical_systems, .375 * L + .25 * px), (S.hydraulics, .75 * wx + .25 * .95 * L), (v.landing_gear.nose, .25 * nose)):
            ctx.close(pos(c)[0], x, key + ':place', 'a component %s' % c.tag)
        for f in v.fuselages.values():
            ctx.close(float(f.mass_properties.center_of_gravity[0][0]), .45 * f.lengths.total, key + ':fuselage', f.tag)
        # the centre of the vehicle
        parts = list(v.wings.values()) + list(v.fuselages.values()) + nets + [S[k] for k in S.keys() if hasattr(S[k], 'mass_properties')] + [Y[k] for k in Y.keys() if hasattr(Y[k], 'mass_properties')] + [v.landing_gear.main, v.landing_gear.nose]
        mass = sum(num(c.mass_properties.mass) for c in parts)
        mom = sum(num(c.mass_properties.mass) * pos(c) for c in parts)
        cg = np.ravel(v.center_of_gravity())
        ctx.close(num(v.sum_mass()), mass, key + ':mass', 'mass of the vehicle')
        ctx.close(cg, mom / mass, key + ':centre', 'centre of the vehicle', rtol=1e-9, atol=1e-12)
        xs = [pos(c)[0] for c in parts if num(c.mass_properties.mass) > 0.]
        if num(r.fuel) > 0.:
            ctx.check(min(xs) - 1e-9 <= cg[0] <= max(xs) + 1e-9, key + ':hull', 'the centre lies outside of the parts')
        # the main gear carries everything but the nose load
        g = v.landing_gear.main
        rest = sum(num(c.mass_properties.mass) * pos(c)[0] for c in parts if c is not g)
        ctx.close(pos(g)[0], rest / (v.mass_properties.takeoff - num(g.mass_properties.mass)) / (1 - nl), key + ':main-gear', 'main gear at nose load %s' % nl, rtol=1e-9)
        p1 = {i: tuple(pos(c)) for i, c in enumerate(parts)}
        for rep in range(2):
            place(v, nl)
            for i, c in enumerate(parts):
                ctx.close(pos(c), p1[i], key + ':repeat', 'placing again moves %s' % c.tag, rtol=1e-9, atol=1e-12)
        v.center_of_gravity()
        ctx.state((vn, m, nl))
        ctx.trace()
        if nl == .06:
            for group in ('wings', 'fuselages', 'networks'):
                for order in itertools.permutations(range(len(v[group]))):
                    if len(order) < 2 or (group == 'networks' and m not in ('SUAVE', 'New SUAVE')):
                        continue
                    u = make(vn, cargo=3000. if 'FLOPS' not in m else 0.)
                    reorder(u[group], order)
                    analysis(u).evaluate(m)
                    place(u, nl)
                    ctx.close(np.ravel(u.center_of_gravity()), cg, key + ':order', 'order %s of the %s moves the centre' % (order, group), rtol=1e-9, atol=1e-12)
                    ctx.close(pos(u.landing_gear.main), pos(g), key + ':order', 'order %s of the %s moves the main gear' % (order, group), rtol=1e-9, atol=1e-12)
                    ctx.step()


# ------------------------------------------------------------------ component trees
TREE = [('wings', lambda: SUAVE.Components.Wings.Main_Wing()), ('fuselages', lambda: SUAVE.Components.Fuselages.Fuselage()), ('networks', lambda: SUAVE.Components.Energy.Networks.Turbofan()), ('systems', lambda: SUAVE.Components.Systems.System()),
        ('nacelles', lambda: SUAVE.Components.Nacelles.Nacelle()), ('gear', None)]
ORI = ([[0., 0., 0.]], [[4., 0., 1.]], [[4., 2., 1.], [6., -2., 1.]], [[1., 1., 0.], [2., -1., 0.], [9., 0., 3.]])


def r_tree(ctx, k):
    gear = (0, 1, 2)[k]
    for combo in itertools.product(((0., 0), (3., 0), (3., 1), (7., 2), (5., 3)), repeat=4):
        v = SUAVE.Vehicle()
        if gear == 2:
            v.landing_gear = SUAVE.Components.Landing_Gear.Landing_Gear()
        M, P = 0., np.zeros(3)
        for i, (mass, o) in enumerate(combo):
            grp, mk = TREE[(0, 2, 3)[i] if i < 3 else (1, 5, 5)[k]]
            c = mk() if mk else SUAVE.Components.Landing_Gear.Main_Landing_Gear()
            c.tag = 'part%d' % i
            c.mass_properties.mass, c.origin = mass, copy.deepcopy(ORI[o])
            cg = np.array([[.5 * i, .25 * o, .125 * i]])
            c.mass_properties.center_of_gravity = cg
            if grp == 'gear':
                v.landing_gear.main = c
            else:
                v.append_component(c)
            M, P = M + mass, P + mass * (np.mean(ORI[o], axis=0) + cg[0])
        got = v.center_of_gravity()
        ctx.close(num(v.sum_mass()), M, 'tree:mass', str(combo))
        ctx.close(np.ravel(got), P / M if M else 0. * P, 'tree:centre', str(combo), rtol=1e-12, atol=1e-12)
        ctx.check(R.same(v.mass_properties.center_of_gravity, got), 'tree:kept', 'the vehicle keeps the centre')
        ctx.check(R.same(v.center_of_gravity(), got, 0.), 'tree:repeat', 'asking again')
        ctx.state((k, combo))
        ctx.trace()
        ctx.ev()


def r_fuel(ctx, n, k):
    f = SUAVE.Methods.Center_of_Gravity.compute_fuel_center_of_gravity_longitudinal_range
    for tanks in itertools.product(itertools.product((100., 250., 700.), (3., 8., 8.5, 20.)), repeat=n):
        if n >= 4 and (len(set(t[1] for t in tanks)) < 3 or len(set(t[0] for t in tanks)) < 2):
            continue
        v = SUAVE.Vehicle()
        w, b = SUAVE.Components.Wings.Main_Wing(), SUAVE.Components.Fuselages.Fuselage()
        v.append_component(w)
        v.append_component(b)
        for i, (m, x) in enumerate(tanks):
            t = SUAVE.Components.Energy.Storages.Fuel_Tanks.Fuel_Tank() if hasattr(SUAVE.Components.Energy.Storages, 'Fuel_Tanks') else Data()
            t.tag, t.mass_properties = 'tank%d' % i, Data()
            t.mass_properties.fuel_mass_when_full, t.mass_properties.center_of_gravity = m, np.array([[x, 0., 0.]])
            (w if (k == 0 or (k == 2 and i % 2)) else b).Fuel_Tanks.append(t)
        F, lo, hi = f(v)
        tot = sum(t[0] for t in tanks)
        ctx.close(F[-1], tot, 'fuel:full', 'full tanks')
        ctx.check(len(F) == len(lo) == len(hi) and np.all(np.diff(F) > 0.), 'fuel:grid', 'fuel masses')
        wl, wh = np.full(len(F), np.inf), np.full(len(F), -np.inf)
        for order in itertools.permutations(tanks):
            m, x = np.array([t[0] for t in order]), np.array([t[1] for t in order])
            before = np.concatenate(([0.], np.cumsum(m)[:-1]))
            fill = np.clip(F[:, None] - before[None, :], 0., m[None, :])
            c = (fill * x).sum(axis=1) / F
            wl, wh = np.minimum(wl, c), np.maximum(wh, c)
            ctx.step()
        ctx.close(lo, wl, 'fuel:forward', 'most forward centre of the fuel %s' % (tanks,), rtol=1e-9)
        ctx.close(hi, wh, 'fuel:aft', 'most aft centre of the fuel %s' % (tanks,), rtol=1e-9)
        ctx.state((n, k, tanks))
        ctx.trace()
        ctx.ev(n=len(F))


def r_mission(ctx, _):
    f = SUAVE.Methods.Center_of_Gravity.compute_mission_center_of_gravity
    for zx, fx, ox, mz, mf in itertools.product((10., 14.), (0., 2.), (8., 13.), (4e4, 6e4), (0., 1e3, 2e4)):
        v = SUAVE.Vehicle()
        v.mass_properties.zero_fuel_center_of_gravity, v.mass_properties.max_zero_fuel = np.array([[zx, 0., .5]]), mz
        v.fuel = SUAVE.Components.Physical_Component()
        v.fuel.origin, v.fuel.mass_properties.center_of_gravity = np.array([[ox, 0., 0.]]), np.array([[fx, 0., -.2]])
        got = np.ravel(f(v, mf))
        ctx.close(got, (mz * np.array([zx, 0., .5]) + mf * np.array([ox + fx, 0., -.2])) / (mz + mf), 'mission:centre', str((zx, fx, ox, mz, mf)))
        ctx.state((zx, fx, ox, mz, mf))
        ctx.trace()


# ------------------------------------------------------------------ passengers, crew, systems
PAX = (0, 1, 5, 6, 19, 39, 40, 41, 50, 51, 52, 79, 80, 120, 149, 150, 151, 200, 249, 250, 251, 299, 300, 301, 400, 500)


def crew(n):
    return (3 if n >= 150 else 2), (1 if n < 51 else 1 + n // 40)


def r_pax(ctx, acc):
    from SUAVE.Methods.Weights.Correlations.Common.systems import systems as sysm
    from SUAVE.Methods.Weights.Correlations.Common.payload import payload as pay
    from SUAVE.Methods.Weights.Correlations.Transport.operating_items import operating_items as oper
    per = {'short-range': 17., 'commuter': 17., 'sst': 40.}.get(acc, 28.)
    ia = {'long-range': (1200., 1500.), 'sst': (1200., 1500.), 'business': (100., 300.), 'commuter': (300., 500.)}.get(acc, (800., 900.))
    tails = {None: 0, 'h': 1, 'hv': 2}
    for n, ctrl, tl in itertools.product(PAX, ('fully powered', 'partially powered', 'aerodynamic', 'other'), ('', 'h', 'v', 'hv')):
        v = SUAVE.Vehicle()
        v.append_component(main_())
        if 'h' in tl:
            v.append_component(ht())
        if 'v' in tl:
            v.append_component(vt())
        v.reference_area = 120.
        v.passengers, v.systems.control, v.systems.accessories, v.mass_properties.cargo = n, ctrl, acc, 1234.
        s, o, p = sysm(v), oper(v), pay(v)
        area = sum(w.areas.reference for w in v.wings.values() if 'Tail' in type(w).__name__) or .01 * v.wings.main_wing.areas.reference
        want = dict(wt_flight_control={'fully powered': 3.5, 'partially powered': 2.5}.get(ctrl, 1.7) * area / FT ** 2 * LB, wt_apu=max(7. * n * LB if n >= 6 else 0., 70.), wt_hyd_pnu=.65 * 120. / FT ** 2 * LB,
                    wt_elec=(1950. if acc == 'cargo' else 13. * n) * LB, wt_furnish=((43.7 - .037 * min(n, 300)) * n + 46. * n + (23. * n if acc in ('long-range', 'sst') else 0.)) * LB, wt_ac=15. * n * LB, wt_instruments=ia[0] * LB, wt_avionics=ia[1] * LB, wt_anti_ice=0.)
        for k, x in want.items():
            ctx.close(num(s[k]), x, 'systems:' + k, '%s with %s passengers, %s, %s' % (k, n, acc, ctrl), atol=1e-12)
        ctx.close(num(s.wt_systems), sum(want.values()), 'systems:total', '%s passengers, %s' % (n, acc))
        fc, fa = crew(n)
        ctx.close(num(o.operating_items_less_crew), (56. if acc == 'cargo' else per * n) * LB, 'oper:items', '%s passengers, %s' % (n, acc))
        ctx.close(num(o.flight_crew), fc * 240. * LB, 'oper:crew', '%s passengers' % n)
        ctx.close(num(o.flight_attendants), fa * 210. * LB, 'oper:attendants', '%s passengers' % n)
        ctx.close(num(o.total), num(o.operating_items_less_crew) + num(o.flight_crew) + num(o.flight_attendants), 'oper:total', '')
        ctx.close(num(p.passengers), 195. * n * LB, 'payload:passengers', '')
        ctx.close(num(p.baggage), 30. * n * LB, 'payload:baggage', '')
        ctx.close(num(p.total), 225. * n * LB + 1234., 'payload:total', '')
        ctx.state((acc, n, ctrl, tl))
        ctx.trace()
        ctx.ev()


def r_flops(ctx, acc):
    C = SUAVE.Methods.Weights.Correlations.FLOPS
    for n, rng, cargo in itertools.product(PAX, (500., 899.9, 900., 900.1, 2899., 2900., 2901., 6000.), (0.,)):
        v = VEH['liner']()
        v.passengers, v.systems.accessories, v.design_range, v.mass_properties.cargo = n, acc, rng * NMI, cargo
        v.fuselages.fuselage.number_coach_seats = n
        p = C.payload.payload_FLOPS(v)
        o = C.operating_items.operating_items_FLOPS(v)
        ctx.close(num(p.passengers), 165. * n * LB, 'flops:passengers', '')
        ctx.close(num(p.baggage), (35. if rng <= 900. + 1e-9 else 40. if rng <= 2900. + 1e-9 else 44.) * n * LB, 'flops:baggage', 'range %s' % rng) if rng not in (900., 2900.) else None
        ctx.close(num(p.total), num(p.passengers) + num(p.baggage) + cargo, 'flops:payload', '')
        fc, fa = crew(n)
        ctx.close(num(o.flight_crew), 225. * fc * LB, 'flops:crew', '%s passengers' % n)
        ctx.close(num(o.flight_attendants), (155. * fa + 200. * (1 + n // 250 if n >= 150 else 0)) * LB, 'flops:attendants', '%s passengers' % n)
        ctx.close(num(o.total), num(o.operating_items_less_crew) + num(o.flight_crew) + num(o.flight_attendants), 'flops:oper', '')
        T = v.networks.turbofan.sealevel_static_thrust / 4.4482216152605
        wuf = 11.5 * 2 * T ** .2 + .07 * v.reference_area / FT ** 2 + 1.6 * 5 * (v.mass_properties.max_zero_fuel / LB) ** .28
        want = (wuf + .082 * 2 * T ** .65 + 2.529 * n * (rng / .78) ** .255) * LB
        ctx.close(num(o.operating_items_less_crew), want, 'flops:items', '%s passengers over %s' % (n, rng), rtol=1e-7)
        v.wings.main_wing.flap_ratio = .3
        v.networks.turbofan.wing_mounted = [True, True]
        s = C.systems.systems_FLOPS(v)
        ctx.close(num(s.wt_systems), sum(num(s[k]) for k in s.keys() if k != 'wt_systems'), 'flops:systems', 'total of the systems')
        ctx.close(num(s.wt_apu), (54. * (38. * 4. / FT ** 2) ** .3 + 5.4 * n ** .9) * LB, 'flops:apu', '', rtol=1e-9)
        q = SUAVE.Methods.Weights.Correlations.Raymer.systems_Raymer
        v.payload.cargo = SUAVE.Components.Physical_Component()
        v.payload.cargo.mass_properties.mass = 500.
        s = q(v)
        ctx.close(num(s.wt_systems), sum(num(s[k]) for k in s.keys() if k != 'wt_systems'), 'raymer:systems', 'total of the systems')
        ctx.close(num(s.wt_apu), max(7. * n * LB if n >= 6 else 0., 70.), 'raymer:apu', '')
        ctx.state((acc, n, rng, cargo))
        ctx.trace()
        ctx.ev()


def corr():
    from types import SimpleNamespace as N
    import importlib
    fn = lambda path: getattr(importlib.import_module('SUAVE.Methods.Weights.Correlations.' + path), path.split('.')[-1])
    from SUAVE.Methods.Weights.Correlations import Propulsion, General_Aviation
    return N(Propulsion=Propulsion, Common=N(**{k: fn('Common.' + k) for k in ('wing_main', 'landing_gear')}), Transport=N(**{k: fn('Transport.' + k) for k in ('tail_vertical', 'tail_horizontal', 'tube')}), General_Aviation=N(tail_vertical=fn('General_Aviation.tail_vertical')))


def r_small(ctx, k):
    W = corr()
    P = W.Propulsion
    if k == 0:
        for T in (1e3, 2e4, 1.2e5, 4e5):
            w = P.engine_jet(T)
            ctx.close(w, .4054 * (T / 4.4482216152605) ** .9255 * LB, 'small:jet', '')
            for n in (0, 1, 2, 4):
                ctx.close(P.integrated_propulsion(w, n), 1.6 * n * w, 'small:integrated', '')
                ctx.state(('jet', T, n))
    elif k == 1:
        for p in (1e4, 1e5, 3e5, 1e6):
            ctx.close(P.engine_piston(p), 5.22 * (p / 745.69987158227022) ** .78 * LB, 'small:piston', '')
            ctx.close(P.air_cooled_motor(p), 1.96 * (p / 1e3) ** .8897 * LB, 'small:motor', '')
            ctx.close(P.hts_motor(p), 2.28 * (p / 1e3) ** .6616 * LB, 'small:hts', '')
            w = P.engine_piston(p)
            for n in (1, 2, 4):
                ctx.close(P.integrated_propulsion_general_aviation(w, n), 2.575 * (w / LB) ** .922 * n * LB, 'small:ga-integrated', '')
                ctx.state(('piston', p, n))
        for q in (10., 500., 4e3):
            ctx.close(P.nasa_motor(q), .3928 * (q / (FT * 4.4482216152605)) ** .8587 * LB, 'small:torque', '')
    elif k == 2:
        for m, f in itertools.product((1e3, 7.8e4, 3e5), (None, .03, .06)):
            v = SUAVE.Vehicle()
            v.mass_properties.max_takeoff = m
            g = W.Common.landing_gear(v) if f is None else W.Common.landing_gear(v, f)
            ctx.close([num(g.main), num(g.nose)], [.9 * (f or .04) * m, .1 * (f or .04) * m], 'small:gear', '')
            ctx.state(('gear', m, f))
    elif k == 3:
        al = SUAVE.Attributes.Solids.Aluminum()
        for span, taper, sweep, tc, seg in itertools.product((12., 34., 60.), (.2, .6, 1.), (0., .3, .6), (.08, .14), (0, 1)):
            v = VEH['liner']()
            w = main_(span=span, taper=taper, sweep=sweep, tc=tc)
            if seg:
                segs(w, ((0., 1., .5), (.4, .6, .4), (1., .2, 0.)))
            got = W.Common.wing_main(v, w, al.density, al.yield_tensile_strength, computation_type='simple')
            A, b = w.areas.reference / FT ** 2, span / FT
            want = (4.22 * A + 1.642e-6 * 3.75 * b ** 3 * math.sqrt(v.mass_properties.max_takeoff / LB * v.mass_properties.max_zero_fuel / LB) * (1 + 2 * taper) / (tc * math.cos(sweep) ** 2 * A * (1 + taper))) * LB
            ctx.close(num(got), want, 'small:wing', str((span, taper, sweep, tc)))
            ctx.state(('wing', span, taper, sweep, tc, seg))
    elif k == 4:
        for tt, span, sweep in itertools.product((False, True, 'no', 'yes'), (3., 7.5), (0., .6)):
            v = VEH['liner']()
            w = vt(span=span)
            w.t_tail, w.sweeps.quarter_chord = tt, sweep
            got = W.Transport.tail_vertical(v, w)
            A, b = w.areas.reference / FT ** 2, span / FT
            want = (1.25 if tt in (True, 'yes') else 1.) * (2.62 * A + 1.5e-5 * 3.75 * b ** 3 * (8. + .44 * v.mass_properties.max_takeoff / LB / (v.reference_area / FT ** 2)) / (w.thickness_to_chord * math.cos(sweep) ** 2)) * LB * 1.4
            ctx.close(num(got), want, 'small:vtail', 't-tail %s' % tt)
            ga = W.General_Aviation.tail_vertical(2., 1.5, sweep, 3e3, .5, .1, 5.7, 1100., tt).wt_tail_vertical
            ref = W.General_Aviation.tail_vertical(2., 1.5, sweep, 3e3, .5, .1, 5.7, 1100., False).wt_tail_vertical
            ctx.close(num(ga), (1.2 if tt in (True, 'yes') else 1.) * num(ref), 'small:ga-vtail', 't-tail %s' % tt)
            ctx.state(('vt', tt, span, sweep))
    else:
        for span, sweep, x in itertools.product((8., 14.), (0., .5), (28., 33.)):
            v = VEH['liner']()
            w = ht(x=x, span=span)
            w.sweeps.quarter_chord = sweep
            mw = v.wings.main_wing
            A, b, m = w.areas.reference / FT ** 2, span / FT, v.mass_properties.max_takeoff / LB
            arm = (w.origin[0][0] + w.aerodynamic_center[0] - mw.origin[0][0] - mw.aerodynamic_center[0]) / FT
            want = (5.25 * A + .8e-6 * 3.75 * b ** 3 * m * mw.chords.mean_aerodynamic / FT * math.sqrt(.8 * A) / (w.thickness_to_chord * math.cos(sweep) ** 2 * arm * A ** 1.5)) * LB
            ctx.close(num(W.Transport.tail_horizontal(v, w)), want, 'small:htail', '')
            ctx.state(('ht', span, sweep, x))
            for d, dp in itertools.product((2., 4., 6.), (0., 5e4, 2e5)):
                f = fus(d=d)
                f.differential_pressure = dp
                ctx.close(num(W.Transport.tube(v, f, 8e3, 9e3)), tube(v, f, 8e3, 9e3), 'small:tube', '')
    ctx.trace()
    ctx.ev(n=100)


def r_cut(ctx, k):
    """a wing cut by further sections along the straight line between its neighbours weighs the same"""
    al = SUAVE.Attributes.Solids.Aluminum()
    W = corr().Common.wing_main
    brk = (((0., 1., .4), (1., .2, 0.)), ((0., 1., .5), (.3, .6, .35), (1., .2, 0.)), ((0., 1., .3), (.5, .8, .1), (1., .5, 0.)))[k]
    tcs = ((.14, .10), (.15, .13, .09), (.13, .12, .10))[k]
    v = VEH['liner']()
    base = num(W(v, segs(main_(), brk, tcs), al.density, al.yield_tensile_strength))
    # depth (chord x thickness) is linear between sections, so a cut carries the interpolated depth
    for cuts in [c for n in (1, 2) for c in itertools.combinations((.1, .2, .45, .6, .8), n)]:
        B = [(e, c, s, t) for (e, c, s), t in zip(brk, tcs)]
        for x in cuts:
            i = max(j for j in range(len(B)) if B[j][0] < x)
            a, b = B[i], B[i + 1]
            u = (x - a[0]) / (b[0] - a[0])
            ch = a[1] + u * (b[1] - a[1])
            dep = a[1] * a[3] + u * (b[1] * b[3] - a[1] * a[3])
            B.insert(i + 1, (x, ch, a[2], dep / ch))
        got = num(W(v, segs(main_(), [q[:3] for q in B], [q[3] for q in B]), al.density, al.yield_tensile_strength))
        ctx.close(got, base, 'cut:weight', 'cuts %s' % (cuts,), rtol=1e-6)
        ctx.state((k, cuts))
        ctx.step()
        ctx.trace()


# ------------------------------------------------------------------ other vehicles
def r_bwb(ctx, k):
    for pax, acc, neng in itertools.product((100, 279, 450), ('long-range', 'cargo'), (2, 3)):
        v = transport([main_(span=60., cr=20., taper=.1)], [fus('fuselage_bwb', 28., 10.)], [net(n=neng, tag='turbofan' if k < 2 else 'engines')], pax=pax, mtow=350000., gear=k % 2)
        f = v.fuselages.fuselage_bwb
        f.aft_centerbody_area, f.aft_centerbody_taper, f.cabin_area = 150., .7, 400.
        v.systems.accessories = acc
        if k >= 2:
            v.networks.engines.mass_properties.mass = 12345.
        a = SUAVE.Analyses.Weights.Weights_BWB()
        a.vehicle = v
        before = geometry(v)
        r = a.evaluate()
        unchanged(ctx, before, {**geometry(v), **{q: before[q] for q in before if q not in geometry(v)}}, 'bwb:input')
        books(ctx, v, r, 'bwb', struct=('wing', 'afterbody', 'fuselage', 'main_landing_gear', 'nose_landing_gear', 'nacelle', 'paint'), sysitems=SYS + ('anti_ice',))
        ctx.close(num(v.wings.main_wing.mass_properties.mass), num(r.structures.wing), 'bwb:wing', '')
        ctx.close(num(f.mass_properties.mass), num(r.structures.fuselage), 'bwb:cabin', '')
        ctx.close(num(list(v.networks.values())[0].mass_properties.mass), num(r.propulsion_breakdown.total), 'bwb:propulsion', '')
        W = 350000. / LB
        ctx.close(num(r.structures.fuselage), 5.698865 * .316422 * W ** .166552 * (400. / FT ** 2) ** 1.061158 * LB, 'bwb:cabin-law', '')
        ctx.close(num(r.structures.afterbody), (1 + .05 * neng) * .53 * 150. / FT ** 2 * W ** .2 * 1.2 * LB, 'bwb:aft-law', '')
        if k < 2:
            ctx.close(num(r.propulsion_breakdown.total), neng * 1.6 * .4054 * (1.1e5 / 4.4482216152605) ** .9255 * LB, 'bwb:engines', '')
        else:
            ctx.close(num(r.propulsion_breakdown.total), 12345., 'bwb:given', '')
        ctx.check(type(v.landing_gear.main).__name__ == 'Main_Landing_Gear' and type(v.landing_gear.nose).__name__ == 'Nose_Landing_Gear', 'bwb:gear', 'the gears are swapped')
        ctx.close([num(v.landing_gear.main.mass_properties.mass), num(v.landing_gear.nose.mass_properties.mass)], [num(r.structures.main_landing_gear), num(r.structures.nose_landing_gear)], 'bwb:gears', '')
        r1 = R.flat(r)
        compare(ctx, r1, R.flat(a.evaluate()), 'bwb:repeat')
        ctx.state((k, pax, acc, neng))
        ctx.trace()


def ga(ac, engines, pax, mtow=1110.):
    v = transport([main_(span=11., cr=1.7, taper=.7, sweep=0., tc=.12, x=2.), ht(x=6., span=3.4), vt(x=5.6, span=1.5)], [fus(l=8., d=1.2)], [], nacs=0, gear=0, pax=pax, mtow=mtow)
    for w in v.wings.values():
        w.chords.root = w.chords.root
    v.fuselages.fuselage.mass_properties.volume, v.fuselages.fuselage.differential_pressure, v.fuselages.fuselage.number_coach_seats = 4.2, 0., 4
    v.design_dynamic_pressure, v.design_mach_number = 2.4e3, .18
    if engines == 'ice':
        n = SUAVE.Components.Energy.Networks.Internal_Combustion_Propeller()
        n.tag, n.number_of_engines = 'internal_combustion', 1
        e = SUAVE.Components.Energy.Converters.Internal_Combustion_Engine()
        e.sea_level_power = 134000.
        n.engines.append(e)
    else:
        n = net(tag='turbofan', n=2, T=8e3)
    v.append_component(n)
    fu = SUAVE.Components.Physical_Component()
    fu.mass_properties.mass, fu.number_of_tanks, fu.internal_volume, fu.density = 140., 2, .05, 720.
    v.fuel = fu
    g = v.landing_gear
    g.main, g.nose = SUAVE.Components.Landing_Gear.Main_Landing_Gear(), SUAVE.Components.Landing_Gear.Nose_Landing_Gear()
    g.main.strut_length, g.nose.strut_length = .4, .2
    av = SUAVE.Components.Energy.Peripherals.Avionics()
    av.mass_properties.uninstalled = 18.
    v.avionics = av
    if ac:
        v.air_conditioner = SUAVE.Components.Physical_Component()
    return v


def r_ga(ctx, k):
    from SUAVE.Methods.Weights.Correlations import General_Aviation as GA
    fn = GA.empty if callable(GA.empty) else GA.empty.empty
    ac, eng = k % 2, ('ice', 'jet')[k // 3]
    for pax, mtow in itertools.product((1, 2, 4), (1110., 1800.)):
        v = ga(ac, eng, pax, mtow)
        v.mass_properties.cargo = 20. * (k % 3)
        before = geometry(v)
        keep = copy.deepcopy(SUAVE.Core.Data().__dict__) if False else sorted(vars(SUAVE.Core.Data).keys())
        r = fn(v)
        ctx.check(sorted(vars(SUAVE.Core.Data).keys()) == keep, 'ga:class', 'the Data class was changed')
        aft = geometry(v)
        unchanged(ctx, {q: x for q, x in before.items() if q in aft}, aft, 'ga:input')
        books(ctx, v, r, 'ga', sysitems=SYS + ('anti_ice',))
        for k2, c in (('wing', v.wings.main_wing), ('horizontal_tail', v.wings.horizontal_stabilizer), ('vertical_tail', v.wings.vertical_stabilizer), ('fuselage', v.fuselages.fuselage), ('main_landing_gear', v.landing_gear.main), ('nose_landing_gear', v.landing_gear.nose)):
            ctx.close(num(c.mass_properties.mass), num(r.structures[k2]), 'ga:' + k2, '')
        ctx.check((num(r.systems_breakdown.air_conditioner) > 0.) == bool(ac), 'ga:ac', 'air conditioner %s' % r.systems_breakdown.air_conditioner)
        ctx.close(num(r.payload_breakdown.passengers), 225. * pax * LB, 'ga:pax', '')
        P = r.propulsion_breakdown
        base = 2.575 * (5.22 * (134000. / 745.69987158227022) ** .78) ** .922 * LB if eng == 'ice' else 2 * 1.6 * .4054 * (8e3 / 4.4482216152605) ** .9255 * LB
        ctx.close(num(list(v.networks.values())[0].mass_properties.mass), base, 'ga:engine', '')
        ctx.close(num(P.total), base + num(P.fuel_system), 'ga:fuel-system', 'the propulsion total against its items')
        Wl = (mtow - 140.) / LB
        ctx.close(num(r.structures.main_landing_gear), .095 * (3.75 * Wl) ** .768 * (.4 / .0254 / 12) ** .409 * LB, 'ga:main-gear-law', '')
        ctx.close(num(r.structures.nose_landing_gear), .125 * (3.75 * Wl) ** .566 * (.2 / .0254 / 12) ** .845 * LB, 'ga:nose-gear-law', '')
        ctx.state((k, pax, mtow))
        ctx.trace()


def r_uav(ctx, _):
    for S, A in itertools.product((.5, 2., 11., 40.), (5., 10., 20.)):
        v = SUAVE.Vehicle()
        w = main_()
        w.aspect_ratio = A
        v.append_component(w)
        v.reference_area = S
        a = SUAVE.Analyses.Weights.Weights_UAV()
        a.vehicle = v
        r = a.evaluate()
        ctx.close(num(r.empty), 5.58 * S ** 1.59 * A ** .71 / SUAVE.Attributes.Planets.Earth().sea_level_gravity, 'uav:law', '')
        ctx.close(num(v.mass_properties.operating_empty), num(r.empty), 'uav:stored', '')
        ctx.state((S, A))
        ctx.trace()


def r_human(ctx, _):
    from SUAVE.Methods.Weights.Correlations import Human_Powered as H
    for parts in itertools.product((0, 1), repeat=3):
        v = SUAVE.Vehicle()
        mk = ((main_, parts[0]), (ht, 1), (vt, parts[1]))
        for f, on in mk:
            if on:
                w = f()
                w.number_ribs, w.number_end_ribs = 30, 4
                v.append_component(w)
        if parts[2]:
            v.append_component(fus())
            v.Ltb = 6.
        v.envelope.ultimate_load, v.envelope.maximum_dynamic_pressure, v.mass_properties.max_takeoff = 2., 80., 100.
        r = H.empty(v)
        ctx.close(num(r.empty), sum(num(r[k]) for k in ('wing', 'fuselage', 'horizontal_tail', 'vertical_tail')), 'human:sum', '')
        for k, c, on in (('wing', 'main_wing', parts[0]), ('horizontal_tail', 'horizontal_stabilizer', 1), ('vertical_tail', 'vertical_stabilizer', parts[1])):
            ctx.check((num(r[k]) > 0.) == bool(on), 'human:part', '%s weighs %s' % (k, r[k]))
            if on:
                ctx.close(num(v.wings[c].mass_properties.mass), num(r[k]), 'human:mass', k)
        if parts[2]:
            ctx.close(num(v.fuselages.fuselage.mass_properties.mass), num(r.fuselage), 'human:fuselage', '')
            S = v.wings.horizontal_stabilizer.areas.reference
            ctx.close(num(r.fuselage), (6. * .114 + .0196 * 36.) * (1 + (80. * S / 78.5 - 1) / 2), 'human:boom', '')
        ctx.state(parts)
        ctx.trace()


EV = ('multi', 'lift_cruise', 'prop', 'single')


def evtol(kind, pax):
    v = SUAVE.Vehicle()
    C = SUAVE.Components.Energy
    w = main_(span=11., cr=1.2, taper=.7, sweep=0., tc=.15, x=1.5)
    w.motor_spanwise_locations = np.array([.3, .6])
    w.winglet_fraction = 0.
    v.append_component(w)
    if kind != 'single':
        h = ht(x=6., span=3.)
        v.append_component(h)
    f = fus(l=6., d=1.6)
    v.append_component(f)
    v.mass_properties.max_takeoff, v.mass_properties.takeoff, v.passengers = 2400., 2400., pax
    v.reference_area = w.areas.reference

    def rot(cls, tag, r, vp):
        q = getattr(C.Converters, cls)()
        q.tag, q.tip_radius, q.number_of_blades, q.blade_solidity, q.variable_pitch = tag, r, 3, .12, vp
        return q

    def mot(tag, m):
        q = C.Converters.Motor()
        q.tag, q.mass_properties.mass = tag, m
        return q
    if kind == 'lift_cruise':
        n = C.Networks.Lift_Cruise()
        for i in range(6):
            n.lift_rotors.append(rot('Lift_Rotor', 'lift%d' % i, 1.2, False))
            n.lift_rotor_motors.append(mot('lm%d' % i, 3. + .1 * i))
        n.number_of_lift_rotor_engines, n.number_of_propeller_engines = 6, 1
        n.propellers.append(rot('Propeller', 'pusher', 1.1, True))
        n.propeller_motors.append(mot('pm', 7.))
    else:
        n = C.Networks.Battery_Propeller()
        cls, cnt = {'multi': ('Lift_Rotor', 8), 'prop': ('Propeller', 2), 'single': ('Propeller', 1)}[kind]
        for i in range(cnt):
            n.propellers.append(rot(cls, 'rot%d' % i, 1.3, kind == 'prop'))
            n.propeller_motors.append(mot('m%d' % i, 4. + .2 * i))
        n.number_of_propeller_engines = cnt
    n.tag = 'network'
    b = C.Storages.Batteries.Constant_Mass.Lithium_Ion_LiNiMnCoO2_18650()
    b.mass_properties.mass = 700.
    n.battery = b
    n.payload = C.Peripherals.Payload()
    n.payload.mass_properties.mass = 50.
    n.avionics = C.Peripherals.Avionics()
    v.append_component(n)
    return v


def r_evtol(ctx, k, pax):
    kind = EV[k]
    from SUAVE.Methods.Weights.Buildups.eVTOL.empty import empty
    from SUAVE.Methods.Weights.Buildups.eVTOL.converge_evtol_weight import converge_evtol_weight
    ref = {}
    for cf in (1., 1.1, 1.3):
        v = evtol(kind, pax)
        r = empty(v, Data(), contingency_factor=cf)
        N = lambda x: num(r[x])
        nr = {'multi': (8, 0), 'lift_cruise': (6, 1), 'prop': (0, 2), 'single': (0, 1)}[kind]
        ctx.close(N('structural'), sum(N(x) for x in ('lift_rotors', 'propellers', 'hubs', 'fuselage', 'landing_gear', 'total_wing_weight')), 'evtol:structural', kind)
        ctx.close(N('empty'), cf * sum(N(x) for x in ('structural', 'seats', 'avionics', 'ECS', 'motors', 'servos', 'wiring', 'BRS')) + N('battery'), 'evtol:empty', kind)
        ctx.close(N('total'), N('empty') + N('payload') + N('passengers'), 'evtol:total', kind)
        ctx.close([N('seats'), N('passengers'), N('ECS'), N('avionics'), N('landing_gear'), N('battery'), N('payload')], [15. * pax, 70. * pax, 7. * pax, 15., .02 * 2400., 700., 50.], 'evtol:items', kind)
        ctx.close(N('motors'), sum(4. + .2 * i for i in range(nr[0] + nr[1])) if kind != 'lift_cruise' else sum(3. + .1 * i for i in range(6)) + 7., 'evtol:motors', kind)
        ctx.close(N('hubs'), nr[0] * 4. + nr[1] * .04 * 2400., 'evtol:hubs', kind)
        ctx.close(N('servos'), nr[1] * (5.2 if kind in ('prop', 'lift_cruise') else 0.), 'evtol:servos', kind)
        ctx.close(N('BRS'), (16. if sum(nr) > 1 else 0.) + 16., 'evtol:brs', kind)
        ctx.close(N('total_wing_weight'), sum(num(x) for x in r.wings.values()), 'evtol:wings', kind)
        for t, w in v.wings.items():
            ctx.close(num(w.mass_properties.mass), num(r.wings[t]), 'evtol:wing-mass', t)
        f = v.fuselages.fuselage
        ctx.close(num(f.mass_properties.mass), N('fuselage') + N('passengers') + N('seats') + N('wiring') + N('BRS'), 'evtol:fuselage', kind)
        ctx.close(num(v.landing_gear.main.mass_properties.mass), N('landing_gear'), 'evtol:gear', kind)
        for q, x in R.flat(r).items():
            ctx.check(np.all(np.isfinite(x)) and np.all(x >= 0.), 'evtol:range', '%s = %s' % (q, x))
        net = v.networks.network
        blades = sum(num(x.mass_properties.mass) for x in net.propellers.values()) + (sum(num(x.mass_properties.mass) for x in net.lift_rotors.values()) if kind == 'lift_cruise' else 0.)
        ctx.close(blades, N('propellers') + N('lift_rotors') + N('hubs') + N('servos'), 'evtol:rotors', kind)
        again = empty(v, Data(), contingency_factor=cf)
        compare(ctx, R.flat(r), R.flat(again), 'evtol:repeat')
        ref[cf] = R.flat(r)
        ctx.state((kind, pax, cf))
        ctx.trace()
    for cf in (1.1, 1.3):
        for q in ref[1.]:
            if q not in ('empty', 'total'):
                ctx.close(ref[cf][q], ref[1.][q], 'evtol:contingency', '%s follows the contingency' % q)
    # a wing that is only a symbol weighs nothing
    v = evtol(kind, pax)
    v.wings.main_wing.symbolic = True
    r = empty(v, Data())
    ctx.check('main_wing' not in r.wings.keys(), 'evtol:symbolic', 'a symbolic wing has a mass')
    # converged: another build-up returns the takeoff mass within a kilogram, wherever the search starts
    found = []
    for m0 in (800., 2400., 6000.):
        v = evtol(kind, pax)
        v.networks.network.battery.mass_properties.mass = 200.
        v.mass_properties.max_takeoff = m0
        ok = converge_evtol_weight(v)
        m = num(v.mass_properties.max_takeoff)
        if ok:
            ctx.check(abs(num(empty(v, Data()).total) - m) <= 1. + 1e-9, 'evtol:converged', 'build-up %s of a takeoff mass %s' % (num(empty(v, Data()).total), m))
            found.append(m)
        ctx.note('converged' if ok else 'diverged')
        ctx.step()
    ctx.check(len(found) < 2 or max(found) - min(found) < 8., 'evtol:start', 'converged masses %s' % found)
    ctx.ev(n=60)
