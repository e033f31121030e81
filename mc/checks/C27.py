"""Planform quantities are those of the shape, and one shape described in two ways has one geometry."""
import copy, itertools, math
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('every trapezoidal wing of a grid of area x aspect ratio x taper x sweep x dihedral x thickness x sides x direction; every sequence of up to 3 (thorough 4) sections over a section alphabet, every cut of every section, '
          'both descriptions of one wing, scale and half-wing symmetry, two calls; a fuselage grid in both branches; vehicles with 0..4 engines x origin lists x fuselage presence; every pair of control surface ends over the '
          'break grid x section lists x surface types, one and two surfaces')
ASSUMPTIONS = ['a section is a straight trapezoid: the oracle integrates the chord law with Gauss points per section', 'the wetted area factor and the fuselage perimeter approximation are taken as documented']
MIN = {'evals': 20000}
TIME_LIMIT = 300
GX, GW = np.polynomial.legendre.leggauss(4)


def scenarios(tier):
    T = tier == 'thorough'
    out = [['trap', a, s] for a in range(len(ARS)) for s in range(4)]
    out += [['seg', n, a, s] for n in ((1, 2, 3, 4) if T else (1, 2, 3)) for a in range(len(SEC)) for s in range(3)]
    out += [['fus', k] for k in range(4)] + [['rescale', n, k] for n in range(5) for k in range(4)]
    out += [['cs', k, n] for k in range(len(BRK)) for n in ((1, 2))] + [['tail', 0], ['fuel', 0], ['nacelle', 0]]
    return out


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    globals()['P'] = SUAVE.Methods.Geometry.Two_Dimensional.Planform
    with np.errstate(all='ignore'):
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


ARS = (4., 7.5, 11.)
SIDES = ((True, False), (False, False), (False, True), (True, False))  # symmetric, vertical


def shape(eta, c, sw, dih, tc, semi, sym, vert):
    """integrals of the wing with breaks eta (0..1), chords c at the breaks, quarter chord sweeps and dihedrals per section"""
    S = SC = SX = SY = SZ = ST = LEN = WET = 0.
    x0 = y0 = z0 = 0.
    for i in range(len(eta) - 1):
        L = (eta[i + 1] - eta[i]) * semi
        tle = math.tan(sw[i]) + (c[i] - c[i + 1]) / 4 / L
        for g, w in zip(GX, GW):
            u = (g + 1) / 2
            cy = c[i] + (c[i + 1] - c[i]) * u
            dS = cy * L * w / 2
            S += dS
            SC += cy * dS
            SX += (x0 + tle * L * u + cy / 4) * dS
            SY += (y0 + L * u) * dS
            SZ += (z0 + math.tan(dih[i]) * L * u) * dS
            ST += tc[i] * dS
            WET += 2 * (1 + .2 * tc[i]) * dS
        x0, y0, z0 = x0 + tle * L, y0 + L, z0 + math.tan(dih[i]) * L
        LEN += L / math.cos(dih[i])
    k = 2 if sym else 1
    ac = [SX / S, SY / S, SZ / S]
    if vert:
        ac = [ac[0], ac[2], ac[1]]
    one = list(ac)
    if sym:
        ac[1] = 0.
    lq = sum((eta[i + 1] - eta[i]) * math.tan(sw[i]) for i in range(len(eta) - 1))
    return {'area': k * S, 'mac': SC / S, 'ac': ac, 'one': one, 'tc': ST / S, 'span': k * LEN, 'le': math.atan(x0 / semi), 'c4': math.atan(lq), 'length': x0 + c[-1], 'tip': c[-1], 'taper': c[-1] / c[0],
            'mgc': S / semi, 'ar': (k * semi) ** 2 / (k * S), 'wet': k * WET}


def got(w, ctx=None, want=None):
    g = raw(w)
    if ctx is not None and not w.symmetric:
        # listed finding: twice the mean thickness on a one-sided wing
        t = want['tc']
        if abs(g['tc'] - 2 * t) <= 1e-9 * t:
            ctx.fail('tc:one-sided', 'a one-sided segmented wing of thickness %g is given %g' % (t, g['tc']))
            g['tc'] = t
    return g


def raw(w):
    return {'area': w.areas.reference, 'mac': w.chords.mean_aerodynamic, 'ac': list(w.aerodynamic_center), 'tc': w.thickness_to_chord, 'span': w.spans.total, 'le': w.sweeps.leading_edge,
            'c4': w.sweeps.quarter_chord, 'length': w.total_length, 'tip': w.chords.tip, 'taper': w.taper, 'mgc': w.chords.mean_geometric, 'ar': w.aspect_ratio, 'wet': w.areas.wetted}


def against(ctx, key, g, want, what, skip=(), rtol=1e-9):
    for k in g:
        if k not in skip:
            ctx.close(np.array(g[k], dtype=float), np.array(want[k], dtype=float), key + ':' + k, '%s of %s' % (k, what), rtol=rtol, atol=1e-9 * max(1., abs(want['length'])))


def r_trap(ctx, a, s):
    sym, vert = SIDES[s]
    ar = ARS[a]
    for S, tap, sw, dih, tc in itertools.product((12., 95.), (.18, .6, 1.), (-.25, 0., .5), (0., .09, -.05), (.08, .14)):
        if s == 3 and sw < 0:
            continue
        w = SUAVE.Components.Wings.Wing()
        w.areas.reference, w.aspect_ratio, w.taper, w.sweeps.quarter_chord, w.dihedral, w.thickness_to_chord, w.symmetric, w.vertical, w.high_lift = S, ar, tap, sw, dih, tc, sym, vert, s == 3
        if s == 3:
            f = SUAVE.Components.Wings.Control_Surfaces.Flap()
            f.tag, f.span_fraction_start, f.span_fraction_end, f.chord_fraction = 'flap', .15, .15 + .5 * tap, .3
            w.append_control_surface(f)
        P.wing_planform(w)
        span = (ar * S) ** .5
        semi = span / (2 if sym else 1)
        cr = 2 * S / span / (1 + tap)
        want = shape([0., 1.], [cr, cr * tap], [sw], [dih], [tc], semi, sym, vert)
        what = 'wing %s' % ((S, ar, tap, sw, dih, tc, sym, vert),)
        ctx.state(what)
        ctx.step()
        odd = ()
        if not sym:
            # listed finding: sweep, length and aerodynamic center of a one-sided wing are those of half its span
            twin = shape([0., 1.], [cr, cr * tap], [sw], [dih], [tc], span / 2, sym, vert)
            g = got(w)
            odd = tuple(k for k in ('le', 'length', 'ac') if not R.same(g[k], want[k], 1e-9, 1e-9) and R.same(g[k], twin[k], 1e-9, 1e-9))
            if odd:
                ctx.fail('trap:one-sided', '%s of %s are those of half its span' % (odd, what))
        against(ctx, 'trap', got(w), want, what, skip=odd)
        ctx.close(w.chords.root, cr, 'trap:root', 'root chord')
        ctx.close(w.spans.projected, span, 'trap:proj', 'projected span')
        if s == 3:
            L = want['area']
            c1, c2 = cr + (cr * tap - cr) * f.span_fraction_start, cr + (cr * tap - cr) * f.span_fraction_end
            A = (c1 + c2) / 2 * (f.span_fraction_end - f.span_fraction_start) * span
            ctx.close(w.areas.affected, A, 'trap:affected', 'wing area behind the flaps of %s' % what)
            ctx.close(f.area, .3 * A, 'trap:flap', 'flap area of %s' % what)
            fm = shape([0., 1.], [c1, c2], [0.], [0.], [0.], 1., False, False)['mac']
            ctx.close(f.chord_dimensional, .3 * fm, 'trap:flapchord', 'flap chord of %s' % what)
        else:
            ctx.check(w.areas.affected == 0., 'trap:noflap', 'no high lift, no affected area')
        # the same wing again, and as two sections
        g = got(w)
        P.wing_planform(w)
        for k, v in g.items():
            ctx.check(R.same(got(w)[k], v, 1e-12), 'trap:again:' + k, 'a second call changes %s of %s' % (k, what))
        w2 = wing([0., 1.], [1., tap], [sw], [dih], [tc], span, cr, sym, vert)
        P.wing_segmented_planform(w2, overwrite_reference=True)
        against(ctx, 'two', got(w2, ctx, want), dict(g, **{k: want[k] for k in odd}), 'the one section form of ' + what)
        # area, span and length scale together
        w3 = copy.deepcopy(w)
        w3.areas.reference = 4. * S
        P.wing_planform(w3)
        h = got(w3)
        for k, p in POW.items():
            ctx.close(np.array(h[k], dtype=float), 2. ** p * np.array(g[k], dtype=float), 'trap:scale:' + k, '%s of %s at twice the size' % (k, what), rtol=1e-10, atol=1e-10)
        ctx.trace(4)


POW = {'area': 2, 'mac': 1, 'ac': 1, 'tc': 0, 'span': 1, 'le': 0, 'c4': 0, 'length': 1, 'tip': 1, 'taper': 0, 'mgc': 1, 'ar': 0, 'wet': 2}
# fraction of the remaining span, chord ratio across, sweep, dihedral, thickness
SEC = ((.3, .7, .45, .08, .14), (.5, 1., 0., 0., .1), (.4, .45, -.2, .2, .12), (.6, 1.15, .9, -.1, .09))


def wing(eta, c, sw, dih, tc, span, root, sym, vert, tagp='s'):
    w = SUAVE.Components.Wings.Wing()
    w.spans.projected, w.chords.root, w.symmetric, w.vertical = span, root, sym, vert
    w.areas.reference, w.areas.wetted, w.aspect_ratio = 0., 0., 0.
    w.thickness_to_chord = .1
    for i in range(len(eta)):
        s = SUAVE.Components.Wings.Segment()
        j = min(i, len(sw) - 1)
        s.tag, s.percent_span_location, s.root_chord_percent, s.twist = '%s_%d' % (tagp, i), eta[i], c[i], .01 * i
        s.sweeps.quarter_chord, s.dihedral_outboard, s.thickness_to_chord = (sw[j], dih[j], tc[j]) if i < len(sw) else (0., 0., .123)
        w.append_segment(s)
    return w


def build(seq):
    eta, c, sw, dih, tc = [0.], [1.], [], [], []
    for n, i in enumerate(seq):
        f, r, s, d, t = SEC[i]
        eta.append(1. if n == len(seq) - 1 else eta[-1] + f * (1 - eta[-1]))
        c.append(c[-1] * r)
        sw.append(s)
        dih.append(d)
        tc.append(t)
    return eta, c, sw, dih, tc


def segtot(w, k):
    return sum(s.areas[k] for s in list(w.Segments.values())[:-1])


def r_seg(ctx, n, a, s):
    sym, vert = SIDES[s]
    for seq in itertools.product(range(len(SEC)), repeat=n):
        if seq[0] != a:
            continue
        eta, c, sw, dih, tc = build(seq)
        span, root = 17. + 4 * a, 2.3
        semi = span / (2 if sym else 1)
        want = shape(eta, [root * x for x in c], sw, dih, tc, semi, sym, vert)
        what = 'sections %s sym %s vert %s' % (seq, sym, vert)
        ctx.state((seq, s))
        ctx.step()
        w = wing(eta, c, sw, dih, tc, span, root, sym, vert)
        inp = [(q.percent_span_location, q.root_chord_percent, q.twist, q.sweeps.quarter_chord, q.dihedral_outboard, q.thickness_to_chord) for q in w.Segments]
        P.wing_segmented_planform(w, overwrite_reference=True)
        g = got(w, ctx, want)
        against(ctx, 'seg', g, want, what)
        ctx.close(np.array(w.single_side_aerodynamic_center), np.array(want['one']), 'seg:one', 'aerodynamic center of one side of ' + what, atol=1e-9)
        ctx.check(inp == [(q.percent_span_location, q.root_chord_percent, q.twist, q.sweeps.quarter_chord, q.dihedral_outboard, q.thickness_to_chord) for q in w.Segments] and w.spans.projected == span
                  and w.chords.root == root, 'seg:input', 'the description of %s was changed' % what)
        sec = [shape([0., 1.], [root * c[i], root * c[i + 1]], [0.], [0.], [0.], semi * (eta[i + 1] - eta[i]), sym, False) for i in range(n)]
        for q, z in zip(list(w.Segments.values())[:-1], sec):
            ctx.close(q.areas.reference, z['area'], 'seg:part', 'area of a section of ' + what)
            ctx.close(q.areas.exposed, z['area'], 'seg:exposed', 'exposed area of a section of ' + what)
            ctx.close(q.chords.mean_aerodynamic, z['mac'], 'seg:partmac', 'mean chord of a section of ' + what)
            ctx.close(q.taper, z['taper'], 'seg:parttaper', 'taper of a section of ' + what)
        ctx.close(segtot(w, 'reference'), g['area'], 'seg:sum', 'section areas add up for ' + what)
        P.wing_segmented_planform(w, overwrite_reference=True)
        for k, v in g.items():
            ctx.check(R.same((got(w, ctx, want))[k], v, 1e-12), 'seg:again:' + k, 'a second call changes %s of %s' % (k, what))
        # reference values kept unless asked
        w1 = wing(eta, c, sw, dih, tc, span, root, sym, vert)
        w1.areas.reference, w1.areas.wetted, w1.aspect_ratio = 33., 71., 5.
        P.wing_segmented_planform(w1)
        ctx.check((w1.areas.reference, w1.areas.wetted, w1.aspect_ratio) == (33., 71., 5.), 'seg:keep', 'reference values of %s overwritten' % what)
        against(ctx, 'seg:kept', got(w1, ctx, want), want, what, skip=('area', 'wet', 'ar'))
        # every cut of every section is invisible, also beside an exposed root
        for off in (0., .1 * semi * (eta[1] - eta[0])):
            base = copy.deepcopy(w)
            base.exposed_root_chord_offset = off
            P.wing_segmented_planform(base)
            for i in range(n):
                for u in (.25, .5, .9):
                    e2 = eta[:i + 1] + [eta[i] + u * (eta[i + 1] - eta[i])] + eta[i + 1:]
                    c2 = c[:i + 1] + [c[i] + u * (c[i + 1] - c[i])] + c[i + 1:]
                    rep = lambda v: v[:i + 1] + v[i:]
                    w2 = wing(e2, c2, rep(sw), rep(dih), rep(tc), span, root, sym, vert)
                    w2.exposed_root_chord_offset = off
                    P.wing_segmented_planform(w2, overwrite_reference=True)
                    ctx.state((seq, s, off > 0, i, u))
                    against(ctx, 'cut', got(w2, ctx, want), g, 'section %d cut at %g of %s' % (i, u, what))
                    for k in ('reference', 'exposed', 'wetted'):
                        ctx.close(segtot(w2, k), segtot(base, k), 'cut:sum:' + k, '%s area of the sections after a cut of %s' % (k, what), rtol=1e-9)
                    ctx.trace()
        # size, and a half wing of twice the span law
        w3 = wing(eta, c, sw, dih, tc, 3 * span, 3 * root, sym, vert)
        P.wing_segmented_planform(w3, overwrite_reference=True)
        h = got(w3, ctx, want)
        for k, p in POW.items():
            ctx.close(np.array(h[k], dtype=float), 3. ** p * np.array(g[k], dtype=float), 'seg:scale:' + k, '%s of %s at three times the size' % (k, what), rtol=1e-10, atol=1e-10)
        if sym:
            w4 = wing(eta, c, sw, dih, tc, semi, root, False, False)
            P.wing_segmented_planform(w4, overwrite_reference=True)
            h = got(w4, ctx, want)
            for k in ('area', 'span', 'wet'):
                ctx.close(2 * h[k], g[k], 'half:' + k, '%s of the two halves of %s' % (k, what))
            ctx.close(h['ar'] * 2, g['ar'], 'half:ar', 'aspect ratio of the half of ' + what)
            for k in ('mac', 'tc', 'le', 'c4', 'length', 'tip', 'taper', 'mgc'):
                ctx.close(h[k], g[k], 'half:' + k, '%s of the half of %s' % (k, what))
        # zero reference areas are filled from the sections, others only on request
        w5 = copy.deepcopy(w)
        w5.areas.reference = w5.areas.wetted = 0.
        seg = SUAVE.Methods.Geometry.Two_Dimensional.Planform.wing_segmented_planform
        sp = __import__('SUAVE.Methods.Geometry.Two_Dimensional.Planform.wing_segmented_planform', fromlist=['x'])
        f = getattr(sp, 'segment_properties', None) or getattr(P, 'segment_properties')
        f(w5)
        ctx.close(w5.areas.reference, want['area'], 'props:ref', 'reference area from the sections of ' + what)
        ctx.close(w5.areas.wetted, segtot(w5, 'wetted'), 'props:wet', 'wetted area from the sections of ' + what)
        for uw, ur in itertools.product((False, True), repeat=2):
            w5.areas.reference, w5.areas.wetted = 1.5, 2.5
            f(w5, update_wet_areas=uw, update_ref_areas=ur)
            ctx.close(w5.areas.reference, want['area'] if ur else 1.5, 'props:ref2', 'reference area on request')
            ctx.close(w5.areas.wetted, segtot(w5, 'wetted') if uw else 2.5, 'props:wet2', 'wetted area on request')
        ctx.trace(6)


def r_fus(ctx, k):
    wide, high = ((3.7, 3.7), (3., 4.2), (4.2, 3.), (6.5, 5.))[k]
    for seats, ab, pitch, nf, tf, fo, af in itertools.product((30., 96., 150., 300.), (4., 6.), (.75, 1.), (1.2, 2.), (1.8, 2.5), (0., 4.), (0., 3.)):
        f = SUAVE.Components.Fuselages.Fuselage()
        f.number_coach_seats, f.seats_abreast, f.seat_pitch, f.fineness.nose, f.fineness.tail, f.lengths.fore_space, f.lengths.aft_space, f.width, f.heights.maximum = seats, ab, pitch, nf, tf, fo, af, wide, high
        P.fuselage_planform(f)
        what = 'fuselage %s' % ((wide, high, seats, ab, pitch, nf, tf, fo, af),)
        ctx.state(what)
        ctx.step()
        cab = seats * pitch / ab + fo + af
        a, b = wide / 2, high / 2
        h = ((a - b) / (a + b)) ** 2
        per = math.pi * (a + b) * (1 + 3 * h / (10 + math.sqrt(4 - 3 * h)))
        D = (a + b) * (64 - 3 * h ** 2) / (64 - 16 * h)
        want = {'nose': nf * wide, 'tail': tf * wide, 'cabin': cab, 'total': cab + (nf + tf) * wide}
        for q, v in want.items():
            ctx.close(f.lengths[q], v, 'fus:' + q, '%s length of %s' % (q, what))
        ctx.close(f.areas.front_projected, math.pi * a * b, 'fus:front', 'frontal area')
        ctx.close(f.effective_diameter, D, 'fus:diameter', 'effective diameter')
        ctx.close(f.areas.wetted, per * cab + .75 * math.pi * D * (nf + tf) * wide, 'fus:wetted', 'wetted area of ' + what)
        if wide == high:
            ctx.close(f.effective_diameter, wide, 'fus:round', 'diameter of a round fuselage')
        keep = {q: f.lengths[q] for q in want}, f.areas.wetted
        P.fuselage_planform(f)
        ctx.check(f.number_coach_seats == seats, 'fus:seats', '%s holds %s seats when its length is given back' % (what, f.number_coach_seats))
        for q in want:
            ctx.close(f.lengths[q], keep[0][q], 'fus:again:' + q, '%s length after a second call' % q)
        ctx.close(f.areas.wetted, keep[1], 'fus:again:wetted', 'wetted area after a second call')
        # a longer fuselage holds whole seat rows more
        f.lengths.total += 3 * pitch
        P.fuselage_planform(f)
        ctx.check(f.number_coach_seats == seats + 3 * ab, 'fus:rows', 'three rows longer: %s' % f.number_coach_seats)
        ctx.trace(3)
        # the same body turned on its side
        g = copy.deepcopy(f)
        g.lengths.total = f.lengths.total
        g.width, g.heights.maximum = f.heights.maximum, f.width
        g.fineness.nose, g.fineness.tail = f.fineness.nose * wide / high, f.fineness.tail * wide / high
        P.fuselage_planform(g)
        for q, u, v in (('wetted', g.areas.wetted, f.areas.wetted), ('front', g.areas.front_projected, f.areas.front_projected), ('cabin', g.lengths.cabin, f.lengths.cabin)):
            ctx.close(u, v, 'fus:turned:' + q, '%s of the turned body' % q)


ENG = ((3., 2., -1.), (9., -4., -.5), (7.5, .5, .2), (1., 6., 0.))


def engines(n, k, shift=0.):
    """mirrored pairs, the odd one on the centre line"""
    x, y, z = ENG[k]
    return [[x + shift, 0. if n % 2 and i == n - 1 else (-y if i % 2 else y), z] for i in range(n)]


def r_rescale(ctx, n, k):
    from SUAVE.Methods.Geometry.Two_Dimensional.Planform.rescale_non_dimensional import set_origin_non_dimensional, set_origin_dimensional
    for fus, nets, nw in itertools.product((0., 20., 37.5), (0, 1, 2), (0, 1, 3)):
        v = SUAVE.Vehicle()
        L = fus if fus else 1.
        org = {}
        if fus:
            f = SUAVE.Components.Fuselages.Fuselage()
            f.tag = 'fuselage'
            f.lengths.total = fus
            f.origin = [[.5, 0., .1]]
            v.append_component(f)
            org['f'] = (f, f.origin)
        for i in range(nw):
            w = SUAVE.Components.Wings.Wing()
            w.tag = 'wing_%d' % i
            w.origin = [[2. + 3 * i, .5 * i, -.3 * i]]
            v.append_component(w)
            org['w%d' % i] = (w, w.origin)
        for i in range(nets):
            t = SUAVE.Components.Energy.Networks.Turbofan()
            t.tag, t.number_of_engines = 'net_%d' % i, n
            t.origin = engines(n, k, i)
            v.append_component(t)
            org['n%d' % i] = (t, t.origin)
        org = {q: (p, copy.deepcopy(o)) for q, (p, o) in org.items()}
        ctx.state((n, k, fus, nets, nw))
        ctx.step()
        set_origin_non_dimensional(v)
        for q, (p, o) in org.items():
            ctx.close(np.array(p.non_dimensional_origin, dtype=float).reshape(-1), np.array(o, dtype=float).reshape(-1) / L, 'non:' + q[0], 'non dimensional origin of %s' % q)
            ctx.check(p.origin == o, 'non:kept', 'origin of %s' % q)
        set_origin_dimensional(v)
        for q, (p, o) in org.items():
            ctx.close(np.array(p.origin, dtype=float).reshape(-1), np.array(o, dtype=float).reshape(-1), 'round:' + q[0], 'origin of %s (%d engines at %s) after the round trip' % (q, n, o))
        if fus:
            v.fuselages.fuselage.lengths.total *= 1.25
            set_origin_dimensional(v)
            for q, (p, o) in org.items():
                ctx.close(np.array(p.origin, dtype=float).reshape(-1), 1.25 * np.array(o, dtype=float).reshape(-1), 'stretch:' + q[0], 'origin of %s with a longer fuselage' % q)
            set_origin_non_dimensional(v)
            set_origin_non_dimensional(v)
            for q, (p, o) in org.items():
                ctx.close(np.array(p.non_dimensional_origin, dtype=float).reshape(-1), np.array(o, dtype=float).reshape(-1) / L, 'non2:' + q[0], 'non dimensional origin of %s after a stretch' % q)
        ctx.trace(4)
    # only the first position is given: pairs mirrored, the odd one in the middle
    if n:
        v = SUAVE.Vehicle()
        t = SUAVE.Components.Energy.Networks.Turbofan()
        t.number_of_engines = n
        t.non_dimensional_origin = [list(ENG[k])]
        v.append_component(t)
        for _ in range(2):
            set_origin_dimensional(v)
            ctx.close(np.array(t.origin), np.array(engines(n, k)), 'mirror', 'engines mirrored from one position')


BRK = ((0., 1.), (0., .4, 1.), (0., .3, .7, 1.), (0., .2, .5, .8, 1.))


def r_cs(ctx, k, n):
    C = SUAVE.Components.Wings.Control_Surfaces
    types = (C.Flap, C.Slat, C.Aileron, C.Elevator, C.Rudder)
    brk = BRK[k]
    pts = sorted(set(brk) | {(a + b) / 2 for a, b in zip(brk, brk[1:])} | {brk[0] + .01, brk[-1] - .01})
    pairs = [(a, b) for a in pts for b in pts if a < b]

    def mk(cls, tag, ab, j):
        s = cls()
        s.tag, s.span_fraction_start, s.span_fraction_end = tag, ab[0], ab[1]
        s.span, s.hinge_fraction, s.chord_fraction, s.sign_duplicate, s.deflection, s.configuration_type, s.gain = 3.1 + j, .1 * j, .2 + .03 * j, (-1.) ** j, .05 * (j + 1), 'double_slotted', .7 + j
        return s
    combos = [[(t, ab)] for t in types for ab in pairs] if n == 1 else [[(types[0], ab), (types[2], cd)] for ab in pairs for cd in pairs if ab[1] <= cd[0] or cd == ab]
    for combo in combos:
        w = wing(list(brk), [1. - .5 * b for b in brk], [.3] * (len(brk) - 1), [0.] * (len(brk) - 1), [.1] * (len(brk) - 1), 20., 3., True, False)
        css = [mk(t, 'cs_%d' % j, ab, j) for j, (t, ab) in enumerate(combo)]
        for c in css:
            w.append_control_surface(c)
        keep = [sorted((a, repr(b)) for a, b in c.items()) for c in css]
        for rep in range(2):
            P.populate_control_sections(w)
            ctx.state((k, n, rep, tuple(ab for _, ab in combo), tuple(t.__name__ for t, _ in combo)))
            ctx.step()
            segs = list(w.Segments.values())
            for j, (cls, ab) in enumerate(combo):
                tag = 'cs_%d' % j
                got = []
                tot = 0.
                for i, s in enumerate(segs):
                    for q in s.control_surfaces:
                        if q.tag != tag:
                            continue
                        lo, hi = brk[i - 1] if i else None, brk[i]
                        ctx.check(lo is not None and lo - 1e-12 <= q.span_fraction_start < q.span_fraction_end <= hi + 1e-12, 'cs:inside', '%s part %g..%g stored with the section %s..%s' % (tag, q.span_fraction_start, q.span_fraction_end, lo, hi))
                        got.append((q.span_fraction_start, q.span_fraction_end))
                        tot += q.span
                        c = css[j]
                        ctx.check(type(q) is cls and all(q[a] == c[a] for a in ('hinge_fraction', 'chord_fraction', 'sign_duplicate', 'deflection', 'configuration_type', 'gain')) and q is not c,
                                  'cs:same', 'the parts of %s are like the whole' % tag)
                        ctx.close(q.span, c.span * (q.span_fraction_end - q.span_fraction_start) / (ab[1] - ab[0]), 'cs:span', 'span of a part')
                want = [(max(ab[0], lo), min(ab[1], hi)) for lo, hi in zip(brk, brk[1:]) if min(ab[1], hi) > max(ab[0], lo)]
                ctx.check(len(got) == len(want) and np.allclose(got, want, rtol=0, atol=1e-12), 'cs:parts', '%s %s on sections %s is split into %s' % (tag, ab, brk, got))
                ctx.close(tot, css[j].span, 'cs:total', 'spans of the parts of %s add up' % tag)
            ctx.check(keep == [sorted((a, repr(b)) for a, b in c.items()) for c in css], 'cs:input', 'the surfaces of the wing were changed')
            ctx.trace()


def r_tail(ctx, _):
    for S, ar, tap, l, c, sw in itertools.product((40., 120.), (1.8, 4.5), (.3, .8), (8., 17.), (.05, 1.), (.2, .6)):
        m = SUAVE.Components.Wings.Main_Wing()
        m.areas.reference, m.spans.projected, m.chords.mean_aerodynamic = S, 25., 3.3
        for name, cls, arm in (('vertical_tail_planform_raymer', 'Vertical_Tail', 25.), ('horizontal_tail_planform_raymer', 'Horizontal_Tail', 3.3)):
            t = getattr(SUAVE.Components.Wings, cls)()
            t.aspect_ratio, t.taper, t.sweeps.quarter_chord, t.dihedral, t.thickness_to_chord, t.high_lift = ar, tap, sw, 0., .1, False
            getattr(P, name)(t, m, l, c)
            A = c * arm * S / l
            ctx.state((name, S, ar, tap, l, c, sw))
            ctx.step()
            ctx.close(t.areas.reference, A, 'tail:area', 'tail area for its volume coefficient')
            u = copy.deepcopy(t)
            u.areas.reference = A
            P.wing_planform(u)
            against(ctx, 'tail', got(t), got(u), name)
            z = copy.deepcopy(t)
            getattr(P, name.replace('_raymer', ''))(z)
            against(ctx, 'tail:plain', got(z), got(u), name)
            ctx.check(t.vertical == (cls == 'Vertical_Tail'), 'tail:dir', 'direction')
            ctx.trace(3)


def r_fuel(ctx, _):
    for S, ar, tc in itertools.product((10., 80., 400.), (4., 8., 14.), (.06, .12, .18)):
        w = SUAVE.Components.Wings.Wing()
        w.areas.reference, w.aspect_ratio, w.thickness_to_chord = S, ar, tc
        P.wing_fuel_volume(w)
        b = (S * ar) ** .5
        ctx.state((S, ar, tc))
        ctx.step()
        ctx.close(w.fuel_volume, .9 * .55 * tc * (S / b) * S, 'fuel:value', 'tank volume is thickness x mean chord x area x fill')
        w.areas.reference = 4 * S
        v = w.fuel_volume
        P.wing_fuel_volume(w)
        ctx.close(w.fuel_volume, 8 * v, 'fuel:scale', 'twice the size, eight times the volume')
        ctx.trace(2)


def r_nacelle(ctx, _):
    from SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Propulsion.compute_turbofan_geometry import compute_turbofan_geometry
    last = None
    for T in (5e3, 2e4, 6e4, 1.2e5, 3e5, 5e5):
        t, n = SUAVE.Components.Energy.Networks.Turbofan(), SUAVE.Components.Nacelles.Nacelle()
        t.sealevel_static_thrust = T
        compute_turbofan_geometry(t, n)
        lb = T / 4.4482216152605
        ctx.state(T)
        ctx.step()
        ctx.close(n.diameter, .0254 * 1.0827 * lb ** .4134, 'nac:diameter', 'diameter', rtol=1e-6)
        ctx.close(t.engine_length, .0254 * 2.4077 * lb ** .3876, 'nac:length', 'length', rtol=1e-6)
        ctx.close(n.inlet_diameter, n.diameter / 2.1 ** .5, 'nac:inlet', 'inlet')
        ctx.close(t.inlet_diameter, n.inlet_diameter, 'nac:inlet2', 'inlet of the engine and its nacelle')
        ctx.close(n.areas.wetted, 1.1 * math.pi * n.diameter * t.engine_length, 'nac:wetted', 'wetted area')
        now = np.array([n.diameter, t.engine_length, n.areas.wetted])
        ctx.check(last is None or np.all(now > last), 'nac:grow', 'more thrust, bigger engine')
        last = now
        compute_turbofan_geometry(t, n)
        ctx.close(np.array([n.diameter, t.engine_length, n.areas.wetted]), now, 'nac:again', 'second call')
        ctx.trace(2)
