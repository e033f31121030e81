"""AVL decks describe the vehicle and its flight state, and AVL's results come back in the place of the quantity they are."""
import contextlib, copy, io, itertools, json, os, shutil, stat, sys, warnings
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('every wing of a grid (number of segments, dihedral of both signs, way of giving sweep, symmetry, vertical, airfoil, up to three control surfaces at all span fractions of a grid of breaks and mid stations) compared station by station '
          'with the geometry file; every combination of angle of attack lists, Mach number, sideslip, rates, lift coefficient, trim, deflections, order and number of control surfaces run through an environment model of the AVL executable; '
          'every history of up to three evaluations of one analysis; every training node of both surrogates; the store and load of training files')
ASSUMPTIONS = ['the real AVL executable is not available: mc/avl/fake_avl is a model of its command language and file layout, compared line by line with result files of the real one',
               'the AVL geometry follows the conventions of the vortex lattice of the package (sweep and dihedral in projected span)', 'names of control surfaces are different', 'coefficients have at most one digit before the point, derivatives three']
MIN = {'evals': 20000}
TIME_LIMIT = 500
HERE = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'avl')
FAKE = os.path.join(HERE, 'fake_avl')
A = 'SUAVE.Methods.Aerodynamics.AVL.'


def scenarios(tier):
    T = tier == 'thorough'
    out = [['wing', n, v, k] for n in (0, 2, 3, 4) for v in (0, 1) for k in range(3)] + [['body', 0], ['airfoil', 0], ['layout', 0]]
    out += [['case', v, k] for v in range(4) for k in range(4 if T else 3)] + [['hist', k] for k in range(3)] + [['train', k] for k in range(3)] + [['mass', 0]]
    return out


def run(ctx, sc):
    s = globals()['SUAVE'] = G.S()
    for mod, n in ((A + 'write_geometry', 'write_geometry'), (A + 'write_mass_file', 'write_mass_file'), (A + 'write_avl_airfoil_file', 'write_avl_airfoil_file'),
                   ('SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.import_airfoil_geometry', 'import_airfoil_geometry')):
        globals()[n] = getattr(__import__(mod, fromlist=['x']), n)
    globals()['CS'] = s.Components.Wings.Control_Surfaces
    ns = {'__name__': 'fake_avl'}
    src = open(FAKE).read()
    exec(compile(src[:src.rindex('\nmain()')], FAKE, 'exec'), ns)
    globals()['F'] = ns
    cwd = os.getcwd()
    d = os.path.join(ctx.scratch(), 'work')
    os.makedirs(d)
    os.chdir(d)
    try:
        with np.errstate(all='ignore'), warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter('ignore')
            globals()['r_' + sc[0]](ctx, *sc[1:])
    finally:
        os.chdir(cwd)
    ctx.sample(sc)


# ---------------------------------------------------------------- vehicles
AIRFOIL = None


def airfoil_file(name, t):
    """a symmetric section in Selig order, in the folder of the run"""
    os.makedirs('af', exist_ok=True)
    x = .5 * (1 + np.cos(np.linspace(0, np.pi, 31)))
    y = 5 * t * (.2969 * np.sqrt(x) - .126 * x - .3516 * x ** 2 + .2843 * x ** 3 - .1036 * x ** 4) + .02 * np.sin(np.pi * x)
    z = -5 * t * (.2969 * np.sqrt(x) - .126 * x - .3516 * x ** 2 + .2843 * x ** 3 - .1036 * x ** 4) + .02 * np.sin(np.pi * x)
    with open('af/%s.txt' % name, 'w') as f:
        f.write(name + ' airfoil\n')
        for a, b in list(zip(x, y)) + list(zip(x, z))[::-1][1:]:
            f.write('%.6f %.6f\n' % (a if a > 1e-9 else 0., b if a > 1e-9 else 0.))
    return 'af/%s.txt' % name


def airfoil(kind, i):
    if not kind:
        return None
    a = SUAVE.Components.Airfoils.Airfoil()
    if kind == 'naca':
        a.naca_airfoil = '%d412' % (i + 1)
    else:
        a.coordinate_file = airfoil_file('foil%d' % i, .08 + .02 * i) if kind == 'file' else os.path.abspath(airfoil_file('foil%d' % i, .08 + .02 * i))
    return a


SEGS = {2: ((0., 1., 3., -4., 20.), (1., .4, -1., 0., 0.)), 3: ((0., 1., 4., 3., 30.), (.35, .6, 1., 7., 22.), (1., .25, -2., 0., 0.)),
        4: ((0., 1., 4., 2., 32.), (.1, .8, 3., -3., 26.), (.55, .5, .5, 8., 20.), (1., .2, -1., 0., 0.))}
RAD = np.pi / 180


def make_wing(n, vertical, dih, le, sym, af, tag='main_wing', origin=(10., 0., 1.), mirror=1.):
    W = SUAVE.Components.Wings
    w = W.Vertical_Tail() if vertical else (W.Main_Wing() if tag == 'main_wing' else W.Horizontal_Tail())
    w.tag = tag
    w.symmetric, w.vertical = sym, bool(vertical)
    w.spans.projected = 5. if vertical else 30.
    w.chords.root, w.taper = 6., .3
    w.chords.tip = 1.8
    w.chords.mean_aerodynamic = 4.2
    w.areas.reference = 100.
    w.areas.wetted = 200.
    w.aspect_ratio = 9.
    w.origin = [list(origin)]
    w.dihedral = dih * RAD
    w.twists.root, w.twists.tip = 4. * RAD, -2. * RAD
    w.sweeps.quarter_chord = 25. * RAD
    w.sweeps.leading_edge = 28. * RAD if le else None
    if n == 0 and af:
        w.append_airfoil(airfoil(af, 0))
    for i, p in enumerate(SEGS.get(n, ())):
        g = SUAVE.Components.Wings.Segment()
        g.tag = 'seg_%d' % i
        g.percent_span_location, g.root_chord_percent = p[0], p[1]
        g.twist = p[2] * RAD
        g.dihedral_outboard = (p[3] * mirror + dih) * RAD
        g.sweeps.quarter_chord = p[4] * RAD
        g.sweeps.leading_edge = (p[4] + 3) * RAD if le else None
        g.thickness_to_chord = .1
        if af:
            g.append_airfoil(airfoil(af, i))
        w.append_segment(g)
    return w


KIND = {'flap': ('Flap', 1.), 'slat': ('Slat', -1.), 'aileron': ('Aileron', -1.), 'elevator': ('Elevator', 1.), 'rudder': ('Rudder', 1.)}


def control(kind, a, b, defl=0., tag=None, cf=.25):
    c = getattr(CS, KIND[kind][0])()
    c.tag = tag or kind
    c.span_fraction_start, c.span_fraction_end, c.chord_fraction = a, b, cf
    c.deflection = defl * RAD
    c.span = b - a
    return c


def vehicle(wings, fus=True, mass=0., mtow=70e3):
    v = SUAVE.Vehicle()
    v.tag = 'plane'
    v.mass_properties.mass, v.mass_properties.max_takeoff = mass, mtow
    v.mass_properties.takeoff = mtow
    v.mass_properties.center_of_gravity = [[15.25, .125, -.48024]]
    v.mass_properties.moments_of_inertia.tensor = np.array([[1e6, 1., 2.], [1., 3e6, 3.], [2., 3., 4e6]]) * 0.
    v.reference_area = 100.
    for w in wings:
        v.append_component(w)
    if fus:
        f = SUAVE.Components.Fuselages.Fuselage()
        f.tag = 'fuselage'
        f.lengths.total, f.lengths.nose, f.lengths.tail = 35., 6., 9.
        f.width, f.heights.maximum = 3.8, 4.2
        f.fineness.nose, f.fineness.tail = 1.6, 2.4
        f.origin = [[1., 0., -.5]]
        v.append_component(f)
    return v


def config(v):
    c = SUAVE.Components.Configs.Config(v)
    c.tag = 'cruise'
    return c


def shape(w, eta):
    """leading edge, chord and twist in degrees at span fraction eta, in the conventions of the vortex lattice"""
    half = w.spans.projected * (.5 if w.symmetric else 1.)
    segs = list(w.Segments.values())
    if segs:
        P = [(g.percent_span_location, g.root_chord_percent * w.chords.root, g.twist, g.dihedral_outboard, g.sweeps.quarter_chord, g.sweeps.leading_edge) for g in segs]
    else:
        P = [(0., w.chords.root, w.twists.root, w.dihedral, w.sweeps.quarter_chord, w.sweeps.leading_edge), (1., w.chords.tip, w.twists.tip, 0., 0., 0.)]
    x = s = t = 0.
    for a, b in zip(P, P[1:]):
        L = (b[0] - a[0]) * half
        tan = np.tan(a[5]) if a[5] is not None else np.tan(a[4]) + .25 * (a[1] - b[1]) / L
        f = min(max((eta - a[0]) / (b[0] - a[0]), 0.), 1.)
        if eta <= b[0] or b is P[-1]:
            side = s + f * L * np.tan(a[3])
            span = eta * half
            o = w.origin[0]
            yz = (o[1] + side, o[2] + span) if w.vertical else (o[1] + span, o[2] + side)
            return (o[0] + x + f * L * tan, yz[0], yz[1], a[1] + f * (b[1] - a[1]), (a[2] + f * (b[2] - a[2])) / RAD)
        x, s = x + L * tan, s + L * np.tan(a[3])


def section_eta(w, s):
    half = w.spans.projected * (.5 if w.symmetric else 1.)
    return ((s['z'] - w.origin[0][2]) if w.vertical else (s['y'] - w.origin[0][1])) / half


def compare_wing(ctx, w, surf, lab):
    """the surface of the AVL file is the wing"""
    ctx.ev()
    S = surf['sections']
    E = [section_eta(w, s) for s in S]
    if not ctx.check(len(S) >= 2 and abs(E[0]) < 1e-4 and abs(E[-1] - 1) < 1e-4 and all(b > a - 1e-9 for a, b in zip(E, E[1:])), 'wing:span', '%s: the sections lie at span fractions %s' % (lab, [round(e, 4) for e in E])):
        return
    ctx.check((surf['ydup'] is not None) == bool(w.symmetric), 'wing:ydup', '%s: duplicated %s, the wing is symmetric %s' % (lab, surf['ydup'], w.symmetric))
    brk = sorted({0., 1.} | {float(g.percent_span_location) for g in w.Segments.values()})
    for b in brk:
        ctx.check(any(abs(e - b) < 1e-4 for e in E), 'wing:break', '%s: no section at the break %g: %s' % (lab, b, [round(e, 4) for e in E]))
    for eta in sorted(set(brk) | {.07, .2, .33, .44, .6, .73, .9, .97}):
        j = max(i for i in range(len(S) - 1) if E[i] <= eta + 1e-9 and E[i + 1] > E[i] + 1e-9) if eta > 0 else 0
        f = (eta - E[j]) / (E[j + 1] - E[j]) if E[j + 1] > E[j] else 0.
        got = [S[j][q] + f * (S[j + 1][q] - S[j][q]) for q in ('x', 'y', 'z', 'chord', 'ainc')]
        want = shape(w, eta)
        for q, a, b in zip(('x', 'y', 'z', 'chord', 'twist'), got, want):
            ctx.check(abs(a - b) < 4e-4, 'wing:' + q, '%s: %s at span fraction %g is %.5f, the wing has %.5f' % (lab, q, eta, a, b))
    spans = sorted(set(brk) | {float(e) for c in w.control_surfaces for e in (c.span_fraction_start, c.span_fraction_end)})
    for a, b in zip(spans, spans[1:]):
        eta = .5 * (a + b)
        j = max(i for i in range(len(S) - 1) if E[i] <= eta)
        L, U = ({c['name']: c for c in S[i]['controls']} for i in (j, j + 1))
        have = {n for n in L if n in U}
        want = {c.tag: c for c in w.control_surfaces if c.span_fraction_start < eta < c.span_fraction_end}
        ctx.check(have == set(want), 'wing:controls', '%s: at span fraction %g AVL has the surfaces %s, the wing %s' % (lab, eta, sorted(have), sorted(want)))
        for n in have & set(want):
            c = want[n]
            hinge = -c.chord_fraction if isinstance(c, CS.Slat) else 1 - c.chord_fraction
            k = [q for q in KIND if type(c) is getattr(CS, KIND[q][0])][0]
            for d in (L[n], U[n]):
                ctx.check(abs(d['xhinge'] - hinge) < 1e-9 and d['sgn'] == (-1 if k == 'aileron' else 1) and d['gain'] == KIND[k][1], 'wing:hinge', '%s: %s hinge %g, sign %g, gain %g' % (lab, n, d['xhinge'], d['sgn'], d['gain']))
    for g, i in zip(w.Segments.values(), range(9)):
        if g.Airfoil:
            a = list(g.Airfoil.values())[0]
            for s, e in zip(S, E):
                if abs(e - g.percent_span_location) < 1e-4:
                    nm = (s['naca'] == a.naca_airfoil) if a.get("naca_airfoil") is not None else (s['afile'] or '').split('.')[0] == 'foil%d' % i
                    ctx.check(nm, 'wing:airfoil', '%s: section of segment %d has airfoil %s %s' % (lab, i, s['afile'], s['naca']))
    if not len(w.Segments) and w.Airfoil:
        a = list(w.Airfoil.values())[0]
        for s in S:
            nm = (s['naca'] == a.naca_airfoil) if a.get("naca_airfoil") is not None else (s['afile'] or '').split('.')[0] == 'foil0'
            ctx.check(nm, 'wing:airfoil', '%s: section has airfoil %s %s' % (lab, s['afile'], s['naca']))


class Obj:
    pass


def write(v, trim=False):
    """the geometry file of a vehicle, parsed"""
    o = SUAVE.Analyses.Aerodynamics.AVL_Inviscid() if hasattr(SUAVE.Analyses.Aerodynamics, 'AVL_Inviscid') else None
    if o is None:
        from SUAVE.Analyses.Aerodynamics.AVL_Inviscid import AVL_Inviscid
        o = AVL_Inviscid()
    o.geometry = v
    o.settings.filenames.features = 'g.avl'
    os.makedirs('avl_files', exist_ok=True)
    os.chdir('avl_files')
    try:
        write_geometry(o, '.')
        F['LOG']['errors'] = []
        g = F['geometry']('g.avl')
        return g, list(F['LOG']['errors'])
    finally:
        os.chdir('..')


FR = (0., .1, .2, .35, .55, .8, 1.)


def r_wing(ctx, n, vertical, k):
    pairs = [p for p in itertools.combinations(FR, 2) if p[0] > 0 or k != 2]
    kinds = ('rudder', 'flap', 'slat') if vertical else ('flap', 'aileron', 'slat')
    j = 0
    for dih in ((0., -12., 15.) if vertical else (0., -6., 5.)):
        for le in (0, 1):
            for sym in ((True, False) if k == 0 else (not vertical,)):
                for af in ((None, 'naca', 'file', 'abs') if k == 0 else (None,)):
                    sets = [()] + [(p,) for p in pairs] if k == 0 else ([(p, q) for p in pairs for q in pairs] if k == 1 else [(p, q, r) for p in pairs[::2] for q in pairs[1::3] for r in pairs[::4]])
                    if k == 0 and af:
                        sets = sets[::5]
                    if k == 1:
                        sets = sets[::3 if dih == -12 or dih == 5 else 2]
                    for cs in sets:
                        j += 1
                        w = make_wing(n, vertical, dih, le, sym, af, 'vertical_stabilizer' if vertical else 'main_wing')
                        if k == 2 and cs:
                            w.origin = [[4., .5, -1.]]
                        order = list(enumerate(cs))
                        if j % 2:
                            order.reverse()
                        for i, p in order:
                            w.append_control_surface(control(kinds[i], p[0], p[1], 2., cf=.2 + .05 * i))
                        lab = '%s segments, %s, dihedral %g, leading edge %d, symmetric %s, airfoil %s, controls %s' % (n, 'vertical' if vertical else 'wing', dih, le, sym, af, cs)
                        ctx.state(lab)
                        ws = [w] if not vertical else [make_wing(2, 0, 2., 1, True, None), w]
                        v = vehicle(ws, fus=False)
                        try:
                            g, err = write(config(v))
                        except Exception as e:
                            ctx.check(False, 'wing:raises', '%s: %s: %s' % (lab, type(e).__name__, e))
                            continue
                        ctx.check(not err, 'wing:deck', '%s: AVL would complain: %s' % (lab, err[:2]))
                        ctx.check([s['name'] for s in g['surfaces']] == [x.tag for x in ws], 'wing:names', '%s: surfaces %s' % (lab, [s['name'] for s in g['surfaces']]))
                        for s, x in zip(g['surfaces'], ws):
                            compare_wing(ctx, x, s, lab)
    ctx.step(j)


def r_body(ctx, k):
    for L, nose, tail, w, h, fn, ft, o in itertools.product((20., 35.), (4., 7.), (5., 9.), (2., 3.8), (2.4, 4.2), (1., 1.57, 2.5, 8.), (1.2, 3.), ((1., 0., -.5), (-2., .75, 1.))):
        v = vehicle([make_wing(2, 0, 2., 1, True, None)])
        f = list(v.fuselages.values())[0]
        f.lengths.total, f.lengths.nose, f.lengths.tail, f.width, f.heights.maximum, f.fineness.nose, f.fineness.tail = L, nose, tail, w, h, fn, ft
        f.origin = [list(o)]
        g, err = write(config(v))
        ctx.state((L, nose, tail, w, h, fn, ft, o))
        ctx.check(not err, 'body:deck', 'AVL would complain: %s' % err[:2])
        b = g['surfaces'][1:]
        if not ctx.check(len(b) == 2, 'body:parts', 'the fuselage has %d surfaces' % len(b)):
            continue
        for s, ax, half in ((b[0], 'y', w / 2), (b[1], 'z', h / 2)):
            S = s['sections']
            c0 = dict(y=o[1], z=o[2])
            p = np.array([q[ax] - c0[ax] for q in S])
            oth = 'z' if ax == 'y' else 'y'
            ctx.ev()
            ctx.check(abs(p[0] + half) < 1e-4 and abs(p[-1] - half) < 1e-4 and np.all(np.diff(p) > 0), 'body:width', 'fuselage section positions %s, half width %g' % (p, half))
            ctx.check(all(abs(q[oth] - c0[oth]) < 1e-4 for q in S), 'body:plane', 'the %s plane of the fuselage is not flat' % ax)
            x0, x1 = np.array([q['x'] for q in S]) - o[0], np.array([q['x'] + q['chord'] for q in S]) - o[0]
            m = int(np.argmin(abs(p)))
            ctx.check(abs(x0[m]) < 2e-4 and abs(x1[m] - L) < 3e-4, 'body:length', 'the centre of the fuselage goes from %g to %g, its length is %g' % (x0[m], x1[m], L))
            ctx.check(abs(x0[0] - nose) < 2e-4 and abs(x0[-1] - nose) < 2e-4 and abs(x1[0] - (L - tail)) < 3e-4 and abs(x1[-1] - (L - tail)) < 3e-4, 'body:cabin', 'the sides of the fuselage go from %g to %g, the cabin from %g to %g' % (x0[0], x1[0], nose, L - tail))
            V1, V2 = [2, 1.5, 1.2, 1], [1, 1.57, 3.2, 8]
            for fin, ln, xx in ((fn, nose, nose - x0), (ft, tail, x1 - (L - tail))):
                e = np.interp(fin, V2, V1) if 1 <= fin <= 8 else None
                want = ln * (1 - np.minimum(abs(p / half), 1) ** e) ** (1 / e)
                ctx.check(np.allclose(xx, want, atol=2e-3), 'body:curve', 'fuselage contour %s, expected %s' % (xx, want))


def r_airfoil(ctx, k):
    for t in (.06, .1, .16, .22):
        for folder in ('', 'af2'):
            nm = 'foil%d' % round(100 * t)
            rel = airfoil_file(nm, t)
            for path in (rel, os.path.abspath(rel)):
                os.makedirs('avl_files', exist_ok=True)
                ref = import_airfoil_geometry(rel)
                os.chdir('avl_files')
                try:
                    # the file is named relative to the folder that holds the folder of the run
                    out = write_avl_airfoil_file(path)
                    P = np.array([[float(x) for x in l.split()] for l in open(out).read().split('\n')[1:] if l.strip()])
                finally:
                    if os.path.basename(os.getcwd()) == 'avl_files':
                        os.chdir('..')
                ctx.state((t, folder, os.path.isabs(path)))
                ctx.ev()
                Q = np.c_[ref.x_coordinates, ref.y_coordinates]
                ctx.check(np.allclose(P[0], Q[0], atol=2e-7) and np.allclose(P[-1], Q[-1], atol=2e-7), 'foil:ends', 'the airfoil file goes from %s to %s, the airfoil from %s to %s' % (P[0], P[-1], Q[0], Q[-1]))
                ctx.check(abs(P[:, 0].min() - Q[:, 0].min()) < 1e-6, 'foil:nose', 'the airfoil file starts at x = %g, the airfoil at %g' % (P[:, 0].min(), Q[:, 0].min()))
                for q in Q:
                    d = min(dist(q, a, b) for a, b in zip(P, P[1:]))
                    if not ctx.check(d < 1e-5, 'foil:contour', 'point %s of the airfoil is %g away from the contour in the file' % (q, d)):
                        break


def dist(q, a, b):
    u = b - a
    f = min(max(np.dot(q - a, u) / max(np.dot(u, u), 1e-300), 0), 1)
    return float(np.hypot(*(q - a - f * u)))


# ---------------------------------------------------------------- layout of the model against the real program
def mask(l):
    import re
    return re.sub(r'[0-9]', '9', re.sub(r'-(?=[0-9])', ' ', l)).rstrip().replace(' ', '')


def r_layout(ctx, k):
    """the files of the model have the layout of files of the real program: the same lines, the same text, the same columns"""
    import re
    Gm = F['geometry'](os.path.join(HERE, 'sample.avl'))
    F['LOG']['errors'] = []
    for nm, f in (('st', 'st'), ('sb', 'sb'), ('fn', 'fn'), ('fs', 'fs')):
        real = open(os.path.join(HERE, 'sample_%s.txt' % nm)).read().split('\n')
        cur = dict(name='case_0001_0002', con={v: [v, 0.] for v in F['VARS'] + Gm['controls']}, par=dict(Mach=.05))
        fake = F[f](Gm, Gm['controls'], cur, 'k', {}).split('\n')
        ctx.state(nm)
        while real and not real[-1].strip():
            real.pop()
        while fake and not fake[-1].strip():
            fake.pop()
        assert len(real) == len(fake), 'layout of %s: %d lines, the real file has %d' % (nm, len(fake), len(real))
        for i, (a, b) in enumerate(zip(real, fake)):
            ctx.ev()
            # columns of the decimal points and the text between numbers
            pa, pb = [m.start() for m in re.finditer(r'\.', a)], [m.start() for m in re.finditer(r'\.', b)]
            ta, tb = re.sub(r'[-0-9.E+ ]', '', a), re.sub(r'[-0-9.E+ ]', '', b)
            g = 'ref' in a
            assert ta == tb and (g or pa == pb), 'layout of %s line %d: %r, the real file has %r' % (nm, i, b, a)


# ---------------------------------------------------------------- runs through the model of the executable
def tool():
    """a copy of the model of AVL, its log beside it"""
    os.makedirs('bin', exist_ok=True)
    p = os.path.abspath('bin/avl')
    if not os.path.exists(p):
        shutil.copy(FAKE, p)
        os.chmod(p, 0o755)
    return p


def analysis(v, stability=False):
    if stability:
        a = SUAVE.Analyses.Stability.AVL()
    else:
        from SUAVE.Analyses.Aerodynamics.AVL_Inviscid import AVL_Inviscid
        a = AVL_Inviscid()
    a.geometry = v
    a.settings.filenames.avl_bin_name = tool()
    a.settings.number_spanwise_vortices = 6
    a.settings.number_chordwise_vortices = 4
    return a


def take_log():
    p = 'bin/avl_log.jsonl'
    if not os.path.exists(p):
        return []
    out = [json.loads(l) for l in open(p)]
    os.remove(p)
    return out


def plane(kind):
    if kind == 0:
        return vehicle([make_wing(2, 0, 2., 1, True, None)], fus=False)
    w = make_wing(3, 0, 2., 1, True, None)
    t = make_wing(0, 0, 3., 0, True, None, 'horizontal_stabilizer', (30., 0., 2.))
    f = make_wing(2, 1, 0., 1, False, None, 'vertical_stabilizer', (29., 0., 2.))
    if kind == 1:
        t.append_control_surface(control('elevator', .1, .9, 3.))
        return vehicle([w, t, f])
    if kind == 2:
        # the surfaces are not in the order of the span
        w.append_control_surface(control('aileron', .6, .95, 2.))
        w.append_control_surface(control('flap', .1, .5, 20., tag='inboard_fl'))
        t.append_control_surface(control('elevator', .1, .9, -3.5))
        return vehicle([w, t, f])
    w.append_control_surface(control('slat', .1, .9, 12.))
    w.append_control_surface(control('flap', .1, .5, 20.))
    w.append_control_surface(control('aileron', .7, 1., -1.5))
    t.append_control_surface(control('elevator', 0., 1., 4.))
    f.append_control_surface(control('rudder', .2, .8, 6.))
    return vehicle([f, w, t])


def conditions(mach, alphas, beta=0., pb=0., qc=0., CL=None):
    from SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics import Aerodynamics
    c = Aerodynamics()
    c.freestream.density, c.freestream.gravity, c.freestream.speed_of_sound = .9093, 9.77, 324.6
    c.freestream.mach_number = mach
    c.freestream.velocity = mach * 324.6
    a = c.aerodynamics
    a.side_slip_angle, a.roll_rate_coefficient, a.pitch_rate_coefficient, a.lift_coefficient = beta * RAD, pb, qc, CL
    a.angle_of_attack = np.array(alphas) * RAD
    return c


def evaluate(ctx, a, c, trim, lab):
    try:
        r = a.evaluate_conditions(c, trim)
    except Exception as e:
        import traceback
        log = take_log()
        ctx.check(False, 'case:raises', '%s: %s: %s, AVL errors %s' % (lab, type(e).__name__, e, [l['errors'] for l in log][:1]), tb=traceback.format_exc()[-1500:])
        return None, None
    log = take_log()
    if not ctx.check(len(log) == 1, 'case:runs', '%s: AVL ran %d times' % (lab, len(log))):
        return r, None
    ctx.check(not log[0]['errors'], 'case:deck', '%s: AVL complains: %s' % (lab, log[0]['errors'][:3]))
    return r, log[0]


def check_state(ctx, log, v, mach, alphas, beta, pb, qc, CL, trim, lab):
    """AVL was run at the flight state that was asked for"""
    C = log['cases']
    if not ctx.check(len(C) == len(alphas), 'case:count', '%s: %d cases were run for %d angles of attack' % (lab, len(C), len(alphas))):
        return
    cs = [c for w in v.wings for c in w.control_surfaces]
    for c, al in zip(C, alphas):
        ctx.ev()
        k, x = c['con']['alpha']
        if CL is None:
            ctx.check(k == 'alpha' and abs(x - al) < 6e-5, 'case:alpha', '%s: the angle of attack is set by %s = %g, wanted %g degrees' % (lab, k, x, al))
        else:
            ctx.check(k == 'CL' and abs(x - CL) < 6e-5, 'case:CL', '%s: the angle of attack is set by %s = %g, wanted lift coefficient %g' % (lab, k, x, CL))
        for nm, want, q in (('beta', beta, 'beta'), ('pb/2V', pb, 'roll'), ('qc/2V', qc, 'pitch'), ('rb/2V', 0., 'yaw')):
            k, x = c['con'][nm]
            ctx.check(k == nm and abs(x - want) < 6e-5, 'case:' + q, '%s: %s is %s = %g, wanted %g' % (lab, nm, k, x, want))
        P = c['par']
        for nm, want in (('Mach', mach), ('velocity', mach * 324.6), ('density', .9093), ('grav.acc.', 9.77), ('X_cg', 15.25), ('Y_cg', .125), ('Z_cg', -.48024)):
            ctx.check(nm in P and abs(P[nm] - want) < 6e-5, 'case:par:' + nm, '%s: %s is %s, wanted %g' % (lab, nm, P.get(nm), want))
        for d in cs:
            k, x = c['con'].get(d.tag, ('missing', 0.))
            if not trim:
                ctx.check(k == d.tag and abs(x - d.deflection / RAD) < 6e-5, 'case:deflection', '%s: control %s is set by %s = %g, its deflection is %g' % (lab, d.tag, k, x, d.deflection / RAD))
            else:
                want = dict(aileron='Cl roll mom', elevator='Cm pitchmom', rudder='Cn yaw  mom').get(d.tag)
                if want:
                    ctx.check(k == want and x == 0, 'case:trim', '%s: %s is set by %s = %g, wanted %s' % (lab, d.tag, k, x, want))


def check_results(ctx, r, log, n_sw, lab):
    """every result is the number AVL wrote for that quantity"""
    C = log['cases']
    g = log['geometry']
    ad, sd = r.aerodynamics, r.stability.static
    M = dict(S_ref=(r, 'Sref'), c_ref=(r, 'Cref'), b_ref=(r, 'Bref'), X_ref=(r, 'Xref'), Y_ref=(r, 'Yref'), Z_ref=(r, 'Zref'))
    for q, n in dict(CX='CXtot', CY='CYtot', CZ='CZtot', Cltot='Cltot', Cmtot='Cmtot', Cntot='Cntot', roll_moment_coefficient='Cltot', pitch_moment_coefficient='Cmtot', yaw_moment_coefficient='Cntot', lift_coefficient='CLtot',
                     oswald_efficiency='e', AoA='Alpha', drag_coefficient='CDtot').items():
        M['aero.' + q] = (ad, n)
    for q in [a + '_' + b for a in ('CL', 'CY', 'Cl', 'Cm', 'Cn') for b in ('alpha', 'beta')]:
        M['stab.' + q] = (sd, 's' + q.split('_')[0] + q.split('_')[1][0])
    M['stab.CL_p'], M['stab.CL_q'], M['stab.CL_r'] = (sd, 'sCLp'), (sd, 'sCLq'), (sd, 'sCLr')
    for q in [a + '_' + b for a in ('CX', 'CY', 'CZ', 'Cl', 'Cm', 'Cn') for b in 'uvwpqr']:
        M['stab.' + q] = (sd, 'b' + q.replace('_', ''))
    M['stab.neutral_point'], M['stab.spiral_criteria'] = (sd, 'Xnp'), (sd, 'spiral')
    for q, (o, n) in M.items():
        got = o.get(q.split('.')[-1])
        want = [c['out'][n] for c in C]
        ctx.ev()
        ok = got is not None and np.shape(got) == (len(C), 1) and np.allclose(np.ravel(got), want, rtol=0, atol=1e-9)
        ctx.check(ok, 'res:' + q, '%s: %s is %s, AVL wrote %s' % (lab, q, None if got is None else np.ravel(got)[:3], want[:3]))
    want = [c['out']['CDind'] for c in C]
    ctx.check(np.allclose(np.ravel(ad.drag_breakdown.induced.total), want), 'res:CDind', '%s: induced drag %s, AVL wrote %s' % (lab, np.ravel(ad.drag_breakdown.induced.total)[:3], want[:3]))
    want = [c['out']['e'] for c in C]
    ctx.check(np.allclose(np.ravel(ad.drag_breakdown.induced.efficiency_factor), want), 'res:e', '%s: span efficiency %s, AVL wrote %s' % (lab, np.ravel(ad.drag_breakdown.induced.efficiency_factor)[:3], want[:3]))
    nw = sum(1 + (s['ydup'] is not None) for s in g['surfaces'] if not s['name'].startswith('fuselage'))
    for q, n in dict(wing_areas='area', wing_CLs='cl', wing_CDs='cd').items():
        want = [[c['out']['%s%d' % (n, i)] for i in range(nw)] for c in C]
        ctx.check(np.shape(ad[q]) == np.shape(want) and np.allclose(ad[q], want, atol=1e-9), 'res:' + q, '%s: %s is %s, AVL wrote %s' % (lab, q, np.array(ad[q])[0], want[0]))
    for q, n in dict(wing_local_spans='yle', wing_section_chords='chord', wing_section_cls='cl', wing_section_induced_angle='ai', wing_section_cds='cd').items():
        want = [[[c['out']['strip%s%d_%d' % (n, i, j)] for j in range(n_sw)] for i in range(nw)] for c in C]
        ctx.check(np.shape(ad[q]) == np.shape(want) and np.allclose(ad[q], want, atol=1e-9), 'res:' + q, '%s: %s of AVL is %s, got %s' % (lab, q, np.array(want)[0, 0, :3], np.array(ad[q])[0, 0, :3]))
    D = g['controls']
    K = sd.control_surfaces_cases
    for c in C:
        if not ctx.check(c['tag'] in K, 'res:control', '%s: no control surface results of %s' % (lab, c['tag'])):
            continue
        got = list(K[c['tag']].control_surfaces.values())
        if not ctx.check([x.tag for x in got] == D, 'res:control', '%s: control surfaces %s, AVL has %s' % (lab, [x.tag for x in got], D)):
            continue
        for x in got:
            for q, n in (('CL', 'sCL'), ('CY', 'sCY'), ('Cl', 'sCl'), ('Cm', 'sCm'), ('Cn', 'sCn'), ('CDff', 'sCDff'), ('e', 'se')):
                ctx.check(abs(x[q] - c['out']['%s:%s' % (n, x.tag)]) < 1e-9, 'res:control:' + q, '%s: %s of %s is %g, AVL wrote %g' % (lab, q, x.tag, x[q], c['out']['%s:%s' % (n, x.tag)]))
            ctx.check(abs(x.deflection - c['out']['defl:' + x.tag]) < 1e-9, 'res:control:deflection', '%s: deflection of %s is %g, AVL wrote %g' % (lab, x.tag, x.deflection, c['out']['defl:' + x.tag]))


ALPHAS = ((2.,), (-2., 0., 2., 5.), (5., 1., -3.25, 1., 7.3333, 0., 10., 4., -1., 2., 11., 3.))
RATES = ((0., 0., 0.), (5., 0., 0.), (-3., .05, 0.), (0., 0., .0125), (2., -.02, .015), (0., .03, 0.))


def r_case(ctx, kind, k):
    v0 = plane(kind)
    for mach, al, (be, pb, qc) in itertools.product((.05, .85) if k == 0 else (.3,), ALPHAS, RATES):
        for CL, trim in ((None, False), (.5, False), (.5, True), (None, True)):
            if trim and CL is None:
                continue
            if (CL is not None) and len(al) > 1 and k != 1:
                continue
            v = copy.deepcopy(v0)
            c = config(v)
            a = analysis(c, stability=k == 2)
            if k == 1:
                # a configuration with its own deflections
                for w in c.wings:
                    for q in w.control_surfaces:
                        q.deflection *= -1.5
            lab = 'vehicle %d, Mach %g, alpha %s, beta %g, pb %g, qc %g, CL %s, trim %s' % (kind, mach, al[:3], be, pb, qc, CL, trim)
            ctx.state(lab)
            r, log = evaluate(ctx, a, conditions(mach, al, be, pb, qc, CL), trim, lab)
            ctx.trace()
            if log is None:
                continue
            check_state(ctx, log, c, mach, al, be, pb, qc, CL, trim, lab)
            check_results(ctx, r, log, 6, lab)
            g = log['geometry']
            ctx.check(np.allclose(g['ref'], [100., 4.2, 30.]) and np.allclose(g['xyz'], [15.25, .125, -.48024], atol=1e-9), 'case:refs', '%s: reference values %s, moment centre %s' % (lab, g['ref'], g['xyz']))
            ctx.check(all(s['nspan'] == 6 and s['nchord'] == 4 for s in g['surfaces'] if not s['name'].startswith('fuselage')), 'case:lattice', '%s: lattice %s' % (lab, [(s['nspan'], s['nchord']) for s in g['surfaces']]))
            for s, w in zip(g['surfaces'], c.wings.values()):
                compare_wing(ctx, w, s, lab)
            m = log.get('mass', {})
            ctx.check(len(m.get('row', [])) >= 7 and np.allclose(m['row'][:4], [70e3, 15.25, .125, -.48024]) and abs(m['g'] - 9.77) < 1e-9 and abs(m['rho'] - .9093) < 1e-9, 'case:mass', '%s: mass file %s' % (lab, m))
            ctx.check(not os.path.exists('avl_files'), 'case:files', '%s: the files of the run are still there' % lab)


def r_hist(ctx, k):
    """the results of an evaluation do not depend on the evaluations before, nor on the files they leave"""
    P = [(.3, (0., 2.), 0., 0., 0., None, False), (.85, (5.,), 4., .01, .02, None, False), (.05, (1., 3., -2.), 0., 0., 0., .4, True), (.3, (2., 0.), 0., 0., 0., None, False)]
    v0 = plane(3 if k else 2)
    for keep in (False, True):
        for h in itertools.product(range(len(P)), repeat=2 + (k == 2)):
            if k == 2 and len(set(h)) < 2:
                continue
            c = config(copy.deepcopy(v0))
            a = analysis(c, stability=k == 1)
            a.settings.keep_files = keep
            shutil.rmtree(os.path.abspath('avl_files'), ignore_errors=True)
            ctx.state((keep, h))
            old = []
            for i in h:
                mach, al, be, pb, qc, CL, trim = P[i]
                lab = 'evaluation %s of %s, files kept %s' % (i, h, keep)
                r, log = evaluate(ctx, a, conditions(mach, al, be, pb, qc, CL), trim, lab)
                ctx.step()
                if log is None:
                    break
                check_state(ctx, log, c, mach, al, be, pb, qc, CL, trim, lab)
                check_results(ctx, r, log, 6, lab)
                for r0, log0 in old:
                    check_results(ctx, r0, log0, 6, lab + ', earlier result')
                old.append((r, log))
                files = [f for q in log['cases'] for f in q['files']]
                if keep:
                    ctx.check(all(os.path.exists('avl_files/' + f) for f in files), 'hist:kept', '%s: files of the run are gone' % lab)
            if k == 0:
                # a new analysis in a folder where the files of another run lie
                b = analysis(c)
                mach, al, be, pb, qc, CL, trim = P[h[0]]
                lab = 'a new analysis after %s, files kept %s' % (h, keep)
                r, log = evaluate(ctx, b, conditions(mach, al, be, pb, qc, CL), trim, lab)
                if log is not None:
                    check_results(ctx, r, log, 6, lab)
            shutil.rmtree(os.path.abspath('avl_files'), ignore_errors=True)


def r_train(ctx, k):
    """the surrogates go through the values of AVL at the training points, with and without a stored training file"""
    for AL, MA in (((-2., 0., 2., 5., 7., 10.), (.05, .15, .25, .45, .65, .85)), ((-4., -1., 0., 3., 9.), (.1, .2, .4, .8)), ((0., 1., 2., 3.), (.1, .3, .5, .7, .9))):
        c = config(plane(1 if k else 3))
        lab = 'training grid %s x %s' % (AL, MA)
        for stab in (False, True):
            a = analysis(c, stab)
            a.training.angle_of_attack, a.training.Mach = np.array(AL) * RAD, np.array(MA)
            a.settings.side_slip_angle = (0., 3. * RAD)[k == 1]
            a.settings.save_regression_results = True
            a.sample_training()
            a.build_surrogate()
            log = take_log()
            cases = [q for l in log for q in l['cases']]
            ctx.check(len(cases) == len(AL) * len(MA), 'train:cases', '%s: %d cases' % (lab, len(cases)))
            for l in log:
                ctx.check(not l['errors'], 'train:deck', '%s: AVL complains: %s' % (lab, l['errors'][:2]))
            val = {(round(q['con']['alpha'][1], 3), round(q['par']['Mach'], 3)): q['out'] for q in cases}
            fn = '%s_%s_data.txt' % (c.tag, 'stability' if stab else 'aero')
            b = analysis(c, stab)
            b.training.angle_of_attack, b.training.Mach = np.array(AL) * RAD, np.array(MA)
            b.settings.side_slip_angle = a.settings.side_slip_angle
            b.training_file = os.path.abspath(fn)
            if ctx.check(os.path.exists(fn), 'train:file', '%s: the training file was not stored' % lab):
                b.sample_training()
                b.build_surrogate()
            take_log()
            pts = list(itertools.product(AL, MA))
            ctx.state((AL, stab))
            for o, nm in ((a, 'trained'), (b, 'read')):
                if o is b and not os.path.exists(fn):
                    continue
                st = SUAVE.Core.Data()
                st.conditions = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
                # as a mission asks: all points in one batch, in another order
                order = pts[::-1] if k == 2 else pts
                st.conditions.freestream.mach_number = np.array([[p[1]] for p in order])
                st.conditions.aerodynamics.angle_of_attack = np.array([[p[0] * RAD] for p in order])
                st.conditions.aerodynamics.lift_breakdown = SUAVE.Core.Data()
                st.conditions.aerodynamics.drag_breakdown = SUAVE.Core.Data()
                ctx.ev(n=len(order))
                if stab:
                    r = o(st.conditions)
                    got = dict(Cmtot=r.static.CM, sCma=r.static.Cm_alpha, sCnb=r.static.Cn_beta, Xnp=r.static.neutral_point)
                    margin = np.array([(val[p]['Xnp'] - 15.25) / 4.2 for p in order])
                    ctx.check(np.shape(r.static.static_margin) == (len(order), 1) and np.allclose(np.ravel(r.static.static_margin), margin, rtol=1e-6, atol=1e-6), 'train:margin', '%s, %s: static margin of shape %s, %s, expected %s' % (
                        lab, nm, np.shape(r.static.static_margin), np.ravel(r.static.static_margin)[:3], margin[:3]))
                else:
                    L = o.evaluate(st, None, c)
                    got = dict(CLtot=L, CDind=st.conditions.aerodynamics.drag_breakdown.induced.total, e=st.conditions.aerodynamics.drag_breakdown.induced.span_efficiency_factor)
                    ctx.check(np.allclose(st.conditions.aerodynamics.lift_coefficient, L) and np.allclose(st.conditions.aerodynamics.inviscid_drag_coefficient, got['CDind']), 'train:conditions', '%s: the conditions do not hold the results' % lab)
                    for w in c.wings.values():
                        ctx.check(np.allclose(st.conditions.aerodynamics.lift_breakdown.compressible_wings[w.tag], L * w.areas.reference / 100.), 'train:wings', '%s: lift of %s' % (lab, w.tag))
                for q, x in got.items():
                    want = np.array([val[p][q] for p in order])
                    ctx.check(np.shape(x) == (len(order), 1) and np.allclose(np.ravel(x), want, rtol=1e-6, atol=2e-8 + 1e-7 * np.abs(want).max()), 'train:' + q, '%s, %s: %s of the surrogate at its training points is %s, AVL wrote %s' % (
                        lab, nm, q, np.ravel(x)[:3], want[:3]))
            ctx.trace()


def r_mass(ctx, k):
    """the mass file is that of the vehicle, whichever of its masses is known"""
    for mass, mtow in ((0., 70e3), (65e3, 0.), (65e3, 70e3), (0., 0.)):
        for I in (np.zeros((3, 3)), np.diag([1e6, 2e6, 4e6])):
            v = vehicle([make_wing(2, 0, 2., 1, True, None)], False, mass, mtow)
            v.mass_properties.moments_of_inertia.tensor = I
            c = config(v)
            o = analysis(c)
            o.settings.filenames.mass_file = 'm.mass'
            rc = SUAVE.Core.Data()
            rc.freestream = SUAVE.Core.Data()
            rc.freestream.density, rc.freestream.gravity = .7, 9.7
            ctx.state((mass, mtow, I[0, 0]))
            ctx.ev()
            try:
                write_mass_file(o, rc)
            except AttributeError as e:
                ctx.check(mass == mtow == 0, 'mass:raises', 'no mass file for mass %g and maximum take-off mass %g: %s' % (mass, mtow, e))
                continue
            m = F['mass']('m.mass')
            if not ctx.check(mass or mtow, 'mass:none', 'a mass file for a vehicle without mass: %s' % m):
                continue
            ctx.check(np.allclose(m['row'], [mass or mtow, 15.25, .125, -.48024, I[0, 0], I[1, 1], I[2, 2]]), 'mass:row', 'mass %g, take-off mass %g: mass file %s' % (mass, mtow, m['row']))
            ctx.check(m['g'] == 9.7 and m['rho'] == .7, 'mass:air', 'gravity %g, density %g' % (m['g'], m['rho']))
