"""An airfoil is the same airfoil in every file format, and everything derived from it describes that shape."""
import contextlib, copy, io, itertools, math, os, warnings
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('every four digit code of a grid of camber x position x thickness x every number of points 8..41 and three spacings; every airfoil of that family written in every supported file layout (two formats x title x '
          'separators x blanks x line ends x number style) with equal and unequal stations, and every mirrored, stretched and blended airfoil; every order of 3 (thorough 4) polar files and every listing order of their angles; '
          'extended polars of a family of polars on every angle of the sweep; every pair of airfoils blended into 3..6')
ASSUMPTIONS = ['the oracle airfoil is the published closed form, evaluated independently', 'resampling by splines is compared within a tolerance that shrinks with the file spacing']
MIN = {'evals': 8000}
TIME_LIMIT = 300


def scenarios(tier):
    T = tier == 'thorough'
    out = [['naca', m, p] for m in (0, 1, 2, 4, 6) for p in ((0,) if m == 0 else (2, 3, 4, 6))]
    out += [['format', i, st] for i in range(len(FOILS)) for st in range(3)]
    out += [['sym', i] for i in range(len(FOILS))] + [['blend', i, j] for i in range(len(FOILS)) for j in range(len(FOILS)) if T or (i + 2 * j) % 3 == 0]
    out += [['polar', k] for k in range(4)] + [['extend', k] for k in range(len(POLARS))] + [['dat', i] for i in range(len(FOILS))]
    out += [['mesh', i] for i in range(len(FOILS))] + [['props', k] for k in ((0, 1, 2) if T else (0, 1))]
    return out


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    base = 'SUAVE.Methods.Geometry.Two_Dimensional.Cross_Section.Airfoil.'
    for n in ('compute_naca_4series', 'import_airfoil_geometry', 'import_airfoil_dat', 'import_airfoil_polars', 'convert_airfoil_to_meshgrid', 'generate_interpolated_airfoils', 'compute_airfoil_properties'):
        m = __import__(base + n, fromlist=['x'])
        globals()['M_' + n] = m
        globals()[n] = getattr(m, n)
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


# ------------------------------------------------------------------ oracle
def half(x, t):
    return 5 * t * (.2969 * np.sqrt(x) - .126 * x - .3516 * x ** 2 + .2843 * x ** 3 - .1015 * x ** 4)


def mean(x, m, p):
    if m == 0:
        return 0 * x
    return np.where(x < p, m / p ** 2 * (2 * p * x - x ** 2), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x ** 2))


def surf(foil, x):
    m, p, t = foil
    return mean(x, m, p) + half(x, t), mean(x, m, p) - half(x, t)


FOILS = ((0., .4, .12), (.04, .4, .12), (.02, .4, .1), (.06, .3, .15), (.02, .6, .06), (0., .4, .18))


def r_naca(ctx, m, p):
    for t in (4, 6, 9, 10, 12, 15, 21):
        code = '%d%d%02d' % (m, p, t)
        foil = (m / 100., p / 10. if p else .4, t / 100.)
        for n in range(8, 42):
            for te in (None, 1.5, 1., 2.):
                g = compute_naca_4series(code, n) if te == 1.5 else compute_naca_4series(code, n, te)
                what = '%s with %d points' % (code, n)
                ctx.state((code, n, te))
                ctx.step()
                ctx.check(len(g.x_coordinates) == n and len(g.y_coordinates) == n, 'naca:count', '%s has %d' % (what, len(g.x_coordinates)))
                for x, y, k in ((g.x_upper_surface, g.y_upper_surface, 0), (g.x_lower_surface, g.y_lower_surface, 1)):
                    ctx.check(len(x) == len(y) and x[0] == 0. and abs(x[-1] - 1) < 1e-14 and np.all(np.diff(x) > 0), 'naca:stations', '%s stations of a surface' % what)
                    ctx.close(y, surf(foil, x)[k], 'naca:surface', 'surface %d of %s' % (k, what), rtol=1e-9, atol=1e-12)
                le = int(np.argmin(g.x_coordinates))
                ctx.check(le == len(g.x_lower_surface) - 1 and np.array_equal(g.x_coordinates[:le + 1][::-1], g.x_lower_surface) and np.array_equal(g.x_coordinates[le:], g.x_upper_surface), 'naca:loop', 'loop of %s from the lower trailing edge round' % what)
                ctx.close(np.r_[g.y_lower_surface[::-1], g.y_upper_surface[1:]], g.y_coordinates, 'naca:loopy', 'loop heights of %s' % what, rtol=0, atol=1e-15)
                ctx.close(g.thickness_to_chord, foil[2], 'naca:tc', 'thickness of %s' % what)
                ctx.close(g.max_thickness, foil[2], 'naca:t', 'thickness of %s' % what)
                if te is None:
                    ctx.close(g.x_upper_surface, np.linspace(0, 1, len(g.x_upper_surface)), 'naca:even', 'even spacing')
        ctx.trace()


# ------------------------------------------------------------------ files
def stations(k, n=41):
    s = np.linspace(0, 1, n)
    if k == 0:
        return .5 * (1 - np.cos(np.pi * s)), .5 * (1 - np.cos(np.pi * s))
    if k == 1:
        return .5 * (1 - np.cos(np.pi * s)), s ** 2.2
    return 1 - np.cos(np.pi / 2 * s), .5 * (1 - np.cos(np.pi * np.linspace(0, 1, n - 6)))


FMT = {'plain': lambda v: '%.7f' % v, 'sci': lambda v: '%.8e' % v, 'short': lambda v: ('%.7f' % v).replace('0.', '.', 1) if abs(v) < 1 and v != 0 else '%.7f' % v}


def layouts():
    for fmt in FMT:
        for lead in ('', '  '):
            for sep in (' ', '   ', ', ', ','):
                for eol in ('\n', '\r\n'):
                    for title in ('My airfoil', '23012 airfoil', None, 'E63  (4.25%)', '1 foil'):
                        for tail in ('', '\n', '\n\n'):
                            for kind in ('selig', 'lednicer'):
                                if kind == 'lednicer' and (title is None or ',' in sep):
                                    continue
                                yield kind, fmt, lead, sep, eol, title, tail


def text(foil, xs, lay):
    kind, fmt, lead, sep, eol, title, tail = lay
    f = FMT[fmt]
    xu, xl = xs
    yu, yl = surf(foil, xu)[0], surf(foil, xl)[1]
    row = lambda x, y: lead + f(x) + sep + f(y)
    L = [] if title is None else [title]
    if kind == 'lednicer':
        L += [lead + '%d.%s%d.' % (len(xu), sep, len(xl)), ''] + [row(*q) for q in zip(xu, yu)] + [''] + [row(*q) for q in zip(xl, yl)]
    else:
        L += [row(*q) for q in zip(xu[::-1], yu[::-1])] + [row(*q) for q in zip(xl[1:], yl[1:])]
    return (eol.join(L) + eol + tail).encode()


def put(ctx, name, data):
    p = os.path.join(ctx.scratch(), name)
    with open(p, 'wb') as h:
        h.write(data)
    return p


NUM = ('thickness_to_chord', 'max_thickness', 'x_coordinates', 'y_coordinates', 'x_upper_surface', 'x_lower_surface', 'y_upper_surface', 'y_lower_surface', 'camber_coordinates')


def truth(ctx, key, g, foil, xs, npts, what, tol=2e-3, sgn=1):
    ctx.check(len(g.x_coordinates) == npts and len(g.y_coordinates) == npts, key + ':count', '%s has %d of %d points' % (what, len(g.x_coordinates), npts))
    ctx.check(all(len(g[k]) == npts // 2 for k in ('x_upper_surface', 'x_lower_surface', 'y_upper_surface', 'y_lower_surface', 'camber_coordinates')), key + ':half', 'points per surface of ' + what)
    for s, k in (('upper', 0), ('lower', 1)):
        x, y = g['x_%s_surface' % s], g['y_%s_surface' % s]
        ctx.check(abs(x[0]) < 1e-9 and abs(x[-1] - 1) < 1e-9 and np.all(np.diff(x) > -1e-9), key + ':run', '%s surface of %s runs from the leading to the trailing edge' % (s, what))
        ref = surf(foil, np.clip(x, 0, 1))[k if sgn > 0 else 1 - k] * sgn
        front = x < .02  # steep nose
        ctx.close(y[~front], ref[~front], key + ':' + s, '%s surface of %s' % (s, what), rtol=0, atol=tol)
        if front.any():
            ctx.close(y[front], ref[front], key + ':nose:' + s, '%s nose of %s' % (s, what), rtol=0, atol=4 * tol)
    x, y = g.x_coordinates, g.y_coordinates
    le = int(np.argmin(x))
    ctx.check(x[0] == 1. and x[-1] == 1. and x.min() == 0. and np.all(np.diff(x[:le + 1]) < 1e-9) and np.all(np.diff(x[le:]) > -1e-9), key + ':loop', 'loop of ' + what)
    ctx.check(y[le] == 0., key + ':origin', 'the loop of %s starts at its nose' % what)
    dy = np.concatenate([b[a > .02] - (surf(foil, np.clip(a, 0, 1))[k if sgn > 0 else 1 - k] * sgn)[a > .02] for a, b, k in ((x[:le + 1], y[:le + 1], 1), (x[le:], y[le:], 0))])
    ctx.check(dy.max() - dy.min() < 2 * tol and abs(dy.mean()) < 5e-3, key + ':loopy', 'loop heights of %s are off by %g..%g' % (what, dy.min(), dy.max()))
    same = len(xs[0]) == len(xs[1]) and np.allclose(xs[0], xs[1])
    if same:
        ctx.close(g.thickness_to_chord, foil[2], key + ':tc', 'thickness of ' + what, rtol=6e-3)
        xx = .5 * (g.x_upper_surface + g.x_lower_surface)
        ctx.close(g.camber_coordinates[4:], mean(xx, *foil[:2])[4:] * sgn, key + ':camber', 'camber line of ' + what, rtol=0, atol=tol)
    elif abs(g.thickness_to_chord - foil[2]) > 6e-3 * foil[2]:
        # listed finding: heights subtracted at different stations
        u = np.max(g.y_upper_surface - g.y_lower_surface) / (x.max() - x.min())
        if abs(g.thickness_to_chord - u) < 1e-12:
            ctx.fail('stations:thickness', 'thickness %g of an airfoil of %g whose surfaces have different stations' % (g.thickness_to_chord, foil[2]))
        else:
            ctx.close(g.thickness_to_chord, foil[2], key + ':tc2', 'thickness of ' + what, rtol=6e-3)
    ctx.close(g.max_thickness, g.thickness_to_chord, key + ':unit', 'thickness of the unit chord', rtol=1e-9)


def r_format(ctx, i, st):
    foil = FOILS[i]
    xs = stations(st)
    base = {}
    for npts in (200, 41, 60):
        for n, lay in enumerate(layouts()):
            if npts != 200 and n % 7:
                continue
            p = put(ctx, 'f.txt', text(foil, xs, lay))
            g = import_airfoil_geometry(p, npts) if npts != 200 else import_airfoil_geometry(p)
            ctx.state((i, st, npts, lay))
            ctx.step()
            ctx.trace()
            if npts not in base:
                base[npts] = g
                truth(ctx, 'file', g, foil, xs, npts, 'airfoil %s' % (foil,))
                h = import_airfoil_geometry(p, npts)
                ctx.check(all(np.array_equal(g[k], h[k]) for k in NUM), 'file:again', 'read twice')
            for k in NUM:
                a, b = np.asarray(g[k]), np.asarray(base[npts][k])
                ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-9 if lay[1] != 'sci' else 6e-3 if k == 'y_coordinates' else 2e-5), 'file:layout:' + k, '%s of %s differs between layouts, here %s' % (k, foil, lay))
    # other interpolation of the surfaces: same shape
    p = put(ctx, 'f.txt', text(foil, xs, next(layouts())))
    for kind in ('linear', 'quadratic', 'cubic'):
        truth(ctx, 'kind', import_airfoil_geometry(p, 120, kind), foil, xs, 120, '%s by %s interpolation' % (foil, kind), tol=4e-3)
        ctx.ev((i, st, kind))
    # no point at zero: leading edge point shared by both surfaces of a Selig file
    xu, xl = xs
    yu, yl = surf(foil, xu)[0], surf(foil, xl)[1]
    r = lambda x, y: '%.7f %.7f' % (x + 2e-3, y)
    body = ['foil'] + [r(*q) for q in zip(xu[::-1], yu[::-1])] + [r(*q) for q in zip(xl[1:], yl[1:])]
    g = import_airfoil_geometry(put(ctx, 'z.txt', '\n'.join(body).encode()))
    ctx.close(g.x_lower_surface[0], g.x_upper_surface[0], 'nozero:le', 'the surfaces meet at the leading edge', atol=1e-9)
    ctx.close(g.y_lower_surface[0], g.y_upper_surface[0], 'nozero:le', 'the surfaces meet at the leading edge', atol=1e-9)
    for k in ('y_upper_surface', 'y_lower_surface', 'y_coordinates'):
        ctx.close(g[k][2:-2], base[200][k][2:-2], 'nozero:' + k, '%s without a point at zero' % k, rtol=0, atol=2e-3)


def r_sym(ctx, i):
    """mirror images and affine copies"""
    foil = FOILS[i]
    xs = stations(0)
    xu, xl = xs
    yu, yl = surf(foil, xu)[0], surf(foil, xl)[1]

    def led(a, b, c, d):
        return ('foil\n %d. %d.\n\n' % (len(a), len(c)) + '\n'.join('%.9f %.9f' % q for q in zip(a, b)) + '\n\n' + '\n'.join('%.9f %.9f' % q for q in zip(c, d)) + '\n').encode()
    g = import_airfoil_geometry(put(ctx, 'a.txt', led(xu, yu, xl, yl)), 120)
    h = import_airfoil_geometry(put(ctx, 'b.txt', led(xl, -yl, xu, -yu)), 120)
    ctx.state((i, 'mirror'))
    ctx.step()
    for a, b in (('x_upper_surface', 'x_lower_surface'), ('y_upper_surface', 'y_lower_surface')):
        for p, q in ((a, b), (b, a)):
            ctx.close(g[p] * (1 if p[0] == 'x' else -1), h[q], 'mirror:' + p, '%s of the airfoil upside down' % p, rtol=0, atol=1e-8)
    ctx.close(g.camber_coordinates, -h.camber_coordinates, 'mirror:camber', 'camber line upside down', rtol=0, atol=1e-8)
    ctx.close(g.thickness_to_chord, h.thickness_to_chord, 'mirror:tc', 'thickness upside down')
    truth(ctx, 'mirror:true', h, foil, xs, 120, '%s upside down' % (foil,), sgn=-1)
    for f in (.5, 1.5, 2.):
        k = import_airfoil_geometry(put(ctx, 'c.txt', led(xu, f * yu, xl, f * yl)), 120)
        ctx.state((i, f))
        ctx.step()
        for n in ('y_upper_surface', 'y_lower_surface', 'camber_coordinates'):
            ctx.close(k[n], f * g[n], 'stretch:' + n, '%s of an airfoil %g times as high' % (n, f), rtol=0, atol=2e-8)
        ctx.close(k.thickness_to_chord, f * g.thickness_to_chord, 'stretch:tc', 'thickness of an airfoil %g times as high' % f, rtol=1e-6)
    if foil[0] == 0:
        ctx.close(g.camber_coordinates, 0 * g.camber_coordinates, 'sym:camber', 'a symmetric airfoil has no camber', rtol=0, atol=1e-8)
    ctx.trace(5)


def r_dat(ctx, i):
    foil = FOILS[i]
    for st in range(3):
        xu, xl = stations(st, 21)
        yu, yl = surf(foil, xu)[0], surf(foil, xl)[1]
        for head, tail, gap in itertools.product(('Name\n 21. 21.\n\n', 'A longer name\n21. 21.\n\n\n'), ('', '\n', '\n\n\n'), ('\n\n', '\n\n\n')):
            t = head + '\n'.join(' %.8f  %.8f' % q for q in zip(xu, yu)) + gap + '\n'.join(' %.8f  %.8f' % q for q in zip(xl, yl)) + tail
            d = import_airfoil_dat(put(ctx, 'd.dat', t.encode()))
            ctx.state((i, st, head, tail, gap))
            ctx.step()
            ctx.trace()
            for k, x, y in (('upper', xu, yu), ('lower', xl, yl)):
                ctx.check(d[k].shape == (len(x), 2), 'dat:shape', '%s surface is %s' % (k, d[k].shape))
                ctx.close(d[k], np.c_[x, y], 'dat:' + k, k, rtol=0, atol=1e-8)


def r_mesh(ctx, i):
    foil = FOILS[i]
    for st, npts in itertools.product(range(3), (20, 41, 60)):
        g = import_airfoil_geometry(put(ctx, 'f.txt', text(foil, stations(0, 21 + 10 * st), next(layouts()))), npts)
        keep = copy.deepcopy(g)
        m = convert_airfoil_to_meshgrid(g)
        ctx.state((i, st, npts))
        ctx.step()
        ctx.trace()
        ctx.check(all(np.array_equal(g[k], keep[k]) for k in NUM), 'mesh:input', 'the airfoil was changed')
        if not ctx.check(m is not None and m.dtype == bool, 'mesh:type', 'mask %s' % type(m)):
            continue
        nx = m.shape[0]
        xl, yl, yu = g.x_lower_surface, g.y_lower_surface, g.y_upper_surface
        area = np.sum(.5 * (yu - yl)[1:] * np.diff(xl) + .5 * (yu - yl)[:-1] * np.diff(xl))
        step = np.max(np.abs(np.diff(yu - yl)))
        ctx.close(m.sum() / nx ** 2., area, 'mesh:area', 'area of the cells of %s' % (foil,), rtol=0, atol=3. / nx + .5 * step)
        ctx.check(not m.all() and np.all(np.abs(np.diff(m.astype(int), axis=1)).sum(axis=1) <= 2), 'mesh:column', 'every column is one run of cells')


def r_blend(ctx, i, j):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    d = ctx.scratch()
    a = put(ctx, 'first.txt', text(FOILS[i], stations(0), next(layouts())))
    b = put(ctx, 'second.txt', text(FOILS[j], stations(0, 33), next(layouts())))
    M_generate_interpolated_airfoils.plot_airfoil = lambda *x, **k: None
    for n, npts in itertools.product((3, 4, 6), (40, 60)):
        g1, g2 = import_airfoil_geometry(a, npts), import_airfoil_geometry(b, npts)
        cwd = os.getcwd()
        os.chdir(d)
        try:
            out = generate_interpolated_airfoils(a, b, n, npts, os.path.join(d, 'T'))
        finally:
            os.chdir(cwd)
        plt.close('all')
        ctx.state((i, j, n, npts))
        ctx.check(list(out.keys()) == ['a_%d' % (k + 1) for k in range(n - 2)], 'blend:files', 'files %s' % list(out.keys()))
        for k in range(n - 2):
            z = (k + 1.) / (n - 1)
            name = out['a_%d' % (k + 1)].name
            ctx.step()
            ctx.trace()
            D = import_airfoil_dat(name)
            for s in ('upper', 'lower'):
                want = np.c_[(1 - z) * g1['x_%s_surface' % s] + z * g2['x_%s_surface' % s], (1 - z) * g1['y_%s_surface' % s] + z * g2['y_%s_surface' % s]]
                ctx.close(D[s], want, 'blend:' + s, 'airfoil %d of %d between %s and %s' % (k + 1, n, FOILS[i], FOILS[j]), rtol=0, atol=1e-12)
            h = import_airfoil_geometry(name, npts)
            for q in ('y_upper_surface', 'y_lower_surface'):
                ctx.close(h[q][1:], ((1 - z) * g1[q] + z * g2[q])[1:], 'blend:read:' + q, 'the blended file read back', rtol=0, atol=3e-3)
    for p in (a, b):
        ctx.check(os.path.exists(p), 'blend:kept', 'the given files stay')


# ------------------------------------------------------------------ polars
HEAD = '''  
       XFOIL         Version 6.99
  
 Calculated polar for: SECTION                                       
  
 1 1 Reynolds number fixed          Mach number fixed         
  
 xtrf =   1.000 (top)        1.000 (bottom)  
 Mach =   %.3f     Re =     %.3f e 6     Ncrit =   9.000  9.000
  
   alpha    CL        CD       CDp       CM     Top_Xtr  Bot_Xtr  Top_Itr  Bot_Itr
  ------ -------- --------- --------- -------- -------- -------- -------- --------
'''


def polar(re, a):
    """lift and drag of a section as tabulated"""
    cl = np.round(.3 + .1 * a - 2e-5 * np.maximum(a, 0) ** 4 / 8 + .01 * re, 4)
    cd = np.round(.008 + 1e-4 * (a - 1) ** 2 + .002 / (1 + re), 5)
    return cl, cd


def pfile(ctx, name, re, mach, al, extra=''):
    cl, cd = polar(re, np.array(al))
    t = HEAD % (mach, re)
    for a, l, d in zip(al, cl, cd):
        t += ' %7.3f %8.4f %9.5f %9.5f %8.4f %8.4f %8.4f %8.4f %8.4f\n' % (a, l, d, d / 2, -.09, 1., .2, 1., 111.9)
    return put(ctx, name, (t + extra).encode())


def r_polar(ctx, k):
    Rs = ((.05, .2, 1.), (.05, .1, .5, 3.), (.2, .05, 1., .1))[k % 3]
    al = np.round(np.arange(-8 + 2 * (k == 3), 17.01 - 3 * (k == 2), .25 + .25 * (k == 1)), 3)
    files = [pfile(ctx, 'p%d.txt' % i, r, .1 * i, al, '\n' * i) for i, r in enumerate(Rs)]
    for nd in (89, 45, 12):
        base = import_airfoil_polars(files, nd) if nd != 89 else import_airfoil_polars(files)
        want = np.linspace(-6, 16, nd)
        ctx.check(base.aoa_from_polar.shape == (len(Rs), nd), 'polar:shape', 'shape')
        for i, r in enumerate(Rs):
            cl, cd = polar(r, al)
            ctx.state((k, nd, i))
            ctx.step()
            ctx.close(base.aoa_from_polar[i], np.deg2rad(want), 'polar:aoa', 'angles', atol=1e-12)
            ctx.close(base.re_from_polar[i], r * 1e6, 'polar:re', 'Reynolds number')
            ctx.close(base.mach_number[i], .1 * i, 'polar:mach', 'Mach number')
            ctx.close(base.lift_coefficients[i], np.interp(want, al, cl), 'polar:cl', 'lift', rtol=1e-9, atol=1e-9)
            ctx.close(base.drag_coefficients[i], np.interp(want, al, cd), 'polar:cd', 'drag', rtol=1e-9, atol=1e-9)
        for perm in itertools.permutations(range(len(Rs))):
            o = import_airfoil_polars([files[p] for p in perm], nd)
            ctx.state((k, nd, perm))
            ctx.trace()
            for q in ('aoa_from_polar', 're_from_polar', 'mach_number', 'lift_coefficients', 'drag_coefficients'):
                ctx.check(np.array_equal(o[q], base[q][list(perm)]), 'polar:perm:' + q, '%s with the files in order %s' % (q, perm))
        # angles listed in another order of the same run
        mid = len(al) // 2
        for name, order in (('down', range(len(al))[::-1]), ('out', list(range(mid, len(al))) + list(range(mid))[::-1]), ('swap', list(range(mid, len(al))) + list(range(mid)))):
            f2 = [pfile(ctx, 'q%d.txt' % i, r, .1 * i, al[list(order)]) for i, r in enumerate(Rs)]
            o = import_airfoil_polars(f2, nd)
            ctx.trace()
            ctx.close(o.lift_coefficients, base.lift_coefficients, 'polar:order:cl', 'lift with the angles listed %s' % name, rtol=1e-12)
            ctx.close(o.drag_coefficients, base.drag_coefficients, 'polar:order:cd', 'drag with the angles listed %s' % name, rtol=1e-12)
    for n in (0, 1, 2):
        try:
            import_airfoil_polars(files[:n])
            ctx.check(False, 'polar:few', '%d polars accepted' % n)
        except AttributeError:
            ctx.ev()


POLARS = ((0., 1., 1.), (.3, 1., 1.), (-.2, 1., 1.), (.5, .8, 1.5), (.1, 1.2, .7))


def r_extend(ctx, k):
    c0, sl, dr = POLARS[k]
    f = M_compute_airfoil_properties.compute_extended_polars
    sweep = np.linspace(-14, 90, 105)
    w = SUAVE.Components.Wings.Wing()
    w.aspect_ratio = np.inf
    w.section = SUAVE.Core.Data()
    for lo, n in ((-6., 89), (-10., 105), (-4., 81)):
        a = np.linspace(lo, 16., n)
        st = 11. + 2 * sl
        cl = c0 + sl * .105 * np.where(a < st, a, st) - .01 * np.maximum(a - st, 0) ** 1.5
        cd = .007 * dr + dr * 1.2e-4 * a ** 2 + .004 * np.maximum(a - st, 0)
        keep = cl.copy(), cd.copy(), a.copy(), sweep.copy()
        for pre in (True, False):
            L, D = f(cl, cd, a, sweep, copy.deepcopy(w), pre)
            ctx.state((k, lo, pre))
            ctx.step()
            ctx.trace()
            ctx.check(L.shape == sweep.shape and D.shape == sweep.shape and np.all(np.isfinite(L)) and np.all(np.isfinite(D)), 'ext:finite', 'finite over the sweep')
            ctx.check(all(np.array_equal(x, y) for x, y in zip(keep, (cl, cd, a, sweep))), 'ext:input', 'the polar was changed')
            ctx.check(np.all(D > 0), 'ext:drag', 'drag is positive')
            ctx.check(np.all(np.abs(L) < 2.5) and np.all(D < 3.), 'ext:bounded', 'lift up to %g, drag up to %g' % (np.abs(L).max(), D.max()))
            ctx.close(L[-1], 0., 'ext:ninety', 'lift broadside on', rtol=0, atol=.12)
            deep = sweep > 35
            ctx.check(np.all(np.diff(D[deep]) > -1e-9) and np.all(np.diff(L[sweep > 55]) < 1e-9), 'ext:plate', 'deep in stall drag grows and lift falls off with the angle')
            inside = (sweep >= a[0]) & (sweep <= a[-1])
            if pre:
                ctx.close(L[inside], np.interp(sweep[inside], a, cl), 'ext:data:cl', 'lift where there are data', rtol=0, atol=.106 * sl * (a[1] - a[0]))
                ctx.close(D[inside], np.interp(sweep[inside], a, cd), 'ext:data:cd', 'drag where there are data', rtol=0, atol=.006 * dr * (a[1] - a[0]) + 1e-3)
                ctx.check(np.all(D[sweep < a[0]] >= cd[0] - 1e-12) and np.all(D[sweep > a[-1]] >= cd[-1] - 1e-12), 'ext:floor', 'outside the data the drag is not below the last value')
            L2, D2 = f(cl, cd, a, sweep, copy.deepcopy(w), pre)
            ctx.check(np.array_equal(L, L2) and np.array_equal(D, D2), 'ext:again', 'asked twice')
            # every other sweep reads the same curve
            for sub in (sweep[::2], sweep[14:60]):
                if pre and not (np.isin(a[0], sub) and np.isin(a[-1], sub)):
                    continue
                L3, D3 = f(cl, cd, a, sub, copy.deepcopy(w), pre)
                idx = np.searchsorted(sweep, sub)
                ctx.close(L3, L[idx], 'ext:sub:cl', 'lift on another sweep', rtol=1e-9, atol=1e-12)
                ctx.close(D3, D[idx], 'ext:sub:cd', 'drag on another sweep', rtol=1e-9, atol=1e-12)


def r_props(ctx, k):
    """the whole chain: geometry, boundary layer, polars"""
    if k == 0:
        o = compute_airfoil_properties(None)
        g = compute_naca_4series('0012', 100)
        q = compute_airfoil_properties(g)
        for n in ('lift_coefficients', 'drag_coefficients', 'reynolds_numbers', 'angle_of_attacks'):
            ctx.check(np.array_equal(o[n], q[n]), 'props:default', 'without an airfoil it is a NACA 0012: ' + n)
        ctx.check(np.all(np.isfinite(o.lift_coefficients)) and np.all(np.isfinite(o.drag_coefficients)) and np.all(o.drag_coefficients >= 0), 'props:finite', 'finite, no thrust')
        if np.any(o.drag_coefficients == 0):
            ctx.fail('props:zero-drag', 'drag coefficient of exactly zero at %d of %d conditions' % ((o.drag_coefficients == 0).sum(), o.drag_coefficients.size))
        ctx.state('default')
        ctx.trace(2)
        return
    g = compute_naca_4series(('2412', '4412')[k - 1], 60)
    keep = copy.deepcopy(g)
    Rs = (.1, .3, 1.)
    al = np.round(np.arange(-8, 17.01, .25), 3)
    files = [pfile(ctx, 'p%d.txt' % i, r, 0., al) for i, r in enumerate(Rs)]
    base = compute_airfoil_properties(g, files)
    ctx.check(all(np.array_equal(g[n], keep[n]) for n in g.keys()), 'props:input', 'the airfoil was changed')
    inside = (base.angle_of_attacks >= np.deg2rad(-6)) & (base.angle_of_attacks <= np.deg2rad(16))
    for i, r in enumerate(Rs):
        cl, cd = polar(r, al)
        ctx.close(base.reynolds_numbers[i], 1e6 * r, 'props:re', 'Reynolds number')
        ctx.close(base.lift_coefficients[i][inside], np.interp(np.rad2deg(base.angle_of_attacks[inside]), al, cl), 'props:cl', 'lift of the files', rtol=0, atol=.03)
        ctx.close(base.drag_coefficients[i][inside], np.interp(np.rad2deg(base.angle_of_attacks[inside]), al, cd), 'props:cd', 'drag of the files', rtol=0, atol=.003)
    for perm in itertools.permutations(range(3)):
        if perm == (0, 1, 2):
            continue
        o = compute_airfoil_properties(g, [files[p] for p in perm])
        ctx.state((k, perm))
        ctx.step()
        ctx.trace()
        for n in ('lift_coefficients', 'drag_coefficients', 'reynolds_numbers'):
            ctx.check(np.array_equal(o[n], base[n][list(perm)]), 'props:perm:' + n, '%s with the files in order %s' % (n, perm))
        break
