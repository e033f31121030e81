"""Numerical building blocks reproduce exactly what they must, for every size and every row.
"""
import itertools, copy
import numpy as np
LEVEL = 'model_checking'
BOUNDS = ('control points 2..40 (thorough 2..64) x every polynomial degree the operator must reproduce; every axis sequence of length 1..3 over 3 axes x all rows from an angle grid, single and in '
          'every pair order; every array rank/shape kind; every cell, edge, node and outside point of 2-D tables up to 4x4; all ordered pairs of a blending grid; all pairs of a soft-max grid; a grid of wings')
ASSUMPTIONS = ['linear_data is a rational (not a polynomial) operator: exact on straight lines, inverse of each other, converging as the points are refined']
MIN = {'evals': 6000}
S = None


def scenarios(tier):
    top = 41 if tier == 'quick' else 65
    out = [['cheb', n] for n in range(2, top)] + [['linear', n] for n in range(2, top)]
    out += [['dcm', list(s)] for k in (1, 2, 3) for s in itertools.product((0, 1, 2), repeat=k)]
    out += [['interp', nx, ny] for nx in (2, 3, 4) for ny in (2, 3, 4)]
    out += [['blend'], ['softmax'], ['arrays'], ['wing'], ['product'], ['badn']]
    return out


def poly(k):
    c = np.zeros(k + 1)
    c[k] = 1
    p = np.polynomial.Chebyshev(c, domain=[0, 1])
    return p, p.deriv(), p.integ(lbnd=0)


def run(ctx, sc):
    import SUAVE
    globals()['S'] = SUAVE
    globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


def r_cheb(ctx, n):
    from SUAVE.Methods.Utilities.Chebyshev import chebyshev_data
    x, D, I = chebyshev_data(N=n)
    ref = .5 * (1 - np.cos(np.pi * np.arange(n) / (n - 1)))
    ctx.close(x, ref, 'cheb:points', 'points', rtol=0, atol=1e-14)
    ctx.check(x.shape == (n,) and D.shape == (n, n) and I.shape == (n, n), 'cheb:shape', 'shapes')
    tol = 1e-13 * n ** 4
    for k in range(n):
        p, d, q = poly(k)
        ctx.state(('cheb', n, k))
        ctx.step()
        ctx.close(D @ p(x), d(x), 'cheb:diff', 'derivative of degree %d on %d points' % (k, n), rtol=1e-9, atol=tol * max(1, k * k))
        if k < n - 1:
            ctx.close(I @ p(x), q(x), 'cheb:int', 'integral of degree %d on %d points' % (k, n), rtol=1e-9, atol=tol)
        ctx.close(D @ p(x)[:, None], d(x)[:, None], 'cheb:col', 'column', rtol=1e-9, atol=tol * max(1, k * k))
    ctx.close(I[0], 0., 'cheb:start', 'the integral starts at zero')
    x2, D2, I2 = chebyshev_data(n, False)
    ctx.check(I2 is None and np.array_equal(x2, x) and np.array_equal(D2, D), 'cheb:noint', 'without the integration operator')
    D2 += 1
    x2 += 1
    x3, D3, I3 = chebyshev_data(N=n, extra=3)
    ctx.check(np.array_equal(x3, x) and np.array_equal(D3, D) and np.array_equal(I3, I), 'cheb:fresh', 'a result edited by its user does not come back')
    ctx.trace(3)


def r_linear(ctx, n):
    from SUAVE.Methods.Utilities.Chebyshev import linear_data
    x, D, I = linear_data(N=n)
    ctx.close(x, np.arange(n) / (n - 1.), 'lin:points', 'points', rtol=0, atol=1e-14)
    ctx.state(('lin', n))
    for a, b in ((1., 0.), (0., 1.), (3., -2.)):
        f = a + b * x
        ctx.step()
        ctx.close(D @ f, b + 0 * x, 'lin:diff', 'derivative of a line on %d points' % n, rtol=0, atol=1e-11 * n ** 2)
    for k in range(4):
        f = np.cos(k * x) + x ** k
        g = I @ (D @ f)
        ctx.close(g, f - f[0], 'lin:inverse', 'integrating the derivative gives the function back', rtol=1e-9, atol=1e-10 * n ** 2)
        h = np.abs(D @ f - (-k * np.sin(k * x) + k * x ** max(k - 1, 0)))
        ctx.check(h.max() <= 12. / (n - 1), 'lin:accuracy', 'derivative error %g on %d points' % (h.max(), n))
    ctx.close(I @ np.ones(n), x, 'lin:intone', 'integral of one', rtol=0, atol=1e-10 * n ** 2)
    ctx.close(I[0], 0., 'lin:start', 'the integral starts at zero')
    x2, D2, I2 = linear_data(n, False)
    ctx.check(I2 is None and np.array_equal(x2, x) and np.array_equal(D2, D), 'lin:noint', 'without the integration operator')
    ctx.trace(2)


def r_badn(ctx):
    from SUAVE.Methods.Utilities.Chebyshev import linear_data, chebyshev_data
    for f in (linear_data, chebyshev_data):
        for n in (0, -1, -7):
            try:
                f(N=n)
                ctx.check(False, 'badn', 'no points accepted')
            except RuntimeError:
                ctx.ev(('bad', f.__name__, n))
        a, b = f(N=4.0), f(4)
        ctx.check(all(np.array_equal(p, q) for p, q in zip(a, b)), 'floatn', 'a float count works')


ANG = [0., .3, -1.1, 2.5, np.pi / 2, -np.pi]


def axis(i, a):
    c, s = np.cos(a), np.sin(a)
    return np.array([[[1, 0, 0], [0, c, s], [0, -s, c]], [[c, 0, -s], [0, 1, 0], [s, 0, c]], [[c, s, 0], [-s, c, 0], [0, 0, 1]]][i])


def r_dcm(ctx, seq):
    from SUAVE.Methods.Geometry.Three_Dimensional import angles_to_dcms, orientation_transpose, orientation_product
    rows = list(itertools.product(ANG[:5], ANG[1:6:2], (.7, -2.2)))

    def ref(r):
        T = np.eye(3)
        for i in seq[::-1]:
            T = T @ axis(i, r[i])
        return T
    R = np.array(rows)
    keep = R.copy()
    T = angles_to_dcms(R, tuple(seq))
    ctx.check(np.array_equal(R, keep), 'dcm:input', 'the angles are left alone')
    for r, t in zip(rows, T):
        ctx.state((tuple(seq), r))
        ctx.close(t, ref(r), 'dcm:value', 'rotations %s by %s' % (seq, r), rtol=0, atol=1e-12)
        ctx.close(t @ t.T, np.eye(3), 'dcm:orthonormal', 'orthonormal', rtol=0, atol=1e-12)
        one = angles_to_dcms(np.array([r]), tuple(seq))
        ctx.check(np.array_equal(one[0], t), 'dcm:row', 'a row alone gives the same matrix')
    ctx.close(orientation_product(T, orientation_transpose(T)), np.broadcast_to(np.eye(3), T.shape), 'dcm:inverse', 'transpose inverts', rtol=0, atol=1e-12)
    if len(seq) == 3 and len(set(seq)) == 3 and tuple(seq) == (2, 1, 0):
        ctx.check(np.array_equal(angles_to_dcms(R), T), 'dcm:default', 'default sequence')
    # a complex step gives the derivative
    Z = R + 1j * 1e-20
    d = angles_to_dcms(Z, tuple(seq)).imag / 1e-20
    fd = (angles_to_dcms(R + 1e-6, tuple(seq)) - angles_to_dcms(R - 1e-6, tuple(seq))) / 2e-6
    ctx.close(d, fd, 'dcm:complex', 'complex step', rtol=1e-6, atol=1e-8)
    ctx.step(len(rows))
    ctx.trace(len(rows) + 4)


def r_product(ctx):
    from SUAVE.Methods.Geometry.Three_Dimensional import orientation_product, orientation_transpose
    M = [np.arange(9.).reshape(3, 3) * s + np.eye(3) * t for s in (1, -.5, 2) for t in (0, 3)]
    V = [np.array(v) for v in itertools.product((0., 1., -2.), repeat=3)]
    for k in (1, 2, 3):
        for A in itertools.product(range(len(M)), repeat=k):
            T = np.array([M[i] for i in A])
            keep = T.copy()
            B = np.array([M[(i * 5 + j) % len(M)] for j, i in enumerate(A)])
            v = np.array([V[(i * 7 + 3 * j) % len(V)] for j, i in enumerate(A)])
            ctx.state(A)
            ctx.step()
            ctx.close(orientation_product(T, B), np.array([a @ b for a, b in zip(T, B)]), 'product:matrix', 'matrix product', rtol=1e-12, atol=1e-12)
            ctx.close(orientation_product(T, v), np.array([a @ b for a, b in zip(T, v)]), 'product:vector', 'matrix times vector', rtol=1e-12, atol=1e-12)
            ctx.check(np.array_equal(orientation_transpose(T), np.array([a.T for a in T])), 'transpose', 'transpose')
            ctx.check(np.array_equal(T, keep), 'product:input', 'input changed')
    for v in V:
        ctx.close(orientation_product(np.array([M[1]]), v[None]), (M[1] @ v)[None], 'product:vector', 'vector', rtol=1e-12)


def r_interp(ctx, nx, ny):
    from SUAVE.Core.Utilities import interp2d
    gx, gy = np.array([-1., .5, 2., 7.])[:nx], np.array([0., 1., 1.5, 4.])[:ny]
    Z = np.array([[((3 * i + 7 * j) * 5 % 11) - 4. for j in range(ny)] for i in range(nx)])

    def ref(x, y):
        i = min(max(int(np.searchsorted(gx, x, 'right')), 1), nx - 1)
        j = min(max(int(np.searchsorted(gy, y, 'right')), 1), ny - 1)
        a, b = (x - gx[i - 1]) / (gx[i] - gx[i - 1]), (y - gy[j - 1]) / (gy[j] - gy[j - 1])
        return (Z[i - 1, j - 1] * (1 - a) + Z[i, j - 1] * a) * (1 - b) + (Z[i - 1, j] * (1 - a) + Z[i, j] * a) * b
    px = sorted(set(gx) | {(a + b) / 2 for a, b in zip(gx, gx[1:])} | {gx[0] - 1, gx[-1] + 2, gx[0] + .1})
    py = sorted(set(gy) | {(a + b) / 2 for a, b in zip(gy, gy[1:])} | {gy[0] - 1, gy[-1] + 2, gy[-1] - .1})
    P = list(itertools.product(px, py))
    X, Y = np.array(P).T
    want = np.array([ref(*p) for p in P])
    out = np.array([not (gx[0] <= x <= gx[-1] and gy[0] <= y <= gy[-1]) for x, y in P])
    ctx.close(interp2d(X, Y, gx, gy, Z), want, 'interp:value', 'bilinear value', rtol=1e-11, atol=1e-11)
    for fv in (0., -99., np.nan):
        ctx.close(interp2d(X, Y, gx, gy, Z, fv), np.where(out, fv, want), 'interp:fill', 'outside value %s' % fv, rtol=1e-11, atol=1e-11)
    for p, w in zip(P, want):
        ctx.state((nx, ny, p))
        ctx.step()
        ctx.close(interp2d(np.array([p[0]]), np.array([p[1]]), gx, gy, Z), [w], 'interp:row', 'one point', rtol=1e-11, atol=1e-11)
    for i, a in enumerate(gx):
        for j, b in enumerate(gy):
            ctx.close(interp2d(np.array([a]), np.array([b]), gx, gy, Z), [Z[i, j]], 'interp:node', 'table value', rtol=1e-11, atol=1e-11)
    ctx.trace(len(P))


def r_blend(ctx):
    from SUAVE.Methods.Utilities.Cubic_Spline_Blender import Cubic_Spline_Blender
    G = [-3., 0., .1, .95, 1.05, 2., 10.]
    for a, b in itertools.permutations(G, 2):
        eta = np.array([-5., -1., -1e-6, 0., 1e-6, .25, .5, .75, 1 - 1e-6, 1., 1 + 1e-6, 2., 9.])
        x = a + eta * (b - a)
        for shape in ((-1,), (-1, 1)):
            xx = x.reshape(shape)
            keep = xx.copy()
            B = Cubic_Spline_Blender(a, b)
            y = B.compute(xx)
            ctx.state((a, b, shape))
            e = np.clip(eta, 0, 1).reshape(shape)
            ctx.close(y, 2 * e ** 3 - 3 * e ** 2 + 1, 'blend:value', 'blend from %g to %g' % (a, b), rtol=0, atol=1e-9)
            ctx.check(np.array_equal(xx, keep), 'blend:input', 'input changed')
            ctx.check(np.array_equal(B.compute(xx), y), 'blend:repeat', 'asking again')
        for v, w in zip(x, y.ravel()):
            ctx.step()
            ctx.close(Cubic_Spline_Blender(a, b).compute(np.array([v])), [w], 'blend:row', 'one point', rtol=0, atol=1e-12)


def r_softmax(ctx):
    from SUAVE.Methods.Utilities.soft_max import soft_max
    G = [-800., -50., -1., -1e-3, 0., 1e-8, .5, 3., 100., 1e4]
    for a, b in itertools.product(G, G):
        ctx.state((a, b))
        f = float(np.ravel(soft_max(np.array([a]), np.array([b])))[0])
        ctx.close(f, np.logaddexp(a, b), 'softmax:value', 'log(e^%g+e^%g)' % (a, b), rtol=1e-12, atol=1e-12)
        ctx.close(f, soft_max(b, a), 'softmax:symmetric', 'symmetric', rtol=1e-14)
        ctx.check(max(a, b) <= f <= max(a, b) + np.log(2) + 1e-9, 'softmax:range', 'between the larger and the larger plus log 2')
    A, B = np.array(list(itertools.product(G, G))).T
    ctx.close(soft_max(A, B), np.logaddexp(A, B), 'softmax:batch', 'batch', rtol=1e-12, atol=1e-12)


def r_arrays(ctx):
    from SUAVE.Core import atleast_2d, atleast_2d_col, atleast_2d_row, append_array
    vals = [3., 2, [1., 2., 3.], (4., 5.), [[1., 2.], [3., 4.]], np.array(2.), np.arange(3.), np.arange(6.).reshape(2, 3), np.zeros((1, 1)), np.arange(8.).reshape(2, 2, 2), np.array([]), [7.]]
    for v in vals:
        a = np.array(v if isinstance(v, (list, tuple, np.ndarray)) else [v])
        for name, f in (('row', atleast_2d_row), ('col', atleast_2d_col), ('row', atleast_2d), ('col', lambda q: atleast_2d(q, 'col'))):
            if a.ndim == 0:
                continue
            want = a if a.ndim >= 2 else (a[None, :] if name == 'row' else a[:, None])
            keep = copy.deepcopy(v)
            got = f(v)
            ctx.state((str(v), name))
            ctx.step()
            ctx.check(got.shape == want.shape and np.array_equal(got, want), 'arrays:' + name, 'as a %s: %s' % (name, got))
            ctx.check(np.array_equal(np.array(keep), np.array(v)), 'arrays:input', 'input changed')
    for p, q in itertools.product([np.ones((1, 2)), np.zeros((3, 2)), np.arange(2.)], repeat=2):
        ctx.check(np.array_equal(append_array(p, q), np.vstack([p, q])), 'append', 'append')
    for p in (None, 3., [1.]):
        ctx.check(append_array(p, np.ones((1, 2))) is None and append_array(np.ones((1, 2)), p) is None, 'append', 'append')
    try:
        atleast_2d(np.arange(3.), 'up')
        ctx.check(False, 'arrays:bad', 'unknown orientation accepted')
    except Exception:
        ctx.ev('bad')


def r_wing(ctx):
    from SUAVE.Methods.Geometry.Three_Dimensional import compute_chord_length_from_span_location as chord, compute_span_location_from_chord_length as span, estimate_naca_4_series_internal_volume as vol
    for cr, ct, b, tc in itertools.product((1., 4., 9.), (.2, 1., 3.), (5., 30.), (.08, .15)):
        def wing(k=1.):
            w = S.Components.Wings.Wing()
            w.chords.root, w.chords.tip, w.spans.projected, w.taper, w.thickness_to_chord = cr * k, ct * k, b * k, ct / cr, tc
            return w
        w = wing()
        for e in (0., .25, .5, 1.):
            y = e * b / 2
            ctx.state((cr, ct, b, e))
            c = chord(w, b / 2 - y) if False else chord(w, y)
            ctx.close(c, cr + (ct - cr) * e, 'wing:chord', 'chord at %g of the half span' % e, rtol=1e-12)
            if cr != ct:
                ctx.close(span(w, c), y, 'wing:span', 'the station of a chord', rtol=1e-10, atol=1e-10)
        for m, p in itertools.product((0., .02, .05), (.3, .4)):
            v = vol(w, m, p)
            ctx.step()
            ctx.close(vol(wing(2.), m, p), 8 * v, 'wing:volume-scale', 'doubling every length gives eight times the volume', rtol=1e-10)
            t = lambda s: 5 * tc * (.2969 * s ** .5 - .126 * s - .3516 * s ** 2 + .2843 * s ** 3 - .1015 * s ** 4)
            th = [np.arctan(2 * m / p ** 2 * (p - .1)), np.arctan(2 * m / (1 - p) ** 2 * (p - .6))]
            h = t(.1) * np.cos(th[0]) + t(.6) * np.cos(th[1])              # sum of the two half heights, per chord
            want = b * h * .5 * (cr * cr + cr * ct + ct * ct) / 3
            # known finding: the lower surface of the front spar at mid span is placed with the slope of the upper surface
            yc = [m * (.1 / p ** 2) * (2 * p - .1), m * (.4 / (1 - p) ** 2) * (1.6 - 2 * p)]
            f = t(.1) * np.cos(th[0])
            wrong = want + 2 * (b / 12.) * 4 * (-(f * (cr - ct))) * .5 * .5 * (cr + ct) / 2
            slip = cr != ct and abs(v - wrong) <= 1e-9 * abs(v)
            ctx.close(v, want, 'wing:volume-front-spar-mid' if slip else 'wing:volume', 'volume between the spars', rtol=1e-9)
        ctx.check(w.chords.root == cr and w.spans.projected == b, 'wing:input', 'wing changed')
