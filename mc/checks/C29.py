"""The airfoil panel method solves the potential flow of the section, and every case of a batch on its own."""
import contextlib, copy, io, itertools, os, warnings
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('six sections x panel counts (even, odd) x every angle of a grid against an independent scalar panel solver; every mirror, rotation and scale of each; every single case, ordered pair and reversal of batches of angles x '
          'Reynolds numbers for all outputs of the analysis; every wedge flow and plate of a grid for the laminar method, every start and pressure gradient of a grid for the turbulent one; exact circle at growing panel counts')
ASSUMPTIONS = ['the Hess-Smith formulation (constant source per panel, one vortex strength, equal tangential speed on the two trailing edge panels) is what is specified', 'boundary layer closures are the published ones']
MIN = {'evals': 6000}
TIME_LIMIT = 400
FOIL = ((0., .4, .12), (.04, .4, .12), (.02, .4, .1), (.06, .3, .15), (.02, .6, .06), (0., .4, .2))
ALS = (-8., -3., 0., 2., 5., 11.)


def scenarios(tier):
    T = tier == 'thorough'
    N = (12, 21, 30, 47) if T else (12, 21, 30)
    out = [['flow', f, n] for f in range(len(FOIL)) for n in N] + [['equi', f, n] for f in range(len(FOIL)) for n in N[1:]] + [['batch', f] for f in range(len(FOIL))]
    out += [['circle', 0], ['coeff', 0]] + [['lam', k] for k in range(5)] + [['turb', k] for k in range(4)]
    out += [['anal', f, k] for f in range(len(FOIL)) for k in range(3 if T else 2)] + [['mirror', f] for f in range(len(FOIL))]
    return out


def run(ctx, sc):
    globals()['SUAVE'] = G.S()
    b = 'SUAVE.Methods.Aerodynamics.Airfoil_Panel_Method.'
    for n in ('hess_smith', 'airfoil_analysis', 'aero_coeff', 'thwaites_method', 'heads_method', 'panel_geometry'):
        globals()[n] = getattr(__import__(b + n, fromlist=['x']), n)
    nul = os.open(os.devnull, os.O_WRONLY)
    o1, o2 = os.dup(1), os.dup(2)
    os.dup2(nul, 1)
    os.dup2(nul, 2)  # the integrator writes from Fortran
    try:
        with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            globals()['r_' + sc[0]](ctx, *sc[1:])
    finally:
        os.dup2(o1, 1)
        os.dup2(o2, 2)
        for h in (nul, o1, o2):
            os.close(h)
    ctx.sample(sc)


def section(foil, n):
    """n + 1 points from the lower trailing edge round the nose"""
    m, p, t = foil
    k = n // 2
    b = np.r_[np.linspace(np.pi, 0, n - k + 1), np.linspace(0, np.pi, k + 1)[1:]]
    x = .5 * (1 - np.cos(b))
    h = 5 * t * (.2969 * np.sqrt(x) - .126 * x - .3516 * x ** 2 + .2843 * x ** 3 - .1015 * x ** 4)
    c = np.where(x < p, m / p ** 2 * (2 * p * x - x ** 2), m / (1 - p) ** 2 * (1 - 2 * p + 2 * p * x - x ** 2))
    s = np.r_[-np.ones(n - k + 1), np.ones(k)]
    return x, c + s * h


def ref(x, y, al):
    """scalar panel solver in complex form: velocities of a unit source / vortex panel from the complex logarithm"""
    z = x + 1j * y
    n = len(z) - 1
    zc = .5 * (z[1:] + z[:-1])
    L = np.abs(np.diff(z))
    e = np.diff(z) / L
    A = np.zeros((n + 1, n + 1))
    S = np.zeros((n, n), complex)
    for i in range(n):
        for j in range(n):
            if i == j:
                w = .5j  # outward (left of the panel direction)
                S[i, j] = np.conj(w * e[j])
                continue
            # conjugate velocity of a unit source panel in its own frame, branch chosen by continuity
            a, b = (zc[i] - z[j]) / e[j], (zc[i] - z[j + 1]) / e[j]
            lg = np.log(np.abs(a) / np.abs(b)) + 1j * np.angle(a / b)
            S[i, j] = lg / (2 * np.pi) / e[j]
    V = -1j * S  # unit vortex, positive clockwise or counter: fixed by the unknown
    vel = lambda W: np.conj(W)
    U = np.exp(1j * al)
    nor = 1j * e
    dot = lambda a, b: np.real(a * np.conj(b))
    B = np.zeros(n + 1)
    for i in range(n):
        A[i, :n] = dot(vel(S[i]), nor[i])
        A[i, n] = np.sum(dot(vel(V[i]), nor[i]))
        B[i] = -dot(U, nor[i])
    for i in (0, n - 1):
        A[n, :n] += dot(vel(S[i]), e[i])
        A[n, n] += np.sum(dot(vel(V[i]), e[i]))
        B[n] -= dot(U, e[i])
    q = np.linalg.solve(A, B)
    vt = np.array([dot(U + np.sum(vel(S[i]) * q[:n]) + np.sum(vel(V[i])) * q[n], e[i]) for i in range(n)])
    vn = np.array([dot(U + np.sum(vel(S[i]) * q[:n]) + np.sum(vel(V[i])) * q[n], nor[i]) for i in range(n)])
    return zc, vt, vn, np.sum(q[:n] * L), q[n] * np.sum(L)


def solve(x, y, als, nre=1):
    al = np.tile(np.atleast_1d(als), (nre, 1))
    X = np.tile(x[:, None, None], (1, al.shape[1], nre))
    Y = np.tile(y[:, None, None], (1, al.shape[1], nre))
    return hess_smith(X, Y, al, np.full((nre, al.shape[1]), 1e6), len(x) - 1)


def r_flow(ctx, f, n):
    x, y = section(FOIL[f], n)
    for d in ALS:
        al = np.deg2rad(d)
        xb, yb, vt, nor = solve(x, y, [al])
        zc, want, vn, src, circ = ref(x, y, al)
        what = 'section %s with %d panels at %g degrees' % (FOIL[f], n, d)
        ctx.state((f, n, d))
        ctx.step()
        ctx.trace()
        ctx.close(xb[:, 0, 0] + 0 * n, zc.real, 'flow:x', 'control points', atol=1e-14)
        ctx.close(yb[:, 0, 0], zc.imag, 'flow:y', 'control points', atol=1e-14)
        ctx.close(vn, 0 * vn, 'oracle:wall', 'the oracle flow does not cross the wall', atol=1e-9)
        ctx.close(vt[:, 0, 0], want, 'flow:speed', 'surface speed on ' + what, rtol=1e-7, atol=1e-8)
        ctx.close(vt[0, 0, 0], -vt[-1, 0, 0], 'flow:kutta', 'equal speed on both sides of the trailing edge of ' + what, rtol=1e-8, atol=1e-9)
        ctx.close(nor[:, 0, 0, 0] ** 2 + nor[:, 1, 0, 0] ** 2, np.ones(n), 'flow:normal', 'unit normals')
        e = np.diff(x + 1j * y)
        ctx.close(nor[:, 0, 0, 0] * e.real + nor[:, 1, 0, 0] * e.imag, np.zeros(n), 'flow:normal', 'normals are normal', atol=1e-12)
        c = x + 1j * y
        far = (zc - c.mean())
        ctx.check(np.mean(np.real(np.conj(nor[:, 0, 0, 0] + 1j * nor[:, 1, 0, 0]) * far)) > 0, 'flow:outward', 'normals point out')
        # lift of the pressures is that of the circulation (tolerance of the panel size)
        L = np.abs(e)
        cp = 1 - vt[:, 0, 0] ** 2
        F = -np.sum(cp * 1j * e) * np.exp(-1j * al)
        G2 = 2 * np.sum(vt[:, 0, 0] * L)
        if n >= 30:
            ctx.close(F.imag, G2, 'flow:circulation', 'lift by pressures and by circulation of ' + what, rtol=.06, atol=.03)
            ctx.close(F.real, 0., 'flow:drag', 'no drag in potential flow of ' + what, atol=.03)


def r_equi(ctx, f, n):
    x, y = section(FOIL[f], n)
    for d in ALS:
        al = np.deg2rad(d)
        base = solve(x, y, [al])[2][:, 0, 0]
        ctx.state((f, n, d))
        ctx.step()
        m = solve(x[::-1], -y[::-1], [-al])[2][:, 0, 0]
        ctx.close(m, -base[::-1], 'equi:mirror', 'the mirrored section at the opposite angle', rtol=1e-8, atol=1e-9)
        for s, dx, dy in ((2.5, 0., 0.), (1., 3., -2.), (.3, -1., .4)):
            m = solve(s * x + dx, s * y + dy, [al])[2][:, 0, 0]
            ctx.close(m, base, 'equi:scale', 'the section %g times as large, moved by %g, %g' % (s, dx, dy), rtol=1e-7, atol=1e-8)
        for r in (-.3, .2, 1.):
            z = (x + 1j * y) * np.exp(1j * r)
            m = solve(z.real, z.imag, [al + r])[2][:, 0, 0]
            ctx.close(m, base, 'equi:turn', 'section and flow turned by %g' % r, rtol=1e-7, atol=1e-8)
        ctx.trace(7)
    # speeds are linear in the stream vector
    u, v = solve(x, y, [0.])[2][:, 0, 0], solve(x, y, [np.pi / 2])[2][:, 0, 0]
    for d in range(-20, 21, 4):
        al = np.deg2rad(d)
        ctx.close(solve(x, y, [al])[2][:, 0, 0], u * np.cos(al) + v * np.sin(al), 'equi:linear', 'superposition at %d degrees' % d, rtol=1e-8, atol=1e-9)
        ctx.ev()


def r_batch(ctx, f):
    x, y = section(FOIL[f], 20)
    for nre in (1, 2, 3):
        for k in (1, 2, 3):
            for als in itertools.permutations(ALS[1:5], k):
                a = np.deg2rad(als)
                vt = solve(x, y, a, nre)[2]
                ctx.state((f, nre, als))
                ctx.step()
                ctx.trace()
                ctx.check(vt.shape == (20, k, nre), 'batch:shape', 'shape %s' % (vt.shape,))
                for i in range(k):
                    one = solve(x, y, [a[i]])[2][:, 0, 0]
                    for j in range(nre):
                        ctx.close(vt[:, i, j], one, 'batch:rows', 'angle %d of %s, set %d' % (i, als, j), rtol=1e-9, atol=1e-10)
    # a different angle for every entry and a different section for every set
    al = np.deg2rad(np.array([[1., 4., -2.], [3., 0., 7.]]))
    secs = [section(FOIL[f], 20), section(FOIL[(f + 1) % len(FOIL)], 20)]
    X = np.stack([np.stack([secs[j][0]] * 3, 1) for j in range(2)], 2)
    Y = np.stack([np.stack([secs[j][1]] * 3, 1) for j in range(2)], 2)
    vt = hess_smith(X, Y, al, np.full((2, 3), 1e6), 20)[2]
    for i in range(3):
        for j in range(2):
            ctx.close(vt[:, i, j], solve(*secs[j], [al[j, i]])[2][:, 0, 0], 'batch:mixed', 'entry %d, %d of a mixed batch' % (i, j), rtol=1e-9, atol=1e-10)


def r_circle(ctx, _):
    last = None
    for n in (16, 32, 64, 128):
        t = np.linspace(0, -2 * np.pi, n + 1)
        x, y = np.cos(t), np.sin(t)
        worst = 0.
        for d in ALS:
            al = np.deg2rad(d)
            vt = solve(x, y, [al])[2][:, 0, 0]
            m = .5 * (t[1:] + t[:-1])
            exact = 2 * np.sin(m - al) + 2 * np.sin(al)  # rear stagnation point at angle zero
            worst = max(worst, np.abs(vt - exact).max())
            ctx.state((n, d))
            ctx.step()
            ctx.trace()
        ctx.check(worst < 2.5 / n, 'circle:exact', 'speed on a circle of %d panels is off by %g' % (n, worst))
        ctx.check(last is None or worst < .75 * last, 'circle:converge', 'error %g at %d panels after %g' % (worst, n, last or 0))
        last = worst


def r_coeff(ctx, _):
    rng = [np.array(v) for v in itertools.product((-1., .5, 2.), repeat=3)]
    for n, k, r in itertools.product((5, 12), (1, 3), (1, 2)):
        t = np.linspace(0, 1, n)
        x = np.tile((t ** 2)[:, None, None], (1, k, r))
        y = np.tile((t * (1 - t))[:, None, None], (1, k, r))
        cp = np.cos(np.arange(n * k * r)).reshape(n, k, r)
        al = np.deg2rad(np.arange(k * r).reshape(r, k) * 3. - 4)
        o = aero_coeff(x, y, cp, al, n)
        for i in range(k):
            for j in range(r):
                dx, dy = np.diff(x[:, i, j]), np.diff(y[:, i, j])
                cn, ca = -np.sum(cp[:-1, i, j] * dx), np.sum(cp[:-1, i, j] * dy)
                xm, ym = .5 * (x[1:, i, j] + x[:-1, i, j]) - .25, .5 * (y[1:, i, j] + y[:-1, i, j])
                a = al[j, i]
                ctx.state((n, k, r, i, j))
                ctx.step()
                ctx.close(o.cl[j, i], cn * np.cos(a) - ca * np.sin(a), 'coeff:cl', 'lift')
                ctx.close(o.cdpi[j, i], cn * np.sin(a) + ca * np.cos(a), 'coeff:cd', 'pressure drag')
                ctx.close(o.cm[j, i], np.sum(cp[:-1, i, j] * (dx * xm + dy * ym)), 'coeff:cm', 'moment about the quarter chord')
        ctx.trace()
    # a uniform pressure has no moment on a symmetric closed body and no force on any closed body
    th = np.linspace(0, 2 * np.pi, 41)
    x, y = (.25 + np.cos(th))[:, None, None], (.3 * np.sin(th))[:, None, None]
    o = aero_coeff(x, y, np.full((41, 1, 1), .7), np.array([[.2]]), 41)
    ctx.close(np.array([o.cl[0, 0], o.cdpi[0, 0], o.cm[0, 0]]), np.zeros(3), 'coeff:closed', 'uniform pressure on a closed body', atol=1e-12)


# ------------------------------------------------------------------ boundary layers
def lam(x, Ve, dVe, Re, th0=1e-6, tol=1e9, cases=1, cpts=1):
    n = len(x)
    ma = lambda v: np.ma.array(np.tile(v[:, None, None], (1, cases, cpts)), mask=np.zeros((n, cases, cpts), bool))
    L = np.full((cases, cpts), x[-1])
    return thwaites_method(n, cases, cpts, L, np.full((cases, cpts), Re), ma(x), ma(Ve), ma(dVe), tol, th0)


def r_lam(ctx, k):
    m = (0., .1, 1. / 3, 1., -.05)[k]
    for Re, L in itertools.product((1e4, 1e5, 1e6), (1., .5)):
        x = np.linspace(.02, 1, 120) * L if m else np.linspace(0, 1, 80) * L
        Ve = (x / L) ** m
        dVe = m * x ** (m - 1) / L ** m if m else 0 * x
        nu = L / Re
        o = lam(x, Ve, dVe, Re)
        x0 = x[0]
        th2 = .45 * nu * (x ** (5 * m + 1) - x0 ** (5 * m + 1)) / (5 * m + 1) / L ** (5 * m) / Ve ** 6
        q = x > .5 * L
        th = o.THETA_T[:, 0, 0]
        ctx.state((k, Re, L))
        ctx.step()
        ctx.trace()
        # the start carries the given thickness, negligible further on
        ctx.close((th ** 2 * Ve ** 6)[q], (th2 * Ve ** 6)[q], 'lam:theta', 'momentum thickness for speeds like x^%g' % m, rtol=6e-3, atol=1.5e-7)  # absolute tolerance of the integrator
        lb = th ** 2 * dVe / nu
        H = np.where(lb > 0, 2.61 - 3.75 * lb + 5.24 * lb ** 2, .0731 / (.14 + lb) + 2.088)
        l = np.where(lb > 0, .22 + 1.57 * lb - 1.8 * lb ** 2, .22 + 1.402 * lb + .018 * lb / (.107 + lb))
        ctx.close(o.H_T[q, 0, 0], H[q], 'lam:H', 'shape factor', rtol=1e-9)
        ctx.close(o.DELTA_STAR_T[q, 0, 0], (H * th)[q], 'lam:star', 'displacement thickness', rtol=1e-9)
        ctx.close(o.RE_THETA_T[q, 0, 0], (Ve * th / nu)[q], 'lam:rt', 'thickness Reynolds number', rtol=1e-9)
        ctx.close(o.RE_X_T[q, 0, 0], (Ve * x / nu)[q], 'lam:rx', 'length Reynolds number', rtol=1e-9)
        ctx.close(o.CF_T[q, 0, 0], abs(2 * l / (Ve * th / nu))[q], 'lam:cf', 'friction', rtol=1e-9)
        ctx.close(o.X_T[:, 0, 0], x, 'lam:x', 'stations')
        if m == 0:
            ctx.close(o.CF_T[q, 0, 0], .664 / np.sqrt(x[q] / nu), 'lam:blasius', 'friction of a plate', rtol=.025)
            o4 = lam(x, Ve, dVe, 4 * Re)
            ctx.close(o4.THETA_T[q, 0, 0], .5 * th[q], 'lam:scale', 'four times the Reynolds number, half the thickness', rtol=2e-3)
        for c, p in ((1, 2), (3, 1), (2, 2)):
            b = lam(x, Ve, dVe, Re, cases=c, cpts=p)
            for n in b.keys():
                for i in range(c):
                    for j in range(p):
                        ctx.check(R.same(b[n][:, i, j], o[n][:, 0, 0], 1e-9), 'lam:batch:' + n, '%s of case %d, %d' % (n, i, j))


def turb(x, Ve, dVe, Re, th, ds, de, cases=1, cpts=1):
    n = len(x)
    ma = lambda v: np.ma.array(np.tile(v[:, None, None], (1, cases, cpts)), mask=np.zeros((n, cases, cpts), bool))
    A = lambda v: np.full((cases, cpts), v)
    return heads_method(n, cases, cpts, A(de), A(th), A(ds), A(x[-1]), A(Re), ma(x), ma(Ve), ma(dVe), 1e9)


def h_of(h1):
    return 3. if h1 < 3.3 else 1.1 + .86 * (h1 - 3.3) ** -.777 if h1 > 5.3 else .6778 + 1.1536 * (h1 - 3.3) ** -.326


def h1_of(h):
    return 3.3 + .8234 * (h - 1.1) ** -1.287 if h <= 1.6 else 3.3 + 1.5501 * (h - .6778) ** -3.064


def r_turb(ctx, k):
    g = (0., -.15, .2, -.3)[k]
    for Re, L, H0 in itertools.product((2e5, 1e6, 1e7), (1., .4), (1.4, 1.55)):
        x = np.linspace(0, 1, 60) * L
        Ve = 1 + g * x
        dVe = g + 0 * x
        th0 = 4e-4 * L
        o = turb(x, Ve, dVe, Re, th0, H0 * th0, 8 * th0)
        # independent integration, fixed steps
        def rhs(s, y):
            v = 1 + g * s
            h1 = y[1] / y[0] / v
            h = h_of(h1)
            cf = .246 * 10 ** (-.678 * h) * (Re / L * y[0]) ** -.268
            return np.array([.5 * cf - y[0] / v * (2 + h) * g, v * .0306 * (h1 - 3) ** -.6169])
        y = np.array([th0, th0 * h1_of(H0)])
        ys = [y]
        for a, b in zip(x[:-1], x[1:]):
            for i in range(20):
                h = (b - a) / 20
                s = a + i * h
                k1 = rhs(s, y)
                k2 = rhs(s + h / 2, y + h / 2 * k1)
                k3 = rhs(s + h / 2, y + h / 2 * k2)
                k4 = rhs(s + h, y + h * k3)
                y = y + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
            ys.append(y)
        ys = np.array(ys)
        ctx.state((k, Re, L, H0))
        ctx.step()
        ctx.trace()
        ctx.close(o.THETA_H[:, 0, 0], ys[:, 0], 'turb:theta', 'momentum thickness with gradient %g' % g, rtol=2e-4)
        h1 = ys[:, 1] / ys[:, 0] / Ve
        H = np.array([h_of(v) for v in h1])
        w = (abs(h1 - 5.3) > .02) & (abs(h1 - 3.3) > .02)  # the published fit jumps there
        ctx.close(o.H_H[w, 0, 0], H[w], 'turb:H', 'shape factor', rtol=2e-3)
        ctx.close(o.DELTA_STAR_H[:, 0, 0], o.H_H[:, 0, 0] * o.THETA_H[:, 0, 0], 'turb:star', 'displacement thickness', rtol=1e-9)
        rt = Re / L * Ve * o.THETA_H[:, 0, 0]
        ctx.close(o.RE_THETA_H[:, 0, 0], rt, 'turb:rt', 'thickness Reynolds number', rtol=1e-9)
        ctx.close(o.CF_H[:, 0, 0], .246 * 10 ** (-.678 * o.H_H[:, 0, 0]) * rt ** -.268, 'turb:cf', 'friction', rtol=1e-9)
        ctx.close(o.X_H[:, 0, 0], x, 'turb:x', 'stations')
        if g == 0:
            ctx.check(np.all(np.diff(o.THETA_H[:, 0, 0]) > 0), 'turb:grow', 'grows along a plate')
        for c, p in ((1, 2), (2, 2)):
            b = turb(x, Ve, dVe, Re, th0, H0 * th0, 8 * th0, c, p)
            for n in b.keys():
                for i in range(c):
                    for j in range(p):
                        ctx.check(R.same(b[n][:, i, j], o[n][:, 0, 0], 1e-9), 'turb:batch:' + n, '%s of case %d, %d' % (n, i, j))


# ------------------------------------------------------------------ whole analysis
OUT = ('cl', 'cdpi', 'cd', 'cm', 'normals', 'x', 'y', 'x_bl', 'y_bl', 'cp', 'dcp_dx', 'Ue_Vinf', 'dVe', 'theta', 'delta_star', 'delta', 'Re_theta', 'Re_x', 'H', 'cf')


def geo(f, n):
    g = SUAVE.Core.Data()
    g.x_coordinates, g.y_coordinates = section(FOIL[f], n)
    return g


def near(a, b):
    """the same up to the rounding of the batched linear solves, which the integrator amplifies"""
    a, b = np.atleast_1d(np.asarray(a, dtype=float)), np.atleast_1d(np.asarray(b, dtype=float))
    return a.shape == b.shape and np.array_equal(np.isfinite(a), np.isfinite(b)) and bool(np.nanmax(np.abs(a - b), initial=0) <= 1e-4 * np.nanmax(np.abs(b), initial=1e-6))


def anal(g, al, re):
    return airfoil_analysis(g, np.atleast_2d(np.deg2rad(al)), np.atleast_2d(np.array(re, dtype=float)))


def r_anal(ctx, f, k):
    g = geo(f, (30, 37, 44)[k])
    keep = copy.deepcopy(g)
    als, res = (-2.5, 1.2, 6.3), (6e4, 4e5)
    one = {(a, r): anal(g, [[a]], [[r]]) for a in als for r in res}
    ctx.check(np.array_equal(g.x_coordinates, keep.x_coordinates) and np.array_equal(g.y_coordinates, keep.y_coordinates), 'anal:input', 'the section was changed')
    for (a, r), o in one.items():
        ctx.state((f, k, a, r))
        ctx.check(all(np.all(np.isfinite(o[n])) for n in ('cl', 'cd', 'cm', 'cp')), 'anal:finite', 'finite')
        ctx.check(0 <= o.cd[0, 0] < .3 and np.all(o.theta >= 0), 'anal:drag', 'drag %g' % o.cd[0, 0])
    grids = []
    for sa in [(a,) for a in als] + list(itertools.permutations(als, 2)) + [als, als[::-1]]:
        for sr in [(r,) for r in res] + [res, res[::-1]]:
            if len(sa) * len(sr) > 1:
                grids.append((sa, sr))
    for sa, sr in grids:
        o = anal(g, np.tile(np.array(sa), (len(sr), 1)), np.tile(np.array(sr)[:, None], (1, len(sa))))
        ctx.state((f, k, sa, sr))
        ctx.step()
        ctx.trace()
        for i, a in enumerate(sa):
            for j, r in enumerate(sr):
                for n in OUT:
                    w = one[(a, r)][n][0, 0]
                    if not ctx.check(near(o[n][j, i], w), 'anal:batch:' + n, '%s at %g degrees, Re %g is another one in the batch %s x %s' % (n, a, r, sa, sr)):
                        return
    # angle and Reynolds number differing in every entry
    A = np.array([[-2.5, 6.3], [1.2, -2.5]])
    Rr = np.array([[6e4, 4e5], [4e5, 6e4]])
    o = anal(g, A, Rr)
    for i in range(2):
        for j in range(2):
            for n in ('cl', 'cd', 'cm', 'theta', 'cp'):
                ctx.check(near(o[n][j, i], one[(A[j, i], Rr[j, i])][n][0, 0]), 'anal:mixed:' + n, '%s of entry %d, %d' % (n, j, i))
    try:
        anal(g, [[1., 2.]], [[1e5]])
        ctx.check(False, 'anal:sizes', 'two angles and one Reynolds number accepted')
    except AssertionError:
        ctx.ev()


def r_mirror(ctx, f):
    g = geo(f, 40)
    h = SUAVE.Core.Data()
    h.x_coordinates, h.y_coordinates = g.x_coordinates[::-1].copy(), -g.y_coordinates[::-1]
    for a, r in itertools.product((-5.3, -1.7, 2.9, 7.1), (6e4, 4e5)):
        o, m = anal(g, [[a]], [[r]]), anal(h, [[-a]], [[r]])
        ctx.state((f, a, r))
        ctx.step()
        ctx.trace()
        if (o.cd == 0).any() or (m.cd == 0).any():
            continue  # listed finding of C28
        # the boundary layers are mirror images
        for n in ('theta', 'delta_star', 'H', 'Re_theta', 'cf'):
            u, v = o[n][0, 0], m[n][0, 0][::-1]
            ctx.check(u.shape == v.shape and np.mean(np.abs(u - v) <= 1e-4 * np.abs(u).max()) > .9, 'mirror:' + n, '%s of the mirrored section at %g degrees' % (n, a))
        ctx.close(m.Ue_Vinf[0, 0][::-1], o.Ue_Vinf[0, 0], 'mirror:speed', 'edge speed of the mirrored section', rtol=1e-6, atol=1e-8)
