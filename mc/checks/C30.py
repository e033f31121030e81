"""Noise levels add as sound energies, and the noise metrics follow their published procedures at every time step."""
import copy, itertools, math, warnings
import numpy as np
from mc import gaskit as G, rowkit as R
LEVEL = 'model_checking'
BOUNDS = ('every tuple, permutation and splitting of up to four sources; every band x level of a grid for noisiness, every shape x tone band x height for the tone correction; every level history up to length five over an alphabet of six; '
          'every pair of microphone counts; every combination of gear, flap, slots and units of the airframe model; every single row, pair and reversal of engine, airframe and rotor time steps, every permutation of microphones')
ASSUMPTIONS = ['the tables of FAR 36 appendix A, the component formulas of SAE ARP876 and Fink in the units the code uses, and the Hanson helicoidal formula are what is specified', 'half a second between the samples of a history']
MIN = {'evals': 100000}
TIME_LIMIT = 400
NOY = np.array([[50, 91, 64, 52, 49, 55, .043478, .030103, .07952, .058098], [63, 85.9, 60, 51, 44, 51, .04057, .030103, .06816, .058098], [80, 87.3, 56, 49, 39, 46, .036831, .030103, .06816, .052288],
                [100, 79.9, 53, 47, 34, 42, .036831, .030103, .05964, .047534], [125, 79.8, 51, 46, 30, 39, .035336, .030103, .053013, .043573], [160, 76, 48, 45, 27, 36, .033333, .030103, .053013, .043573],
                [200, 74, 46, 43, 24, 33, .033333, .030103, .053013, .040221], [250, 74.9, 44, 42, 21, 30, .032051, .030103, .053013, .037349], [315, 94.6, 42, 41, 18, 27, .030675, .030103, .053013, .034859]]
               + [[f, np.inf, 40, 40, 16, 25, .030103, 0, .053013, .034859] for f in (400, 500, 630, 800, 1000)]
               + [[1250, np.inf, 38, 38, 15, 23, .030103, 0, .05964, .034859], [1600, np.inf, 34, 34, 12, 21, .02996, 0, .053013, .040221], [2000, np.inf, 32, 32, 9, 18, .02996, 0, .053013, .037349],
                  [2500, np.inf, 30, 30, 5, 15, .02996, 0, .047712, .034859], [3150, np.inf, 29, 29, 4, 14, .02996, 0, .047712, .034859], [4000, np.inf, 29, 29, 5, 14, .02996, 0, .053013, .034859],
                  [5000, np.inf, 30, 30, 6, 15, .02996, 0, .053013, .034859], [6300, np.inf, 31, 31, 10, 17, .02996, 0, .06816, .037349],
                  [8000, 44.3, 37, 34, 17, 23, .042285, .02996, .07952, .037349], [10000, 50.7, 41, 37, 21, 29, .042285, .02996, .05964, .043573]])
BANDS = NOY[:, 0]
ATT = (.09, .11, .14, .17, .22, .28, .35, .44, .55, .7, .88, 1.11, 1.42, 1.78, 2.24, 2.88, 3.64, 4.6, 5.89, 7.63, 8.68, 11.08, 14.87, 20.61)
MIC = ((4., 3., -2.), (-6., 8., 5.), (30., -20., 12.), (2., 90., 40.))


def scenarios(tier):
    T = tier == 'thorough'
    out = [['sum', k] for k in range(3)] + [['pnl', k] for k in range(4)] + [['tone', k] for k in range(6)] + [['epnl', n] for n in range(1, 7 if T else 6)] + [['atten', 0]]
    out += [['mics', k] for k in range(3)] + [['geo', 0]] + [['fink', g, f] for g in range(4) for f in range(4)] + [['parts', k] for k in range(3)] + [['sae', k] for k in range(6 if T else 4)]
    out += [['prop', k] for k in range(8 if T else 6)] + [['point', k] for k in range(3)] + [['eval', k] for k in range(3)] + [['shev', 0], ['locus', 0]]
    return out


def run(ctx, sc):
    S = globals()['SUAVE'] = G.S()
    globals()['Data'] = S.Core.Data
    globals()['ft'], globals()['kts'] = S.Core.Units.ft, S.Core.Units.knots
    b = 'SUAVE.Methods.Noise.Fidelity_One.'
    mod = lambda n, a: getattr(__import__(b + n, fromlist=['x']), a)
    for n in ('pnl_noise', 'noise_tone_correction', 'epnl_noise', 'senel_noise', 'atmospheric_attenuation', 'noise_geometric', 'SPL_harmonic_to_third_octave'):
        globals()[n] = mod('Noise_Tools.' + n, n)
    for m, ns in (('decibel_arithmetic', ('SPL_arithmetic', 'SPL_spectra_arithmetic', 'pressure_ratio_to_SPL_arithmetic')), ('dbA_noise', ('dbA_noise', 'A_weighting')),
                  ('generate_microphone_points', ('generate_ground_microphone_points', 'generate_building_microphone_points')),
                  ('compute_noise_evaluation_locations', ('compute_ground_noise_evaluation_locations', 'compute_building_noise_evaluation_locations'))):
        for n in ns:
            globals()[n] = mod('Noise_Tools.' + m, n)
    for n in ('noise_clean_wing', 'noise_landing_gear', 'noise_leading_edge_slat', 'noise_trailing_edge_flap', 'noise_airframe_Fink'):
        globals()[n] = mod('Airframe.' + n, n)
    for n in ('noise_SAE', 'noise_source_location'):
        globals()[n] = mod('Engine.' + n, n)
    globals()['propeller_mid_fidelity'] = mod('Propeller.propeller_mid_fidelity', 'propeller_mid_fidelity')
    globals()['point_source'] = mod('Propeller.compute_source_coordinates', 'compute_point_source_coordinates')
    globals()['shevell'] = __import__('SUAVE.Methods.Noise.Fidelity_Zero.shevell', fromlist=['x']).shevell
    with np.errstate(all='ignore'), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        globals()['r_' + sc[0]](ctx, *sc[1:])
    ctx.sample(sc)


def esum(*v):
    return 10 * np.log10(sum(10 ** (np.asarray(x, dtype=float) / 10) for x in v))


# --------------------------------------------------------------- levels
def r_sum(ctx, k):
    A = (20., 55.5, 60., 91.25)
    if k == 0:
        for n in (1, 2, 3, 4):
            for t in itertools.product(A, repeat=n):
                a = np.array(t)[None, None, :]
                want = 10 * math.log10(sum(10 ** (x / 10) for x in t))
                for nm, got in (('arith', SPL_arithmetic(a)), ('spectra', SPL_spectra_arithmetic(a)), ('axis0', SPL_arithmetic(np.array(t)[:, None], sum_axis=0)), ('axis1', SPL_arithmetic(np.array(t)[None, :], sum_axis=1)),
                                ('ratio', pressure_ratio_to_SPL_arithmetic(10 ** (a[:, :, None, :] / 10)))):
                    ctx.close(float(np.ravel(got)[0]), want, 'sum:' + nm, 'levels %s add to another level' % (t,), rtol=1e-12)
                ctx.state(('sum', t))
                for m in range(1, n):  # in two steps
                    p, q = SPL_arithmetic(a[:, :, :m]), SPL_arithmetic(a[:, :, m:])
                    ctx.close(float(SPL_arithmetic(np.stack([p, q], -1))[0, 0]), want, 'sum:split', 'adding %s in two steps' % (t,), rtol=1e-12)
                ctx.check(np.array_equal(a.ravel(), t), 'sum:input', 'the levels handed in were changed')
                ctx.step()
        return
    s = S30()
    cf, lf, uf = s.center_frequencies, s.lower_frequencies, s.upper_frequencies
    ctx.check(len(cf) == len(lf) == len(uf) and np.all(lf < cf) and np.all(cf < uf) and np.all(np.abs(lf[1:] - uf[:-1]) < 1e-9), 'third:bands', 'the bands do not tile the spectrum')
    if k == 1:  # every set of tones from a small alphabet
        F = (17., 50., 98., 99., 430., 440., 2500., 10999., 12000.)
        for n in (1, 2, 3):
            for fs in itertools.combinations(F, n):
                for lev in itertools.product((40., 77.), repeat=n):
                    f = np.array([fs, tuple(x * .5 for x in fs)])
                    L = np.array(lev) + np.arange(2)[:, None]
                    SPL = np.broadcast_to(L[:, None, None, :], (2, 2, 3, n)).copy()
                    SPL[:, 1] += 3
                    SPL[:, :, 2] -= 7
                    got = SPL_harmonic_to_third_octave(SPL, f, s)
                    want = np.zeros((2, 2, 3, len(cf)))
                    for i in range(2):
                        for j in range(len(cf)):
                            ins = [q for q in range(n) if lf[j] <= f[i, q] <= uf[j]]
                            if ins:
                                want[i, :, :, j] = 10 * np.log10(np.sum(10 ** (SPL[i][:, :, ins] / 10), axis=2))
                    ctx.check(R.same(got, want, 1e-11), 'third:energy', 'tones at %s Hz fall into the wrong band or add wrongly' % (fs,))
                    ctx.state(('third', fs, lev))
                    ctx.step()
        return
    f = np.geomspace(20, 12000, 60)
    ref = lambda f: 20 * np.log10(12194. ** 2 * f ** 4 / ((f ** 2 + 20.6 ** 2) * np.sqrt((f ** 2 + 107.7 ** 2) * (f ** 2 + 737.9 ** 2)) * (f ** 2 + 12194. ** 2)))
    for L in (0., 40., 93.):
        got = A_weighting(np.full(60, L), f)
        ctx.check(R.same(got, L + ref(f) + 2., 1e-10, 1e-9), 'aw:formula', 'A weighting is not IEC 61672')
        tab = dbA_noise(np.full((2, 24), L))
        ctx.check(bool(np.all(np.abs(tab - (L + ref(BANDS) + 2.)) < .3)), 'aw:table', 'the A weighting of the bands is not IEC 61672')
        ctx.state(('aw', L))
        ctx.ev(n=84)


def S30():
    return SUAVE.Analyses.Noise.Fidelity_One().settings


def noys(L):
    n = np.zeros(24)
    for i in range(24):
        f, a, b, c, d, e, mb, mc, md, me = NOY[i]
        if L[i] >= a:
            n[i] = 10 ** (mc * (L[i] - c))
        elif L[i] >= b:
            n[i] = 10 ** (mb * (L[i] - b))
        elif L[i] >= e:
            n[i] = .3 * 10 ** (me * (L[i] - e))
        elif L[i] >= d:
            n[i] = .1 * 10 ** (md * (L[i] - d))
    return n


def ref_pnl(L):
    n = noys(L)
    N = .85 * n.max() + .15 * n.sum()
    return 40 + 10 / math.log10(2) * math.log10(N) if N else 0.


def r_pnl(ctx, k):
    grid = np.arange(0., 131., 1.) + .37
    if k == 0:  # one band at every level, alone and above a floor
        for i in range(24):
            for floor in (0., 35., 62.):
                L = np.full((len(grid), 24), floor)
                L[:, i] = grid
                got = pnl_noise(L)
                ctx.check(got.shape == (len(grid),), 'pnl:shape', 'one value per step')
                for j in range(len(grid)):
                    ctx.close(got[j], ref_pnl(L[j]), 'pnl:band%d' % i, 'band %g Hz at %.1f dB over %g dB' % (BANDS[i], grid[j], floor), rtol=1e-9, atol=1e-9)
                ctx.check(bool(np.all(np.diff(got) > -.35)), 'pnl:mono', 'a louder band %g Hz is less noisy' % BANDS[i])
                ctx.state(('pnl', i, floor))
                ctx.step(len(grid))
    elif k == 1:  # rows of a history on their own
        rows = [np.full(24, v) for v in (0., 30., 75.)] + [60 + 20 * np.sin(np.arange(24.)), np.linspace(90, 40, 24), np.linspace(20, 100, 24)]
        cols = dict(L=np.array(rows))
        R.rowcheck(ctx, 'pnl', lambda c: dict(p=pnl_noise(c['L']), t=noise_tone_correction(c['L'])), cols)
        ctx.close(float(pnl_noise(np.zeros((1, 24)))[0]), 0., 'pnl:silence', 'silence is not 0', atol=1e-9)
    elif k == 2:  # every pair of bands
        for i, j in itertools.combinations(range(24), 2):
            L = np.full((3, 24), 20.)
            L[:, i], L[:, j] = (45., 80., 99.), (88., 60., 99.)
            got = pnl_noise(L)
            for m in range(3):
                ctx.close(got[m], ref_pnl(L[m]), 'pnl:pair', 'bands %g and %g Hz' % (BANDS[i], BANDS[j]), rtol=1e-9)
            ctx.state(('pair', i, j))
            ctx.step()
    else:
        for v in np.arange(5., 120., 2.5):
            for sl in (-2., 0., 1.5):
                L = np.maximum(v + sl * (np.arange(24) - 12), 0)[None]
                ctx.close(pnl_noise(L)[0], ref_pnl(L[0]), 'pnl:slope', 'sloped spectrum %g %g' % (v, sl), rtol=1e-9, atol=1e-9)
                ctx.state(('slope', v, sl))


def ref_tone(L):
    S = dict(enumerate(L, 1))
    s = {i: S[i] - S[i - 1] for i in range(4, 25)}
    enc = {i for i in range(5, 25) if abs(s[i] - s[i - 1]) > 5}
    hit = set()
    for i in enc:
        if s[i] > 0 and s[i] > s[i - 1]:
            hit.add(i)
        elif s[i] <= 0 and s[i - 1] > 0:
            hit.add(i - 1)
    P = {i: S[i] for i in range(1, 25)}
    for i in hit:
        P[i] = .5 * (S[i - 1] + S[i + 1]) if i < 24 else S[23] + s[23]
    q = {i: P[i] - P[i - 1] for i in range(4, 25)}
    q[3], q[25] = q[4], q[24]
    bar = {i: (q[i] + q[i + 1] + q[i + 2]) / 3 for i in range(3, 24)}
    B = {3: S[3]}
    for i in range(4, 25):
        B[i] = B[i - 1] + bar[i - 1]
    best = 0.
    for i in range(3, 25):
        F = S[i] - B[i]
        mid = 500 <= BANDS[i - 1] <= 5000
        if F < 1.5:
            c = 0.
        elif F < 3:
            c = F / 3 - .5
        elif F < 20:
            c = F / 6
        else:
            c = 10 / 3
        best = max(best, 2 * c if mid else c)
    return best


def shapes():
    i = np.arange(24.)
    return [np.full(24, 60.), 80 - .6 * i, 50 + .9 * i, 70 + 6 * np.sin(i / 3), 75 - .05 * (i - 9) ** 2, 65 + 4 * (i % 3 == 0)]


def r_tone(ctx, k):
    L0 = shapes()[k]
    H = (-12., -4., 1., 2., 4., 7., 12., 19., 26.)
    rows, want = [], []
    for b in range(24):
        for h in H:
            L = L0.copy()
            L[b] += h
            rows.append(L)
            if b < 22:
                for d in (1, 2):
                    L = L0.copy()
                    L[b] += h
                    L[b + d] += h / 2
                    rows.append(L)
    A = np.array(rows)
    got = noise_tone_correction(A.copy())
    ctx.check(got.shape == (len(A),), 'tone:shape', 'one correction per step')
    for j in range(len(A)):
        ctx.close(float(got[j]), ref_tone(A[j]), 'tone:value', 'shape %d row %d' % (k, j), rtol=1e-9, atol=1e-9)
        ctx.state(('tone', k, j))
    ctx.step(len(A))
    for j in range(0, len(A), 7):
        ctx.close(float(noise_tone_correction(A[j:j + 1].copy())[0]), float(got[j]), 'tone:rows', 'a step alone gets another correction', atol=1e-12)
        ctx.close(float(noise_tone_correction(A[j:j + 1] + 11.)[0]), float(got[j]), 'tone:shift', 'a louder spectrum of the same shape gets another correction', atol=1e-9)


def r_epnl(ctx, n):
    for t in itertools.product((62., 71., 80., 85.5, 90., 94.) if n < 6 else (71., 85.5, 90., 94.), repeat=n):
        a = np.array(t)
        mx = a.max()
        ins = [i for i in range(n) if a[i] > mx - 10]
        inc = [i for i in range(n) if a[i] >= mx - 10]
        lo = 10 * math.log10(sum(10 ** (x / 10) for x in a[ins[0]:ins[-1] + 1]))
        st = max(min(ins[0], inc[0]) - 1, 0)
        hi = 10 * math.log10(sum(10 ** (x / 10) for x in a[st:inc[-1] + 1]))
        keep = a.copy()
        e, s = float(epnl_noise(a)), float(senel_noise(a))
        for nm, v, off in (('epnl', e, 13.), ('senel', s, 0.)):
            ctx.check(lo - off - 1e-9 <= v <= hi - off + 1e-9, nm + ':energy', 'history %s gives %.3f, the energy within 10 dB of the peak is %.3f to %.3f' % (t, v, lo - off, hi - off))
        ctx.check(np.array_equal(a, keep), 'epnl:input', 'the history was changed')
        for c in (-7.25, 20.):
            ctx.close(float(epnl_noise(a + c)), e + c, 'epnl:shift', 'history %s raised by %g' % (t, c), rtol=1e-12, atol=1e-9)
            ctx.close(float(senel_noise(a + c)), s + c, 'senel:shift', 'history %s raised by %g' % (t, c), rtol=1e-12, atol=1e-9)
        for nm, q in (('after', np.r_[a, 1., 1.]), ('before', np.r_[1., 1., a])):
            ctx.check(abs(float(epnl_noise(q)) - e) < (.8 if nm == 'before' else 1e-5) and (nm == 'before' or abs(float(senel_noise(q)) - s) < 1e-5), 'epnl:quiet', 'silence %s the event %s changes its exposure' % (nm, t))
        if ins[0] == 0:
            ctx.close(float(epnl_noise(np.r_[1., 1., a])), e, 'epnl:quiet before', 'silence before the event %s' % (t,), atol=1e-5, rtol=0)
        ctx.state(('epnl', t))
        ctx.step()
        ctx.ev(n=8)
    ctx.close(float(epnl_noise(np.zeros(n))), 0., 'epnl:zero', 'silence is not 0', atol=1e-12)


def r_atten(ctx, _):
    for d in (1., 33., 450., 2000., 12000.):
        a = np.asarray(atmospheric_attenuation(d))
        ctx.check(R.same(a, np.array(ATT) * d / 1000, 1e-12), 'atten:table', 'attenuation over %g m' % d)
        ctx.check(bool(np.all(np.diff(a) > 0)), 'atten:freq', 'high bands are attenuated less than low ones')
        ctx.state(('att', d))
        for e in (10., 700.):
            ctx.check(R.same(a + atmospheric_attenuation(e), atmospheric_attenuation(d + e), 1e-12), 'atten:path', 'attenuation does not add along the path')


# --------------------------------------------------------------- microphones
def r_mics(ctx, k):
    Ns = (1, 2, 3, 5)
    if k == 0:
        for nx, ny in itertools.product(Ns, Ns):
            for bx in ((0., 100.), (-50., 50.)):
                for by in ((1e-6, 450.), (-20., 7.)):
                    g = generate_ground_microphone_points(bx[0], bx[1], by[0], by[1], nx, ny)
                    want = [(x, y, 0.) for x in np.linspace(*bx, nx) for y in np.linspace(*by, ny)]
                    ctx.check(g.shape == (nx * ny, 3) and sorted(map(tuple, g)) == sorted(want), 'mics:ground', 'ground grid %d x %d' % (nx, ny))
                    ctx.state(('ground', nx, ny, bx, by))
                    ctx.step()
    elif k == 1:
        B = (((10., 20., 0.), (8., 6., 12.)), ((-30., 5., 0.), (3., 9., 30.)), ((100., -40., 0.), (25., 10., 4.)))
        for n in (1, 2, 3):
            for bs in itertools.permutations(B, n):
                for nx, ny, nz in itertools.product((2, 3, 4), (2, 3), (2, 4)):
                    try:
                        g = generate_building_microphone_points([b[0] for b in bs], [b[1] for b in bs], nx, ny, nz)
                    except Exception as e:
                        ctx.fail('mics:build', '%d buildings with %d x %d x %d points: %s' % (n, nx, ny, nz, e))
                        continue
                    want = []
                    for (o, d) in bs:
                        xs, ys, zs = o[0] + d[0] / 2 * np.linspace(-1, 1, nx), o[1] + d[1] / 2 * np.linspace(-1, 1, ny), d[2] * np.linspace(0, 1, nz)
                        want += [(x, y, z) for x in (xs[0], xs[-1]) for y in ys for z in zs] + [(x, y, z) for y in (ys[0], ys[-1]) for x in xs for z in zs] + [(x, y, d[2]) for x in xs for y in ys]
                    rd = lambda q: sorted(tuple(round(float(v), 7) + 0. for v in p) for p in q)
                    ctx.check(len(g) == len(want) and rd(g) == rd(want), 'mics:walls', 'walls and roof of %d buildings with %d x %d x %d points' % (n, nx, ny, nz))
                    ctx.state(('build', bs, nx, ny, nz))
                    ctx.step()
    else:
        gm = generate_ground_microphone_points(-40., 1000., 10., 450., 3, 2)
        bm = generate_building_microphone_points([(10., 20., 0.)], [(8., 6., 12.)], 2, 2, 3)
        P = np.array([[0.5, 0., -100.], [250., -30., -600.], [900., 77., -12.], [-5., 3., -1000.]])

        def f(c):
            st, seg = Data(), Data()
            st.ground_microphone_locations, st.urban_canyon_microphone_locations = gm.copy(), bm.copy()
            seg.state = Data()
            seg.state.conditions = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
            seg.state.conditions.frames.inertial.position_vector = c['p']
            a, b = compute_ground_noise_evaluation_locations(st, seg), compute_building_noise_evaluation_locations(st, seg)
            st.urban_canyon_microphone_locations = None
            e = compute_building_noise_evaluation_locations(st, seg)
            n = len(c['p'])
            ctx.check(e[3] == 0 and e[0].shape == (n, 0) and e[1].shape == (n, 0) and e[2].shape == (n, 0, 3), 'mics:none', 'no buildings means no microphones')
            ctx.check(a[3] == len(gm) and b[3] == len(bm), 'mics:count', 'the number of microphones')
            for i in range(n):
                for nm, q, m in (('ground', a, gm), ('building', b, bm)):
                    pos = np.array([c['p'][i, 0], c['p'][i, 1], -c['p'][i, 2]])
                    d = pos - m
                    ctx.check(R.same(q[2][i], d, 1e-12), 'mics:vector:' + nm, 'relative position of the aircraft')
                    ctx.check(R.same(np.tan(q[0][i]), d[:, 2] / d[:, 0], 1e-9) and R.same(np.tan(q[1][i]), d[:, 2] / d[:, 1], 1e-9), 'mics:angle:' + nm, 'angles to the microphones')
            return dict(a=a[2], b=b[2], t=a[0], u=b[0], v=a[1], w=b[1])
        R.rowcheck(ctx, 'mics', f, dict(p=P))


def approach_segment(s, h, settings=None):
    seg = Data()
    seg.conditions = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    seg.conditions.frames.inertial.position_vector = np.c_[s, np.zeros_like(s), -np.asarray(h, dtype=float)]
    an = Data()
    an.noise = Data()
    an.noise.settings = settings or S30()
    an.noise.settings.approach = True
    return seg, an


def r_geo(ctx, _):
    xs, hs = (0., 500., 1999., 2001., 2400., 5000.), (5., 120., 600.)
    P = list(itertools.product(xs, hs))
    s, h = np.array([p[0] for p in P]), np.array([p[1] for p in P])
    seg, an = approach_segment(s, h)
    keep = seg.conditions.frames.inertial.position_vector.copy()
    o = noise_geometric(seg, an, None)
    ctx.check(np.array_equal(keep, seg.conditions.frames.inertial.position_vector), 'geo:input', 'the flight path was changed')
    for i in range(len(P)):
        d = math.hypot(h[i], s[i] - 2000.)
        ctx.close(o.dist[i], d, 'geo:dist', 'distance from %s' % (P[i],), rtol=1e-6)
        ctx.close(math.sin(o.theta[i]), h[i] / d, 'geo:theta', 'angle from %s' % (P[i],), rtol=1e-6)
        ctx.close(math.cos(o.theta[i]), (s[i] - 2000.) / d, 'geo:theta side', 'angle from %s' % (P[i],), rtol=1e-6)
        ctx.close(o.phi[i], 0., 'geo:phi', 'overhead', atol=1e-12)
        ctx.state(('geo', P[i]))
        ctx.ev(n=4)


# --------------------------------------------------------------- airframe
def ref_wing(S, b, ND, hor, V, mu, M, phi, th, d, f):
    de = .37 * (S / b) * (V / ft * S / (b * mu)) ** -.2
    D = math.cos(phi) if hor else math.sin(phi)
    if D == 0:
        return np.zeros(len(f))
    x = f / (.1 * (V / ft) / (de * (1 - M * math.cos(th))))
    oa = 50 * np.log10(V / kts / 100) + 10 * np.log10(de * b / d ** 2) + 8 * ND + 20 * np.log10(D * math.sin(th) * math.cos(th / 2)) + 104.3
    return oa + 10 * np.log10(.613 * x ** 4 / (x ** 1.5 + .5) ** 4) - .03 * np.abs(x - 1) ** 1.5


def ref_flap(S, c, de, slots, V, M, phi, th, d, f):
    x = f * c / (V / ft * (1 - M * math.cos(th)))
    brk = (20., 103.82, 6., 135.04) if slots < 3 else (75., 102.61, 2., 158.11)
    Gx = np.array([99 + 10 * math.log10(v) if v < 2 else (brk[1] - brk[2] * math.log10(v) if v < brk[0] else brk[3] - 30 * math.log10(v)) for v in x])
    D = 20 * math.log10(math.sin(th) * math.cos(phi) ** 2 * math.sin(th + de)) if th + de < math.pi else 0.
    return Gx + 10 * math.log10(S * math.sin(de) ** 2 / d ** 2) + 60 * math.log10(V / kts / 100) + D


def r_parts(ctx, k):
    f = BANDS
    n = 0
    for V, M, mu in ((70., .21, 1.7e-6), (95., .3, 1.6e-6)):
        for phi, th, d in itertools.product((0., .4, 1.2), (.3, 1.2, 2.2), (80., 450.)):
            if k == 0:
                for S, b, ND, hor in ((1300., 110., 0, 1), (300., 40., 0, 1), (250., 25., 0, 0), (195., 110., 1, 1)):
                    ctx.check(R.same(noise_clean_wing(S, b, ND, hor, V, mu, M, phi, th, d, f), ref_wing(S, b, ND, hor, V, mu, M, phi, th, d, f), 1e-9, 1e-9), 'wing:%d%d' % (ND, hor), 'trailing edge noise')
                    n += 1
                w = ref_wing(1300., 110., 0, 1, V, mu, M, phi, th, d, f)
                w2 = ref_wing(.15 * 1300., 110., 1, 1, V, mu, M, phi, th, d, f)
                ctx.check(R.same(noise_leading_edge_slat(w.copy(), 1300., 110., V, mu, M, phi, th, d, f), esum(w + 3, w2 + 3 + w.max() - w2.max()), 1e-9, 1e-9), 'slat', 'slat noise')
            elif k == 1:
                for de, sl in itertools.product((.1, .35, .7), (1, 2, 3)):
                    ctx.check(R.same(noise_trailing_edge_flap(120., 3.5, de, sl, V, M, phi, th, d, f), ref_flap(120., 3.5, de, sl, V, M, phi, th, d, f), 1e-9, 1e-9), 'flap:%d' % sl, 'flap noise at %g rad' % de)
                    n += 1
            else:
                for D, H, wh in itertools.product((2.2, 3.6), (4., 6.), (1, 2, 4)):
                    a = noise_landing_gear(D, H, wh, M, V, phi, th, d, f)
                    ctx.check(R.same(noise_landing_gear(D, H, wh, M, V, phi, th, 2 * d, f), a - 20 * math.log10(2), 1e-9, 1e-9), 'gear:distance', 'twice the distance is not 6 dB')
                    q = 1.25  # same Strouhal number: size and speed together
                    ctx.check(R.same(noise_landing_gear(D, H, wh, M, q * V, phi, th, d, q * f), a + 60 * math.log10(q), 1e-9, 1e-6) or wh < 3, 'gear:speed', 'sixth power of the speed')
                    ctx.check(a.shape == (24,) and bool(np.all(np.isfinite(a))), 'gear:finite', 'finite levels')
                    if wh == 1:
                        ctx.check(R.same(a, noise_landing_gear(D, H, 2, M, V, phi, th, d, f), 0.), 'gear:wheels', 'one and two wheels share the curve')
                    p = np.random.RandomState(3).permutation(24)
                    ctx.check(R.same(noise_landing_gear(D, H, wh, M, V, phi, th, d, f[p]), a[p], 1e-12), 'gear:bands', 'each band on its own')
                    n += 1
            ctx.state(('parts', k, V, phi, th, d))
    ctx.step(n)
    ctx.ev(n=n)


def airframe(gear, units, mw, nw, de, slots):
    c = Data()
    c.tag = 'x'
    c.wings = Data()
    for t, S, b in (('main_wing', 125., 34.), ('horizontal_stabilizer', 32., 14.), ('vertical_stabilizer', 26., 7.8)):
        w = Data()
        w.areas, w.spans = Data(reference=S), Data(projected=b)
        c.wings[t] = w
    c.wings.main_wing.control_surfaces = Data()
    c.wings.main_wing.control_surfaces.flap = Data(deflection=de, area=20., chord_dimensional=1.2, configuration_type=('single_slotted', 'double_slotted', 'triple_slotted')[slots - 1])
    c.landing_gear = Data(main_tire_diameter=1.12, nose_tire_diameter=.6858, main_strut_length=1.8, nose_strut_length=1.3, main_units=units, nose_units=1, main_wheels=mw, nose_wheels=nw, gear_condition=gear)
    return c


ROWS = dict(t=np.array([0., .5, 1., 1.5, 2.]), alt=np.array([400., 320., 150., 60., 30.]), dist=np.array([1500., 800., 300., 500., 1200.]), theta=np.array([2.5, 2.1, 1.5, .9, .5]), phi=np.array([0.2, .1, .25, .3, .15]),
            a=np.array([338., 338.5, 339., 339.4, 340.]), mu=np.array([1.7e-5, 1.72e-5, 1.74e-5, 1.76e-5, 1.78e-5]), T=np.array([284., 285., 286., 287., 288.]), p=np.array([9.7e4, 9.8e4, 9.95e4, 1.005e5, 1.01e5]),
            rho=np.array([1.18, 1.19, 1.2, 1.21, 1.22]), al=np.array([.1, .1, .1, .1, .1]), V=np.full(5, 72.))


def segment_of(c):
    s = Data()
    s.conditions = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    fs = s.conditions.freestream
    col = lambda v: np.array(v, dtype=float).reshape(-1, 1)
    fs.velocity, fs.altitude, fs.speed_of_sound, fs.dynamic_viscosity = col(c['V']), col(c['alt']), col(c['a']), col(c['mu'])
    fs.temperature, fs.pressure, fs.density = col(c['T']), col(c['p']), col(c['rho'])
    s.conditions.frames.inertial.time = col(c['t'])
    s.conditions.aerodynamics.angle_of_attack = col(c['al'])
    s.dist, s.theta, s.phi = np.array(c['dist']), np.array(c['theta']), np.array(c['phi'])
    return s


def ref_fink(cfg, c, i):
    w, lg = cfg.wings, cfg.landing_gear
    V, mu, M = float(c['V'][0]), c['mu'][i] * ft * ft, float(c['V'][0]) / c['a'][i]
    phi, th, d = c['phi'][i], c['theta'][i], c['dist'][i]
    at = np.array(ATT) * d / 1000
    f = BANDS
    geo = [(w[t].areas.reference / ft ** 2, w[t].spans.projected / ft) for t in ('main_wing', 'horizontal_stabilizer', 'vertical_stabilizer')]
    wing = ref_wing(*geo[0], 0, 1, V, mu, M, phi, th, d, f)
    parts = [wing - at, ref_wing(*geo[1], 0, 1, V, mu, M, phi, th, d, f) - at, ref_wing(*geo[2], 0, 0, V, mu, M, phi, th, d, f) - at]
    w2 = ref_wing(.15 * geo[0][0], geo[0][1], 1, 1, V, mu, M, phi, th, d, f)
    parts.append(esum(wing + 3, w2 + 3 + wing.max() - w2.max()) - at)
    fl = w.main_wing.control_surfaces.flap
    if fl.deflection:
        parts.append(ref_flap(fl.area / ft ** 2, fl.chord_dimensional / ft, fl.deflection, {'s': 1, 'd': 2, 't': 3}[fl.configuration_type[0]], V, M, phi, th, d, f) - at)
    if lg.gear_condition != 'up':
        parts.append(noise_landing_gear(lg.main_tire_diameter / ft, lg.main_strut_length / ft, lg.main_wheels, M, V, phi, th, d, f) - at + 10 * math.log10(lg.main_units))
        parts.append(noise_landing_gear(lg.nose_tire_diameter / ft, lg.nose_strut_length / ft, lg.nose_wheels, M, V, phi, th, d, f) - at)
    return esum(*parts)


def r_fink(ctx, g, k):
    gear, units, mw, nw = (('up', 1, 2, 2), ('down', 1, 2, 2), ('down', 2, 4, 2), ('down', 3, 4, 1))[g]
    de, sl = ((0., 2), (.35, 1), (.6, 2), (.6, 3))[k]
    cfg = airframe(gear, units, mw, nw, de, sl)
    s = S30()
    an = Data()

    def f(c):
        keep = copy.deepcopy(cfg)
        o = noise_airframe_Fink(segment_of(c), an, cfg, s)
        ctx.check(R.flat(keep).keys() == R.flat(cfg).keys() and all(R.same(R.flat(keep)[q], R.flat(cfg)[q], 0.) for q in R.flat(keep)), 'fink:config', 'the configuration was changed')
        n = len(c['t'])
        D = o.SPL_spectrum
        for i in range(n):
            want = ref_fink(cfg, c, i)
            # parts that are switched off count as one source at 0 dB each
            ctx.check(bool(np.all(np.abs(D[i] - want) < np.maximum(1e-6, 10 * np.log10(1 + 6 * 10 ** (-np.minimum(want, D[i]) / 10))))), 'fink:total', 'the total of step %d is not the energy sum of its components' % i)
            aw = dbA_noise(D[i])
            ctx.close(float(o.SPL[i]), float(esum(*D[i])), 'fink:SPL', 'overall level of step %d' % i, rtol=1e-10)
            ctx.close(float(o.SPL_dBA[i]), float(esum(*aw)), 'fink:SPL_dBA', 'A weighted level of step %d' % i, rtol=1e-10)
        pt = np.array([ref_pnl(x) + ref_tone(x) for x in D]) if D.min() > 0 else pnl_noise(D) + noise_tone_correction(D)
        ctx.close(float(o.EPNL_total), float(epnl_noise(pt)), 'fink:EPNL', 'EPNL of %d steps' % n, rtol=1e-9)
        ctx.close(float(o.SENEL_total), float(senel_noise(np.array([dbA_noise(x).max() for x in D]))), 'fink:SENEL', 'SENEL of %d steps' % n, rtol=1e-9)
        ctx.check(R.same(o.noise_time, c['t'], 0.), 'fink:time', 'times')
        return dict(sp=D, L=o.SPL, A=o.SPL_dBA)
    R.rowcheck(ctx, 'fink', f, ROWS)


# --------------------------------------------------------------- engine
def jet(k):
    e = Data()
    e.core_nozzle, e.fan_nozzle, e.fan = Data(), Data(), Data()
    e.design_thrust = (52700., 24000., 30000., 52700., 90000., 40000.)[k]
    e.fan.rotation = (0., 0., 3000., 1500., 5200., 0.)[k]
    e.core_nozzle_diameter, e.fan_nozzle_diameter = ((.92, 1.659), (.5, 1.1), (.7, 1.4), (.92, 1.659), (.9, 2.4), (.8, .9))[k]
    e.engine_height, e.exa, e.plug_diameter, e.geometry_xe, e.geometry_ye, e.geometry_Ce = (.5, 1, .1, 1., 1., 2.) if k % 2 == 0 else (1.8, .6, .25, .7, 1.6, 3.)
    return e


JROWS = dict(ROWS, Vp=np.array([420., 400., 430., 390., 410.]), Vs=np.array([290., 280., 300., 285., 275.]), Tp=np.array([800., 780., 820., 790., 805.]), Ts=np.array([340., 335., 345., 338., 341.]),
             Pp=np.array([1.6e5, 1.55e5, 1.65e5, 1.58e5, 1.6e5]), Ps=np.array([1.5e5, 1.46e5, 1.55e5, 1.48e5, 1.51e5]))


def root_angle(XJ, th, d):
    """the angle seen from the source inside the jet: cot(t) = (XJ(t)/d + cos th)/sin th, by bisection"""
    g = lambda t: t - math.atan2(1., (XJ(t) / d + math.cos(th)) / math.sin(th))
    lo, hi = 1e-9, math.pi - 1e-9
    for _ in range(80):
        m = .5 * (lo + hi)
        if g(m) > 0:
            hi = m
        else:
            lo = m
    return .5 * (lo + hi)


def ref_sae(e, c, i, ang=None):
    Rg, f = 287.1, BANDS
    sc = e.design_thrust / 52700.
    Vp, Vs, N1 = c['Vp'][i] * .92 * sc, c['Vs'][i] * sc, e.fan.rotation * .92 * sc
    Tp, Ts, Pp, Ps = c['Tp'][i], c['Ts'][i], c['Pp'][i], c['Ps'][i]
    Va, a, rho, p = float(c['V'][0]), c['a'][i], c['rho'][i], c['p'][i]
    Dp, Ds = e.core_nozzle_diameter, e.fan_nozzle_diameter
    Ap, As = math.pi * Dp ** 2 / 4, math.pi * Ds ** 2 / 4
    cpp, cp = Rg / (1 - 1 / 1.37), Rg / (1 - 1 / 1.4)
    rp, rs = Pp / (Rg * Tp - .5 * Rg * Vp ** 2 / cpp), Ps / (Rg * Ts - .5 * Rg * Vs ** 2 / cp)
    mp, ms = Ap * Vp * rp, As * Vs * rs
    Vm, Tm = (mp * Vp + ms * Vs) / (mp + ms), (mp * Tp + ms * Ts) / (mp + ms)
    rm = p / (Rg * Tm - .5 * Rg * Vm ** 2 / cp)
    Am = Ap * rp * Vp * (1 + ms / mp) / (rm * Vm)
    Dm = math.sqrt(4 * Am / math.pi)
    xb = min(max(ms / mp - 5.5, 0.), 4.)
    dv = max(abs(Vp - (Vs * As + Va * Ap) / (As + Ap)), .3)
    Sp, Ss, Sm = f * Dp / dv, f * Dm / (Vs - Va), f * Dm / (Vm - Va)
    es = N1 / 60 * Dm / Vm
    SX = 0. if .25 < es < .5 else 50 * (es - .25) * (es - .5)
    ex = math.exp(-SX)
    exs = 5 * ex * np.exp(-np.log10(Sm / (2 * es + 1e-5)) ** 2)
    exd = math.exp(.6 - e.exa ** .5)
    zk = 1 - .4 * exd * ex
    th, d = c['theta'][i], c['dist'][i]
    X = dict(p=lambda t, q: zk * Dp * (4 + 4 * math.atan(18 * t / math.pi - 9) + As / Ap),
             s=lambda t, q: zk * Dm * (2 + 1.6 * math.atan(4.5 * t / math.pi - 2.25)) * (1 + .5 / math.sqrt(Ss[q])) * math.sqrt(1 + .7 * Vs / a) * (Vs / (Vs - Va)),
             m=lambda t, q: zk * Dm * (3 + math.exp(-Sm[q]) + (2 + 1.1 * math.atan(18 * t / math.pi - 13)) + (1 + .5 / math.sqrt(Sm[q]))) * math.sqrt(.5 + .5 * Vm / a) * (Vm / (Vm - Va)))
    root = {n: np.array([root_angle(lambda t: X[n](t, q), th, d) for q in range(24)]) for n in 'psm'}
    tp, ts, tm = [(ang or root)[n] for n in 'psm']
    u = lambda t: 1.8 * t / math.pi - .6
    lA = np.log10(1 + As / Ap)
    exc = a / Vm * np.where(tm <= 1.4, 1., 1 - 1.8 / math.pi * (tm - 1.4))
    at = np.array(ATT) * d / 1000
    amb = 20 * math.log10(p / 101325)
    DS = [amb + 20 * math.log10((rp + rs) / (2 * rho)) + 20 * math.log10(Dp / d) - at, amb + 20 * math.log10((rs + rho) / (2 * rho)) + 20 * math.log10(Dm / d) - at, amb + 20 * math.log10((rm + rho) / (2 * rho)) + 20 * math.log10(Dm / d) - at]
    # primary
    ve = np.where(tp <= 2.2, 1.56, 1.5 * np.exp(-10 * (tp - 2.2) ** 2))
    FV = np.log10(Vp / math.sqrt(1.4 * Rg * Tp) * (dv / a) ** .6 * ((Vp + Vs) / a) ** .4 * (abs(Vp - Va) / Vp) ** ve)
    P = (-18 * u(tp) ** 2 * FV - 18 - 18 * u(tp) ** 2) * (np.log10(Sp) + .1 + .75 * (Vp - Vs - Va) / a * u(tp) ** 3 - .8 * (.6 - lA)) ** 2 + (50 + 20 * np.exp(-(tp - 2.6) ** 2)) * FV \
        + 94 + 46 * np.exp(-(tp - 2.5) ** 2) - 26 * (.6 - lA) * np.exp(-5 * (tp - 2.3) ** 2) + DS[0] + 5 * exd * ex
    # secondary
    ve = .05 * ts
    FV = np.log10(((Vs - Va) / a) ** ve * ((Vs + Va) / a) ** (1 - ve))
    Q = (-18 * u(ts) ** 2 * FV - 14 - 8 * u(ts) ** 3) * (np.log10(Ss) + .7 * FV - .6 + .5 * u(ts) ** 2 - .5 * (.6 - lA)) ** 2 + (51 + 54 * ts / math.pi - 9 * u(ts) ** 3) * FV \
        + 99 + 36 * ts / math.pi - 15 * u(ts) ** 4 + 5 * Vs * (Vp - Vs) / a ** 2 + DS[1] + 2 * a / (Vs * zk)
    # mixed
    ve = math.sqrt(Vm / a) * (.6 + .2 / (.2 + Sm) * np.exp(-.3 * (tm + Sm / (1 + Sm) - 2.7) ** 2))
    FV = np.log10(((Vm - Va) / a) ** ve * ((Vm + Va) / a) ** (1 - ve))
    Z4 = .44 - .5 * np.exp(-(4.5 * tm / math.pi - 4) ** 2) + .2 * Vp / a - .7 * Vm / a - .2 * math.log10((1 + As) / Ap) + .05 * xb * np.exp(-5 * (tm - 2.4) ** 2)
    Wm = (-30 * u(tm) ** 2 * FV - 9 - 4 * (Vp - Vs) / a - 38 * u(tm) ** 3 + 30 * (.6 - lA) * u(tm)) * (np.log10(Sm) - (1 - .4 * u(tm) ** 2) * FV - Z4) ** 2 + (34 + 81 * tm / math.pi - 20 * u(tm) ** 3) * FV \
        + 108 + 37.8 * tm / math.pi + 5 * Vm * (Vp - Vs) / a ** 2 - np.exp(-5 * (tm - 1.8) ** 2) + 7 * Vm / a * (1 - .4 * Vp / a * np.exp(-.7 * np.abs(Sm - .8))) * np.exp(-8 * (tm - 2.4) ** 2) \
        + .8 * xb * np.exp(tm - 2.3 - Vm / a) + DS[2] + exd * exs * exc
    AOA = np.mean(c['al']) * 180 / math.pi
    P = P + .1 * Vp / a * (10 - 18 * tp / math.pi) * e.plug_diameter / Dp
    Q = Q + .1 * Vs / a * (6 - 18 * ts / math.pi) * e.plug_diameter / Ds + np.minimum(.5 * (e.geometry_Ce - e.geometry_xe) ** 2 / (e.geometry_Ce * Dm) * (np.exp(-e.geometry_ye / Dm) * 1.8 * ts / math.pi - .6) ** 2, 2.5)
    h = e.engine_height
    Wm = Wm + .1 * Vp * Vm / a ** 2 * (9 - 18 * tm / math.pi) * e.plug_diameter / Dm + .5 * AOA * Va / a * u(tm) ** 2 \
        + 5 * Vm / a * np.exp(-(9 * tm / math.pi - 6.75) ** 2 - (h / Dm - 2.5) ** 2) * (1 + np.sin(math.pi * h * f / a - math.pi / 2) ** 2) / (2 + np.abs(h * f / a - 1))
    return esum(P, Q, Wm), root, dict(p=Dp / 200, s=Dm / 200, m=Dm / 200), X, (Vp, Vs, Vm, Va, a, Dp, Ds, Dm, Ap, As, zk, Ss, Sm, th, d)


def r_sae(ctx, k):
    e = jet(k)
    s = S30()

    def f(c):
        seg = segment_of(c)
        seg.conditions.noise = Data()
        col = lambda n: c[n].reshape(-1, 1)
        seg.conditions.noise.sources = Data()
        seg.conditions.noise.sources.turbofan = Data()
        seg.conditions.noise.sources.turbofan.core = Data(exit_stagnation_temperature=col('Tp'), exit_stagnation_pressure=col('Pp'), exit_velocity=col('Vp'))
        seg.conditions.noise.sources.turbofan.fan = Data(exit_stagnation_temperature=col('Ts'), exit_stagnation_pressure=col('Ps'), exit_velocity=col('Vs'))
        e.core_nozzle.noise_speed, e.fan_nozzle.noise_speed = c['Vp'].copy(), c['Vs'].copy()
        o = noise_SAE(e, seg, Data(), Data(tag='x'), s)
        D = np.array(o.SPL_spectrum)
        for i in range(len(c['t'])):
            want = ref_sae(e, c, i)[0]
            ctx.check(bool(np.all(np.abs(D[i] - want) < .25)), 'sae:total', 'jet noise of step %d differs by %.3f dB from the sum of its components' % (i, float(np.max(np.abs(D[i] - want)))))
            ctx.close(float(o.SPL[i]), float(esum(*D[i])), 'sae:SPL', 'overall level of step %d' % i, rtol=1e-10)
            ctx.close(float(o.SPL_dBA[i]), float(dbA_noise(D[i]).max()), 'sae:SPL_dBA', 'A weighted level of step %d' % i, rtol=1e-10)
        pt = pnl_noise(D) + noise_tone_correction(D)
        ctx.close(float(o.EPNL_total), float(epnl_noise(pt)), 'sae:EPNL', 'EPNL', rtol=1e-9)
        ctx.close(float(o.SENEL_total), float(senel_noise(np.array([dbA_noise(x).max() for x in D]))), 'sae:SENEL', 'SENEL', rtol=1e-9)
        return dict(L=o.SPL)
    R.rowcheck(ctx, 'sae', f, JROWS, rtol=0, atol=.2)


def r_locus(ctx, _):
    for k in range(6):
        for i in range(5):
            for th in (.25, .8, 1.57, 2.2, 2.8):
                c = dict(JROWS, theta=np.full(5, th))
                _, root, tol, X, (Vp, Vs, Vm, Va, a, Dp, Ds, Dm, Ap, As, zk, Ss, Sm, _, d) = ref_sae(jet(k), c, i)
                st = [np.full(24, math.pi / 2) for _ in range(3)]
                o = noise_source_location(np.zeros(24), 0, zk, Dp, st[0], Ap, As, d, Ds, th, st[1], st[2], Dm, Vp, Vs, Vm, Va, a, Sm, Ss)
                for n, t in (('p', o.theta_p), ('s', o.theta_s), ('m', o.theta_m)):
                    for q in range(24):
                        dx = abs(X[n](t[q], q) - X[n](root[n][q], q))
                        ctx.check(dx <= 2.5 * tol[n], 'locus:' + n, 'source of band %g Hz is %.3f m from where its angle says' % (BANDS[q], dx))
                ctx.state(('locus', k, i, th))
                ctx.step(72)


# --------------------------------------------------------------- rotors
def rotor(o=(0., 0., 0.), ori=(0., 0., 0.), B=3, tag='r'):
    p = SUAVE.Components.Energy.Converters.Propeller()
    p.tag = tag
    n = 4
    p.tip_radius, p.hub_radius, p.number_of_blades = 1.1, .2, B
    p.radius_distribution = np.linspace(.25, 1.05, n)
    p.chord_distribution = np.array([.12, .15, .13, .08])
    p.thickness_to_chord = np.array([.2, .15, .12, .1])
    p.mid_chord_alignment = np.array([0., .01, .02, .01])
    p.origin, p.orientation_euler_angles = [list(o)], list(ori)
    p.nonuniform_freestream = False
    p.airfoil_polar_stations = [0, 0, 1, 1]
    p.Airfoils = Data()
    re, al = np.array([1e4, 5e5, 5e6]), np.array([-.3, 0., .3])
    for j in range(2):
        bl = Data(reynolds_numbers=re, angle_of_attacks=al)
        for q, (nm, v) in enumerate((('theta', .002), ('delta', .02), ('delta_star', .004), ('Ue_Vinf', 1.05), ('cf', .003), ('dcp_dx', .4))):
            for h, side in enumerate(('lower_surface', 'upper_surface')):
                g = v * (1 + .1 * j + .15 * h) * (1 + .1 * np.arange(3)[:, None] + .07 * np.arange(3)[None, :])
                bl[nm + '_' + side] = np.repeat(g[:, :, None], 6, axis=2) * (1 + .02 * np.arange(6))
        a = Data()
        a.polars = Data()
        a.polars.boundary_layer = bl
        p.Airfoils['a%d' % j] = a
    return p


PROWS = dict(V=np.array([[60., 0., 0.], [75., 0., -3.], [40., 2., 1.]]), al=np.array([.02, .08, .15]), a=np.array([340., 335., 330.]), rho=np.array([1.2, 1.05, .9]), mu=np.array([1.8e-5, 1.75e-5, 1.7e-5]),
             om=np.array([200., 250., 180.]), ya=np.array([0., 0., 0.]), pitch=np.array([.02, .1, -.05]), roll=np.array([0., .1, .3]), ld=np.array([1., 1.6, .7]))


def rotmat(pitch, roll):
    cp, sp_, cr, sr = math.cos(pitch), math.sin(pitch), math.cos(roll), math.sin(roll)
    return np.array([[cp, 0, sp_], [0, 1, 0], [-sp_, 0, cp]]) @ np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])


def rotor_case(c, rs, mics, seth):
    n = len(c['al'])
    con = SUAVE.Analyses.Mission.Segments.Conditions.Aerodynamics()
    con._size = n
    col = lambda v: np.array(v, dtype=float).reshape(-1, 1)
    con.freestream.density, con.freestream.speed_of_sound, con.freestream.dynamic_viscosity = col(c['rho']), col(c['a']), col(c['mu'])
    con.aerodynamics.angle_of_attack = col(c['al'])
    con.frames.inertial.velocity_vector = np.array(c['V'])
    con.frames.body.transform_to_inertial = np.array([rotmat(c['pitch'][i], c['roll'][i]) for i in range(n)])
    con.noise = Data()
    con.noise.total_microphone_locations = np.repeat(np.array(mics)[None], n, axis=0)
    seg = Data()
    seg.state = Data()
    seg.state.conditions = con
    d = Data()
    d.omega = col(c['om'])
    r, az = rs[0].radius_distribution, 5
    one = np.ones((n, 4, az))
    d.blade_dT_dr = c['ld'][:, None] * np.array([60., 150., 210., 90.])[None]
    d.blade_dQ_dr = c['ld'][:, None] * np.array([10., 30., 48., 25.])[None]
    d.disc_azimuthal_distribution = one * np.linspace(0, 2 * np.pi, az)
    d.disc_effective_angle_of_attack = one * .05 * c['ld'][:, None, None] * (1 - .1 * np.arange(4))[None, :, None]
    d.disc_tangential_velocity = one * (c['om'][:, None] * r[None])[:, :, None]
    d.disc_axial_velocity = one * c['V'][:, 0][:, None, None]
    P = SUAVE.Core.Container()
    for q in rs:
        q.inputs = Data()
        q.inputs.y_axis_rotation = col(c['ya'])
        P.append(q)
    return P, d, seg


def ref_point(c, i, mic, q, ya=None):
    return -(np.array(mic) + rotmat(c['pitch'][i], c['roll'][i]) @ np.array(q.origin[0]))


def ref_harmonic(c, i, mic, q, d, H):
    from scipy.special import jv
    x, y, z = ref_point(c, i, mic, q)
    B, Om, a, rho = q.number_of_blades, c['om'][i], c['a'][i], c['rho'][i]
    V = float(np.linalg.norm(c['V'][i]))
    th0 = math.acos(x / math.sqrt(x * x + y * y + z * z))
    Y, ori = math.hypot(y, z), np.array(q.orientation_euler_angles, dtype=float)
    import scipy.spatial.transform as T
    al = c['al'][i] + math.acos(min(1., T.Rotation.from_rotvec(ori).as_matrix()[0, 0]))
    r, R_ = q.radius_distribution / q.radius_distribution[-1], q.tip_radius
    D = 2 * q.radius_distribution[-1]
    Mx, Mt = V / a, R_ * Om / a
    Mr = np.sqrt(Mx ** 2 + r ** 2 * Mt ** 2)
    phi = math.atan(z / y)
    th = math.acos(math.cos(th0) * math.sqrt(1 - Mx ** 2 * math.sin(th0) ** 2) + Mx * math.sin(th0) ** 2)
    thp = math.acos(math.cos(th) * math.cos(al) + math.sin(th) * math.sin(phi) * math.sin(al))
    dop = 1 - Mx * math.cos(th)
    BD = q.chord_distribution / D
    out = []
    for m in H:
        kx = 2 * m * B * BD * Mt / (Mr * dop)
        pV = 8 / kx ** 2 * (2 / kx * np.sin(kx / 2) - np.cos(kx / 2))
        pL = 2 / kx * np.sin(kx / 2)
        pV[0], pL[0] = 2 / 3, 1.
        J = jv(m * B, m * B * r * Mt * math.sin(thp) / dop)
        ps = np.exp(1j * 2 * m * B * Mt / (Mr * dop) * q.mid_chord_alignment / D)
        pT = np.trapz(Mr ** 2 * q.thickness_to_chord * ps * J * kx ** 2 * pV, r) * rho * a ** 2 * B * math.sin(th) / (4 * math.sqrt(2) * math.pi * Y / D) / dop
        pF = np.trapz((math.cos(thp) / dop * d.blade_dT_dr[i] - d.blade_dQ_dr[i] / (r ** 2 * Mt * R_)) * ps * J * pL, r) * m * B * Mt * math.sin(th) / (2 * math.sqrt(2) * math.pi * Y * R_) / dop
        out.append(20 * math.log10((abs(pT) + abs(pF)) / 2e-5) if abs(pT) + abs(pF) else -np.inf)
    return np.array(out), B * Om * np.array(H) / (2 * math.pi)


NAMES = ('SPL', 'SPL_dBA', 'SPL_1_3_spectrum', 'SPL_1_3_spectrum_dBA', 'SPL_harmonic', 'SPL_broadband', 'SPL_harmonic_1_3_spectrum', 'SPL_broadband_1_3_spectrum', 'SPL_harmonic_1_3_spectrum_dBA', 'SPL_broadband_1_3_spectrum_dBA',
         'SPL_harmonic_bpf_spectrum', 'SPL_harmonic_bpf_spectrum_dBA')


def r_prop(ctx, k):
    ori, B = ((0., 0., 0.), (0., .3, 0.), (0., .6, 0.), (0., 0., 0.), (0., .15, 0.), (0., 1.2, 0.), (0., 0., 0.), (0., .9, 0.))[k], (3, 2, 4, 2, 5, 3, 6, 2)[k]
    org = ((0., 0., 0.), (2., 3., .5), (-1., -4., 1.), (5., 1., 0.))
    s = S30()
    s.harmonics = np.arange(1, 9)
    mk = lambda os: [rotor(o, ori, B, 'r%d' % j) for j, o in enumerate(os)]

    def call(c, os, mics):
        P, d, seg = rotor_case(c, mk(os), mics, s)
        o = propeller_mid_fidelity(P, d, seg, s)
        ctx.trace()
        return {n: np.array(o[n]) for n in NAMES}, P, d, o
    one, P, d, raw = call(PROWS, org[1:2], MIC)
    q = [v for v in P][0]
    lf, uf = s.lower_frequencies, s.upper_frequencies
    for i in range(3):
        for j, mic in enumerate(MIC):
            h, f = ref_harmonic(PROWS, i, mic, q, d, s.harmonics)
            ctx.check(R.same(raw.blade_passing_frequencies[i], f, 1e-12), 'prop:bpf', 'blade passing frequencies of step %d' % i)
            ctx.check(R.same(one['SPL_harmonic_bpf_spectrum'][i, j], h, 1e-8, 1e-7), 'prop:harmonic', 'tones of step %d at microphone %d' % (i, j))
            ctx.check(R.same(one['SPL_harmonic_bpf_spectrum_dBA'][i, j], A_weighting(h, f), 1e-8, 1e-7), 'prop:harmonic dBA', 'weighted tones')
            for nm, lev in (('', h), ('_dBA', A_weighting(h, f))):
                w = np.zeros(len(lf))
                for b in range(len(lf)):
                    ins = [v for v, g in zip(lev, f) if lf[b] <= g <= uf[b]]
                    if ins:
                        w[b] = esum(*ins)
                w[np.isinf(w)] = 0
                ctx.check(R.same(one['SPL_harmonic_1_3_spectrum' + nm][i, j], w, 1e-8, 1e-7), 'prop:bands' + nm, 'bands of the tones of step %d' % i)
            for nm, b in (('SPL', 'SPL_1_3_spectrum'), ('SPL_dBA', 'SPL_1_3_spectrum_dBA'), ('SPL_harmonic', 'SPL_harmonic_1_3_spectrum'), ('SPL_broadband', 'SPL_broadband_1_3_spectrum')):
                ctx.close(float(one[nm][i, j]), float(esum(*one[b][i, j])), 'prop:overall:' + nm, 'overall level is not the energy sum of its bands', rtol=1e-9)
            for nm in ('', '_dBA'):
                ctx.check(R.same(one['SPL_1_3_spectrum' + nm][i, j], esum(one['SPL_harmonic_1_3_spectrum' + nm][i, j], one['SPL_broadband_1_3_spectrum' + nm][i, j]), 1e-9, 1e-8), 'prop:parts' + nm, 'total is not tones plus broadband')
            ctx.check(bool(np.all(np.isfinite(one['SPL_broadband_1_3_spectrum'][i, j]))), 'prop:finite', 'broadband levels')
            ctx.state(('prop', k, i, j))
            ctx.step()
    # N rotors are the energy sum of each alone
    solo = [call(PROWS, [o], MIC)[0] for o in org]
    for n in (2, 3, 4):
        for pick in itertools.combinations(range(4), n) if n < 4 else [(0, 1, 2, 3), (3, 1, 0, 2)]:
            got = call(PROWS, [org[j] for j in pick], MIC)[0]
            for nm in NAMES:
                ctx.check(R.same(got[nm], esum(*[solo[j][nm] for j in pick]), 1e-9, 1e-7), 'prop:rotors:' + nm, '%s of rotors %s is not the energy sum of each' % (nm, pick))
            ctx.state(('rotors', k, pick))
    same = call(PROWS, [org[1]] * 3, MIC)[0]
    for nm in NAMES:
        ctx.check(R.same(same[nm], one[nm] + 10 * math.log10(3), 1e-9, 1e-7), 'prop:same:' + nm, 'three rotors in one place')
    for p in itertools.permutations(range(4)):
        got = call(PROWS, org[1:2], [MIC[j] for j in p])[0]
        for nm in NAMES:
            ctx.check(R.same(got[nm], one[nm][:, list(p)], 1e-10, 1e-9), 'prop:mics:' + nm, 'microphones in another order hear another level')
    R.rowcheck(ctx, 'prop', lambda c: call(c, org[1:3], MIC[:2])[0], PROWS, rtol=1e-9, atol=1e-8)
    # far away the tones fall by 6 dB per doubling
    a, b = [call(PROWS, org[:1], [tuple(v * x for v in m) for m in MIC])[0]['SPL_harmonic_bpf_spectrum'] for x in (1., 2.)]
    ok = np.isfinite(a)
    ctx.check(R.same(a[ok] - b[ok], np.full(ok.sum(), 20 * math.log10(2)), 1e-7, 1e-6), 'prop:distance', 'tones do not fall by 6 dB per doubling of the distance')


def r_point(ctx, k):
    for o in ((0., 0., 0.), (2., 3., .5), (-7., 4., 1.)):
        for ori in ((0., 0., 0.), (0., .5, 0.), (0., 1.57, 0.)):
            for pi_, ro in itertools.product((-.4, 0., .2), (0., .5)):
                c = dict(PROWS, pitch=PROWS['pitch'] + pi_, roll=PROWS['roll'] + ro)
                rs = [rotor(o, ori, 3, 'a'), rotor((o[0] + k, o[1] - 2 * k, 1.), ori, 3, 'b')]
                P, d, seg = rotor_case(c, rs, MIC, None)
                got = point_source(seg.state.conditions, P, seg.state.conditions.noise.total_microphone_locations, S30())
                for i, j, r in itertools.product(range(3), range(4), range(2)):
                    ctx.check(R.same(got[i, j, r], ref_point(c, i, MIC[j], rs[r]), 1e-9, 1e-9), 'point', 'vector from rotor %d to microphone %d at step %d' % (r, j, i))
                    ctx.ev()
                ctx.state(('point', k, o, ori, pi_, ro))


# --------------------------------------------------------------- whole analysis
def r_eval(ctx, k):
    na = SUAVE.Analyses.Noise.Fidelity_One()
    s = na.settings
    s.harmonics = np.arange(1, 9)
    s.level_ground_microphone_x_resolution, s.level_ground_microphone_y_resolution = 2, 2
    cfg = Data()
    cfg.networks = Data()
    if k < 2:  # rotors: identical, then different
        orgs = [(2., 3., .5), (2., -3., .5), (0., 0., 1.)]
        rs = [rotor(o, (0., .2, 0.), 3, 'r%d' % j) for j, o in enumerate(orgs)]
        P, d, seg = rotor_case(PROWS, rs, MIC, s)
        con = seg.state.conditions
        con.frames.inertial.position_vector = np.array([[0.3, 5., -40.], [100., 8., -60.], [300., 2., -90.]])
        con.noise.sources = Data()
        con.noise.sources.propellers = Data()
        ds = {}
        for j in range(3):
            dd = copy.deepcopy(d)
            if k == 1:
                dd.blade_dT_dr = dd.blade_dT_dr * (1 + .5 * j)
            con.noise.sources.propellers['r%d' % j] = ds[j] = dd
        net = Data(propellers=P, identical_propellers=k == 0)
        cfg.networks.battery_propeller = net
        seg.state.numerics = Data(number_control_points=3)
        seg.analyses = Data()
        seg.analyses.noise = Data(geometry=cfg)
        na.evaluate_noise(seg)
        mics = con.noise.total_microphone_locations
        each = []
        for j in range(3):
            Pj = SUAVE.Core.Container()
            Pj.append(rs[j])
            each.append(np.array(propeller_mid_fidelity(Pj, ds[j], seg, s).SPL_dBA))
        want = esum(*each, np.zeros_like(each[0]))  # the empty airframe slot counts as 0 dB
        ctx.check(R.same(con.noise.total_SPL_dBA, want, 1e-6, 1e-6), 'eval:earlier-rotors' if k else 'eval:identical', 'the level of three rotors is not the energy sum of each, off by %.2f dB' % float(np.max(np.abs(con.noise.total_SPL_dBA - want))))
        ctx.check(mics.shape == (3, 4, 3), 'eval:mics', 'microphones')
        ctx.state(('eval', k))
        ctx.ev()
        return
    c = JROWS
    seg = segment_of(c)
    col = lambda n: c[n].reshape(-1, 1)
    seg.conditions.frames.inertial.position_vector = np.c_[1500. + 300 * c['t'], np.zeros(5), -c['alt']]
    seg.conditions.noise = Data()
    so = seg.conditions.noise.sources = Data()
    so.turbofan = Data()
    so.turbofan.core = Data(exit_stagnation_temperature=col('Tp'), exit_stagnation_pressure=col('Pp'), exit_velocity=col('Vp'))
    so.turbofan.fan = Data(exit_stagnation_temperature=col('Ts'), exit_stagnation_pressure=col('Ps'), exit_velocity=col('Vs'))
    seg.state = Data(conditions=seg.conditions, numerics=Data(number_control_points=5))
    af = airframe('down', 2, 4, 2, .6, 2)
    af.networks = Data(turbofan=jet(0))
    seg.analyses = Data()
    s.approach = True
    seg.analyses.noise = Data(geometry=af, settings=s)
    keep = seg.conditions.frames.inertial.position_vector.copy()
    na.evaluate_noise(seg)
    ctx.check(np.array_equal(keep, seg.conditions.frames.inertial.position_vector), 'eval:path', 'the flight path was changed')
    noise_geometric(seg, seg.analyses, af)
    A = np.array(noise_airframe_Fink(seg, seg.analyses, af, s).SPL_dBA)
    e = af.networks.turbofan
    e.core_nozzle.noise_speed, e.fan_nozzle.noise_speed = so.turbofan.core.exit_velocity, so.turbofan.fan.exit_velocity
    E = np.array(noise_SAE(e, seg, seg.analyses, af, s).SPL_dBA)
    got = np.array(seg.conditions.noise.total_SPL_dBA)
    want = esum(A, E)
    ctx.check(bool(np.all(np.abs(got - E[:, None]) < .02) or np.all(np.abs(got - want[:, None]) < .02)), 'eval:engine', 'the level at the microphones is not that of the sources')
    ctx.check(bool(np.all(np.abs(got - want[:, None]) < .02)), 'eval:airframe-lost', 'the airframe noise (%.1f dBA) is not part of the total (%.1f dBA, engine %.1f dBA)' % (A[0], got[0, 0], E[0]))
    ctx.state(('eval', k))
    ctx.ev()


def r_shev(ctx, _):
    lbf = SUAVE.Core.Units.force_pound
    for n, F, q, W in itertools.product((1, 2, 3, 4), (6e4, 1.1e5, 2.4e5), (.2, .5, 1.), (2e4, 6e4, 2e5)):
        o = shevell(W, n, F, q * F)
        t, r = F / lbf / 25000 * 100, q * 100
        up = -.0002193 * t * t + .09454 * t - 7.30116
        dn = -.0015766 * r * r + .34882 * r - 19.2569
        L = 101 + 10 * math.log10(n)
        ctx.close(o.takeoff, L - 8 + up, 'shev:takeoff', 'takeoff noise', rtol=1e-9)
        ctx.close(o.side_line, L - 10.5 + up, 'shev:sideline', 'sideline noise', rtol=1e-9)
        ctx.close(o.landing, float(esum(40 + 10 * math.log10(W / SUAVE.Core.Units.lbs), L - 5 + 9.1 + up + dn)), 'shev:landing', 'landing noise', rtol=1e-9)
        ctx.state(('shev', n, F, q, W))
