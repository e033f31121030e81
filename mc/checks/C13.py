"""C13  Random search: sampling plans are Latin hypercubes and the swarm returns the best feasible point it visited, for every random outcome."""
import contextlib, io, itertools
import numpy as np

LEVEL = 'model_checking'
BOUNDS = ('the random source is replaced by the explorer: sampling plans for every pair of permutations (up to 4 samples x 2 dimensions, 3 x 3) x within-segment draws {0, 1/2, 1-eps} x '
          'criterion x bounds; swarms of 1-3 particles in 1-2 dimensions for every sequence of draws from {0, 0.4, 0.95} over 1-2 iterations (up to the stated number of free draws, '
          'the rest following a fixed pattern) x feasible sets x objectives x stop thresholds')
ASSUMPTIONS = ['random numbers come from numpy\'s global generator functions']
MIN = {'evals': 5000}


class Source:
    """every draw of numpy.random answered from a script; permutation choices likewise"""
    def __init__(self, draws, perms=()):
        self.draws, self.i, self.perms, self.j = draws, 0, list(perms), 0

    def nums(self, shape):
        n = int(np.prod(shape)) if shape is not None and shape != () else 1
        v = [self.draws[(self.i + k) % len(self.draws)] for k in range(n)]
        self.i += n
        return np.array(v).reshape(shape) if shape not in (None, ()) else v[0]

    def perm(self, n):
        p = self.perms[self.j % len(self.perms)] if self.perms else tuple(range(n))
        self.j += 1
        return list(p) if len(p) == n else list(range(n))

    def __enter__(self):
        R = np.random
        self.saved = {k: getattr(R, k) for k in ('rand', 'random', 'random_sample', 'uniform', 'shuffle', 'permutation', 'ranf', 'sample')}
        R.rand = lambda *s: self.nums(s or None)
        R.random = R.random_sample = R.ranf = R.sample = lambda size=None: self.nums(size)
        R.uniform = lambda low=0., high=1., size=None: low + (np.asarray(high) - low) * self.nums(size)

        def shuffle(a):
            a[:] = np.array(a)[self.perm(len(a))]
        R.shuffle = shuffle
        R.permutation = lambda a: np.array(range(a) if np.isscalar(a) else a)[self.perm(a if np.isscalar(a) else len(a))]
        return self

    def __exit__(self, *e):
        for k, v in self.saved.items():
            setattr(np.random, k, v)


def scenarios(tier):
    out = [dict(k='lhs', n=n, d=d, crit=c) for n, d in ((1, 1), (2, 1), (3, 1), (4, 1), (1, 3), (2, 2), (3, 2), (4, 2), (2, 3), (3, 3)) for c in ('random', 'center')]
    free = 6 if tier != 'thorough' else 9
    out += [dict(k='pso', s=s, d=d, obj=o, feas=f, free=free, minf=m) for s in (1, 2, 3) for d in (1, 2) for o in ('bowl', 'slope', 'ripple') for f in ('all', 'half', 'ring', 'none', 'two')
            for m in (1e-8, 0.05)]
    return out


def run(ctx, sc):
    with contextlib.redirect_stdout(io.StringIO()):
        (lhs if sc['k'] == 'lhs' else pso)(ctx, sc)


def lhs(ctx, sc):
    from SUAVE.Methods.Utilities.latin_hypercube_sampling import latin_hypercube_sampling
    n, d = sc['n'], sc['d']
    perms = list(itertools.permutations(range(n)))
    bl = [None, (np.zeros(d), np.ones(d)), (-3. - np.arange(d), 2. + 10. * np.arange(d)), (np.full(d, 5.), np.full(d, 5.5))]
    for ps in itertools.product(perms, repeat=d):
        for draws in ((0.,), (.5,), (1 - 1e-12,), (.1, .9, .3), (.7, .2)):
            for b in bl:
                keep = None if b is None else (b[0].copy(), b[1].copy())
                with Source(draws, ps):
                    r = latin_hypercube_sampling(d, n, bounds=b, criterion=sc['crit'])
                ctx.check(r.shape == (n, d), 'shape', '%r' % (r.shape,))
                lo, hi = b if b is not None else (np.zeros(d), np.ones(d))
                u = (r - lo) / (hi - lo)
                ctx.check(np.all(u >= -1e-12) and np.all(u <= 1 + 1e-9), 'bounds', '%r %r' % (sc, u))
                cell = np.clip(np.floor(u * n + 1e-6).astype(int), 0, n - 1) if sc['crit'] == 'center' or draws[0] not in (1 - 1e-12,) else np.clip(np.ceil(u * n - 1e-6).astype(int) - 1, 0, n - 1)
                for j in range(d):
                    ctx.check(sorted(cell[:, j]) == list(range(n)), 'stratum', '%r: dimension %d has segments %r' % (sc, j, sorted(cell[:, j])))
                if sc['crit'] == 'center':
                    ctx.close(np.sort(u, axis=0), (np.tile(np.arange(n), (d, 1)).T + .5) / n, 'center', '', rtol=0, atol=1e-9)
                if b is not None:
                    ctx.check(np.array_equal(b[0], keep[0]) and np.array_equal(b[1], keep[1]), 'argument-modified', '')
                ctx.state((n, d, sc['crit'], canon_cells(cell)))
                ctx.step(n)
                ctx.trace()
    if n > 1 and d > 1:
        # different permutations must give different plans (the shuffle is really applied per dimension)
        plans = set()
        for ps in itertools.product(perms, repeat=d):
            with Source((.5,), ps):
                r = latin_hypercube_sampling(d, n, criterion=sc['crit'])
            plans.add(canon_cells(np.floor(r * n + 1e-6).astype(int)))
        ctx.check(len(plans) > 1, 'shuffle', 'one plan for every random outcome')
    try:
        latin_hypercube_sampling(2, 3, criterion='other')
        ctx.fail('criterion', 'unknown criterion accepted')
    except NotImplementedError:
        ctx.ev()


def canon_cells(c):
    return tuple(map(tuple, c.tolist()))


def pso(ctx, sc):
    from SUAVE.Optimization.Package_Setups.particle_swarm_optimization import particle_swarm_optimization as PSO
    D, S = sc['d'], sc['s']
    lb, ub = np.array([-1., 2.])[:D], np.array([3., 2.5])[:D]
    mid = (lb + ub) / 2

    def f(x):
        t = (np.asarray(x) - lb) / (ub - lb)
        return float({'bowl': np.sum((t - .3) ** 2), 'slope': np.sum(t * (1 + np.arange(D))), 'ripple': np.sum(np.cos(7 * t)) - t[0]}[sc['obj']])

    def g(x):
        t = (np.asarray(x) - lb) / (ub - lb)
        return {'all': [1.], 'half': [t[0] - .5], 'ring': [np.sum(abs(t - .5)) - .3], 'none': [-1.], 'two': [.9 - t[0], t[-1] - .2]}[sc['feas']]
    A = (0., .4, .95)
    for draws in itertools.product(A, repeat=sc['free']):
        seq = draws + (.3, .6, .15, .85, .5)
        for kind in ('f', 'list', 'none') if (sc['feas'] in ('all', 'two') and draws[0] == 0.) else ('f',):
            pts = []

            def func(x, off, scale=1.):
                pts.append(np.array(x))
                return off + scale * f(x)
            if kind == 'f':
                kw = dict(f_ieqcons=lambda x, off, scale=1.: g(x))
            elif kind == 'list':
                kw = dict(ieqcons=[(lambda x, off, scale=1., i=i: g(x)[i]) for i in range(len(g(lb)))])
            else:
                kw = dict()
            with Source(seq):
                x, fx = PSO(func, list(lb), list(ub), args=(1.5,), kwargs=dict(scale=2.), swarmsize=S, maxiter=2, minfunc=sc['minf'], minstep=1e-8, **kw)
            ctx.check(all(np.all(p >= lb - 1e-12) and np.all(p <= ub + 1e-12) for p in pts), 'visited-bounds', '%r %r' % (sc, draws))
            ctx.check(np.all(x >= lb - 1e-12) and np.all(x <= ub + 1e-12), 'bounds', '%r %r: %r' % (sc, draws, x))
            ok = [p for p in pts if kind == 'none' or all(v >= 0 for v in g(p))]
            if ok:
                best = min(1.5 + 2. * f(p) for p in ok)
                feasible = kind == 'none' or all(v >= 0 for v in g(x))
                ctx.check(feasible, 'infeasible-returned', '%s/%s draws %r: returned %r, feasible points were visited' % (sc['obj'], sc['feas'], draws, x))
                if feasible:
                    ctx.check(abs(fx - (1.5 + 2. * f(x))) < 1e-9, 'value', '%r %r' % (fx, x))
                    ctx.check(fx <= best + 1e-9, 'best-lost', '%s/%s draws %r: returned %.6g, visited %.6g' % (sc['obj'], sc['feas'], draws, fx, best))
            else:
                ctx.check(not (fx < 1e50), 'infeasible-value', '%r reported as optimum without any feasible point' % fx)
            ctx.state((sc['s'], D, sc['obj'], sc['feas'], tuple(np.round(np.ravel(pts), 6))))
            ctx.step(len(pts))
            ctx.ev((sc['obj'], sc['feas'], bool(ok), round(float(fx), 4) if ok else None))
            ctx.trace()
