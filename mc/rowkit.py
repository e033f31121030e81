"""rows of a batch are independent: every single row, every ordered pair and the reversed batch give the rows of the full batch"""
import copy, itertools
import numpy as np


def take(cols, idx):
    return {k: (np.array(v)[list(idx)].copy() if isinstance(v, np.ndarray) else v) for k, v in cols.items()}


def same(a, b, rtol=1e-9, atol=0.):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    with np.errstate(all='ignore'):
        return bool(np.all((np.isfinite(a) & np.isfinite(b) & (np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) + atol)) | (a == b) | (np.isnan(a) & np.isnan(b))))


def flat(d, pre=''):
    """name -> array of every numeric entry of nested data"""
    out = {}
    for k, v in d.items():
        if isinstance(v, dict):
            out.update(flat(v, pre + str(k) + '.'))
        elif isinstance(v, (int, float, np.ndarray, np.generic)) and not isinstance(v, bool):
            a = np.asarray(v)
            if a.dtype.kind in 'fiu':
                out[pre + str(k)] = np.array(a, dtype=float)
    return out


def rowcheck(ctx, key, f, cols, pairs=True, rtol=1e-9, atol=0., skip=()):
    """f(cols) -> dict name -> array (leading dimension = rows) or constant; f must not change what it is given.
    Returns the outputs of the full batch."""
    n = max(len(v) for v in cols.values() if isinstance(v, np.ndarray))

    def call(idx):
        c = take(cols, idx)
        keep = copy.deepcopy(c)
        r = {k: np.array(v, dtype=float) for k, v in f(c).items() if k not in skip}
        for k in keep:
            if isinstance(keep[k], np.ndarray):
                ctx.check(np.array_equal(keep[k], c[k], equal_nan=True), key + ':input:' + k, 'the input %s was changed' % k)
        ctx.trace()
        return r
    full = call(range(n))
    again = call(range(n))
    for k in full:
        ctx.check(same(full[k], again[k], 0.), key + ':repeat:' + k, 'asking again gives another %s' % k)
    sets = [(i,) for i in range(n)] + [tuple(range(n))[::-1]]
    if pairs:
        sets += list(itertools.permutations(range(n), 2))
    for s in sets:
        r = call(s)
        ctx.state((key, s, tuple(sorted(r))))
        ctx.step()
        for k, v in r.items():
            F = full[k]
            if F.ndim and F.shape[0] == n and n > 1:
                want = F[list(s)]
            else:
                want = F
            if not same(v.reshape(want.shape) if v.size == want.size else v, want, rtol, atol):
                ctx.fail(key + ':rows:' + k, 'rows %s alone give %s = %s, in the batch %s' % (list(s), k, np.ravel(v)[:4], np.ravel(want)[:4]))
                return full
            ctx.ev()
    return full
