"""Bounded explicit-state exploration of the real SUAVE code.

A check module (mc/checks/<ID>.py) defines

    TITLE, LEVEL ('model_checking' or 'exploration'), BOUNDS (text), ASSUMPTIONS (list)
    scenarios(tier) -> list of JSON-able scenario descriptions (the bounded space, enumerated)
    run(ctx, sc)    -> explores one scenario completely, on the real code, against an oracle

The runner enumerates *every* scenario, in forked workers, merges what they covered, writes
evidence/<ID>.json, stores a replay file per distinct violation and sets the exit code.
Nothing is sampled: VERIF_SEED only permutes the order in which the scenarios are visited.
"""
import os, sys, json, time, signal, hashlib, traceback, importlib, random, io, contextlib, shutil, tempfile
import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
SRC = os.path.join(REPO, 'trunk')


class ScenarioTimeout(Exception):
    pass


class Violation(Exception):
    """raised by ctx.fail(..., stop=True) to abandon the scenario"""


def h64(obj):
    """hash of a canonical (JSON-able / repr-able) description of a state"""
    if isinstance(obj, bytes):
        b = obj
    elif isinstance(obj, str):
        b = obj.encode()
    else:
        b = repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), 'big')


def canon(x, nd=9):
    """canonical text of nested python / numpy / SUAVE data, floats rounded to nd significant digits"""
    import numpy as np
    if isinstance(x, dict):
        return '{' + ','.join('%s:%s' % (k, canon(v, nd)) for k, v in x.items()) + '}'
    if isinstance(x, np.ndarray):
        if x.dtype.kind in 'fc':
            return 'A%s[%s]' % (x.shape, ','.join('%.*g' % (nd, v) for v in np.real(x).ravel()))
        return 'A%s%s' % (x.shape, x.tolist())
    if isinstance(x, (list, tuple)):
        return '[' + ','.join(canon(v, nd) for v in x) + ']'
    if isinstance(x, (float, np.floating)):
        return '%.*g' % (nd, x)
    if isinstance(x, (str, int, bool, type(None), np.integer, np.bool_)):
        return repr(x)
    return '<%s>' % type(x).__name__


class Ctx:
    MAXV = 40

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != 'thorough'
        self.states, self.outcomes = set(), set()
        self.n_transitions = self.n_traces = self.n_evals = self.n_nontrivial = 0
        self.samples, self.violations, self.errors = [], [], []
        self.sc = None
        self.notes = {}
        self._scratch = None

    # ---- coverage
    def state(self, key):
        self.states.add(h64(key))

    def seen(self, key):
        k = h64(key)
        if k in self.states:
            return True
        self.states.add(k)
        return False

    def step(self, n=1):
        self.n_transitions += n

    def trace(self, n=1):
        self.n_traces += n

    def ev(self, key=None, n=1):
        """one oracle evaluation (an execution whose result was judged); key: its distinct case"""
        self.n_evals += n
        if key is not None:
            self.outcomes.add(h64(key))

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(obj)

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    # ---- verdicts
    def fail(self, key, msg, stop=False, **detail):
        """record a violation. key identifies the failing input / call site / history (stable text)."""
        if len(self.violations) < self.MAXV or not any(v['key'] == key for v in self.violations):
            self.violations.append(dict(key=key, msg=str(msg)[:2000], scenario=self.sc,
                                        detail={k: str(v)[:3000] for k, v in detail.items()}))
        if stop:
            raise Violation(key)

    def check(self, cond, key, msg='', stop=False, **detail):
        self.n_evals += 1
        if not cond:
            self.fail(key, msg, stop=stop, **detail)
        return bool(cond)

    def close(self, a, b, key, msg='', rtol=1e-9, atol=0.0, stop=False, **detail):
        """every element of a equals b within rtol*scale+atol, where scale is elementwise max(|a|,|b|); nan==nan"""
        import numpy as np
        self.n_evals += 1
        try:
            a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            a_, b_ = np.broadcast_arrays(a_, b_)
        except Exception as e:                                    # shapes / types do not even match
            self.fail(key, '%s: incomparable (%s): got %r expected %r' % (msg, e, a, b), stop=stop, **detail)
            return False
        bad = ~((np.isfinite(a_) & np.isfinite(b_) & (np.abs(a_ - b_) <= rtol * np.maximum(np.abs(a_), np.abs(b_)) + atol)) | (np.isnan(a_) & np.isnan(b_))
                | (a_ == b_))
        if bad.any():
            i = tuple(int(v[0]) for v in np.nonzero(bad)) if bad.ndim else ()
            self.fail(key, '%s: got %.12g expected %.12g (index %s, %d of %d differ)' %
                      (msg, a_[i], b_[i], i, int(bad.sum()), bad.size), stop=stop, **detail)
            return False
        return True

    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='mcscratch_')
        return self._scratch

    def cleanup(self):
        if self._scratch and os.path.basename(self._scratch).startswith('mcscratch_'):
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    def export(self):
        return dict(states=self.states, outcomes=self.outcomes, t=self.n_transitions, tr=self.n_traces, e=self.n_evals,
                    samples=self.samples, violations=self.violations, errors=self.errors, notes=self.notes)

    def merge(self, d):
        self.states |= d['states']
        self.outcomes |= d['outcomes']
        self.n_transitions += d['t']
        self.n_traces += d['tr']
        self.n_evals += d['e']
        for s in d['samples']:
            self.sample(s)
        self.violations += d['violations']
        self.errors += d['errors']
        for k, v in d['notes'].items():
            self.notes[k] = self.notes.get(k, 0) + v


def _in_repo(tb_list):
    return any(os.path.abspath(f.filename).startswith(SRC) for f in tb_list)


def run_one(mod, ctx, sc, limit):
    ctx.sc = sc

    def onalarm(sig, frm):
        raise ScenarioTimeout()
    old = signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(limit))
    cwd = os.getcwd()
    try:
        mod.run(ctx, sc)
    except Violation:
        pass
    except ScenarioTimeout:
        ctx.fail('timeout:%s' % short(sc), 'scenario did not finish within %d s (normally well under a tenth of that)' % limit)
    except (KeyboardInterrupt, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        if _in_repo(tb):
            ctx.fail('exit:%s' % type(e).__name__, 'SUAVE raised %r' % e, tb=traceback.format_exc())
        else:
            raise
    except MemoryError:
        ctx.errors.append('MemoryError in scenario %s' % short(sc))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        if _in_repo(tb):
            f = [t for t in tb if os.path.abspath(t.filename).startswith(SRC)][-1]
            ctx.fail('exception:%s@%s' % (type(e).__name__, os.path.basename(f.filename)),
                     'unexpected %s: %s' % (type(e).__name__, e), tb=traceback.format_exc()[-2500:])
        else:
            ctx.errors.append('scenario %s: %s' % (short(sc), traceback.format_exc()[-3000:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        try:
            os.chdir(cwd)
        except OSError:
            pass


def short(sc):
    s = json.dumps(sc, sort_keys=True, default=str)
    return s if len(s) <= 120 else s[:100] + '#' + hashlib.md5(s.encode()).hexdigest()[:8]


_MOD = None


def _worker(args):
    """explores a batch of scenarios in a forked child with its own stdout silenced"""
    prop, tier, seed, batch, limit, mute = args
    ctx = Ctx(prop, tier, seed)
    if mute:
        fd = os.open(os.devnull, os.O_WRONLY)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.close(fd)
    try:
        for sc in batch:
            run_one(_MOD, ctx, sc, limit)
    finally:
        ctx.cleanup()
    return ctx.export()


def load_known():
    """known findings: lines 'known: property=<id> key=<key> :: <what>' ; 'fixed:' lines suppress nothing"""
    known = {}
    p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('known: '):
                head, _, what = ln[len('known: '):].partition(' :: ')
                f = head.split(' ', 1)
                pid = f[0].split('=', 1)[1]
                key = f[1].split('=', 1)[1]
                known[(pid, key)] = what
    return known


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('MC_JOBS', '0')) or min(8, os.cpu_count() or 1))
    ap.add_argument('--only', help='substring filter on scenarios (debugging)')
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.environ['MPLBACKEND'] = 'Agg'
    sys.path.insert(0, VERIF)
    sys.path.insert(0, SRC)
    ensure_version()
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    np.seterr(all='ignore')
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            import SUAVE
    except Exception:
        print('SUAVE cannot be imported from %s' % SRC)
        traceback.print_exc(file=sys.stdout)
        return finish_broken_import(a.prop, a.tier, seed, t0)
    if not os.path.abspath(SUAVE.__file__).startswith(SRC):
        print('ERROR: SUAVE imported from %s, not from %s' % (SUAVE.__file__, SRC))
        return 2
    global _MOD
    _MOD = importlib.import_module('mc.checks.' + a.prop)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    ctx = Ctx(a.prop, tier, seed)
    limit = getattr(_MOD, 'TIME_LIMIT', 400)
    if a.replay:
        rep = json.load(open(a.replay))
        scs = [rep['scenario']]
    else:
        scs = list(_MOD.scenarios(tier))
        if a.only:
            scs = [s for s in scs if a.only in json.dumps(s, default=str)]
    order = list(range(len(scs)))
    random.Random(seed).shuffle(order)
    jobs = max(1, min(a.jobs, len(scs)))
    per = getattr(_MOD, 'BATCH', None) or max(1, min(64, len(scs) // (jobs * 4) or 1))
    batches = [[scs[i] for i in order[k:k + per]] for k in range(0, len(order), per)]
    # long scenarios first when the module ranks them
    if hasattr(_MOD, 'cost'):
        batches.sort(key=lambda b: -sum(_MOD.cost(s) for s in b))
    work = [(a.prop, tier, seed, b, limit, not a.verbose) for b in batches]
    if jobs == 1 or a.verbose:
        for w in work:
            ctx.merge(_worker(w))
    else:
        mpc = mp.get_context('fork')
        from concurrent.futures import ProcessPoolExecutor
        with ProcessPoolExecutor(max_workers=jobs, mp_context=mpc) as ex:
            for fut in [ex.submit(_worker, w) for w in work]:
                try:
                    ctx.merge(fut.result())
                except Exception as e:
                    ctx.errors.append('worker died: %r' % e)
    if hasattr(_MOD, 'finish'):
        _MOD.finish(ctx)
    # a missed violation must not look like success: the exploration itself must be non-vacuous
    need = getattr(_MOD, 'MIN', None)
    if need and not a.replay and not a.only and not ctx.violations:
        for k, v in need.items():
            got = {'states': len(ctx.states), 'evals': ctx.n_evals, 'outcomes': len(ctx.outcomes)}.get(k, ctx.notes.get(k, 0))
            if got < v:
                ctx.errors.append('vacuity guard: %s=%d < %d' % (k, got, v))
    known = load_known()
    shown, hits, groups = set(), set(), {}
    for v in ctx.violations:
        groups.setdefault(v['key'], v)
    for key, v in sorted(groups.items()):
        if (a.prop, key) in known:
            hits.add(key)
    newv = [(k, v) for k, v in sorted(groups.items()) if k not in hits]
    for key in sorted(hits):
        print('KNOWN-FINDING: property=%s key=%s %s' % (a.prop, key, known[(a.prop, key)]))
    rdir = os.path.join(VERIF, 'replay', a.prop)
    for i, (key, v) in enumerate(newv[:int(os.environ.get('MC_SHOW', '12'))]):
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, hashlib.md5(key.encode()).hexdigest()[:12] + '.json')
        json.dump(dict(property=a.prop, key=key, message=v['msg'], scenario=v['scenario'], detail=v['detail'],
                       rerun='./check %s --replay %s' % (a.prop, rp)), open(rp, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        print('   key: %s\n   %s' % (key, v['msg'][:600]))
        if v['detail'].get('tb') and a.verbose:
            print(v['detail']['tb'])
    if len(newv) > int(os.environ.get('MC_SHOW', '12')):
        print('   ... and %d more distinct violations' % (len(newv) - int(os.environ.get('MC_SHOW', '12'))))
    wall = time.time() - t0
    cov = dict(states=len(ctx.states), transitions=ctx.n_transitions, traces_validated_against_impl=ctx.n_traces,
               samples=ctx.samples or [short(s) for s in scs[:2]], evaluations=ctx.n_evals,
               distinct_nontrivial=len(ctx.outcomes) or len(ctx.states), rule=getattr(_MOD, 'BOUNDS', ''),
               scenarios=len(scs), bounds=getattr(_MOD, 'BOUNDS', ''), exhaustive=not (a.replay or a.only), counters=ctx.notes)
    if not a.replay and not a.only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(dict(property=a.prop, tier=tier, seed=seed, level=getattr(_MOD, 'LEVEL', 'model_checking'), coverage=cov,
                       assumptions=getattr(_MOD, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(newv)),
                  open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d scenarios, %d states, %d transitions, %d traces on the implementation, %d oracle evaluations, %d distinct outcomes, %.1f s %s'
          % (a.prop, tier, len(scs), len(ctx.states), ctx.n_transitions, ctx.n_traces, ctx.n_evals, len(ctx.outcomes), wall,
             ctx.notes or ''))
    if newv:
        return 1
    if ctx.errors:
        print('HARNESS ERROR (%d)' % len(ctx.errors))
        for e in ctx.errors[:3]:
            print(e)
        return 2
    return 0


def finish_broken_import(prop, tier, seed, t0):
    return 2


def ensure_version():
    """trunk/SUAVE/version.py is generated by the build and ignored by git; make sure an import works without it"""
    p = os.path.join(SRC, 'SUAVE', 'version.py')
    if not os.path.exists(p):
        import types
        m = types.ModuleType('SUAVE.version')
        m.version = '2.5.2'
        sys.modules['SUAVE.version'] = m
