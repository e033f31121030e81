"""C08  Output and folder redirection: what goes where, and restoration on every way out, including injected I/O faults."""
import io, itertools, os, shutil, sys

LEVEL = 'model_checking'
BOUNDS = ('folder redirection: every combination of {no, pull, link} x {file present in origin / in target} x force x folder {new, existing, nested, same} x body {leaves, rewrites, '
          'creates, raises} x pushed names {none, own, created, missing}; for each, every single injected OS failure (k-th of remove/copy/move/symlink/makedirs); '
          'output redirection: every nesting program up to depth 3 over {file, stream, none} x {stdout, stderr, both} x {normal, exception, failing flush, repeated, all redirections made before the first is entered}')
ASSUMPTIONS = ['changing back to the origin folder itself succeeds']
MIN = {'evals': 4000}


def scenarios(tier):
    out = []
    for folder in ('new', 'sub/deep', 'exist', '.'):
        for role in ('none', 'pull', 'link', 'both'):
            for force in (True, False):
                out.append(dict(k='folder', folder=folder, role=role, force=force, faults=(tier == 'thorough' or folder in ('exist', 'new'))))
    kinds = ['path', 'stream', 'none']
    for a in itertools.product(kinds, kinds):
        out.append(dict(k='out', first=list(a), depth=2 if tier != 'thorough' else 3))
    return out


def snapshot(d):
    r = {}
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        if os.path.islink(p):
            r[n] = 'LINK:' + os.path.realpath(p)
        elif os.path.isfile(p):
            r[n] = open(p).read()
    return r


class Fault:
    """raises OSError at the k-th file operation of the module under test"""
    NAMES = [(os, 'remove'), (os, 'makedirs'), (os, 'symlink'), (shutil, 'copy'), (shutil, 'move')]

    def __init__(self, k):
        self.k, self.n, self.depth = k, 0, 0

    def __enter__(self):
        self.saved = [(m, n, getattr(m, n)) for m, n in self.NAMES]
        for m, n, f in self.saved:
            setattr(m, n, self.wrap(f, n))
        return self

    def wrap(self, f, name):
        def g(*a, **k):
            if self.depth == 0:
                self.n += 1
                if self.n == self.k:
                    raise OSError('injected failure of %s' % name)
            self.depth += 1
            try:
                return f(*a, **k)
            finally:
                self.depth -= 1
        return g

    def __exit__(self, *a):
        for m, n, f in self.saved:
            setattr(m, n, f)


class Boom(Exception):
    pass


def run(ctx, sc):
    from SUAVE.Core import redirect
    top = os.path.realpath(ctx.scratch())
    home = os.getcwd()
    if sc['k'] == 'out':
        return run_out(ctx, sc, redirect, top)
    n = 0
    for inO, inF, body, push, boom in itertools.product((0, 1), (0, 1), ('leave', 'rewrite', 'create'), ((), ('A',), ('B',), ('missing',), ('A', 'B'), ('missing', 'A')), (0, 1)):
        if inF and sc['folder'] in ('new', 'sub/deep'):
            continue
        k = 0
        while True:
            n += 1
            base = os.path.join(top, 'w')
            if os.path.exists(base):
                shutil.rmtree(base)
            O = os.path.join(base, 'o')
            os.makedirs(O)
            Fd = os.path.normpath(os.path.join(O, sc['folder']))
            if sc['folder'] == 'exist':
                os.makedirs(Fd)
            same = Fd == O
            if inO:
                open(O + '/A', 'w').write('origin A')
            open(O + '/missing', 'w').write('do not lose me')
            open(O + '/other', 'w').write('other')
            if inF and not same:
                open(Fd + '/A', 'w').write('folder A')
                open(Fd + '/keep', 'w').write('keep')
            os.chdir(O)
            pull = ['A'] if sc['role'] in ('pull',) else (['other'] if sc['role'] == 'both' else [])
            link = ['A'] if sc['role'] in ('link', 'both') else []
            # ---- model of the fault-free behaviour
            mo, mf, err = snapshot(O), snapshot(Fd) if os.path.isdir(Fd) and not same else {}, None
            if not same:
                for name in pull:
                    if name in mf and not sc['force']:
                        continue
                    if name not in mo:
                        err = 'enter'
                    else:
                        mf[name] = mo[name]
                if err is None:
                    for name in link:
                        if name in mf and not sc['force']:
                            continue
                        if name not in mo:
                            err = 'enter'
                            break
                        mf[name] = 'LINK:' + O + '/' + name
            entered = err is None
            if entered:
                if body == 'rewrite' and 'A' in (mo if same else mf):
                    if same or mf['A'].startswith('LINK'):
                        mo['A'] = 'new A'
                    else:
                        mf['A'] = 'new A'
                if body == 'create':
                    (mo if same else mf)['B'] = 'made B'
                if not same:
                    for name in push:
                        if mf.get(name, '').startswith('LINK') or (name in mo and not sc['force']):
                            continue
                        if name not in mf:
                            err = 'push'
                            break
                        mo[name] = mf.pop(name)
                if boom:
                    err = err or 'boom'
            # ---- the real thing
            fault = Fault(k)
            inside, got = None, None
            try:
                with fault:
                    with redirect.folder(os.path.join('.', sc['folder']) if n % 2 else Fd, pull=pull if n % 3 else (pull[0] if pull else None), link=link, force=sc['force']) as p:
                        inside = os.getcwd()
                        if body == 'rewrite' and os.path.exists('A'):
                            open('A', 'w').write('new A')
                        if body == 'create':
                            open('B', 'w').write('made B')
                        for name in push:
                            p.append(name)
                        if boom:
                            raise Boom()
            except Exception as e:
                got = e
            where = os.getcwd()
            os.chdir(home)
            desc = 'folder %s role %s force %s A in origin/target %d/%d body %s push %s raise %d fault %d' % (sc['folder'], sc['role'], sc['force'], inO, inF, body, push, boom, k)
            ctx.state((sc['folder'], sc['role'], sc['force'], inO, inF, body, push, boom, k))
            ctx.step(2)
            ctx.trace()
            ctx.check(os.path.realpath(where) == O, 'cwd-not-restored', '%s: left in %s' % (desc, where))
            ctx.check(inside is None or os.path.realpath(inside) == Fd, 'wrong-folder', '%s: body ran in %s' % (desc, inside))
            so, sf = snapshot(O), snapshot(Fd) if os.path.isdir(Fd) and not same else {}
            allc = list(so.values()) + list(sf.values())
            ctx.check('do not lose me' in allc, 'file-lost', '%s: a file of the origin that nothing replaces is gone' % desc)
            ctx.check(so.get('other') == 'other', 'file-lost', '%s: an unrelated file of the origin changed' % desc)
            if inF and not same:
                ctx.check(sf.get('keep') == 'keep', 'file-lost', '%s: an unrelated file of the folder changed' % desc)
            if inside is not None and body == 'create':
                ctx.check('made B' in allc, 'created-file-lost', '%s: the file made in the folder is nowhere' % desc)
            if k == 0:
                ctx.check((inside is not None) == entered, 'entered', '%s: entered %s' % (desc, inside))
                ctx.check(so == mo, 'origin-content', '%s: origin holds %r expected %r' % (desc, so, mo))
                if not same:
                    ctx.check(sf == mf, 'folder-content', '%s: folder holds %r expected %r' % (desc, sf, mf))
                if err is None:
                    ctx.check(got is None, 'unexpected-error', '%s: %r' % (desc, got))
                elif err == 'boom':
                    ctx.check(isinstance(got, Boom), 'body-error-lost', '%s: %r' % (desc, got))
                else:
                    ctx.check(got is not None, 'error-swallowed', '%s: a %s failure went unnoticed' % (desc, err))
            elif fault.n >= k:
                ctx.check(got is not None, 'error-swallowed', '%s: an I/O failure went unnoticed' % desc)
            if not sc['faults'] or fault.n < k or (k == 0 and fault.n == 0):
                break
            k += 1


class BadFlush(io.StringIO):
    def flush(self):
        raise OSError('disk full')


def run_out(ctx, sc, redirect, top):
    kinds = ['path', 'stream', 'none']
    levels = [tuple(sc['first'])]
    for d in range(1, sc['depth'] + 1):
        for rest in itertools.product(itertools.product(kinds, kinds), repeat=d - 1):
            prog = levels + list(rest)
            for way in ('normal', 'raise', 'badflush', 'twice', 'ahead', 'ahead-raise'):
                if way == 'badflush' and prog[-1][0] != 'stream':
                    continue
                if 'ahead' in way and any(l[s] == 'none' and any(u[s] != 'none' for u in prog[:i]) for i, l in enumerate(prog) for s in (0, 1)):
                    continue    # what None stands for in a redirection made before an enclosing one is entered is not settled
                d0 = os.path.join(top, 'out')
                if os.path.exists(d0):
                    shutil.rmtree(d0)
                os.makedirs(d0)
                so, se = sys.stdout, sys.stderr
                base_o, base_e = io.StringIO(), io.StringIO()
                sys.stdout, sys.stderr = base_o, base_e
                sinks, want = [], {}
                streams = []

                def sink(kind, i, s):
                    if kind == 'none':
                        return None, None
                    if kind == 'path':
                        p = os.path.join(d0, '%s%d.txt' % (s, i))
                        open(p, 'w').write('old ')
                        want[p] = 'old '
                        return p, p
                    st = BadFlush() if way == 'badflush' and i == len(prog) - 1 and s == 'o' else io.StringIO()
                    streams.append(st)
                    want[id(st)] = ''
                    return st, id(st)
                want['o'] = want['e'] = ''
                args = []
                for i, (a, b) in enumerate(prog):
                    args.append((sink(a, i, 'o'), sink(b, i, 'e')))
                made = [redirect.output(ao, ae) for (ao, _), (ae, _) in args] if 'ahead' in way else None

                def rec(i, cur_o, cur_e):
                    sys.stdout.write('a%d ' % i)
                    sys.stderr.write('b%d ' % i)
                    want[cur_o] += 'a%d ' % i
                    want[cur_e] += 'b%d ' % i
                    if i == len(prog):
                        if 'raise' in way:
                            raise Boom()
                        return
                    (ao, ko), (ae, ke) = args[i]
                    before = (sys.stdout, sys.stderr)
                    try:
                        with made[i] if made else redirect.output(ao, ae):
                            rec(i + 1, ko or cur_o, ke or cur_e)
                    finally:
                        ctx.check(sys.stdout is before[0] and sys.stderr is before[1], 'not-restored', 'program %r (%s): the former streams are not back at level %d' % (prog, way, i))
                    sys.stdout.write('c%d ' % i)
                    want[cur_o] += 'c%d ' % i
                got = None
                try:
                    rec(0, 'o', 'e')
                    if way == 'twice':
                        rec(0, 'o', 'e')
                except (Boom, OSError) as e:
                    got = e
                finally:
                    now = (sys.stdout, sys.stderr)
                    sys.stdout, sys.stderr = so, se
                ctx.check(now[0] is base_o and now[1] is base_e, 'not-restored', 'program %r (%s)' % (prog, way))
                if 'raise' in way:
                    ctx.check(isinstance(got, Boom), 'body-error-lost', 'program %r: %r' % (prog, got))
                if way in ('normal', 'twice', 'ahead'):
                    ctx.check(got is None, 'unexpected-error', 'program %r: %r' % (prog, got))
                have = {'o': base_o.getvalue(), 'e': base_e.getvalue()}
                for st in streams:
                    have[id(st)] = st.getvalue()
                for kk in want:
                    if isinstance(kk, str) and kk.startswith(d0):
                        have[kk] = open(kk).read()
                if way != 'badflush':
                    for kk in want:
                        ctx.check(have[kk] == want[kk], 'misdirected', 'program %r (%s): %r holds %r expected %r' % (prog, way, kk, have[kk], want[kk]))
                ctx.state(('out', tuple(prog), way))
                ctx.step(len(prog))
                ctx.trace()
