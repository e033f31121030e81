"""A fresh instance of any data class is pristine: no instance, and no edit of one, reaches another.
"""
import copy, importlib, pkgutil, types, warnings, io
import numpy as np
LEVEL = 'model_checking'
BOUNDS = ('every class derived from Data or DataOrdered in the package that can be built without arguments; for each one every mutable object reachable from an instance '
          'is edited in place, then an instance of every class is built again and compared with its pristine description; every mutable object of two instances and of a deep copy is compared by identity')
ASSUMPTIONS = ['streams (the standard output defaults of the AVL settings), functions, classes and modules may be shared']
MIN = {"evals": 60000, "classes": 250}
ATOM = (str, bytes, int, float, complex, bool, type(None), np.generic, type, types.FunctionType, types.BuiltinFunctionType, types.ModuleType, io.IOBase)


def classes():
    import SUAVE
    from SUAVE.Core import Data, DataOrdered
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for m in pkgutil.walk_packages(SUAVE.__path__, 'SUAVE.', onerror=lambda n: None):
            if 'testsuite' in m.name or '.Plugins.' in m.name + '.':
                continue
            importlib.import_module(m.name)
    out, seen = [], set()

    def subs(c):
        for s in c.__subclasses__():
            if s not in seen and s.__module__.startswith('SUAVE'):
                seen.add(s)
                out.append(s)
                subs(s)
    out += [Data, DataOrdered]
    subs(Data)
    subs(DataOrdered)
    ok = []
    for c in out:
        if c.__name__ in ('expanded_array', 'Process_Geometry', 'Tree_Element'):
            continue
        ok.append(c)
    return sorted(ok, key=lambda c: (c.__module__, c.__name__))


def children(o):
    if isinstance(o, dict):
        seen = set()
        for k, v in list(dict.items(o)):
            seen.add(k)
            yield '.' + str(k), v
        for k, v in list(getattr(o, '__dict__', {}).items()):
            if k not in seen:
                yield '.' + str(k), v
    elif isinstance(o, (list, tuple)):
        for i, v in enumerate(o):
            yield '[%d]' % i, v
    elif isinstance(o, types.MethodType):
        yield '.__self__', o.__self__
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            for i, v in enumerate(o.ravel()):
                yield '[%d]' % i, v
    elif hasattr(o, '__dict__'):
        for k, v in list(vars(o).items()):
            yield '.' + str(k), v


def mutable(o):
    return not isinstance(o, ATOM) and not isinstance(o, (tuple, types.MethodType))


def reach(o):
    """id -> (path, object) of every mutable object reachable"""
    out, stack, seen = {}, [('', o)], set()
    while stack:
        p, x = stack.pop()
        if isinstance(x, ATOM) or id(x) in seen:
            continue
        seen.add(id(x))
        if mutable(x):
            out[id(x)] = (p, x)
        stack.extend((p + q, y) for q, y in children(x))
    return out


def describe(o, depth=0, seen=None):
    seen = {} if seen is None else seen
    if isinstance(o, (types.FunctionType, types.BuiltinFunctionType, type)):
        return '%s.%s' % (o.__module__, getattr(o, '__qualname__', o.__name__))
    if isinstance(o, types.ModuleType):
        return o.__name__
    if isinstance(o, io.IOBase):
        return 'stream'
    if isinstance(o, ATOM):
        return '%s:%r' % (type(o).__name__, o)
    if id(o) in seen:
        return '<%d>' % seen[id(o)]
    seen[id(o)] = len(seen)
    if isinstance(o, types.MethodType):
        return 'method %s of %s' % (o.__func__.__qualname__, describe(o.__self__, depth + 1, seen))
    head = type(o).__module__ + '.' + type(o).__name__
    if isinstance(o, np.ndarray) and o.dtype != object:
        return '%s%s%s' % (head, o.shape, o.tolist())
    kids = [(q, v) for q, v in children(o) if q not in ('._map', '._root')]
    if type(o).__name__ == 'Process_Geometry':      # its key is not a step, its place among the steps means nothing
        kids.sort(key=lambda x: x[0] != '.geometry_key')
    body = ','.join(q + '=' + describe(v, depth + 1, seen) for q, v in kids)
    return head + '{' + body + '}'


def spoil(o):
    """edit every mutable object reachable from o, in place"""
    objs = [x for _, x in reach(o).values()]
    n = 0
    for x in objs:
        try:
            if isinstance(x, np.ndarray):
                if x.dtype.kind in 'fiuc' and x.size:
                    x += 1
                    n += 1
            elif isinstance(x, list):
                x.append('spoilt')
                n += 1
            elif isinstance(x, set):
                x.add('spoilt')
                n += 1
            elif isinstance(x, dict):
                ks = [k for k in list(x.keys()) if not str(k).startswith('_')]
                for k in ks[::2]:
                    x[k] = 'spoilt'
                x['spoilt_entry'] = 1.
                n += 1
            elif hasattr(x, '__dict__'):
                x.spoilt_attribute = 1.
                n += 1
        except Exception:
            pass
    return n


def scenarios(tier):
    return [['group', i] for i in range(32)]


def run(ctx, sc):
    warnings.simplefilter('ignore')
    cls = classes()
    name = {c: c.__module__.split('SUAVE.')[1] + '.' + c.__name__ for c in cls}
    pristine = {c: describe(c()) for c in cls}
    for i, c in enumerate(cls):
        if i % 32 != sc[1]:
            continue
        ctx.note('classes')
        k = name[c]
        a, b = c(), c()
        ctx.check(describe(a) == pristine[c] == describe(b), 'repeat:' + k, 'two fresh instances are alike')
        A, B = reach(a), reach(b)
        common = [A[j][0] for j in A if j in B]
        ctx.check(not common, 'shared:' + k, 'two fresh instances share %s' % common[:5])
        d = copy.deepcopy(a)
        ctx.check(describe(d) == pristine[c], 'copy:' + k, 'a deep copy of a fresh instance is like it')
        ctx.check(describe(a) == pristine[c], 'copied:' + k, 'copying leaves the original as it was')
        D = reach(d)
        common = [A[j][0] for j in A if j in D]
        ctx.check(not common, 'copy-shared:' + k, 'a deep copy shares %s with its original' % common[:5])
        n = spoil(a)
        ctx.step(n)
        ctx.trace()
        ctx.check(describe(b) == pristine[c], 'edit-other:' + k, 'editing one instance changed another')
        ctx.check(describe(d) == pristine[c], 'edit-copy:' + k, 'editing the original changed its deep copy')
        for e in cls:
            ctx.state((k, name[e]))
            ctx.check(describe(e()) == pristine[e], 'leak:%s' % name[e], 'after editing an instance of %s a new %s is not pristine' % (k, name[e]))
    ctx.sample(dict(classes=len(cls), group=sc[1]))
