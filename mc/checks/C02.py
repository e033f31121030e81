"""C02  Containers never lose, overwrite or mix up appended components."""
import itertools, string

LEVEL = 'model_checking'
BOUNDS = ('every history of appends up to length L (5 quick, 6 thorough) over tags that collide after normalisation or after renaming, '
          'on every kind of container (generic, vehicle wings / fuselages / nacelles / networks / systems, wing segments, rotor airfoils, '
          'ordered containers, fuselage segments, mission segments), interleaved with list / tuple extend; every component class routed by the vehicle')
ASSUMPTIONS = ['tags are strings; an ordered container may refuse a duplicate (KeyError) as long as nothing changes']
MIN = {'states': 1000, 'evals': 10000}
TAGS = ['wing', 'Wing', 'wing2', 'Main wing', 'main_wing', 'wing1', 'wing_3']
RAND = [0, 1, 2, 1000]
_T = str.maketrans(string.punctuation + string.whitespace + string.ascii_uppercase,
                   '_' * len(string.punctuation + string.whitespace) + string.ascii_lowercase)


def norm(t):
    return t.translate(_T)


def kinds():
    import SUAVE
    from SUAVE.Core import Data, Container, ContainerOrdered, DataOrdered
    C = SUAVE.Components

    def veh(cls, root):
        def make():
            v = SUAVE.Vehicle()
            return getattr(v, root), v.append_component, cls
        return make

    def rotor():
        r = C.Energy.Converters.Rotor()
        return r.Airfoils, r.append_airfoil, C.Airfoils.Airfoil

    def seg():
        w = C.Wings.Main_Wing()
        return w.Segments, w.append_segment, C.Wings.Segment

    def wseg():
        w = C.Wings.Wing()
        return w.Segments, w.append_segment, C.Wings.Segment

    def fseg():
        f = C.Fuselages.Fuselage()
        return f.Segments, f.append_segment, C.Lofted_Body_Segment.Segment

    def ctrl():
        w = C.Wings.Main_Wing()
        return w.control_surfaces, w.append_control_surface, C.Wings.Control_Surfaces.Flap

    def miss():
        m = SUAVE.Analyses.Mission.Sequential_Segments()
        return m.segments, m.append_segment, Data

    def plain(cls):
        def make():
            c = cls()
            return c, c.append, Data
        return make
    return {
        'container': (plain(Container), 'rename'),
        'configs': (plain(SUAVE.Components.Configs.Config.Container), 'rename'),
        'veh.wings': (veh(C.Wings.Wing, 'wings'), 'rename'),
        'veh.fuselages': (veh(C.Fuselages.Fuselage, 'fuselages'), 'rename'),
        'veh.nacelles': (veh(C.Nacelles.Nacelle, 'nacelles'), 'rename'),
        'veh.networks': (veh(C.Energy.Networks.Network, 'networks'), 'rename'),
        'veh.systems': (veh(C.Systems.System, 'systems'), 'rename'),
        'wing.control_surfaces': (ctrl, 'rename'),
        'main_wing.Segments': (seg, 'either'),
        'rotor.Airfoils': (rotor, 'either'),
        'wing.Segments': (wseg, 'refuse'),
        'fuselage.Segments': (fseg, 'refuse'),
        'ordered': (plain(ContainerOrdered), 'refuse'),
        'data': (plain(Data), 'refuse'),
        'dataordered': (plain(DataOrdered), 'refuse'),
        'mission': (miss, 'refuse'),
    }


def scenarios(tier):
    L = 5 if tier != 'thorough' else 6
    out = []
    for kind in KINDS:
        heavy = kind.startswith('veh.') or kind in ('rotor.Airfoils', 'main_wing.Segments', 'wing.Segments', 'fuselage.Segments', 'wing.control_surfaces', 'mission')
        LL = L - 1 if heavy else L
        for t in TAGS:
            out.append(dict(mode='append', kind=kind, first=t, depth=LL))
        if kind in ('container', 'configs', 'ordered', 'veh.wings'):
            out.append(dict(mode='extend', kind=kind))
    out.append(dict(mode='long'))
    out.append(dict(mode='routing'))
    return out


KINDS = ['container', 'configs', 'veh.wings', 'veh.fuselages', 'veh.nacelles', 'veh.networks', 'veh.systems', 'wing.control_surfaces',
         'main_wing.Segments', 'rotor.Airfoils', 'wing.Segments', 'fuselage.Segments', 'ordered', 'data', 'dataordered', 'mission']


def contents(cont):
    return [(k, cont[k]) for k in cont.keys()]


def check_state(ctx, kind, cont, model, key, hist):
    got = contents(cont)
    if len(got) != len(model) or any(g[1] is not m[1] or g[0] != m[0] for g, m in zip(got, model)):
        ctx.fail(key, '%s after %s holds %r, expected %r' % (kind, hist, [g[0] for g in got], [m[0] for m in model]), stop=True)
    if len(set(k for k, _ in got)) != len(got):
        ctx.fail(key, 'duplicate keys', stop=True)
    vals = list(cont)
    if len(vals) != len(model) or any(a is not m[1] for a, m in zip(vals, model)):
        ctx.fail(key, '%s: iteration does not give the appended components in order' % kind, stop=True)


def do_append(ctx, kind, policy, cont, app, cls, model, tag, key, hist):
    v = cls()
    v.tag = tag
    before = list(model)
    dup = norm(tag) in [k for k, _ in model]
    ctx.step()
    try:
        app(v)
        ok = True
    except KeyError:
        ok = False
    if not ok:
        ctx.check(policy != 'rename', key, '%s refused component %r after %s' % (kind, tag, hist), stop=True)
        ctx.check(dup, key, '%s refused a component with a new tag %r after %s' % (kind, tag, hist), stop=True)
        check_state(ctx, kind, cont, before, key, hist)
        return
    if dup:
        ctx.check(policy != 'refuse', key, '%s accepted a duplicate of %r after %s' % (kind, tag, hist), stop=True)
    ks = list(cont.keys())
    new = [k for k in ks if k not in [m[0] for m in before]]
    ctx.check(len(new) == 1 and ks[-1] == new[0], key, '%s: appending %r after %s added the keys %r (all keys %r)' % (kind, tag, hist, new, ks), stop=True)
    k = new[0]
    ctx.check(k == norm(v.tag), key, '%s: component with tag %r is stored under %r' % (kind, v.tag, k), stop=True)
    if not dup:
        ctx.check(v.tag == tag and k == norm(tag), key, '%s: an unused tag %r was changed to %r / key %r' % (kind, tag, v.tag, k), stop=True)
    model.append((k, v))
    check_state(ctx, kind, cont, model, key, hist + [tag])


def run(ctx, sc):
    import random
    if sc['mode'] == 'routing':
        return routing(ctx)
    if sc['mode'] == 'long':
        return long_(ctx)
    K = kinds()
    make, policy = K[sc['kind']]
    kind = sc['kind']
    key = '%s:%s' % (kind, sc['mode'])
    orig = random.randint
    try:
        if sc['mode'] == 'append':
            for rest in itertools.product(TAGS, repeat=sc['depth'] - 1):
                seq = (sc['first'],) + rest
                # if the code consults a random generator, every listed answer is explored
                used = [0]

                def ri(a, b, _c=[0]):
                    used[0] += 1
                    return a
                random.randint = ri
                one(ctx, kind, policy, make, seq, key)
                if used[0]:
                    for r in RAND:
                        random.randint = lambda a, b: min(max(r, a), b)
                        one(ctx, kind, policy, make, seq, key)
            ctx.sample(dict(kind=kind, tags=list(seq)))
        else:
            for n in (0, 1, 2, 3):
                for tags in itertools.product(TAGS[:5], repeat=n):
                    for ty in (list, tuple):
                        for pre in ((), ('wing',), ('Main wing', 'wing')):
                            allt = [norm(t) for t in pre + tags]
                            if policy == 'refuse' and len(set(allt)) < len(allt):
                                continue
                            cont, app, cls = make()
                            model = []
                            for t in pre:
                                do_append(ctx, kind, policy, cont, app, cls, model, t, key, list(pre))
                            vs = []
                            for t in tags:
                                v = cls()
                                v.tag = t
                                vs.append(v)
                            ctx.step()
                            cont.extend(ty(vs))
                            ctx.trace()
                            got = contents(cont)
                            ok = len(got) == len(model) + len(vs) and all(g[1] is v for g, v in zip(got[len(model):], vs)) and \
                                all(g[0] == norm(g[1].tag) for g in got)
                            ctx.check(ok, key, '%s.extend(%s of %r) after %r gave %r' % (kind, ty.__name__, tags, pre, [g[0] for g in got]), stop=True)
                            ctx.state(kind + repr(([g[0] for g in got], ty.__name__)))
                            ctx.ev(kind + repr([g[0] for g in got]))
    finally:
        random.randint = orig


def one(ctx, kind, policy, make, seq, key):
    cont, app, cls = make()
    model = []
    for i, t in enumerate(seq):
        do_append(ctx, kind, policy, cont, app, cls, model, t, key, list(seq[:i]))
    ctx.trace()
    st = kind + repr([k for k, _ in model])
    ctx.state(st)
    ctx.ev(st)


def long_(ctx):
    """many repetitions of one tag (and of two alternating ones) in every renaming container"""
    K = kinds()
    for kind in KINDS:
        make, policy = K[kind]
        if policy == 'refuse':
            continue
        for pat in (['wing'], ['Wing'], ['a b'], ['wing', 'wing1'], ['x', 'x2'], ['w', 'ww'], ['segment-1', 'segment_1']):
            cont, app, cls = make()
            model = []
            for i in range(14):
                do_append(ctx, kind, policy, cont, app, cls, model, pat[i % len(pat)], '%s:long' % kind, [pat, i])
            ctx.trace()
            ctx.state('long' + kind + repr(pat))
            ctx.ev('long' + kind + repr([k for k, _ in model]))


def routing(ctx):
    """every component class goes to the vehicle container of its family, is found there, and nowhere else"""
    import SUAVE, inspect
    C = SUAVE.Components

    def classes(mod, base, seen):
        for n in sorted(dir(mod)):
            o = getattr(mod, n)
            if inspect.isclass(o) and issubclass(o, base) and o not in seen:
                seen.append(o)
            elif inspect.ismodule(o) and o.__name__.startswith('SUAVE.Components') and o.__name__ != mod.__name__ and \
                    len(o.__name__) > len(mod.__name__):
                classes(o, base, seen)
        return seen
    fams = [('fuselages', C.Fuselages.Fuselage), ('wings', C.Wings.Wing), ('systems', C.Systems.System),
            ('networks', C.Energy.Networks.Network), ('nacelles', C.Nacelles.Nacelle), ('landing_gear', C.Landing_Gear.Landing_Gear)]
    roots = [r for r, _ in fams]
    for root, base in fams:
        for cls in classes(C, base, []):
            try:
                comp = cls()
            except Exception:
                continue
            comp.tag = 'Part X'
            v = SUAVE.Vehicle()
            ctx.step()
            v.append_component(comp)
            ctx.trace()
            where = [r for r in roots if any(x is comp for x in getattr(v, r).values())]
            ctx.check(where == [root] and getattr(v, root)['part_x'] is comp, 'routing:%s' % cls.__name__,
                      'a %s was stored in %r' % (cls.__name__, where))
            ctx.state('route' + cls.__name__)
            ctx.ev('route' + cls.__name__)
