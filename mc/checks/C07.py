"""C07  XML, FreeMind and D3 exports contain the whole tree, in order, with its text intact."""
import itertools, json, os
import xml.etree.ElementTree as ET

LEVEL = 'model_checking'
BOUNDS = ('every XML tree of up to 4 (quick) / 5 (thorough) elements (all shapes) over 2 tags with rotating attribute and text alphabets (quotes, markup, non-ASCII, entities), '
          'save/load/save histories; FreeMind and D3: every data tree shape up to 4/5 entries x container class x value kinds (None, list, tuple, array, nested, empty)')
ASSUMPTIONS = ['tags are legal XML names and text has no leading or trailing white space (the loader strips it by design)']
MIN = {'evals': 3000}

TEXT = ['', 'x', 'a < b & "c"', 'é ü', 'two\nlines', '0', ']]>', "it's"]
ATTR = [{}, {'a': '1'}, {'b': '<&">', 'a': 'é'}, {'a': '', 'c': 'x y'}, {'TEXT': "l1\nl2\t'q'"}]


def shapes(n):
    """all ordered trees with n nodes, as nested tuples of children"""
    if n == 1:
        return [()]
    out = []
    for f in forests(n - 1):
        out.append(f)
    return out


def forests(n):
    if n == 0:
        return [()]
    out = []
    for k in range(1, n + 1):
        for t in shapes(k):
            for rest in forests(n - k):
                out.append((t,) + rest)
    return out


def scenarios(tier):
    N = 4 if tier != 'thorough' else 5
    out = []
    for n in range(1, N + 1):
        for i, s in enumerate(shapes(n)):
            for off in range(len(TEXT)):
                out.append(dict(k='xml', shape=s, n=n, off=off))
            for cls in ('Data', 'DataOrdered', 'Container', 'dict'):
                out.append(dict(k='tree', shape=s, n=n, cls=cls))
    return out


def tup(s):
    return tuple(tup(x) for x in s)


def model(shape, labels):
    """nodes labelled in preorder: (tag, attrs, text, children)"""
    tag, at, tx = next(labels)
    return [tag, at, tx, [model(s, labels) for s in shape]]


def build(XML, m):
    x = XML.Data()
    x.tag = m[0]
    for k, v in m[1].items():
        x.attributes[k] = v
    x.content = m[2]
    for c in m[3]:
        x.elements.append(build(XML, c))
    return x


def build2(XML, m, parent=None):
    """the same tree through new_element"""
    x = XML.Data() if parent is None else parent.new_element(m[0])
    x.tag = m[0]
    for k, v in m[1].items():
        x.attributes[k] = v
    x.content = m[2]
    for c in m[3]:
        build2(XML, c, x)
    return x


def diff(x, m, path=''):
    p = path + '/' + m[0]
    if x.tag != m[0]:
        return '%s: tag %r' % (p, x.tag)
    if dict((k, x.attributes[k]) for k in x.attributes.keys()) != m[1]:
        return '%s: attributes %r expected %r' % (p, x.attributes, m[1])
    if x.content != m[2]:
        return '%s: content %r expected %r' % (p, x.content, m[2])
    if len(x.elements) != len(m[3]):
        return '%s: %d elements expected %d' % (p, len(x.elements), len(m[3]))
    for a, b in zip(x.elements, m[3]):
        e = diff(a, b, p)
        if e:
            return e
    for t in ('aa', 'bb', 'none'):
        if [id(e) for e in x.get_elements(t)] != [id(e) for e in x.elements if e.tag == t]:
            return '%s: get_elements(%s)' % (p, t)
    return None


def etdiff(e, m, path=''):
    """the written file, read with the standard library"""
    p = path + '/' + m[0]
    if e.tag != m[0] or dict(e.attrib) != m[1] or (e.text or '').strip() != m[2] or len(e) != len(m[3]):
        return '%s: %r %r %r %d' % (p, e.tag, e.attrib, e.text, len(e))
    for a, b in zip(e, m[3]):
        r = etdiff(a, b, p)
        if r:
            return r
    return None


def run(ctx, sc):
    from SUAVE.Input_Output import XML, FreeMind, D3JS
    shape = tup(sc['shape'])
    n = sc['n']
    f = os.path.join(ctx.scratch(), 'f.xml')
    if sc['k'] == 'xml':
        for tags in itertools.product(('aa', 'bb'), repeat=n):
            for aoff in range(len(ATTR)):
                lab = iter([(tags[i], ATTR[(i + aoff) % len(ATTR)], TEXT[(2 * i + sc['off']) % len(TEXT)]) for i in range(n)])
                m = model(shape, lab)
                for b in (build, build2):
                    x = b(XML, m)
                    XML.save(x, f)
                    ctx.check(diff(x, m) is None, 'save-changes-data', 'saving changed the tree: %s' % diff(x, m))
                    e = etdiff(ET.parse(f).getroot(), m)
                    ctx.check(e is None, 'file', 'written file differs: %s' % e)
                    y = XML.load(f)
                    e = diff(y, m)
                    ctx.check(e is None, 'roundtrip', 'tags %r attributes %d text %d: %s' % (tags, aoff, sc['off'], e))
                    XML.save(y, f)
                    with open(f) as fh:
                        y2 = XML.load(fh)
                    e = diff(y2, m)
                    ctx.check(e is None, 'second-roundtrip', '%s' % e)
                    ctx.step(4)
                ctx.state((shape, tags, aoff, sc['off']))
                ctx.trace()
        return
    # data trees
    import SUAVE.Core as C
    import numpy as np

    def mk(items):
        if sc['cls'] == 'dict':
            return dict(items)
        d = getattr(C, sc['cls'])()
        for k, v in items:
            d[k] = v
        return d
    LEAF = [1, 2.5, 'txt', np.array([1, 2]), 'a<&"é']
    SPECIAL = [None, [1, 'two'], (3, 4), mk([])]
    KEYS = ['zeta', 'alpha', 'mid', 'beta', 'last']
    for off in range(len(LEAF) + len(SPECIAL)):
        for tagged in (False, True):
            vals = LEAF + SPECIAL
            cnt = [0]

            def tree(s):
                items = []
                for j, c in enumerate(s):
                    cnt[0] += 1
                    k = KEYS[(j + off) % 5]
                    items.append((k, tree(c)[0] if c else vals[(cnt[0] + off) % len(vals)]))
                return mk(items), items
            t, _ = tree(shape)
            if tagged:
                if sc['cls'] == 'dict':
                    continue
                t['tag'] = 'the_root'
            root = C.Data()
            for k in t.keys():
                root[k] = t[k]
            g = os.path.join(ctx.scratch(), 'g.json')
            D3JS.save_tree(root, g, None if tagged else 'given')
            want = {'name': 'the_root' if tagged else 'given', 'children': d3(root)}
            got = json.load(open(g))
            ctx.check(got == want, 'd3', 'D3 tree %r expected %r' % (got, want))
            D3JS.save_tree(root, g)
            got = json.load(open(g))
            ctx.check(got['name'] == ('the_root' if tagged else 'output'), 'd3-root', 'root name %r' % got['name'])
            FreeMind.save(root, f)
            got = fm(ET.parse(f).getroot())
            want = fmwant(root)
            if tagged:
                want = [('the_root', want)]
            ctx.check(got == want, 'freemind', 'FreeMind map %r expected %r' % (got, want))
            # generic data straight to XML: one element per entry, in order
            XML.save(root, f)
            r = ET.parse(f).getroot()
            e = xd(r, root)
            ctx.check(e is None and r.tag == ('the_root' if tagged else 'node'), 'xml-from-data', 'XML from data: %s, root %s' % (e, r.tag))
            ctx.state((shape, off, tagged, sc['cls']))
            ctx.step(4)
            ctx.trace()
    # appending to a D3 tree by hand
    from SUAVE.Input_Output.D3JS.Tree_Element import Tree_Element
    t = Tree_Element('r')
    for i in range(n):
        t.append(Tree_Element('c%d' % i))
    g = os.path.join(ctx.scratch(), 'g.json')
    D3JS.save_tree(t, g)
    ctx.check(json.load(open(g)) == {'name': 'r', 'children': [{'name': 'c%d' % i} for i in range(n)]}, 'd3-append', 'appended children: %s' % open(g).read())


def d3(d):
    out = []
    for k in d.keys():
        v = d[k]
        out.append({'name': k, 'children': d3(v) if isinstance(v, dict) else [{'name': str(v)}]})
    return out or [{'name': '{}'}]


def fm(e):
    return [(c.attrib['TEXT'], fm(c)) for c in e]


def fmwant(v):
    if isinstance(v, dict):
        return [(k, fmwant(v[k])) for k in v.keys()]
    if isinstance(v, (list, tuple)):
        return sum((fmwant(x) for x in v), [])
    return [] if v is None else [(str(v), [])]


def xd(e, d, path=''):
    ks = list(d.keys())
    if [c.tag for c in e] != ks:
        return '%s: elements %r expected %r' % (path, [c.tag for c in e], ks)
    for c, k in zip(e, ks):
        v = d[k]
        if isinstance(v, dict):
            r = xd(c, v, path + '/' + k)
            if r:
                return r
        elif (c.text or '').strip() != str(v):
            return '%s/%s: %r expected %r' % (path, k, c.text, str(v))
    return None
