"""C05  Unit conversion: every unit, spelling, operand kind, compound expression and history of use."""
import itertools, math
import numpy as np

LEVEL = 'model_checking'
BOUNDS = ('units: every entry of an independent 150-name table x attribute/item access x 9 operand kinds x (in, out, round trip); '
          'compound expressions: all products/ratios of up to 3 terms with exponents 1..3 over 11 units, as one string and as a chain; '
          'histories: all sequences of up to 3 (quick) / 4 (thorough) conversions over 3 kept unit objects x 8 operations; '
          'parsing order: all sequences of 3 names over 10 (quick) / 14 (thorough) in a fresh registry')
ASSUMPTIONS = ['unit definitions of the table are the internationally defined values, written down independently of the definition file']
MIN = {'evals': 20000}

G = 9.80665
LB = 0.45359237
FT = 0.3048
IN = 0.0254
LBF = LB * G
MILE = 1609.344
NM = 1852.0
CAL = 4.184
BTU = 1055.05585262
GAL = 231 * IN**3
deg = math.pi / 180

F = dict(
    # length
    m=1, meter=1, meters=1, metre=1, km=1e3, kilometer=1e3, kilometers=1e3, cm=1e-2, mm=1e-3, millimeter=1e-3, um=1e-6, nm=1e-9, micrometer=1e-6,
    ft=FT, foot=FT, feet=FT, inch=IN, inches=IN, yard=3 * FT, yards=3 * FT, yd=3 * FT, mile=MILE, miles=MILE, mi=MILE, nmi=NM, nautical_mile=NM,
    nautical_miles=NM, mil=IN / 1000, fathom=6 * 1200 / 3937, furlong=660 * 1200 / 3937, angstrom=1e-10, astronomical_unit=149597870691.0,
    Mm=1e6, dam=10.0, dm=0.1,
    # time
    s=1, sec=1, second=1, seconds=1, ms=1e-3, millisecond=1e-3, min=60, minute=60, minutes=60, hr=3600, h=3600, hour=3600, hours=3600,
    day=86400, days=86400, week=604800, fortnight=1209600, julian_year=31557600.0, us=1e-6,
    # mass
    kg=1, kilogram=1, kilograms=1, g=1e-3, gram=1e-3, grams=1e-3, mg=1e-6, lb=LB, lbs=LB, pound=LB, pounds=LB, lbm=LB, oz=LB / 16, ounce=LB / 16,
    slug=LBF / FT, slugs=LBF / FT, stone=14 * LB, ton=2000 * LB, metric_ton=1000, tonne=1000, grain=LB / 7000, carat=2e-4, short_hundredweight=100 * LB,
    long_hundredweight=112 * LB,
    # angle / frequency
    rad=1, radian=1, radians=1, deg=deg, degree=deg, degrees=deg, arcmin=deg / 60, arcsec=deg / 3600, revolution=2 * math.pi, turn=2 * math.pi,
    rpm=2 * math.pi / 60, Hz=1, hertz=1, kHz=1e3, MHz=1e6, GHz=1e9,
    # force / pressure
    N=1, newton=1, newtons=1, kN=1e3, MN=1e6, mN=1e-3, lbf=LBF, pound_force=LBF, force_pound=LBF, kgf=G, kip=1000 * LBF, dyne=1e-5, poundal=LB * FT, ozf=LBF / 16,
    Pa=1, pascal=1, kPa=1e3, MPa=1e6, GPa=1e9, hPa=100, bar=1e5, mbar=100, atm=101325, atmosphere=101325, psi=LBF / IN**2, ksi=1000 * LBF / IN**2, torr=101325 / 760,
    mmHg=133.322387415, inHg=3386.388640341, technical_atmosphere=98066.5,
    # energy / power
    J=1, joule=1, joules=1, kJ=1e3, MJ=1e6, GJ=1e9, Wh=3600, kWh=3.6e6, watt_hour=3600, btu=BTU, BTU=BTU, cal=CAL, calorie=CAL, kcal=1e3 * CAL, erg=1e-7,
    W=1, watt=1, watts=1, kW=1e3, MW=1e6, hp=550 * FT * LBF, horsepower=550 * FT * LBF, metric_horsepower=75 * G, hydraulic_horsepower=550 * FT * LBF,
    electric_horsepower=746, eV=1.602176565e-19,
    # electric
    A=1, ampere=1, mA=1e-3, V=1, volt=1, volts=1, kV=1e3, ohm=1, ohms=1, mohm=1e-3, C=1, coulomb=1, farad=1, siemens=1, tesla=1, gauss=1e-4, henry=1, weber=1,
    # speed
    knot=NM / 3600, knots=NM / 3600, kt=NM / 3600, kts=NM / 3600, mph=MILE / 3600, kph=1 / 3.6,
    # area / volume / viscosity
    acre=4046.8564224, are=100, liter=1e-3, liters=1e-3, L=1e-3, ml=1e-6, gallon=GAL, gallons=GAL, quart=GAL / 4, cup=GAL / 16, imperial_gallon=4.54609e-3,
    bbl=42 * GAL, cc=1e-6, poise=0.1, stokes=1e-4,
    # plain
    less=1, nondim=1, K=1, kelvin=1, degK=1)
OFFSET = dict(degC=(1.0, 273.15), celsius=(1.0, 273.15), degF=(5 / 9, 459.67 * 5 / 9), fahrenheit=(5 / 9, 459.67 * 5 / 9), degR=(5 / 9, 0.0), rankine=(5 / 9, 0.0))
RT = 5e-7        # the definition file gives some constants to 7 digits (slug, degF)


def into(n, v):
    if n in OFFSET:
        a, b = OFFSET[n]
        return v * a + b
    return v * F[n]


def outof(n, v):
    if n in OFFSET:
        a, b = OFFSET[n]
        return (v - b) / a
    return v / F[n]


def operands():
    return [('int', 3), ('zero', 0), ('neg', -2.5), ('float', 1234.5), ('np64', np.float64(7.25)), ('arr', np.array([0.5, -1.0, 2000.0])),
            ('iarr', np.array([1, 2, 3])), ('arr2', np.array([[1.0, 2.0], [3.0, 40.0]])), ('col', np.array([[1.5], [250.0]]))]


COMP = ['ft', 'lbf', 's', 'hour', 'kg', 'inch', 'deg', 'slug', 'km', 'kW', 'gallon']


def scenarios(tier):
    q = tier != 'thorough'
    names = sorted(F) + sorted(OFFSET)
    out = [dict(k='table', names=names[i:i + 12]) for i in range(0, len(names), 12)]
    for a in COMP:
        out.append(dict(k='comp', first=a))
    held = ['km', 'lbf', 'degC', 'deg', 'ft*lbf/s', 'm', 'slug/ft**3']
    for tri in itertools.combinations(held, 3):
        out.append(dict(k='hist', held=list(tri), depth=3 if q else 4))
    names = ORDER[:10 if q else 14]
    for a in names:
        for b in names:
            out.append(dict(k='order', first=a, second=b, n=len(names)))
    return out


ORDER = ['km', 'kilometers', 'min', 'millimeter', 'ft*lbf', 'degF', 'hp', 'knots', 'kWh', 'inches', 'MW', 'cm', 'nmi', 'lbm']


def cost(sc):
    return 5 if sc['k'] == 'comp' else 1


def factor(expr):
    """independent evaluator of a*b/c**n expressions over F"""
    e = expr.replace('**', '^')
    val, op = 1.0, '*'
    for tok in e.replace('*', ' * ').replace('/', ' / ').split():
        if tok in '*/':
            op = tok
            continue
        n, _, p = tok.partition('^')
        f = (F[n] if n in F else float(n)) ** (float(p) if p else 1)
        val = val * f if op == '*' else val / f
    return val


def conv(n, v, way):
    if n in OFFSET:
        return into(n, v) if way == 'in' else outof(n, v)
    f = factor(n)
    return v * f if way == 'in' else v / f


def run(ctx, sc):
    from SUAVE.Core import Units
    k = sc['k']
    if k == 'table':
        for n in sc['names']:
            for form in ('attr', 'item'):
                for oname, v in operands():
                    ctx.state(('table', n, form, oname))
                    keep = np.copy(v) if isinstance(v, np.ndarray) else v
                    u = (lambda: getattr(Units, n)) if form == 'attr' else (lambda: Units[n])
                    r = v * u()
                    ctx.close(r, into(n, np.asarray(keep, float)), 'in:%s' % n, '%s value %r * Units %s' % (oname, keep, n), rtol=RT)
                    ctx.check(np.shape(r) == np.shape(keep), 'shape:%s' % n, 'shape changed by conversion: %r' % (r,))
                    r2 = v / u()
                    ctx.close(r2, outof(n, np.asarray(keep, float)), 'out:%s' % n, '%s value %r / Units %s' % (oname, keep, n), rtol=RT, atol=2e-6 if n in OFFSET else 0)
                    back = (v * u()) / u()
                    ctx.close(back, keep, 'round:%s' % n, 'convert in and out again', rtol=1e-10, atol=1e-9)
                    ctx.check(np.array_equal(v, keep) and type(v) is type(keep), 'operand:%s' % n, 'operand changed from %r to %r' % (keep, v))
                    ctx.step(4)
                    ctx.trace()
    elif k == 'comp':
        exps = (1, 2, 3)
        a = sc['first']
        for e1 in exps:
            for b, op2, e2 in itertools.product(COMP, '*/', exps if ctx.tier == 'thorough' else (1, 2)):
                thirds = [None] + ([(c, o, e) for c in COMP for o in '*/' for e in (1, 3)] if (e1 == 1 or ctx.tier == 'thorough') else [])
                for third in thirds:
                    terms = [(a, '*', e1), (b, op2, e2)] + ([third] if third else [])
                    expr = ''.join((o if i else '') + n + ('**%d' % e if e > 1 else '') for i, (n, o, e) in enumerate(terms))
                    f = factor(expr)
                    r = 2.5 * Units[expr]
                    ctx.close(r, 2.5 * f, 'compound-in', '2.5*Units[%r]' % expr, rtol=5 * RT)
                    r = 2.5 / Units[expr]
                    ctx.close(r, 2.5 / f, 'compound-out', '2.5/Units[%r]' % expr, rtol=5 * RT)
                    # same thing by chaining plain conversions
                    x = 2.5
                    for n, o, e in terms:
                        for _ in range(e):
                            x = x * getattr(Units, n) if o == '*' else x / getattr(Units, n)
                    ctx.close(x, 2.5 * f, 'compound-chain', 'chained form of %s' % expr, rtol=5 * RT)
                    ctx.state(('comp', expr))
                    ctx.step(3)
                    ctx.trace()
    elif k == 'hist':
        held = sc['held']
        ops = [(w, i) for i in range(3) for w in ('in', 'out', 'ina', 'outa')] + [('mul', 0), ('copy', 1)]
        arr = np.array([1.0, 250.0])
        import copy as cp
        for d in range(1, sc['depth'] + 1):
            for seq in itertools.product(ops, repeat=d):
                obj = [Units[n] for n in held]
                for j, (w, i) in enumerate(seq):
                    ctx.step()
                    if w in ('in', 'out'):
                        v = 3.0 + j
                        r = v * obj[i] if w == 'in' else v / obj[i]
                        ctx.close(r, conv(held[i], v, w), 'kept-unit', 'after history %r the kept unit %s gives a different result' % (seq[:j], held[i]), rtol=RT, atol=2e-6)
                    elif w in ('ina', 'outa'):
                        v = arr * (j + 1)
                        keep = v.copy()
                        r = v * obj[i] if w == 'ina' else v / obj[i]
                        ctx.close(r, conv(held[i], keep, w[:-1]), 'kept-unit', 'after history %r the kept unit %s gives a different result' % (seq[:j], held[i]), rtol=RT, atol=2e-6)
                        ctx.check(np.array_equal(v, keep), 'operand', 'operand changed')
                    elif w == 'mul':
                        p = obj[0] * obj[1]
                    elif w == 'copy':
                        obj[i] = cp.copy(obj[i])
                ctx.state(('hist', tuple(held), seq))
                ctx.trace()
    else:
        from SUAVE.Plugins.pint import UnitRegistry
        for c in ORDER[:sc['n']]:
            reg = UnitRegistry()
            seq = [sc['first'], sc['second'], c]
            for n in seq + seq[:1]:
                q = reg.parse_expression(n)
                got = q.to_base_units().magnitude
                ctx.close(got, conv(n, 1.0, 'in'), 'parse-order', 'value of %s after parsing %r in a fresh registry' % (n, seq), rtol=RT)
                ctx.step()
            ctx.state(('order', tuple(seq)))
            ctx.trace()
        # converting between incompatible dimensions is refused
        from SUAVE.Plugins.pint.unit import DimensionalityError
        a, b = sc['first'], sc['second']
        da, db = reg.get_dimensionality(reg.parse_expression(a).units), reg.get_dimensionality(reg.parse_expression(b).units)
        compat = DIM[a] == DIM[b]
        try:
            r = reg.convert(2.0, reg.parse_units(a), reg.parse_units(b))
            ctx.check(compat, 'dimension-accepted', '%s was converted to %s' % (a, b))
            if compat:
                want = 2.0 if a == b else conv(b, conv(a, 2.0, 'in'), 'out')
                ctx.close(r, want, 'convert', '%s -> %s' % (a, b), rtol=RT)
        except DimensionalityError:
            ctx.check(not compat, 'dimension-refused', '%s was not converted to %s' % (a, b))


DIM = {'km': 'L', 'kilometers': 'L', 'min': 'T', 'millimeter': 'L', 'ft*lbf': 'E', 'degF': 'K', 'hp': 'P', 'knots': 'V', 'kWh': 'E', 'inches': 'L', 'MW': 'P', 'cm': 'L',
       'nmi': 'L', 'lbm': 'M'}
