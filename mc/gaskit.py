"""flight conditions for the propulsion checks, and textbook gas dynamics written independently of the package"""
import numpy as np

GRID = [(.01, 0.), (.3, 0.), (.3, 9000.), (.78, 11000.), (.85, 12500.), (1., 11000.), (1.4, 15000.), (2.02, 17000.)]


def S():
    import SUAVE
    return SUAVE


def freestream(pts, throttle=1., disa=0., var_gamma=False):
    """columns of the operating points (mach, altitude)"""
    s = S()
    atm = s.Analyses.Atmospheric.US_Standard_1976()
    M = np.array([[p[0]] for p in pts])
    h = np.array([[p[1]] for p in pts])
    a = atm.compute_values(h, disa, var_gamma)
    g = s.Attributes.Gases.Air()
    c = dict(mach_number=M, altitude=h, pressure=a.pressure, temperature=a.temperature, density=a.density, speed_of_sound=a.speed_of_sound,
             dynamic_viscosity=a.dynamic_viscosity, velocity=M * a.speed_of_sound, gravity=np.full_like(M, 9.81))
    c['isentropic_expansion_factor'] = g.compute_gamma(a.temperature, a.pressure) * np.ones_like(M)
    c['specific_heat_at_constant_pressure'] = g.compute_cp(a.temperature, a.pressure) * np.ones_like(M)
    c['gas_specific_constant'] = np.full_like(M, g.gas_specific_constant)
    c['throttle'] = np.full_like(M, throttle) if np.isscalar(throttle) else np.array(throttle, dtype=float).reshape(-1, 1)
    gam = c['isentropic_expansion_factor']
    c['stagnation_temperature'] = c['temperature'] * (1 + (gam - 1) / 2 * M ** 2)
    c['stagnation_pressure'] = c['pressure'] * (1 + (gam - 1) / 2 * M ** 2) ** (gam / (gam - 1))
    return {k: np.array(v, dtype=float) for k, v in c.items()}


def conditions(c):
    s = S()
    con = s.Analyses.Mission.Segments.Conditions.Aerodynamics()
    for k, v in c.items():
        if k == 'throttle':
            con.propulsion.throttle = v
        elif k[0] != '_':
            con.freestream[k] = v
    con._size = len(c['mach_number'])
    return con


def state(c):
    s = S()
    st = s.Core.Data()
    st.numerics = s.Core.Data()
    st.conditions = conditions(c)
    return st


def massflux(M, Pt, Tt, g, R):
    """mass flow per unit area"""
    return Pt / np.sqrt(Tt) * np.sqrt(g / R) * M * (1 + (g - 1) / 2 * M * M) ** (-(g + 1) / (2 * (g - 1)))


def mach_of(pr, g):
    """Mach number of an isentropic expansion through total to static ratio pr"""
    return np.sqrt(2 / (g - 1) * (pr ** ((g - 1) / g) - 1))


def area_mach(A, g, sub):
    from scipy.optimize import brentq
    f = lambda M: 1 / M * (2 / (g + 1) * (1 + (g - 1) / 2 * M * M)) ** ((g + 1) / (2 * (g - 1))) - A
    return brentq(f, 1e-6, 1.) if sub else brentq(f, 1., 200.)
