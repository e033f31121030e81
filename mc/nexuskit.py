"""a small optimization problem with known formulas, built on the real Nexus"""
import numpy as np


def make(units=(1.0, 1.0), scales=(1.0, 1.0), senses=('>', '<', '='), cscale=(1., 1., 1.), bounds=(0.5, 9.0, 2.0), cunits=(1., 1., 1.), oscale=1.0, ounit=1.0,
         initial=(1.0, 2.0), lb=(-10., -10.), ub=(10., 10.), hard=False, configs=('base', 'cruise'), aliases=None, log=None, fail=None, light=False):
    import SUAVE
    from SUAVE.Core import Data, Units
    from SUAVE.Analyses import Process
    from SUAVE.Optimization import Nexus
    nexus = Nexus()
    prob = Data()
    nexus.optimization_problem = prob
    prob.inputs = np.array([['p', initial[0], lb[0], ub[0], scales[0], units[0]],
                            ['q', initial[1], lb[1], ub[1], scales[1], units[1]]], dtype=object)
    prob.objective = np.array([['obj', oscale, ounit]], dtype=object)
    prob.constraints = np.array([[n, s, b, c, u] for n, s, b, c, u in zip(('g1', 'g2', 'g3'), senses, bounds, cscale, cunits)], dtype=object)
    prob.aliases = aliases or [['p', 'vehicle_configurations.*.wing.p'], ['q', 'vehicle_configurations.base.wing.q'],
                               ['obj', 'summary.obj'], ['g1', 'summary.g1'], ['g2', 'summary.deep.g2'], ['g3', 'summary.g3']]
    nexus.vehicle_configurations = SUAVE.Components.Configs.Config.Container()
    for c in configs:
        v = Data(tag=c) if light else SUAVE.Vehicle()
        v.tag = c
        v.wing = Data(p=0., q=0., other=7.)
        nexus.vehicle_configurations.append(v if light else SUAVE.Components.Configs.Config(v))
    calls = [] if log is None else log

    def first(nx):
        calls.append('first')
        w = nx.vehicle_configurations[configs[-1]].wing
        nx.results.half = (w.p, nx.vehicle_configurations.base.wing.q)
        nx.results.stage = 'half'
        return nx

    def second(nx):
        calls.append('second')
        p, q = nx.results.half
        if fail and fail[0]:
            nx.summary.obj = 1e6                         # partial results of an evaluation that is about to fail
            raise RuntimeError('step failed')
        f = formulas(p, q, nx.fidelity_level)
        nx.summary.obj, nx.summary.g1, nx.summary.g3 = f['obj'], f['g1'], f['g3']
        nx.summary.deep = Data(g2=f['g2'])
        return nx
    nexus.procedure = Process()
    nexus.procedure.first = first
    nexus.procedure.second = second
    nexus.total_number_of_iterations = 0
    nexus.summary.deep = Data()
    return nexus


def formulas(p, q, level):
    k = float(level)
    return dict(obj=(p - 3) ** 2 + k * (q + 1) ** 2 + 0.1 * k * p * q, g1=p + 2 * q * k, g2=p * q + k, g3=p - k * q)
