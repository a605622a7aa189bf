"""Simulators built on the data shipped with the German TOU data set."""
import datetime as dt

SPARSE_SUBGROUPS = [
    {"n_residents": 2, "household_type": 2},
    {"n_residents": 1, "household_type": 1},
    {"n_residents": 3, "household_type": 4},
    {"n_residents": 2, "household_type": 3},
]


def sparse_multi(sizes, start, **kw):
    """(simulator or None, sizes of the simulated subgroups)."""
    from demod.datasets.GermanTOU.loader import GTOU
    from demod.simulators.sparse_simulators import SubgroupsActivitySimulator
    sizes = list(sizes)[:len(SPARSE_SUBGROUPS)]
    used = [n for n in sizes if n]
    if not used:
        return None, []
    data = GTOU("Sparse9States")
    sim = SubgroupsActivitySimulator(
        [dict(s) for s in SPARSE_SUBGROUPS[:len(sizes)]], sizes,
        data=data, start_datetime=start, **kw)
    return sim, used
