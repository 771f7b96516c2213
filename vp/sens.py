"""Error bounds from the sensitivity of a reference calculation"""
import numpy as np


def wobble(fn, args, deltas, seed=3, rounds=6):
    """fn(*args) and how much it changes, at most, if each argument (an array) is changed by up to its delta (broadcast)"""
    base = np.asarray(fn(*args), float)
    rs = np.random.RandomState(seed)
    change = np.zeros(base.shape)
    ok = np.ones(base.shape, bool)
    for k in range(rounds):
        moved = [np.asarray(a, float) + rs.choice([-1.0, 1.0], np.shape(a)) * d for a, d in zip(args, deltas)]
        other = np.asarray(fn(*moved), float)
        ok &= np.isnan(other) == np.isnan(base)
        change = np.maximum(change, np.nan_to_num(np.abs(other - base), nan=0.0, posinf=1e300))
    return base, change, ok
