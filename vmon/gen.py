"""Workload generators: measure layouts, corpus tables, and an exact time model used as oracle."""
from fractions import Fraction as F

import pandas as pd

TIMESIGS = ["4/4", "3/4", "2/4", "6/8", "2/2", "9/8", "12/8", "3/8", "5/4", "3/2", "7/8", "6/4", "1/4"]
GRIDS = [F(1, 4), F(1, 8), F(1, 16), F(1, 12), F(1, 24), F(1, 20), F(1, 32), F(1, 48)]


# meters that share their length, numerator or denominator
FAMILIES = [["3/4", "6/8", "12/16"], ["4/4", "2/2", "8/8"], ["6/4", "3/2", "12/8"], ["2/4", "4/8"],
            ["3/4", "3/8", "3/2"], ["6/8", "6/4", "6/16"], ["3/8", "6/16"]]


class Layout:
    """A piece's measures in playing order, with exact absolute times."""

    def __init__(self, measures):
        self.ms = measures  # dicts: mc, mn, timesig, act_dur, mc_offset, start
        self.by_mc = {m["mc"]: m for m in measures}

    def abs(self, pos):
        m = self.by_mc[int(pos[0])]
        return m["start"] + pos[1] - m["mc_offset"]

    @property
    def end(self):
        return self.ms[-1]["start"] + self.ms[-1]["act_dur"]

    def pos(self, t):
        """Canonical position of absolute time t (start of next measure rather than end of prev)."""
        for m in reversed(self.ms):
            if m["start"] <= t:
                return m["mc"], m["mc_offset"] + t - m["start"]
        raise ValueError(t)

    def end_pos(self):
        m = self.ms[-1]
        return m["mc"], m["mc_offset"] + m["act_dur"]

    def rand_time(self, rng, grid=None):
        """A time in [0, end) on a random grid."""
        grid = grid or rng.choice(GRIDS)
        n = int(self.end / grid)
        if rng.random() < 0.25:
            return rng.choice(self.ms)["start"]
        t = rng.randrange(max(n, 1)) * grid
        return t if t < self.end else F(0)

    def rand_pos(self, rng):
        return self.pos(self.rand_time(rng))

    def df(self, nullable=True, extra=True):
        """The table of one piece as left by repeat removal."""
        nxt = [m["mc"] for m in self.ms[1:]] + [pd.NA]
        d = {
            "mc": [m["mc"] for m in self.ms],
            "mn": [m["mn"] for m in self.ms],
            "timesig": [m["timesig"] for m in self.ms],
            "act_dur": [m["act_dur"] for m in self.ms],
            "mc_offset": [m["mc_offset"] for m in self.ms],
            "next": nxt,
            "start": [m["start"] for m in self.ms],
        }
        out = pd.DataFrame(d)
        out["next"] = out["next"].astype("Int64")
        if nullable:
            out["mc"] = out["mc"].astype("Int64")
        return out


def layout(rng, n=None, irregular=True, first_mc=None, gaps=True):
    """Random measures: pickups, split measures, shortened/lengthened measures, meter changes,
    gaps in the measure count (as left by removed repeats)."""
    n = n or rng.choice([1, 2, 3, 4, 6, 9])
    mc = first_mc if first_mc is not None else rng.choice([0, 1, 1, 1, 7])
    pool, change = (rng.choice(FAMILIES), 0.5) if rng.random() < 0.25 else (TIMESIGS, 0.25)
    ts = rng.choice(pool)
    ms, start, mn = [], F(0), 1

    def add(dur, off):
        nonlocal start, mc
        ms.append(dict(mc=mc, mn=mn, timesig=ts, act_dur=dur, mc_offset=off, start=start))
        start += dur
        mc += 1
        if gaps and rng.random() < 0.15:
            mc += rng.randrange(1, 4)

    def part(nominal):
        unit = F(1, int(ts.split("/")[1]) * rng.choice([1, 2, 3]))
        k = int(nominal / unit)
        return unit * rng.randrange(1, k) if k > 1 else nominal

    while len(ms) < n:
        if rng.random() < change:
            ts = rng.choice(pool)
        nominal = F(ts)
        r = rng.random() if irregular else 1
        if r < 0.3 and not ms:  # pickup
            d = part(nominal)
            add(d, nominal - d)
        elif r < 0.15:  # split into two sounding parts
            d = part(nominal)
            if d < nominal:
                add(d, F(0))
                add(nominal - d, d)
            else:
                add(nominal, F(0))
        elif r < 0.2:  # shortened
            add(part(nominal), F(0))
        elif r < 0.24:  # lengthened
            add(nominal + part(nominal), F(0))
        elif r < 0.28:  # partial that starts late
            d = part(nominal)
            add(d, nominal - d)
        else:
            add(nominal, F(0))
        mn += 1
    return Layout(ms)


def stack(dfs, ids, second):
    """Stack per-piece tables as a corpus table indexed by (file_id, second)."""
    return pd.concat(dfs, keys=ids, names=["file_id", second])


def file_ids(rng, n):
    return sorted(rng.sample(range(0, 40), n))
