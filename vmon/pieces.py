"""Generated pieces: note/chord/measure tables as the corpus loader leaves them, plus what they mean.

`make(rng)` returns a Piece spec whose `.tables()` feed the real
`get_score_piece_from_data_frames`; the spec itself is the oracle's view (exact times, fifths)."""
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vmon import gen
from vmon import theory as T

SEVENTHS = [c for c in T.CHORD_STR if c not in T.TRIADS]


class PieceSpec:
    def __init__(self, lay, notes, chords):
        self.lay, self.notes, self.chords = lay, notes, chords

    def measures_df(self):
        df = self.lay.df()
        df.index.name = "measure_id"
        return df

    def notes_df(self):
        rows = []
        for n in self.notes:
            on, off = self.lay.pos(n["t"]), self.lay.pos(n["t"] + n["dur"])
            rows.append({"mc": on[0], "mn_onset": on[1], "duration": n["dur"], "midi": n["midi"],
                         "tpc": n["tpc"], "offset_mc": off[0], "offset_beat": off[1],
                         "mc_onset": on[1] - self.lay.by_mc[on[0]]["mc_offset"], "tied": pd.NA,
                         "voice": 1, "staff": 1, "gracenote": pd.NA})
        df = pd.DataFrame(rows)
        for c in ("mc", "midi", "tpc", "offset_mc", "tied"):
            df[c] = df[c].astype("Int64")
        df.index.name = "note_id"
        return df

    def chord_pos(self, t, t1):
        return self.lay.pos(t), (self.lay.end_pos() if t1 == self.lay.end else self.lay.pos(t1))

    def chords_df(self):
        rows = []
        for c in self.chords:
            on, off = self.chord_pos(c["t"], c["t1"])
            rows.append({
                "numeral": c["numeral"], "root": c["root"], "bass_note": c["root"],
                "chord_type": T.CHORD_STR[c["ct"]], "figbass": c["fig"] or np.nan,
                "globalkey": c["gk"], "globalkey_is_minor": c["gminor"],
                "localkey": c["local"], "localkey_is_minor": c["local_minor"],
                "relativeroot": c["rel"] or np.nan, "mc": on[0], "mn_onset": on[1],
                "mc_next": off[0], "mn_onset_next": off[1], "duration": c["t1"] - c["t"],
                "changes": c["changes"] or np.nan, "timesig": self.lay.by_mc[on[0]]["timesig"]})
        df = pd.DataFrame(rows)
        for c in ("mc", "mc_next", "root", "bass_note"):
            df[c] = df[c].astype("Int64")
        df.index.name = "chord_id"
        return df


def key_of(c):
    """(local fifths, local mode, relative fifths, relative mode) of a chord spec."""
    g = T.name_fifths(c["gk"])
    gm = "MINOR" if c["gminor"] else "MAJOR"

    def step(f, mode, s):
        for link in reversed(s.split("/")):
            num = link.lstrip("#b")
            acc = link.count("#") - link[: len(link) - len(num)].count("b")
            f += T.degree_fifths(T.NUMERALS.index(num.upper()) + 1, acc, mode)
            mode = "MINOR" if num.islower() else "MAJOR"
        return f, mode

    lf, lm = step(g, gm, c["local"])
    rf, rm = step(lf, lm, c["rel"]) if c["rel"] else (lf, lm)
    return lf, lm, rf, rm


def make(rng, n_notes=None, n_chords=None, start_late=None, min_notes=1, lay=None):
    lay = lay or gen.layout(rng, n=rng.choice([1, 2, 3, 5, 8]), irregular=rng.random() < 0.7)
    grid = rng.choice([F(1, 4), F(1, 8), F(1, 8), F(1, 16), F(1, 12)])
    total = max(1, int(lay.end / grid))
    n_notes = n_notes or rng.choice([1, 2, 3, 6, 12, 20, 30])
    n_notes = max(n_notes, min_notes)
    times = sorted(rng.randrange(total) * grid for _ in range(n_notes))
    times = [t if t < lay.end else F(0) for t in times]
    if rng.random() < 0.6:
        times[0] = F(0)
    times.sort()
    notes = []
    for t in times:
        r = rng.random()
        dur = F(0) if r < 0.05 else grid * rng.choice([1, 1, 1, 2, 2, 3, 4, 7])
        dur = min(dur, lay.end - t) if rng.random() < 0.97 else dur
        f = rng.randrange(-6, 9)
        pc = (7 * f) % 12
        notes.append(dict(t=t, dur=dur, tpc=f, midi=12 * rng.randrange(3, 8) + pc))
    if rng.random() < 0.5:
        notes.sort(key=lambda n: (n["t"], n["midi"]))
    n_chords = n_chords or rng.choice([1, 1, 2, 3, 5, 8, 12])
    if rng.random() < 0.5:  # aligned with notes
        pool = sorted(set(times))
        ct = sorted(set(rng.choice(pool) for _ in range(n_chords)))
    else:
        ct = sorted(set(x for x in (rng.randrange(total) * grid for _ in range(n_chords)) if x < lay.end)) or [F(0)]
    late = start_late if start_late is not None else rng.random() < 0.3
    if not late:
        ct[0] = F(0)
        ct = sorted(set(ct))
    gk = rng.choice(T.LETTERS) + rng.choice(["", "", "#", "b"])
    gminor = rng.random() < 0.5
    gk = gk[0].lower() + gk[1:] if gminor else gk
    chords, prev = [], None
    local = rng.choice(["I", "i"])
    for k, t in enumerate(ct):
        t1 = ct[k + 1] if k + 1 < len(ct) else lay.end
        if prev is not None and rng.random() < 0.25:
            c = dict(prev)
            r = rng.random()
            if r < 0.2:
                c["changes"] = rng.choice(["4", "64", "", "9"])
            elif r < 0.4:
                c["fig"] = rng.choice(["6", "64", ""]) if c["ct"] in T.TRIADS else rng.choice(["65", "43", "2", "7"])
            elif r < 0.6:  # same chord in another key (pivot)
                lf = key_of(c)[0]
                c["local"], c["rel"] = rng.choice(["V", "iv", "vi", "III"]), ""
                c["root"] += lf - key_of(c)[0]
            elif r < 0.7:
                c["rel"] = rng.choice(["V", "ii", ""])
        else:
            if rng.random() < 0.3:
                local = rng.choice(["I", "i", "V", "iv", "vi", "III", "bVI", "#iv", "ii"])
            if prev is not None and rng.random() < 0.06:  # a new movement: another global key
                gk = rng.choice(T.LETTERS) + rng.choice(["", "", "#", "b"])
                gminor = gminor if rng.random() < 0.7 else not gminor
                gk = gk[0].lower() + gk[1:] if gminor else gk
            typ = rng.choice(list(T.CHORD_STR))
            c = dict(numeral=rng.choice(T.NUMERALS), root=rng.randrange(-4, 6), ct=typ,
                     fig=rng.choice(["", "6", "64"]) if typ in T.TRIADS else rng.choice(["7", "65", "43", "2"]),
                     gk=gk, gminor=gminor, local=local,
                     rel=rng.choice(["V", "ii", "V/V", "vi", "bII", "iv"]) if rng.random() < 0.2 else "",
                     changes=rng.choice(["4", "64", "+6", "9"]) if rng.random() < 0.2 else "")
        c["local_minor"] = c["local"].lstrip("#b").islower()
        c["t"], c["t1"] = t, t1
        chords.append(c)
        prev = c
    return PieceSpec(lay, notes, chords)
