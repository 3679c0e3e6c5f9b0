"""C12-C17: score positions, metrical levels and corpus cleaning steps."""
import itertools
import warnings
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vmon import gen
from vmon.core import rule, scenario

import harmonic_inference.utils.corpus_utils as cu
import harmonic_inference.utils.rhythmic_utils as ru

warnings.simplefilter("ignore")

# ------------------------------------------------------------------------------------------- C12
rule("C12", "random measure layouts (pickups, split, shortened, lengthened measures, meter changes, "
     "gaps in the measure count) x pairs/triples of exact positions; oracle: absolute time of a "
     "position as the sum of measure lengths; non-trivial = one observed distance")


def _end_spelling(rng, lay, pos):
    """Sometimes spell the start of a measure as the end of the one before it."""
    for a, b in zip(lay.ms[:-1], lay.ms[1:]):
        if (b["mc"], b["mc_offset"]) == pos and rng.random() < 0.3:
            return a["mc"], a["mc_offset"] + a["act_dur"]
    return pos


@scenario("C12", quick=150, thorough=6000)
def distances(ctx, rng, i):
    lay = gen.layout(rng)
    df = lay.df(nullable=rng.random() < 0.5)
    pts = [_end_spelling(rng, lay, lay.rand_pos(rng)) for _ in range(5)] + [lay.end_pos()]
    d = {}
    for a, b in itertools.product(range(len(pts)), repeat=2):
        got = ctx.call("range-length", ru.get_range_length, pts[a], pts[b], df)
        want = lay.abs(pts[b]) - lay.abs(pts[a])
        d[a, b] = got
        ctx.ev("distance")
        ctx.sig(len(lay.ms), str(want), pts[a][0] == pts[b][0], str(pts[a]), str(pts[b]))
        ctx.eq(got, want, "range-length", "distance between positions", a=pts[a], b=pts[b],
               measures=lay.ms)
    for a, b, c in itertools.product(range(len(pts)), repeat=3):
        ctx.eq(d[a, b] + d[b, c], d[a, c], "range-additive", "distances add up", a=pts[a], b=pts[b],
               c=pts[c], measures=lay.ms)
        ctx.ev("triple")
    ctx.check(all(isinstance(v, (F, int)) for v in d.values()), "range-exact",
              "distances are exact", types={type(v) for v in d.values()})


@scenario("C12", quick=150, thorough=6000)
def proportions(ctx, rng, i):
    lay = gen.layout(rng)
    df = lay.df()
    a, b = lay.rand_time(rng), lay.rand_time(rng)
    if rng.random() < 0.2:
        b = lay.end
    if a == b:
        return
    a, b = min(a, b), max(a, b)
    start = lay.pos(a)
    end = lay.pos(b) if b < lay.end else lay.end_pos()
    for _ in range(6):
        t = lay.rand_time(rng)
        pos = lay.pos(t)
        dur = rng.choice(gen.GRIDS) * rng.randrange(0, 20)
        note = pd.Series({"mc": pos[0], "mn_onset": pos[1], "duration": dur})
        kw = {"range_len": b - a} if rng.random() < 0.5 else {}
        got = ctx.call("proportion", ru.get_rhythmic_info_as_proportion_of_range, note, start, end,
                       df, **kw)
        on = F(t - a, 1) / (b - a)
        ctx.ev("proportion")
        ctx.sig(str(on), str(dur), bool(kw))
        ctx.eq(tuple(got), (on, on + dur / (b - a), dur / (b - a)), "proportion",
               "onset, offset, duration as proportion of the range", note=dict(note), start=start,
               end=end, measures=lay.ms)


# ------------------------------------------------------------------------------------------- C13
rule("C13", "exhaustive: time signatures 1..18 over 1,2,4,8,16,32 x grids down to 1/96 of a whole "
     "note (and 5- and 7-tuplets) over two measures; oracle: simple/compound division by "
     "definition; non-trivial = one ranked position")


def _level(num, den, beat):
    compound = num > 3 and num % 3 == 0
    measure = F(num, den)
    pos = beat % measure
    if pos == 0:
        return 3
    beat_len = F(3, den) if compound else F(1, den)
    if (pos / beat_len).denominator == 1:
        return 2
    sub = F(1, den) if compound else F(1, 2 * den)
    return 1 if (pos / sub).denominator == 1 else 0


@scenario("C13", quick=6, thorough=6)
def levels(ctx, rng, i):
    den = [1, 2, 4, 8, 16, 32][i]
    for num in range(1, 19):
        ts = f"{num}/{den}"
        compound = num > 3 and num % 3 == 0
        got = ctx.call("level-lengths", ru.get_metrical_level_lengths, ts)
        ctx.eq(tuple(got), (F(num, den), F(3 if compound else 1, den),
                            F(1, den) if compound else F(1, 2 * den)),
               "level-lengths", "measure, beat and sub-beat length", timesig=ts)
        counts = [0, 0, 0, 0]
        for grid in (F(1, 2 * den), F(1, 3 * den), F(1, 4 * den), F(1, 5 * den), F(1, 7 * den),
                     F(1, 8 * den)):
            for k in range(int(2 * F(num, den) / grid) + 1):
                beat = grid * k
                want = _level(num, den, beat)
                measure = pd.Series({"timesig": ts, "act_dur": F(num, den) * rng.choice([1, F(1, 2)]),
                                     "mc_offset": F(rng.randrange(3), den), "mc": k})
                got = ctx.call("level", ru.get_metrical_level, beat, measure)
                ctx.ev("position")
                counts[want] += 1
                ctx.eq(int(got), want, "metrical-level", "level of a position", timesig=ts,
                       beat=beat)
        ctx.sig(ts, counts)


# ------------------------------------------------------------------------------------------- C14
rule("C14", "random corpora of 1-4 pieces with repeats, one- and many-measure voltas (first endings "
     "with or without a back link), da-capo links with an alternative, early ends; oracle: latest "
     "successor, then the path from the first measure; non-trivial = one cleaned piece")


def _repeat_piece(rng):
    """Raw measures (next tuples). Every measure on the path has a forward successor."""
    first = rng.choice([0, 1, 1, 5])
    nxt, volta = [], []
    n_sec = rng.randrange(1, 4)
    for s in range(n_sec):
        begin = len(nxt)
        for _ in range(rng.randrange(1, 4)):
            nxt.append([len(nxt) + 1])
        kind = rng.random()
        if kind < 0.3:  # simple repeat
            nxt[-1] = [begin, len(nxt)]
        elif kind < 0.75:  # voltas
            lens = [rng.randrange(1, 4) for _ in range(rng.choice([2, 2, 2, 3]))]
            starts, p = [], len(nxt)
            for ln in lens:
                starts.append(p)
                p += ln
            nxt[-1] = list(starts)
            for vi, ln in enumerate(lens):
                for k in range(ln):
                    nxt.append([len(nxt) + 1])
                if vi < len(lens) - 1:
                    nxt[-1] = [begin] if rng.random() < 0.7 else []
                    if not nxt[-1]:
                        nxt[-1] = [begin, p]
    nxt[-1] = rng.choice([[], [-1 - first], [0, -1 - first]])
    if rng.random() < 0.15 and len(nxt) > 3:  # early end ("fine")
        k = rng.randrange(1, len(nxt) - 1)
        nxt[k] = nxt[k] + [-1 - first]
    out = []
    for k, lst in enumerate(nxt):
        lst = [v + first for v in lst]
        if rng.random() < 0.3:
            rng.shuffle(lst)
        out.append(tuple(lst))
    if rng.random() < 0.05:  # a last measure whose successor list is wrong (no end marker)
        out[-1] = (first,)
    return [first + k for k in range(len(out))], out


def _raw_df(rng, mcs, nxt):
    n = len(mcs)
    return pd.DataFrame({
        "mc": mcs, "mn": [m for m in mcs], "act_dur": [F(rng.randrange(1, 5), 4) for _ in mcs],
        "mc_offset": [F(rng.randrange(0, 3), 4) for _ in mcs],
        "timesig": [rng.choice(gen.TIMESIGS) for _ in mcs], "next": nxt,
        "volta": [rng.choice([1, 2, pd.NA]) for _ in mcs],
        "extra": [f"x{rng.randrange(99)}" for _ in range(n)]})


def _expected_path(mcs, nxt):
    succ = {}
    for k, (mc, lst) in enumerate(zip(mcs, nxt)):
        if k == len(mcs) - 1 or not lst or -1 in lst:
            succ[mc] = None
        else:
            succ[mc] = max(lst)
    path, cur = [], mcs[0]
    while cur is not None:
        path.append(cur)
        cur = succ[cur]
    return path, succ


@scenario("C14", quick=120, thorough=4000)
def repeats(ctx, rng, i):
    n_pieces = rng.choice([1, 1, 2, 3, 4])
    ids = gen.file_ids(rng, n_pieces)
    pieces = [_repeat_piece(rng) for _ in ids]
    dfs = [_raw_df(rng, *p) for p in pieces]
    if rng.random() < 0.5:
        for d in dfs:
            d["mc"] = d["mc"].astype("Int64")
    raw = gen.stack(dfs, ids, "measure_id")
    before = raw.copy(deep=True)
    got = ctx.call("remove-repeats", cu.remove_repeats, raw)
    ctx.check(raw.equals(before), "input-untouched", "the given table is not modified")
    keep_all = ctx.call("remove-repeats", cu.remove_repeats, raw, remove_unreachable=False)
    ctx.eq(list(keep_all.index), list(raw.index), "keep-unreachable",
           "without removal all rows stay")
    for fid, (mcs, nxt), d in zip(ids, pieces, dfs):
        path, succ = _expected_path(mcs, nxt)
        got_fid = got.loc[[fid]] if fid in got.index.get_level_values(0) else got.iloc[:0]
        ctx.ev("piece")
        ctx.ev("removed_measure", len(mcs) - len(path))
        ctx.sig(nxt)
        got_mcs = [int(v) for v in got_fid["mc"]]
        det = dict(mcs=mcs, next=nxt, n_pieces=n_pieces, got=got_mcs, path=path)
        if not ctx.eq(got_mcs, path, "repeat-path", "remaining measures are the path", **det):
            continue
        got_next = [None if pd.isna(v) else int(v) for v in got_fid["next"]]
        ctx.eq(got_next, path[1:] + [None], "repeat-next", "each measure points at its successor",
               **det, got_next=got_next)
        rows = [mcs.index(m) for m in path]
        ctx.eq([k for _, k in got_fid.index], rows, "repeat-index", "index of kept rows", **det)
        for col in ("mn", "act_dur", "mc_offset", "timesig", "extra"):
            ctx.eq(list(got_fid[col]), [d[col].iloc[r] for r in rows], "repeat-data",
                   "measure data unchanged", column=col, **det)
        ka = keep_all.loc[[fid]]
        ctx.eq([None if pd.isna(v) else int(v) for v in ka["next"]], [succ[m] for m in mcs],
               "repeat-next", "successors without removal", **det)
    ctx.eq(set(got.index.get_level_values(0)), set(ids), "repeat-pieces", "every piece remains")


# ------------------------------------------------------------------------------------------- C15
rule("C15", "random note/chord tables over 1-4 pieces with irregular measures, some rows on removed "
     "measures; chord sequences with same-measure, cross-measure and multi-measure gaps; oracle: "
     "membership by (piece, measure), exact absolute times; non-trivial = one judged row")


@scenario("C15", quick=80, thorough=2500)
def unmatched(ctx, rng, i):
    ids = gen.file_ids(rng, rng.choice([1, 2, 3, 4]))
    lays = [gen.layout(rng) for _ in ids]
    measures = gen.stack([l.df() for l in lays], ids, "measure_id")
    drop_piece = rng.choice(ids) if rng.random() < 0.2 and len(ids) > 1 else None
    if drop_piece is not None:
        measures = measures.drop(drop_piece, level=0)
    second = rng.choice(["note_id", "chord_id"])
    dfs, keep = [], []
    for fid, lay in zip(ids, lays):
        rows = []
        n = rng.randrange(1, 9)
        mcs = [(rng.choice(lay.ms)["mc"] if rng.random() < 0.7
                else rng.choice([-1, 0, lay.ms[-1]["mc"] + 1, rng.randrange(0, 20)]))
               for _ in range(n)]
        for k, mc in enumerate(sorted(mcs)):
            rows.append({"mc": mc, "mn_onset": F(rng.randrange(8), 8), "tag": f"{fid}-{k}",
                         "val": rng.choice([1, pd.NA])})
            if fid != drop_piece and mc in lay.by_mc:
                keep.append((fid, k, f"{fid}-{k}", mc))
        dfs.append(pd.DataFrame(rows))
    for d in dfs:
        d["mc"] = d["mc"].astype("Int64")
    table = gen.stack(dfs, ids, second)
    before = table.copy(deep=True)
    if not keep:
        return
    got = ctx.call("remove-unmatched", cu.remove_unmatched, table, measures)
    ctx.check(table.equals(before), "input-untouched", "the given table is not modified")
    ctx.ev("rows", len(table))
    ctx.ev("dropped", len(table) - len(keep))
    ctx.sig(tuple(keep), len(table))
    ctx.eq(sorted((int(a), int(b)) for a, b in got.index), sorted((a, b) for a, b, _, _ in keep),
           "unmatched-rows", "kept rows are exactly those on present measures", n=len(table))
    ctx.eq([(int(a), int(b), t, int(m)) for (a, b), t, m in zip(got.index, got["tag"], got["mc"])],
           keep, "unmatched-order", "kept rows unchanged and in order")
    ctx.eq(list(got.columns), list(table.columns), "unmatched-columns", "same columns")
    ctx.eq(list(got.index.names), list(table.index.names), "unmatched-index", "same index")


def _chord_tables(rng, lays):
    dfs, times = [], []
    for lay in lays:
        n = rng.choice([1, 1, 2, 4, 8])
        ts = sorted(lay.rand_time(rng) for _ in range(n))
        if rng.random() < 0.8:
            ts = sorted(set(ts))
        pos = [lay.pos(t) for t in ts]
        dfs.append(pd.DataFrame({
            "mc": pd.array([p[0] for p in pos], dtype="Int64"),
            "mn_onset": [p[1] for p in pos],
            "timesig": [lay.by_mc[p[0]]["timesig"] for p in pos],
            "label": [f"c{k}" for k in range(len(pos))]}))
        times.append(ts)
    return dfs, times


@scenario("C15", quick=60, thorough=2000)
def chord_timing(ctx, rng, i):
    ids = gen.file_ids(rng, rng.choice([1, 1, 2, 3, 4]))
    lays = [gen.layout(rng) for _ in ids]
    mdfs = [l.df() for l in lays]
    raw_next = rng.random() < 0.2
    if raw_next:
        for m in mdfs:
            m["next"] = [() if pd.isna(v) else (int(v),) for v in m["next"]]
    measures = gen.stack(mdfs, ids, "measure_id")
    dfs, times = _chord_tables(rng, lays)
    have = list(range(len(ids)))
    if len(ids) > 1 and rng.random() < 0.2:
        have.remove(rng.choice(have))  # a piece without chords
    chords = gen.stack([dfs[k] for k in have], [ids[k] for k in have], "chord_id")
    before = chords.copy(deep=True)
    got = ctx.call("chord-timing", cu.add_chord_metrical_data, chords, measures)
    ctx.check(chords.equals(before), "input-untouched", "the given table is not modified")
    ctx.eq(list(got.index), list(chords.index), "chord-rows", "same rows in order")
    for c in before.columns:
        ctx.check(c in got.columns and list(got[c]) == list(before[c]), "chord-columns",
                  "existing columns unchanged", column=c)
    for k in have:
        lay, ts, sub = lays[k], times[k], got.loc[[ids[k]]]
        ends = ts[1:] + [lay.end]
        nexts = [lay.pos(t) for t in ts[1:]] + [lay.end_pos()]
        for j, (t, e, nx) in enumerate(zip(ts, ends, nexts)):
            row = sub.iloc[j]
            ctx.ev("chord")
            ctx.ev("last_chord", int(j == len(ts) - 1))
            ctx.sig(str(lay.pos(t)), str(nx), str(e - t), len(ids))
            det = dict(chord=lay.pos(t), next=nx, measures=lay.ms, pieces=len(ids))
            ctx.eq((int(row["mc_next"]), row["mn_onset_next"]), nx, "chord-next",
                   "chord ends where the next begins", **det)
            ctx.eq(row["duration"], e - t, "chord-duration", "duration is the music between", **det)
        ctx.eq(sum(sub["duration"], F(0)), lay.end - ts[0], "chord-total",
               "durations sum to the annotated time", measures=lay.ms)


# ------------------------------------------------------------------------------------------- C16
rule("C16", "random notes over 1-4 pieces with irregular measures, durations from zero to past the "
     "end of the piece; oracle: absolute time; non-trivial = one note offset")


@scenario("C16", quick=80, thorough=2500)
def note_offsets(ctx, rng, i):
    ids = gen.file_ids(rng, rng.choice([1, 1, 2, 3, 4]))
    lays = [gen.layout(rng) for _ in ids]
    mdfs = [l.df() for l in lays]
    if rng.random() < 0.2:
        for m in mdfs:
            m["next"] = [() if pd.isna(v) else (int(v),) for v in m["next"]]
    measures = gen.stack(mdfs, ids, "measure_id")
    dfs, want = [], []
    for lay in lays:
        rows = []
        for k in range(rng.randrange(1, 10)):
            t = lay.rand_time(rng)
            r = rng.random()
            if r < 0.35:  # ends exactly at some measure boundary (or the end)
                cand = [m["start"] for m in lay.ms if m["start"] >= t] + [lay.end]
                dur = rng.choice(cand) - t
            elif r < 0.45:
                dur = F(0)
            else:
                dur = rng.choice(gen.GRIDS) * rng.randrange(1, 40)
            pos = lay.pos(t)
            end = t + dur
            want.append(lay.pos(end))
            rows.append({"mc": pos[0], "mn_onset": pos[1], "duration": dur, "midi": 60 + k,
                         "tied": rng.choice([pd.NA, 1]), "name": f"n{k}"})
        d = pd.DataFrame(rows)
        d["mc"] = d["mc"].astype("Int64")
        dfs.append(d)
    notes = gen.stack(dfs, ids, "note_id")
    before = notes.copy(deep=True)
    m_before = measures.copy(deep=True)
    got = ctx.call("note-offsets", cu.add_note_offsets, notes, measures)
    ctx.check(notes.equals(before) and measures.equals(m_before), "input-untouched",
              "the given tables are not modified")
    ctx.eq(list(got.index), list(notes.index), "note-rows", "same rows in order")
    for c in before.columns:
        same = all((pd.isna(a) and pd.isna(b)) or a == b for a, b in zip(got[c], before[c]))
        ctx.check(same, "note-columns", "existing columns unchanged", column=c)
    for idx, w, mc, beat in zip(got.index, want, got["offset_mc"], got["offset_beat"]):
        lay = lays[ids.index(idx[0])]
        row = before.loc[idx]
        ctx.ev("note")
        crossed = [m["mc"] for m in lay.ms].index(w[0]) - [m["mc"] for m in lay.ms].index(row["mc"])
        ctx.ev(f"crossed_{min(crossed, 5)}")
        ctx.sig(crossed, str(w), str(row["duration"]))
        ctx.eq((int(mc), beat), w, "note-offset", "offset position", onset=(row["mc"], row["mn_onset"]),
               duration=row["duration"], measures=lay.ms)


# ------------------------------------------------------------------------------------------- C17
rule("C17", "random note tables of 1-3 pieces with tie chains of length 1-6 (complete, missing start, "
     "missing end), simultaneous chains of the same pitch in different voices/staves, grace notes "
     "with tie flags, unison re-attacks; oracle: the chains by construction; non-trivial = one chain")


def _tie_clash(a, b):
    """Could members of two chains of one pitch be tied to each other?"""
    def at(chain, s):
        bounds, _, flags = chain
        if s in bounds[1:-1]:
            return "interior"
        if s == bounds[-1]:
            return "open_end" if flags[-1] in (0, 1) else "closed"
        return "open_start" if flags[0] in (0, -1) else "closed"

    for s in set(a[0]) & set(b[0]):
        ka, kb = at(a, s), at(b, s)
        if "closed" in (ka, kb):
            continue
        if ka != "interior" or kb != "interior" or a[1] == b[1]:
            return True
    return False


@scenario("C17", quick=50, thorough=2500)
def ties(ctx, rng, i):
    ids = gen.file_ids(rng, rng.choice([1, 2, 3]))
    lays, dfs, expect = [], [], []
    for fid in ids:
        lay = gen.layout(rng, n=rng.choice([3, 5, 8]), irregular=rng.random() < 0.5)
        lays.append(lay)
        grid = rng.choice([F(1, 4), F(1, 8), F(1, 12)])
        rows = []  # (row dict, chain id)
        used = {}  # (midi) -> list of (start,end) chain spans with (voice, staff)
        n_chain = rng.randrange(2, 9)
        for c in range(n_chain):
            midi = rng.choice([60, 60, 62, 64])
            total = int(lay.end / grid)
            length = rng.choice([1, 1, 2, 2, 3, 4, 6])
            seg = [rng.randrange(1, 5) for _ in range(length)]
            t0 = rng.randrange(0, max(1, total))
            bounds = [t0 * grid]
            for s in seg:
                bounds.append(bounds[-1] + s * grid)
            shadowed = None
            if used and rng.random() < 0.4:  # shadow an earlier chain in another voice
                midi = rng.choice(sorted(used))
                src, shadowed, _ = rng.choice(used[midi])
                bounds = list(src)
                if len(bounds) > 2 and rng.random() < 0.5:
                    bounds = bounds[rng.randrange(0, 2):]
                if rng.random() < 0.3:
                    bounds.append(bounds[-1] + grid)
            elif used and rng.random() < 0.35:  # directly after an earlier chain
                midi = rng.choice(sorted(used))
                shift = rng.choice(used[midi])[0][-1] - bounds[0]
                bounds = [b + shift for b in bounds]
            while len(bounds) > 2 and bounds[-2] >= lay.end:
                bounds.pop()
            if bounds[0] >= lay.end:
                continue
            vs = (rng.randrange(1, 5), rng.choice([1, 1, 2, 2, 3, 4]))
            if shadowed is not None and rng.random() < 0.6:  # differ only in the staff or in the voice
                vs = rng.choice([(shadowed[0], shadowed[1] % 4 + 1), (shadowed[0] % 4 + 1, shadowed[1])])
            kind = rng.choice(["full", "full", "full", "nostart", "noend", "neither"])
            n = len(bounds) - 1
            flags = [0] * n
            if kind in ("full", "noend"):
                flags[0] = 1
            if kind in ("full", "nostart"):
                flags[-1] = -1
            if n == 1:
                flags = [rng.choice([None, None, 1, -1, 0])]
            # keep the construction the only reading of the table (see _tie_clash)
            if any(_tie_clash((bounds, vs, flags), other) for other in used.get(midi, [])):
                continue
            used.setdefault(midi, []).append((bounds, vs, flags))
            members = []
            for k in range(n):
                pos, off = lay.pos(bounds[k]), lay.pos(bounds[k + 1])
                members.append({
                    "mc": pos[0], "mn_onset": pos[1], "duration": bounds[k + 1] - bounds[k],
                    "midi": midi, "tpc": rng.randrange(-2, 5), "voice": vs[0], "staff": vs[1],
                    "gracenote": pd.NA, "tied": pd.NA if flags[k] is None else flags[k],
                    "offset_mc": off[0], "offset_beat": off[1], "_chain": c, "_k": k,
                    "_t": bounds[k]})
            rows += members
        for g in range(rng.randrange(0, 3)):  # grace notes, with any tie flag, anywhere
            t = lay.rand_time(rng, grid)
            pos = lay.pos(t)
            rows.append({"mc": pos[0], "mn_onset": pos[1], "duration": F(0), "midi": rng.choice([60, 62, 64]),
                         "tpc": 0, "voice": 1, "staff": 1, "gracenote": "acciaccatura",
                         "tied": rng.choice([pd.NA, 1, -1, 0]), "offset_mc": pos[0],
                         "offset_beat": pos[1], "_chain": 1000 + g, "_k": 0, "_t": t})
        if not rows:
            rows.append({"mc": lay.ms[0]["mc"], "mn_onset": lay.ms[0]["mc_offset"], "duration": F(1, 4),
                         "midi": 60, "tpc": 0, "voice": 1, "staff": 1, "gracenote": pd.NA,
                         "tied": pd.NA, "offset_mc": lay.ms[0]["mc"],
                         "offset_beat": lay.ms[0]["mc_offset"] + F(1, 4), "_chain": 0, "_k": 0,
                         "_t": F(0)})
        rng.shuffle(rows)  # simultaneous notes of one pitch come in any order
        rows.sort(key=lambda r: (r["_t"], r["midi"]))
        dfs.append(pd.DataFrame(rows))
    for fid, d in zip(ids, dfs):
        for c, sub in d.groupby("_chain"):
            sub = sub.sort_values("_k")
            first, last = sub.iloc[0], sub.iloc[-1]
            if not pd.isna(first["gracenote"]) or len(sub) == 1:
                tied = first["tied"]
            else:
                fl = list(sub["tied"])
                tied = (pd.NA if fl[0] == 1 and fl[-1] == -1 else 1 if fl[0] == 1
                        else -1 if fl[-1] == -1 else 0)
            expect.append((fid, int(first.name), int(first["mc"]), first["mn_onset"],
                           sum(sub["duration"], F(0)), int(first["midi"]), int(first["tpc"]),
                           int(last["offset_mc"]), last["offset_beat"],
                           None if pd.isna(tied) else int(tied),
                           None if pd.isna(first["gracenote"]) else first["gracenote"]))
            ctx.ev("chain")
            same = d.loc[(d["midi"] == first["midi"]) & (d["_chain"] != c)]
            ctx.ev("chain_with_simultaneous_twin", int(bool(set(same["_t"]) & set(sub["_t"][1:]))))
            ctx.ev(f"chain_len_{len(sub)}")
            ctx.sig(len(sub), tuple(str(x) for x in sub["tied"]), str(sub["duration"].tolist()),
                    len(d))
    notes = gen.stack([d.drop(columns=["_chain", "_k", "_t"]) for d in dfs], ids, "note_id")
    for col in ("mc", "midi", "tpc", "voice", "staff", "tied", "offset_mc"):
        notes[col] = notes[col].astype("Int64")
    before = notes.copy(deep=True)
    got = ctx.call("merge-ties", cu.merge_ties, notes)
    ctx.check(notes.equals(before), "input-untouched", "the given table is not modified")
    res = [(int(f), int(n), int(r["mc"]), r["mn_onset"], r["duration"], int(r["midi"]),
            int(r["tpc"]), int(r["offset_mc"]), r["offset_beat"],
            None if pd.isna(r["tied"]) else int(r["tied"]),
            None if pd.isna(r["gracenote"]) else r["gracenote"])
           for (f, n), r in got.iterrows()]
    expect.sort(key=lambda e: e[:2])
    table = notes[["mc", "mn_onset", "duration", "midi", "voice", "staff", "tied", "offset_mc",
                   "offset_beat", "gracenote"]]
    exp_ids, got_ids = [e[:2] for e in expect], [r[:2] for r in res]
    ctx.eq(sorted(got_ids), exp_ids, "tie-notes", "one note per chain",
           table=table.to_csv())
    ctx.eq(got_ids, sorted(got_ids), "tie-order", "result in note order")
    byid = {r[:2]: r for r in res}
    for e in expect:
        if e[:2] in byid:
            ctx.eq(byid[e[:2]], e, "tie-merged", "merged note", table=table.to_csv())

    def totals(df):
        out = {}
        for (f, _), r in df.iterrows():
            out[f, int(r["midi"])] = out.get((f, int(r["midi"])), 0) + r["duration"]
        return out

    ctx.eq(totals(got), totals(before), "tie-conservation", "sounding time per pitch conserved",
           table=table.to_csv())
    ctx.eq(list(got.columns), list(before.columns), "tie-columns", "same columns")
    again = ctx.call("merge-ties", cu.merge_ties, got)
    ctx.eq(sorted(again.index), sorted(got.index), "tie-idempotent", "merging again changes nothing")


@scenario("C17", quick=12, thorough=900)
def crossing(ctx, rng, i):
    """Chains of one pitch that meet, in voices and staves that need not match: whichever continues which,
    every chain is joined, nothing is left over, and no sounding time is lost."""
    ids = gen.file_ids(rng, rng.choice([1, 2]))
    dfs, want_on, want_off, total = [], [], [], {}
    for fid in ids:
        lay = gen.layout(rng, n=rng.choice([3, 5]), irregular=rng.random() < 0.5)
        grid = rng.choice([F(1, 8), F(1, 12)])
        steps = int(lay.end / grid)
        if steps < 4:
            return
        rows = []
        for midi in rng.sample([60, 61, 72], rng.choice([1, 2])):
            meet = sorted(rng.sample(range(1, steps), min(rng.choice([1, 2, 3]), steps - 1)))
            for c in range(rng.choice([2, 2, 3, 4])):
                lo, hi = rng.randrange(0, meet[0]), rng.randrange(meet[-1] + 1, steps + 1)
                bounds = [lo] + meet + [hi]
                for k, (a, b) in enumerate(zip(bounds, bounds[1:])):
                    pos, off = lay.pos(a * grid), lay.pos(b * grid)
                    rows.append({"mc": pos[0], "mn_onset": pos[1], "duration": (b - a) * grid, "midi": midi, "tpc": 0,
                                 "voice": rng.randrange(1, 4), "staff": rng.choice([1, 1, 2, 2, 3]), "gracenote": pd.NA,
                                 "tied": 1 if k == 0 else -1 if k == len(bounds) - 2 else 0,
                                 "offset_mc": off[0], "offset_beat": off[1], "_t": a * grid})
                    total[fid, midi] = total.get((fid, midi), 0) + (b - a) * grid
                want_on.append((fid, midi, lo * grid))
                want_off.append((fid, midi, hi * grid))
        rng.shuffle(rows)
        rows.sort(key=lambda r: (r["_t"], r["midi"]))
        dfs.append((lay, pd.DataFrame(rows)))
    notes = gen.stack([d.drop(columns=["_t"]) for _, d in dfs], ids, "note_id")
    for col in ("mc", "midi", "tpc", "voice", "staff", "tied", "offset_mc"):
        notes[col] = notes[col].astype("Int64")
    table = notes[["mc", "mn_onset", "duration", "midi", "voice", "staff", "tied"]].to_csv()
    got = ctx.call("merge-ties", cu.merge_ties, notes.copy(deep=True))
    lays = dict(zip(ids, (lay for lay, _ in dfs)))
    on, off, sums = [], [], {}
    for (f, _), r in got.iterrows():
        midi, a = int(r["midi"]), lays[f].abs((int(r["mc"]), r["mn_onset"]))
        on.append((f, midi, a))
        off.append((f, midi, a + r["duration"]))
        sums[f, midi] = sums.get((f, midi), 0) + r["duration"]
        ctx.eq((int(r["offset_mc"]), r["offset_beat"]), lays[f].pos(a + r["duration"]), "crossing-offset",
               "ends where its duration ends", table=table)
        ctx.check(pd.isna(r["tied"]), "crossing-left", "no tie is left over", table=table)
    ctx.ev("crossing_chain", len(want_on))
    ctx.sig("crossing", len(want_on), tuple(notes["voice"]), tuple(notes["staff"]))
    ctx.eq(sorted(on), sorted(want_on), "crossing-starts", "one note per chain start", table=table)
    ctx.eq(sorted(off), sorted(want_off), "crossing-ends", "one note per chain end", table=table)
    ctx.eq(sums, total, "crossing-conservation", "sounding time per pitch conserved", table=table)


@scenario("C17", quick=15, thorough=1200)
def uneven(ctx, rng, i):
    """At one point and pitch more ties end than begin, or more begin than end: those of one staff and voice are
    joined, as many as possible of the others, and what cannot be joined is kept and stays marked."""
    ids = gen.file_ids(rng, rng.choice([1, 1, 2]))
    dfs, lays, groups = [], {}, {}
    for fid in ids:
        lay = lays[fid] = gen.layout(rng, n=rng.choice([3, 5]), irregular=rng.random() < 0.5)
        grid = rng.choice([F(1, 8), F(1, 12), F(1, 16)])
        steps = int(lay.end / grid)
        if steps < 4:
            return
        rows = []
        for midi in rng.sample([60, 61, 72], rng.choice([1, 2])):
            meet = rng.randrange(1, steps)
            where = [(s, v) for s in (1, 2, 3) for v in (1, 2, 3)]
            outs, ins = (rng.sample(where, rng.choice([0, 1, 1, 2, 3])) for _ in range(2))
            if ins and outs and rng.random() < 0.6:  # one that does belong together
                outs[0] = ins[0] if ins[0] not in outs else outs[0]
            groups[fid, midi] = (meet * grid, outs, ins)
            for kind, places in ((1, outs), (-1, ins)):
                for s, v in places:
                    a, b = (rng.randrange(0, meet), meet) if kind == 1 else (meet, rng.randrange(meet + 1, steps + 1))
                    pos, off = lay.pos(a * grid), lay.pos(b * grid)
                    rows.append({"mc": pos[0], "mn_onset": pos[1], "duration": (b - a) * grid, "midi": midi, "tpc": 0,
                                 "voice": v, "staff": s, "gracenote": pd.NA, "tied": kind,
                                 "offset_mc": off[0], "offset_beat": off[1], "_t": a * grid})
        if not rows:
            return
        rng.shuffle(rows)
        rows.sort(key=lambda r: (r["_t"], r["midi"]))
        dfs.append(pd.DataFrame(rows))
    notes = gen.stack([d.drop(columns=["_t"]) for d in dfs], ids, "note_id")
    for col in ("mc", "midi", "tpc", "voice", "staff", "tied", "offset_mc"):
        notes[col] = notes[col].astype("Int64")
    table = notes[["mc", "mn_onset", "duration", "midi", "voice", "staff", "tied", "offset_mc", "offset_beat"]].to_csv()
    got = ctx.call("merge-ties", cu.merge_ties, notes.copy(deep=True))

    def place(r):
        return (int(r["staff"]), int(r["voice"]))

    for (fid, midi), (t, outs, ins) in groups.items():
        lay = lays[fid]
        old = notes.loc[(notes.index.get_level_values(0) == fid) & (notes["midi"] == midi)]
        new = got.loc[(got.index.get_level_values(0) == fid) & (got["midi"] == midi)]
        joined, open_out, open_in = [], [], []
        det = dict(outs=outs, ins=ins, table=table)
        for ix, r in new.iterrows():
            a = lay.abs((int(r["mc"]), r["mn_onset"]))
            ctx.eq((int(r["offset_mc"]), r["offset_beat"]), lay.pos(a + r["duration"]), "uneven-offset", "ends where its duration ends", **det)
            if not ctx.check(ix in old.index, "uneven-identity", "a note of the piece", **det):
                continue
            was = old.loc[ix]
            ctx.eq((int(r["mc"]), r["mn_onset"], place(r)), (int(was["mc"]), was["mn_onset"], place(was)), "uneven-identity", "starts as its first note", **det)
            if pd.isna(r["tied"]):
                ends = [place(x) for _, x in old.iterrows() if int(x["tied"]) == -1
                        and lay.abs((int(x["mc"]), x["mn_onset"])) + x["duration"] == a + r["duration"]]
                ctx.check(int(was["tied"]) == 1 and a < t < a + r["duration"], "uneven-joined", "a joined note spans the tie", **det)
                joined.append((place(was), ends))
            else:
                ctx.eq((int(r["tied"]), r["duration"]), (int(was["tied"]), was["duration"]), "uneven-kept", "what is not joined stays as it was", **det)
                (open_out if int(r["tied"]) == 1 else open_in).append(place(r))
        ctx.ev("uneven_tie", len(outs) + len(ins))
        ctx.ev("uneven_left_over", len(open_out) + len(open_in))
        ctx.sig("uneven", tuple(outs), tuple(ins), str(t))
        k = min(len(outs), len(ins))
        ctx.eq((len(joined), len(open_out), len(open_in)), (k, len(outs) - k, len(ins) - k), "uneven-count", "every tie that can be joined is", **det)
        for p in set(outs) & set(ins):
            ctx.check(any(q == p and p in ends for q, ends in joined), "uneven-place", "ties of one staff and voice belong together", place=p, **det)
        ctx.eq(sum(new["duration"], F(0)), sum(old["duration"], F(0)), "uneven-conservation", "sounding time per pitch conserved", **det)
