"""C18: aggregating a directory of per-piece tables and loading the cleaned corpus."""
import os
import runpy
import shutil
import sys
import tempfile
from fractions import Fraction as F

import pandas as pd

from vmon import gen
from vmon import theory as T
from vmon.checks.c09_c10_c11 import quiet
from vmon.checks.c12_c13_c14_c15_c16_c17 import _expected_path, _repeat_piece
from vmon.core import rule, scenario

from harmonic_inference.data import corpus_reading as cr

rule("C18", "random corpus directories in a scratch folder (nested, equal names in different corpora, "
     "missing tables, old column names, repeats, ties, @none rows, rows on skipped measures or outside "
     "their measure), aggregated and loaded; oracle: the generated performance; non-trivial = one piece")


def make_piece(rng):
    mcs, nxt = _repeat_piece(rng)
    if rng.random() < 0.25:  # measure counts need not be small
        by = rng.choice([100, 250, 1000])
        mcs, nxt = [m + by for m in mcs], [tuple(v + by if v >= 0 else v for v in nx) for nx in nxt]
    path, _ = _expected_path(mcs, nxt)
    rows, start = {}, F(0)
    ts = rng.choice(["4/4", "3/4", "6/8", "2/2"])
    for k, mc in enumerate(mcs):
        if rng.random() < 0.2:
            ts = rng.choice(gen.TIMESIGS)
        dur, off = F(ts), F(0)
        if rng.random() < 0.2:
            dur = F(ts) * F(1, 2)
            off = rng.choice([F(0), F(ts) - dur])
        rows[mc] = dict(mc=mc, mn=k + 1, timesig=ts, act_dur=dur, mc_offset=off)
    for mc in path:
        rows[mc]["start"] = start
        start += rows[mc]["act_dur"]
    lay = gen.Layout([rows[m] for m in path])
    off_path = [m for m in mcs if m not in path]
    grid = rng.choice([F(1, 4), F(1, 8), F(1, 16), F(1, 12), F(1, 96), F(1, 128), F(1, 28)])
    notes = []
    for k in range(rng.randrange(1, 10)):
        t = lay.rand_time(rng, grid)
        n_seg = rng.choice([1, 1, 1, 2, 3])
        midi = 40 + 2 * k  # a pitch of its own: chains cannot be confused
        bounds = [t]
        for _ in range(n_seg):
            nb = bounds[-1] + grid * rng.randrange(1, 6)
            bounds.append(nb)
            if nb >= lay.end:
                break
        n_seg = len(bounds) - 1
        for j in range(n_seg):
            tied = "" if n_seg == 1 else "1" if j == 0 else "-1" if j == n_seg - 1 else "0"
            notes.append(dict(t=bounds[j], dur=bounds[j + 1] - bounds[j], midi=midi, tied=tied,
                              pos=lay.pos(bounds[j]), head=j == 0, total=bounds[-1] - bounds[0],
                              end=bounds[-1]))
    for k in range(rng.randrange(0, 3)):  # rows that must disappear
        if off_path and rng.random() < 0.6:
            m = rows[rng.choice(off_path)]
            p = (m["mc"], m["mc_offset"])
        else:
            m = rng.choice(lay.ms)
            p = (m["mc"], m["mc_offset"] + m["act_dur"] + rng.choice([F(0), F(1, 8)]))
            if m["mc_offset"] > 0 and rng.random() < 0.5:
                p = (m["mc"], m["mc_offset"] - F(1, 16))
        notes.append(dict(t=None, dur=F(1, 4), midi=90 + k, tied="", pos=p, head=False))
    notes.sort(key=lambda n: (mcs.index(n["pos"][0]), n["pos"][1], n["midi"]))
    chords = []
    times = sorted(set(lay.rand_time(rng, grid) for _ in range(rng.randrange(1, 7))))
    for k, t in enumerate(times):
        chords.append(dict(t=t, pos=lay.pos(t), numeral=rng.choice(T.NUMERALS), keep=True))
        if rng.random() < 0.1:  # a second chord at the same place: the first has no duration
            chords[-1]["keep"] = False
            chords.append(dict(t=t, pos=lay.pos(t), numeral=rng.choice(T.NUMERALS), keep=True))
    for k in range(rng.randrange(0, 3)):
        r = rng.random()
        if r < 0.4:
            t = lay.rand_time(rng, grid)
            if t not in times:
                chords.append(dict(t=None, pos=lay.pos(t), numeral=rng.choice(["@none", ""]), keep=False))
        elif r < 0.7 and off_path:
            m = rows[rng.choice(off_path)]
            chords.append(dict(t=None, pos=(m["mc"], m["mc_offset"]), numeral="V", keep=False))
        else:
            m = rng.choice(lay.ms)
            chords.append(dict(t=None, pos=(m["mc"], m["mc_offset"] + m["act_dur"]), numeral="V", keep=False))
    order = {id(c): k for k, c in enumerate(chords)}
    chords.sort(key=lambda c: (mcs.index(c["pos"][0]), c["pos"][1], order[id(c)]))
    return dict(mcs=mcs, next=nxt, rows=rows, path=path, lay=lay, notes=notes, chords=chords)


def write_piece(rng, p, base, name, tables, old):
    def dump(kind, rows):
        os.makedirs(os.path.join(base, kind), exist_ok=True)
        path = os.path.join(base, kind, name)
        pd.DataFrame(rows).to_csv(path, sep="\t", index=False)
        return pd.read_csv(path, sep="\t", dtype=str)

    out = {}
    off = "offset" if old else "mc_offset"
    on = "onset" if old else "mn_onset"
    if "measures" in tables:
        out["measures"] = dump("measures", [
            {"mc": m, "mn": p["rows"][m]["mn"], "timesig": p["rows"][m]["timesig"],
             "act_dur": str(p["rows"][m]["act_dur"]), off: str(p["rows"][m]["mc_offset"]),
             "next": ", ".join(str(v) for v in nx), "volta": rng.choice(["", "1", "2"]), "keysig": "0"}
            for m, nx in zip(p["mcs"], p["next"])])
    if "notes" in tables:
        out["notes"] = dump("notes", [
            {"mc": n["pos"][0], "mn": 1, on: str(n["pos"][1]),
             "mc_onset": str(n["pos"][1] - p["rows"][n["pos"][0]]["mc_offset"]),
             "duration": str(n["dur"]), "midi": n["midi"], "tpc": n["midi"] % 7, "tied": n["tied"],
             "gracenote": "", "staff": 1, "voice": 1, "volta": "", "scalar": "1/1"} for n in p["notes"]])
    if "harmonies" in tables:
        out["harmonies"] = dump("harmonies", [
            {"mc": c["pos"][0], "mn": 1, on: str(c["pos"][1]), "numeral": c["numeral"],
             "label": "L%d" % k, "globalkey": "C", "globalkey_is_minor": rng.choice(["0", "1"]),
             "localkey": "I", "localkey_is_minor": "0", "chord_type": "M", "figbass": rng.choice(["", "6"]),
             "root": "1", "bass_note": "1", "relativeroot": "", "changes": "", "chord_tones": "0, 4, 1",
             "added_tones": "", "timesig": "4/4"} for k, c in enumerate(p["chords"])])
    return out


def program(name, argv):
    """Run a script of the repository."""
    old = sys.argv
    sys.argv = [name] + argv
    try:
        runpy.run_path(os.path.join(os.environ["REPO_DIR"], name), run_name="__main__")
    finally:
        sys.argv = old


def same(a, b):
    return (pd.isna(a) and pd.isna(b)) or a == b


@scenario("C18", quick=34, thorough=900)
def corpus(ctx, rng, i):
    tmp = tempfile.mkdtemp(prefix="vmon_c18_")
    try:
        _corpus(ctx, rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _corpus(ctx, rng, tmp):
    src, dst = os.path.join(tmp, "src"), os.path.join(tmp, "out", "agg")
    os.makedirs(src)
    notes_only = rng.random() < 0.4
    pieces = {}
    n = rng.choice([1, 2, 3, 4])
    mixed = n > 1 and rng.random() < 0.3
    for k in range(n):
        corpus = rng.choice(["A", "B"])
        base = os.path.join(src, "nested", corpus) if corpus == "B" else os.path.join(src, corpus)
        name = f"p{rng.randrange(5)}.tsv"
        if (corpus, name) in pieces:
            continue
        tables = ["measures", "notes", "harmonies"]
        if rng.random() < (0.25 if len(pieces) else 0.0 if mixed else 0.15):
            tables.remove(rng.choice(tables))
        p = make_piece(rng)
        p["tables"] = tables
        p["raw"] = write_piece(rng, p, base, name, tables, mixed and len(pieces) and rng.random() < 0.6)
        pieces[corpus, name] = p
    for _ in range(rng.choice([1, 1, 1, 2])):  # aggregating once more into the same place changes nothing
        if rng.random() < 0.4:  # as a program
            ctx.call("aggregate", quiet, program, "aggregate_corpus_data.py",
                     ["-i", src, "-o", dst] + (["--notes-only"] if notes_only else []))
            ctx.ev("aggregation_program")
        else:
            ctx.call("aggregate", quiet, cr.aggregate_annotation_dfs, rng.choice([src, cr.Path(src)]),
                     rng.choice([dst, cr.Path(dst)]), **({"notes_only": True} if notes_only else {}))
    need = "notes" if notes_only else "harmonies"
    want_ids = {k for k, p in pieces.items() if need in p["tables"]}
    ctx.ev("corpus")
    ctx.ev("incomplete_piece", sum(len(p["tables"]) < 3 for p in pieces.values()))
    if not want_ids:
        ctx.check(not os.path.exists(os.path.join(dst, "files.tsv")), "agg-empty", "nothing to write")
        return
    files = pd.read_csv(os.path.join(dst, "files.tsv"), sep="\t", index_col=0)
    got_ids = {(r["corpus_name"], r["file_name"]): int(fid) for fid, r in files.iterrows()}
    ctx.eq(set(got_ids), want_ids, "agg-files", "one entry per usable piece", notes_only=notes_only)
    ctx.eq(len(files), len(want_ids), "agg-files", "one entry per usable piece")
    for kind, fn in (("harmonies", "chords"), ("notes", "notes"), ("measures", "measures")):
        path = os.path.join(dst, fn + ".tsv")
        have = [k for k in want_ids if kind in pieces[k]["tables"]]
        if not ctx.check(os.path.exists(path) == bool(have), "agg-table", "a table is written if there is data",
                         kind=kind):
            continue
        if not have:
            continue
        df = pd.read_csv(path, sep="\t", dtype=str)
        ctx.eq(set(df["file_id"]), {str(got_ids[k]) for k in have}, "agg-ids", "pieces in the table", kind=kind)
        for k in have:
            sub = df.loc[df["file_id"] == str(got_ids[k])].reset_index(drop=True)
            raw = pieces[k]["raw"][kind]
            ok = len(sub) == len(raw) and all(
                all(same(a, b) for a, b in zip(sub[c], raw[c])) for c in raw.columns if c in sub)
            ctx.check(ok and set(raw.columns) <= set(sub.columns), "agg-rows", "the piece's rows, in order",
                      kind=kind, piece=k, got=sub.to_csv(), want=raw.to_csv())
            ctx.ev("aggregated_table")
    # -- loading -----------------------------------------------------------------------------
    full = {k for k in want_ids if {"measures", "notes"} <= set(pieces[k]["tables"])}
    if not full:
        return
    count = rng.choice([None, None, None, len(files)])
    if full == want_ids and len(files) > 1 and rng.random() < 0.3:
        count = rng.randrange(1, len(files))
    if any("harmonies" in pieces[k]["tables"] for k in want_ids) is False:
        ctx.ev("no_chords_corpus")
    fdf, mdf, cdf, ndf = ctx.call("load", quiet, cr.load_clean_corpus_dfs, dst,
                                  **({} if count is None else {"count": count}))
    keep = set(files.index if count is None else files.index[:count])
    ctx.eq({int(x) for x in fdf.index}, {int(x) for x in keep}, "load-files", "the files requested", count=count)
    for k in want_ids:
        fid, p = got_ids[k], pieces[k]
        m = mdf.loc[mdf.index.get_level_values(0) == fid]
        nn = ndf.loc[ndf.index.get_level_values(0) == fid]
        cc = None if cdf is None else cdf.loc[cdf.index.get_level_values(0) == fid]
        ctx.sig(len(want_ids), tuple(p["tables"]), p["next"], tuple(str(n["pos"]) for n in p["notes"]))
        if fid not in keep:
            ctx.eq((len(m), len(nn), 0 if cc is None else len(cc)), (0, 0, 0), "load-count",
                   "pieces beyond the count are absent")
            continue
        ctx.ev("loaded_piece")
        lay = p["lay"]
        det = dict(piece=k, pieces=len(want_ids), next=p["next"])
        if "measures" not in p["tables"]:
            ctx.eq((len(m), len(nn), 0 if cc is None else len(cc)), (0, 0, 0), "load-nomeasures",
                   "nothing can be placed without measures", **det)
            continue
        ctx.eq([(int(r["mc"]), r["timesig"], r["act_dur"], r["mc_offset"],
                 None if pd.isna(r["next"]) else int(r["next"])) for _, r in m.iterrows()],
               [(q["mc"], q["timesig"], q["act_dur"], q["mc_offset"], nx)
                for q, nx in zip(lay.ms, p["path"][1:] + [None])],
               "load-measures", "the measures of the path", **det)
        if "notes" in p["tables"]:
            want = sorted((n["midi"], lay.pos(n["t"]), n["total"], lay.pos(n["end"]))
                          for n in p["notes"] if n["head"])
            got = sorted((int(r["midi"]), (int(r["mc"]), r["mn_onset"]), r["duration"],
                          (int(r["offset_mc"]), r["offset_beat"])) for _, r in nn.iterrows())
            ctx.eq(got, want, "load-notes", "sounding notes with ties merged", **det)
            ctx.ev("loaded_note", len(got))
        if cc is not None and "harmonies" in p["tables"]:
            kept = [c for c in p["chords"] if c["t"] is not None]
            ends = [c["t"] for c in kept[1:]] + [lay.end]
            want = [(lay.pos(c["t"]), e - c["t"], lay.end_pos() if e == lay.end else lay.pos(e), c["numeral"])
                    for c, e in zip(kept, ends) if e > c["t"]]
            got = [((int(r["mc"]), r["mn_onset"]), r["duration"],
                    (int(r["mc_next"]), r["mn_onset_next"]), r["numeral"]) for _, r in cc.iterrows()]
            ctx.eq(got, want, "load-chords", "annotated chords tiling the piece", **det)
            ctx.ev("loaded_chord", len(got))
            if len(cc):
                r, raw = cc.iloc[0], p["raw"]["harmonies"]
                rr = raw.loc[raw["label"] == r["label"]].iloc[0]
                ctx.eq((bool(r["globalkey_is_minor"]), r["chord_tones"], int(r["root"])),
                       (rr["globalkey_is_minor"] == "1", (0, 4, 1), 1), "load-types", "typed values", **det)
