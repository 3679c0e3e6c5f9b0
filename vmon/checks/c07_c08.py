"""C07/C08: chords and keys from annotation rows and from functional-harmony CSV rows."""
import contextlib
import io
from collections import defaultdict
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vmon import gen
from vmon import theory as T
from vmon.core import rule, scenario

from harmonic_inference.data.chord import Chord
from harmonic_inference.data.data_types import (
    ALL_ONE_TYPE_REDUCTION, NO_REDUCTION, TRIAD_REDUCTION, ChordType, KeyMode, PitchType)
from harmonic_inference.data.key import Key

TPC, MIDI = PitchType.TPC, PitchType.MIDI
CT = {c.name: c for c in ChordType}
MODE = {m.name: m for m in KeyMode}
RED = {"none": NO_REDUCTION, "triad": TRIAD_REDUCTION, "one": ALL_ONE_TYPE_REDUCTION}
TRIAD_OF = {
    "MAJOR": "MAJOR", "MINOR": "MINOR", "DIMINISHED": "DIMINISHED", "AUGMENTED": "AUGMENTED",
    "MAJ_MAJ7": "MAJOR", "MAJ_MIN7": "MAJOR", "MIN_MAJ7": "MINOR", "MIN_MIN7": "MINOR",
    "DIM7": "DIMINISHED", "HALF_DIM7": "DIMINISHED", "AUG_MIN7": "AUGMENTED",
    "AUG_MAJ7": "AUGMENTED"}
SPECIAL = {"It": "DIMINISHED", "Ger": "DIM7", "Fr": "MAJ_MIN7"}


def red_type(name, ct):
    return {"none": ct, "triad": TRIAD_OF[ct], "one": "MAJOR"}[name]


class Out(Exception):
    """The music leaves the line of fifths that TPC numbers can represent."""


def _p(f, midi):
    if midi:
        return (7 * f) % 12
    if not 0 <= f + T.C_TPC < T.N_TPC:
        raise Out()
    return f + T.C_TPC


def level(ts, beat):
    num, den = (int(x) for x in ts.split("/"))
    compound = num > 3 and num % 3 == 0
    pos = beat % F(num, den)
    if pos == 0:
        return 3
    bl = F(3, den) if compound else F(1, den)
    if (pos / bl).denominator == 1:
        return 2
    sub = F(1, den) if compound else F(1, 2 * den)
    return 1 if (pos / sub).denominator == 1 else 0


def rand_chain(rng, maxlen=1, wild=False):
    out = []
    for _ in range(rng.randrange(1, maxlen + 1)):
        acc = rng.choice([0, 0, 0, 0, -1, 1] + ([-2, 2] if wild else []))
        num = rng.choice(T.NUMERALS)
        out.append((acc, num if rng.random() < 0.5 else num.lower()))
    return out


def chain_str(ch):
    return "/".join(("#" * a if a >= 0 else "b" * -a) + n for a, n in ch)


def resolve(f, mode, ch, midi):
    for acc, num in reversed(ch):
        f += T.degree_fifths(T.NUMERALS.index(num.upper()) + 1, acc, mode)
        mode = "MINOR" if num.islower() else "MAJOR"
        _p(f, midi)
    return f, mode


def rand_global(rng):
    name = rng.choice(T.LETTERS) + rng.choice(["", "", "", "#", "b", "b"])
    minor = rng.random() < 0.5
    return name.lower()[0] + name[1:] if minor else name, minor


# ------------------------------------------------------------------------------------------- C07
rule("C07", "random annotation rows (global keys, local and applied key chains, all chord types and "
     "figures, altered chords, irregular measures and meters) x pitch type x reduction x inversion x "
     "relative x cache; oracle: fifths arithmetic; non-trivial = one row read in one configuration")


def make_row(rng, lay, wild=False):
    gk, gminor = rand_global(rng)
    local = rand_chain(rng, 2 if rng.random() < 0.2 else 1, wild)
    rel = rand_chain(rng, 3, wild) if rng.random() < 0.4 else None
    ct = rng.choice(list(T.CHORD_STR) + list(SPECIAL))
    t0 = lay.rand_time(rng)
    t1 = lay.rand_time(rng)
    t0, t1 = min(t0, t1), max(t0, t1)
    end = lay.end_pos() if t1 == t0 or rng.random() < 0.1 else lay.pos(t1)
    if end == lay.end_pos():
        t1 = lay.end
    onset = lay.pos(t0)
    changes = rng.choice([None, None, "4", "#7", "64", "v4", "+9"])
    figs = ["", "6", "64"] if ct in T.TRIADS + ["It"] else ["7", "65", "43", "2"]
    if rng.random() < 0.2:
        figs = ["", "7", "6", "65", "43", "64", "2"]
    fig = rng.choice(figs)
    root_iv = rng.randrange(-8, 12)
    row = pd.Series({
        "numeral": rng.choice(T.NUMERALS), "root": root_iv,
        "bass_note": root_iv, "chord_type": T.CHORD_STR.get(ct, ct),
        "figbass": np.nan if fig == "" else fig, "globalkey": gk, "globalkey_is_minor": gminor,
        "localkey": chain_str(local), "localkey_is_minor": local[0][1].islower(),
        "relativeroot": np.nan if rel is None else chain_str(rel), "mc": onset[0],
        "mn_onset": onset[1], "mc_next": end[0], "mn_onset_next": end[1], "duration": t1 - t0,
        "changes": np.nan if changes is None else changes, "timesig": "4/4"})
    spec = dict(gk=gk, gminor=gminor, local=local, rel=rel, ct=SPECIAL.get(ct, ct), fig=fig,
                root=root_iv, onset=onset, offset=end, dur=t1 - t0, changes=changes)
    return row, spec


def want_key(spec, midi):
    g = T.name_fifths(spec["gk"])
    gm = "MINOR" if spec["gminor"] else "MAJOR"
    gt = _p(g, midi)
    lf, lm = resolve(g, gm, spec["local"], midi)
    rf, rm = (lf, lm) if spec["rel"] is None else resolve(lf, lm, spec["rel"], midi)
    return dict(relative_tonic=_p(rf, midi), local_tonic=_p(lf, midi), global_tonic=gt,
                relative_mode=MODE[rm], local_mode=MODE[lm], global_mode=MODE[gm]), lf


def want_chord(spec, midi, red, use_inv, use_rel, lay):
    key, lf = want_key(spec, midi)
    ct = red_type(red, spec["ct"])
    root_f = lf + spec["root"]
    root = _p(root_f, midi)
    inv = T.FIGBASS[spec["fig"]] if use_inv else 0
    inv %= len(T.CHORD_FIFTHS[ct])
    bass = _p(root_f + T.CHORD_FIFTHS[ct][inv], midi)
    ts = [lay.by_mc[p[0]]["timesig"] for p in (spec["onset"], spec["offset"])]
    return dict(
        root=root, bass=bass, chord_type=CT[ct], inversion=inv,
        key_tonic=key["relative_tonic"] if use_rel else key["local_tonic"],
        key_mode=key["relative_mode"] if use_rel else key["local_mode"],
        onset=spec["onset"], offset=spec["offset"], duration=spec["dur"],
        onset_level=level(ts[0], spec["onset"][1]), offset_level=level(ts[1], spec["offset"][1]),
        suspension=spec["changes"])


def check_fields(ctx, obj, want, key, det):
    for f, w in want.items():
        got = getattr(obj, f)
        if f in ("onset", "offset"):
            got = (int(got[0]), got[1])
        ctx.eq(got, w, key + "-" + f, f"{f} of the result", **det)


@scenario("C07", quick=70, thorough=4000)
def annotation_rows(ctx, rng, i):
    lay = gen.layout(rng)
    df = lay.df()
    cache = defaultdict(dict)
    for _ in range(4):
        row, spec = make_row(rng, lay, wild=rng.random() < 0.2)
        for pt in (TPC, MIDI):
            midi = pt == MIDI
            try:
                wk, _ = want_key(spec, midi)
            except Out:
                wk = None
            key = ctx.call("key-from-series", Key.from_series, row, pt)
            det = dict(row=spec, pitch_type=pt.name)
            if wk is None:
                ctx.ev("key_unrepresentable")
                ctx.eq(key, None, "key-unrepresentable", "no key outside the pitch range", **det)
                continue
            ctx.require(key is not None, "key-missing", "a representable key is read", **det)
            check_fields(ctx, key, wk, "key", det)
            ctx.eq(key.tonic_type, pt, "key-type", "pitch type", **det)
            ctx.ev("key_read")
            for red in RED:
                use_inv, use_rel = rng.random() < 0.7, rng.random() < 0.7
                det = dict(row=spec, pitch_type=pt.name, red=red, use_inv=use_inv, use_rel=use_rel)
                try:
                    wc = want_chord(spec, midi, red, use_inv, use_rel, lay)
                except Out:
                    wc = None
                kw = dict(reduction=RED[red], use_inversion=use_inv, use_relative=use_rel)
                results = [ctx.call("chord-from-series", Chord.from_series, row, df, pt, **kw),
                           ctx.call("chord-from-series", Chord.from_series, row, df, pt, key=key, **kw),
                           ctx.call("chord-from-series", Chord.from_series, row, df, pt,
                                    levels_cache=cache, **kw)]
                ctx.sig(red, use_inv, use_rel, pt.name, spec["ct"], spec["fig"], spec["gk"],
                        chain_str(spec["local"]), spec["rel"] and chain_str(spec["rel"]), spec["root"])
                for ch, how in zip(results, ("plain", "key", "cache")):
                    if wc is None:
                        ctx.ev("chord_unrepresentable")
                        ctx.eq(ch, None, "chord-unrepresentable",
                               "no chord outside the pitch range", **det)
                        continue
                    if not ctx.check(ch is not None, "chord-missing", "a chord is read", how=how, **det):
                        continue
                    ctx.ev("chord_read")
                    check_fields(ctx, ch, wc, "chord", dict(det, how=how, measures=lay.ms))
                    ctx.eq(ch.pitch_type, pt, "chord-type", "pitch type", **det)
        for none in ("@none", np.nan, None):
            r = row.copy()
            r["numeral"] = none
            ctx.eq(ctx.call("chord-from-series", Chord.from_series, r, df, TPC), None, "no-chord",
                   "a row without a chord gives none", numeral=none)
            ctx.ev("no_chord")


# ------------------------------------------------------------------------------------------- C08
rule("C08", "random label rows: keys, degrees with accidentals and applied degrees, all types and "
     "inversions, both pitch types, reductions, inversion and relative settings, layouts with pickups; "
     "oracle: fifths arithmetic with the CSV's minor-mode conventions; non-trivial = one row read")
CSV_TYPE = {"D7": "MAJ_MIN7", "M": "MAJOR", "M7": "MAJ_MAJ7", "d": "DIMINISHED", "a": "AUGMENTED",
            "d7": "DIM7", "m": "MINOR", "m7": "MIN_MIN7", "Gr+6": "MAJOR", "Fr+6": "MAJOR",
            "It+6": "MAJOR", "h7": "HALF_DIM7"}
# mode of an applied key, by its degree after the CSV conventions are undone
APPLIED = {
    "MAJOR": {(0, 1): "MAJOR", (1, 1): "MINOR", (-1, 2): "MAJOR", (0, 2): "MINOR", (-1, 3): "MAJOR",
              (0, 3): "MINOR", (-1, 4): "MINOR", (0, 4): "MAJOR", (1, 4): "MAJOR", (0, 5): "MAJOR",
              (1, 5): "MAJOR", (0, 6): "MINOR", (-1, 7): "MAJOR", (0, 7): "MINOR"},
    "MINOR": {(-1, 1): "MAJOR", (0, 1): "MINOR", (-1, 2): "MAJOR", (0, 2): "MINOR", (0, 3): "MAJOR",
              (-1, 4): "MINOR", (0, 4): "MINOR", (-1, 5): "MINOR", (0, 5): "MINOR", (0, 6): "MAJOR",
              (-1, 7): "MINOR", (0, 7): "MAJOR", (1, 7): "MAJOR"},
}


def csv_acc(a):
    return "+" * a if a >= 0 else "-" * -a


@scenario("C08", quick=120, thorough=6000)
def label_rows(ctx, rng, i):
    lay = gen.layout(rng, irregular=rng.random() < 0.8)
    df = lay.df()
    cache = defaultdict(dict)
    for _ in range(4):
        letter = rng.choice(T.LETTERS)
        kacc = rng.choice([0, 0, 0, -1, 1])
        mode = rng.choice(["MAJOR", "MINOR"])
        kname = (letter if mode == "MAJOR" else letter.lower()) + csv_acc(kacc)
        kf = T.name_fifths(letter) + 7 * kacc
        rel = None
        rf, rm = kf, mode
        if rng.random() < 0.4:
            racc, rdeg = rng.choice([0, 0, 0, -1, 1]), rng.randrange(1, 8)
            rel = csv_acc(racc) + str(rdeg)
            # undo the conventions of the label files in minor: 7 is the leading tone, +6 the scale's
            eacc = racc
            if mode == "MINOR" and rdeg == 7:
                eacc += 1
            if mode == "MINOR" and rdeg == 6 and racc == 1:
                eacc = 0
            rm = APPLIED[mode].get((eacc, rdeg))
            rf = kf + T.degree_fifths(rdeg, eacc, mode)
        acc, deg = rng.choice([0, 0, 0, 0, -1, 1, 2, -2]), rng.randrange(1, 8)
        degree = csv_acc(acc) + str(deg) + ("/" + rel if rel else "")
        typ = rng.choice(list(CSV_TYPE))
        inv = rng.randrange(0, 4)
        t0, t1 = sorted((lay.rand_time(rng), rng.choice([lay.rand_time(rng), lay.end])))
        row = pd.Series({"on": t0, "off": t1, "key": kname, "degree": degree, "type": typ, "inv": inv})
        for pt in (TPC, MIDI):
            midi = pt == MIDI
            red = rng.choice(list(RED))
            use_inv, use_rel = rng.random() < 0.7, rng.random() < 0.7
            det = dict(row=dict(row), pitch_type=pt.name, red=red, use_inv=use_inv, use_rel=use_rel,
                       measures=lay.ms)
            ctx.sig(kname, degree, typ, inv, pt.name, red, use_inv, use_rel)

            def read(**kw):
                with contextlib.redirect_stdout(io.StringIO()):
                    return Chord.from_labels_csv_row(row, df, pt, **kw)

            try:
                if rm is None:
                    raise Out()
                wk = dict(relative_tonic=_p(rf, midi), local_tonic=_p(kf, midi),
                          global_tonic=_p(kf, midi), relative_mode=MODE[rm], local_mode=MODE[mode],
                          global_mode=MODE[mode])
            except Out:
                ctx.ev("key_rejected")
                ctx.raises("csv-key-reject", ValueError, Key.from_labels_csv_row, row, pt)
                continue
            key = ctx.call("csv-key", Key.from_labels_csv_row, row, pt)
            check_fields(ctx, key, wk, "csv-key", det)
            glob = Key(5, 5, 6, MODE["MAJOR"], MODE["MAJOR"], MODE["MINOR"], pt)
            gkey = ctx.call("csv-key", Key.from_labels_csv_row, row, pt, global_key=glob)
            check_fields(ctx, gkey, dict(wk, global_tonic=6, global_mode=MODE["MINOR"]),
                         "csv-key", det)
            ctx.ev("key_read")
            eacc = acc
            if rm == "MINOR" and deg == 7:
                eacc += 1
            if rm == "MINOR" and deg == 6 and acc == 2:
                eacc = 1
            ct = red_type(red, CSV_TYPE[typ])
            winv = 0 if typ.endswith("+6") or not use_inv else inv
            winv %= len(T.CHORD_FIFTHS[ct])
            root_f = rf + T.degree_fifths(deg, eacc, rm)
            kw = dict(reduction=RED[red], use_inversion=use_inv, use_relative=use_rel)
            try:
                want = dict(
                    root=_p(root_f, midi), bass=_p(root_f + T.CHORD_FIFTHS[ct][winv], midi),
                    chord_type=CT[ct], inversion=winv,
                    key_tonic=wk["relative_tonic"] if use_rel else wk["local_tonic"],
                    key_mode=wk["relative_mode"] if use_rel else wk["local_mode"],
                    onset=lay.pos(t0), offset=lay.pos(t1), duration=t1 - t0,
                    onset_level=level(lay.by_mc[lay.pos(t0)[0]]["timesig"], lay.pos(t0)[1]),
                    offset_level=level(lay.by_mc[lay.pos(t1)[0]]["timesig"], lay.pos(t1)[1]))
            except Out:
                ctx.ev("chord_rejected")
                ctx.raises("csv-chord-reject", ValueError, read, **kw)
                continue
            for extra in ({}, {"levels_cache": cache}, {"key": key}):
                ch = ctx.call("csv-chord", read, **kw, **extra)
                ctx.require(ch is not None, "csv-chord-missing", "a chord is read", **det)
                check_fields(ctx, ch, want, "csv-chord", dict(det, how=list(extra)))
                ctx.ev("chord_read")


def cache_history(ctx, rng, chord_row):
    """One cache shared by many notes and chords of a piece that mixes similar meters."""
    from harmonic_inference.data.note import Note

    meters = rng.choice(gen.FAMILIES + [rng.sample(gen.TIMESIGS, 3)])
    df = pd.DataFrame({"mc": range(len(meters)), "timesig": meters, "mc_offset": [F(0)] * len(meters),
                       "act_dur": [F(ts) for ts in meters]})
    df["start"] = [sum(df["act_dur"][:k], F(0)) for k in range(len(meters))]
    cache, log = defaultdict(dict), []
    unit = F(1, rng.choice([8, 8, 16, 12]))
    for _ in range(25):
        mc = rng.randrange(len(meters)), rng.randrange(len(meters))
        if mc[0] > mc[1]:
            mc = mc[::-1]
        beat = [unit * rng.randrange(int(F(meters[m]) / unit)) for m in mc]
        pt = rng.choice([TPC, MIDI])
        if rng.random() < 0.3:
            row = pd.Series({"midi": 60, "tpc": 0, "mc": mc[0], "mn_onset": beat[0], "mc_onset": beat[0],
                             "offset_mc": mc[1], "offset_beat": beat[1], "duration": F(1)})
            got = ctx.call("cached-note", Note.from_series, row, df, pt, levels_cache=cache)
        else:
            got = chord_row(ctx, mc, beat, df, pt, cache)
        want = tuple(level(meters[m], b) for m, b in zip(mc, beat))
        ctx.ev("cached_read")
        ctx.sig(meters, mc, str(beat))
        ctx.require(got is not None, "cached-missing", "an object is read", mc=mc, beat=beat)
        ctx.eq((got.onset_level, got.offset_level), want, "cached-level",
               "metrical levels do not depend on what the cache has seen", meters=meters, mc=mc, beat=beat,
               log=log[-6:])
        log.append((mc, beat))


@scenario("C07", quick=25, thorough=1500)
def shared_cache(ctx, rng, i):
    def read(ctx, mc, beat, df, pt, cache):
        row = pd.Series({"numeral": "I", "root": 0, "bass_note": 0, "chord_type": "M", "figbass": np.nan,
                         "globalkey": "C", "globalkey_is_minor": False, "localkey": "I",
                         "localkey_is_minor": False, "relativeroot": np.nan, "mc": mc[0], "mn_onset": beat[0],
                         "mc_next": mc[1], "mn_onset_next": beat[1], "duration": F(1), "changes": np.nan,
                         "timesig": "4/4"})
        return ctx.call("cached-chord", Chord.from_series, row, df, pt, levels_cache=cache)
    cache_history(ctx, rng, read)


@scenario("C08", quick=25, thorough=1500)
def shared_csv_cache(ctx, rng, i):
    def read(ctx, mc, beat, df, pt, cache):
        row = pd.Series({"on": df["start"][mc[0]] + beat[0], "off": df["start"][mc[1]] + beat[1], "key": "C",
                         "degree": "1", "type": "M", "inv": 0})
        return ctx.call("cached-chord", Chord.from_labels_csv_row, row, df, pt, levels_cache=cache)
    cache_history(ctx, rng, read)


@scenario("C10", quick=25, thorough=1500)
def shared_note_cache(ctx, rng, i):
    from harmonic_inference.data.note import Note

    def read(ctx, mc, beat, df, pt, cache):
        row = pd.Series({"midi": 61, "tpc": 7, "mc": mc[0], "mn_onset": beat[0], "mc_onset": beat[0],
                         "offset_mc": mc[1], "offset_beat": beat[1], "duration": F(1)})
        return ctx.call("cached-note", Note.from_series, row, df, pt, levels_cache=cache)
    cache_history(ctx, rng, read)
