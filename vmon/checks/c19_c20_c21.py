"""C19-C21: piece assembly, serialisation/equality, durations and note windows."""
import pickle
from fractions import Fraction as F

import numpy as np

from vmon import pieces
from vmon import theory as T
from vmon.checks.c07_c08 import CT, MODE, RED, level, red_type
from vmon.checks.c09_c10_c11 import quiet, want_note_vec
from vmon.core import rule, scenario

from harmonic_inference.data.chord import Chord
from harmonic_inference.data.data_types import KeyMode, ChordType, PitchType
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note
from harmonic_inference.data.piece import (
    get_range_start, get_score_piece_from_data_frames, get_score_piece_from_dict)

TPC, MIDI = PitchType.TPC, PitchType.MIDI


def pos(p):
    return int(p[0]), p[1]


def expected(spec, red, use_inv, use_rel, use_susp):
    """Chords (merged), keys, change indices and ranges the annotations mean."""
    chords = []
    for c in spec.chords:
        lf, lm, rf, rm = pieces.key_of(c)
        gf = T.name_fifths(c["gk"])
        steps = [gf, lf, rf]
        for s in (c["local"], c["rel"]):  # intermediate links must be representable as well
            pass
        ct = red_type(red, c["ct"])
        inv = T.FIGBASS[c["fig"]] if use_inv else 0
        inv %= len(T.CHORD_FIFTHS[ct])
        root = lf + c["root"]
        bass = root + T.CHORD_FIFTHS[ct][inv]
        if any(not 0 <= f + T.C_TPC < T.N_TPC for f in steps + [root, bass]):
            continue
        on, off = spec.chord_pos(c["t"], c["t1"])
        local = (lf + T.C_TPC, MODE[lm])
        rel = (rf + T.C_TPC, MODE[rm])
        chords.append(dict(
            root=root + T.C_TPC, bass=bass + T.C_TPC, chord_type=CT[ct], inversion=inv,
            key=rel if use_rel else local, local=local, rel=rel,
            glob=(gf + T.C_TPC, MODE["MINOR" if c["gminor"] else "MAJOR"]), onset=on, offset=off,
            t=c["t"], t1=c["t1"], duration=c["t1"] - c["t"], suspension=c["changes"] or None))
    merged, prev = [], None
    for c in chords:
        same = prev is not None and all(
            prev[f] == c[f] for f in ["root", "chord_type"] + (["inversion"] if use_inv else [])
            + (["suspension"] if use_susp else []))
        if same:
            merged[-1].update(offset=c["offset"], t1=c["t1"], duration=merged[-1]["duration"] + c["duration"])
        else:
            merged.append(dict(c))
        prev = c
    return merged


def settings(rng):
    return dict(red=rng.choice(list(RED)), use_inv=rng.random() < 0.6, use_rel=rng.random() < 0.6,
                use_susp=rng.random() < 0.4)


def build(ctx, spec, st, chords=True, name=None):
    return ctx.call("assemble", quiet, get_score_piece_from_data_frames, spec.notes_df(),
                    spec.chords_df() if chords else None, spec.measures_df(),
                    chord_reduction=RED[st["red"]], use_inversions=st["use_inv"],
                    use_relative=st["use_rel"], use_suspensions=st["use_susp"], name=name)


# ------------------------------------------------------------------------------------------- C19
rule("C19", "random annotated pieces (irregular layouts, 1-30 notes, 1-12 chords, repeated chords, pivots, "
     "applied keys, unrepresentable rows) x reduction x inversions x relative x suspensions; oracle: "
     "exact times and fifths; non-trivial = one piece in one configuration")


@scenario("C19", quick=110, thorough=4000)
def assemble(ctx, rng, i):
    spec = pieces.make(rng)
    drop = None
    if rng.random() < 0.15 and len(spec.notes) > 1:
        drop = rng.randrange(len(spec.notes))  # a note that cannot be spelled is skipped
        spec.notes[drop]["tpc"] = rng.choice([40, -40])
    lay = spec.lay
    st = settings(rng)
    piece = build(ctx, spec, st, name="p%d" % i)
    ctx.eq(piece.name, "p%d" % i, "piece-name", "name kept")
    kept = [n for k, n in enumerate(spec.notes) if k != drop]
    notes = list(piece.get_inputs())
    det = dict(settings=st, measures=lay.ms, n_notes=len(kept))
    ctx.eq([(int(n.pitch_class), int(n.get_midi_note_number()), lay.abs(pos(n.onset)), n.duration)
            for n in notes],
           [(n["tpc"] + T.C_TPC, n["midi"], n["t"], n["dur"]) for n in kept],
           "piece-notes", "the notes of the table, in order", **det)
    ctx.ev("piece")
    ctx.ev("note", len(notes))
    want = expected(spec, **st)
    ctx.sig(tuple(st.items()), len(notes), tuple((c["root"], str(c["t"]), c["chord_type"].name, c["key"])
                                                for c in want))
    if not want:
        return
    chords = list(piece.get_chords())
    ctx.ev("chord", len(chords))
    ctx.ev("merged_chords", len(spec.chords) - len(want))
    det["chords"] = [(c["root"], c["chord_type"].name, c["inversion"], str(c["t"])) for c in want]
    ctx.require(len(chords) == len(want), "piece-chords", "number of chords after merging repeats",
                got=[(c.root, c.chord_type, c.inversion, c.onset) for c in chords], **det)
    for got, w in zip(chords, want):
        for f in ("root", "bass", "chord_type", "inversion", "duration", "suspension"):
            ctx.eq(getattr(got, f), w[f], "piece-chord-" + f, f"{f} of a chord", chord=w, **det)
        ctx.eq((got.key_tonic, got.key_mode), w["key"], "piece-chord-key", "key of a chord", chord=w, **det)
        ctx.eq((pos(got.onset), pos(got.offset)), (w["onset"], w["offset"]), "piece-chord-span",
               "extent of a chord", chord=w, **det)
        ctx.eq((got.onset_level, got.offset_level),
               tuple(level(lay.by_mc[p[0]]["timesig"], p[1]) for p in (w["onset"], w["offset"])),
               "piece-chord-level", "metrical levels", chord=w, **det)
    times = [n["t"] for n in kept]
    changes = [next((k for k, t in enumerate(times) if t >= w["t"]), len(times) - 1) for w in want]
    got_changes = [int(x) for x in piece.get_chord_change_indices()]
    ctx.eq(got_changes, changes, "piece-changes", "change index is the first note at or after the chord",
           times=times, **det)
    ctx.check(all(a <= b for a, b in zip(got_changes, got_changes[1:])), "piece-changes-order",
              "change indices never decrease", got=got_changes, **det)
    last_t = lay.end

    def end_of(n):
        return n["t"] + n["dur"]

    ranges = []
    for k, w in enumerate(want):
        start = next((j for j, n in enumerate(kept) if n["t"] >= w["t"] or end_of(n) > w["t"]), len(kept))
        ranges.append((start, changes[k + 1] if k + 1 < len(want) else len(kept)))
    ctx.eq([tuple(int(v) for v in r) for r in piece.get_chord_ranges()], ranges, "piece-ranges",
           "range starts with the first sounding note and ends at the next change", times=times, **det)
    # keys
    kc, keys = [], []
    for k, w in enumerate(want):
        eff = w["rel"] if st["use_rel"] else w["local"]
        if not keys or eff != (keys[-1]["rel"] if st["use_rel"] else keys[-1]["local"]):
            kc.append(k)
            keys.append(w)
    got_keys = list(piece.get_keys())
    ctx.ev("key", len(got_keys))
    ctx.eq([int(v) for v in piece.get_key_change_indices()], kc, "piece-key-changes",
           "key changes at the first chord of each key", **det)
    ctx.eq([((k.relative_tonic, k.relative_mode), (k.local_tonic, k.local_mode),
             (k.global_tonic, k.global_mode)) for k in got_keys],
           [(w["rel"], w["local"], w["glob"]) for w in keys], "piece-keys", "the keys", **det)
    ctx.eq([int(v) for v in piece.get_key_change_input_indices()], [changes[k] for k in kc],
           "piece-key-inputs", "key changes as note indices", **det)
    for t in ([w["t"] for w in want] + [n["t"] for n in kept])[:8]:
        p = lay.pos(t)
        ctx.eq(get_range_start(p, notes),
               next((j for j, n in enumerate(kept) if n["t"] >= t or end_of(n) > t), len(kept)),
               "range-start", "first note sounding at or after a position", t=t, **det)


@scenario("C19", quick=20, thorough=500)
def unannotated(ctx, rng, i):
    spec = pieces.make(rng)
    piece = build(ctx, spec, settings(rng), chords=False)
    ctx.eq([int(n.get_midi_note_number()) for n in piece.get_inputs()], [n["midi"] for n in spec.notes],
           "piece-notes", "notes of an unannotated piece")
    for f in ("get_chords", "get_keys", "get_chord_change_indices", "get_chord_ranges",
              "get_key_change_indices", "get_key_change_input_indices"):
        ctx.eq(ctx.call("unannotated", getattr(piece, f)), None, "unannotated", "no labels", what=f)
    ctx.eq(ctx.call("unannotated", piece.get_chords_within_range), [], "unannotated", "no chords in range")
    ctx.ev("piece")
    ctx.sig(len(spec.notes), tuple(n["midi"] for n in spec.notes))


# ------------------------------------------------------------------------------------------- C20
rule("C20", "random pieces through to_dict / pickle / from_dict and back, single-field mutations of every "
     "parameter of notes, chords and keys, conversions between pitch types; oracle: field-wise "
     "comparison and sounding pitch; non-trivial = one object or mutation")


def other_value(rng, v):
    if isinstance(v, (KeyMode, ChordType, PitchType)):
        return rng.choice([x for x in type(v) if x != v])
    if isinstance(v, tuple):
        return rng.choice([(v[0] + 1, v[1]), (v[0], v[1] + F(1, 8))])
    if v is None:
        return rng.choice(["4", 1])
    if isinstance(v, str):
        return rng.choice([v + "9", None])
    return v + 1


def snapshot(piece):
    def seq(x, f):
        return None if x is None else [f(v) for v in x]

    return {
        "notes": seq(piece.get_inputs(), lambda n: tuple((p, getattr(n, p)) for p in n.params)),
        "chords": seq(piece.get_chords(), lambda n: tuple((p, getattr(n, p)) for p in n.params)),
        "keys": seq(piece.get_keys(), lambda n: tuple((p, getattr(n, p)) for p in n.params)),
        "chord_changes": seq(piece.get_chord_change_indices(), int),
        "chord_ranges": seq(piece.get_chord_ranges(), lambda r: tuple(int(v) for v in r)),
        "key_changes": seq(piece.get_key_change_indices(), int),
    }


@scenario("C20", quick=50, thorough=2500)
def roundtrip(ctx, rng, i):
    spec = pieces.make(rng)
    annotated = rng.random() < 0.85
    st = settings(rng)
    piece = build(ctx, spec, st, chords=annotated)
    if annotated and not expected(spec, **st):
        return
    before = snapshot(piece)
    d = ctx.call("to-dict", piece.to_dict)
    ctx.eq(snapshot(piece), before, "to-dict-pure", "the piece is unchanged")
    via = rng.choice(["plain", "pickle", "pickle"])
    if via == "pickle":
        d = ctx.call("pickle", lambda: pickle.loads(pickle.dumps(d)))
    back = ctx.call("from-dict", get_score_piece_from_dict, spec.measures_df(), d, name="x")
    ctx.ev("piece_roundtrip")
    ctx.sig(via, annotated, len(spec.notes), len(spec.chords), tuple(n["midi"] for n in spec.notes))
    after = snapshot(back)
    for f in before:
        ctx.eq(after[f], before[f], "roundtrip-" + f, f"{f} survive", via=via)
    ctx.eq(back.name, "x", "roundtrip-name", "name set")
    ctx.eq(back.DATA_TYPE, piece.DATA_TYPE, "roundtrip-type", "piece type")
    for a, b in ((piece.notes, back.notes), (piece.chords, back.chords), (piece.keys, back.keys)):
        if a is not None:
            ctx.check(all(x == y for x, y in zip(a, b)), "roundtrip-equal", "rebuilt objects are equal")
    ctx.eq(list(ctx.call("duration-cache", back.get_duration_cache)), list(piece.get_duration_cache()),
           "roundtrip-durations", "durations survive")
    # a second generation, after the caches were filled
    again = snapshot(get_score_piece_from_dict(spec.measures_df(), back.to_dict()))
    ctx.eq(again, before, "roundtrip-twice", "second generation")


@scenario("C20", quick=50, thorough=2500)
def equality(ctx, rng, i):
    spec = pieces.make(rng)
    st = settings(rng)
    piece = build(ctx, spec, st)
    objs = [rng.choice(list(piece.notes))]
    if expected(spec, **st):
        objs += [rng.choice(list(piece.chords)), rng.choice(list(piece.keys))]
    for obj in objs:
        cls = type(obj)
        d = ctx.call("obj-dict", obj.to_dict)
        same = cls(**d)
        ctx.check(same == obj and obj == same, "eq-copy", "a copy is equal", obj=obj)
        ctx.eq(repr(same), repr(obj), "eq-repr", "same representation")
        for p in list(d):
            m = dict(d)
            m[p] = other_value(rng, m[p])
            diff = cls(**m)
            ctx.check(not (diff == obj) and not (obj == diff), "eq-mutation",
                      "a differing field is noticed", field=p, cls=cls.__name__, old=d[p], new=m[p])
            ctx.ev("mutation_" + cls.__name__)
            if cls.__name__ == "Chord":
                for inv in (False, True):
                    for susp in (False, True):
                        seen = {"pitch_type", "root", "chord_type"} | ({"inversion"} if inv else set()) \
                            | ({"suspension"} if susp else set())
                        ctx.eq(bool(obj.is_repeated(diff, use_inversion=inv, use_suspension=susp)), p not in seen,
                               "repeat-chord", "a repeat differs in none of the compared fields", field=p, inv=inv,
                               susp=susp)
            elif cls.__name__ == "Key":
                for rel in (False, True):
                    which = "relative_" if rel else "local_"
                    ctx.eq(bool(obj.is_repeated(diff, use_relative=rel)),
                           p not in ("tonic_type", which + "tonic", which + "mode"), "repeat-key",
                           "a repeat differs in none of the compared fields", field=p, rel=rel)
            ctx.sig(cls.__name__, p, str(d[p]), str(m[p]), sample=False)
        for foreign in (None, 3, "x", d):
            ctx.check(not (obj == foreign), "eq-foreign", "never equal to something else", other=foreign)
        if len(set(map(type, objs))) > 1:
            ctx.check(not (objs[0] == objs[1]), "eq-foreign", "different kinds differ")


@scenario("C20", quick=60, thorough=2500)
def conversion(ctx, rng, i):
    spec = pieces.make(rng)
    st = settings(rng)
    piece = build(ctx, spec, st)
    objs = list(piece.notes[:6])
    if expected(spec, **st):
        objs += list(piece.chords[:6]) + list(piece.keys[:4])
    PITCH = {"Note": ["pitch_class"], "Chord": ["root", "bass", "key_tonic"],
             "Key": ["relative_tonic", "local_tonic", "global_tonic"]}
    for obj in objs:
        name = type(obj).__name__
        before = obj.to_dict()
        cur = obj
        sound = {p: (7 * (before[p] - T.C_TPC)) % 12 for p in PITCH[name]}
        for step in range(4):
            to = rng.choice([TPC, MIDI, MIDI])
            tf = "tonic_type" if name == "Key" else "pitch_type"
            prev = cur.to_dict()
            nxt = ctx.call("convert", cur.to_pitch_type, to)
            ctx.check(nxt is not cur, "convert-copy", "a new object")
            ctx.eq(cur.to_dict(), prev, "convert-pure", "the original is unchanged")
            got = nxt.to_dict()
            ctx.eq(got[tf], to, "convert-type", "pitch type of the result", obj=prev)
            for p, v in got.items():
                if p in sound:
                    cls = v if to == MIDI else (7 * (v - T.C_TPC)) % 12
                    ctx.eq(cls, sound[p], "convert-sound", "the sound is preserved", field=p, obj=prev, to=to)
                    if prev[tf] == to:
                        ctx.eq(v, prev[p], "convert-same", "same type changes nothing", field=p, obj=prev)
                elif p != tf:
                    ctx.eq(v, prev[p], "convert-other", "only pitches change", field=p, obj=prev)
            ctx.ev("converted_" + name)
            ctx.sig(name, str(prev[tf]), str(to), tuple(prev[p] for p in PITCH[name]))
            cur = nxt
        ctx.eq(obj.to_dict(), before, "convert-pure", "the original is unchanged")


# ------------------------------------------------------------------------------------------- C21
rule("C21", "random pieces; duration cache, chord note windows with own and arbitrary ranges, windows 0-5, "
     "chord lookups for all note ranges; oracle: exact times and section-by-section vectors; "
     "non-trivial = one window or lookup")


def safe_piece(ctx, rng, **kw):
    while True:
        spec = pieces.make(rng, **kw)
        st = settings(rng)
        want = expected(spec, **st)
        if want and want[-1]["t1"] == spec.lay.end and max(n["t"] + n["dur"] for n in spec.notes) <= spec.lay.end:
            return spec, st, want


@scenario("C21", quick=60, thorough=3000)
def durations(ctx, rng, i):
    spec, st, want = safe_piece(ctx, rng)
    annotated = rng.random() < 0.7
    piece = build(ctx, spec, st, chords=annotated)
    times = [n["t"] for n in spec.notes]
    end = spec.lay.end if annotated else max(n["t"] + n["dur"] for n in spec.notes)
    got = list(ctx.call("durations", piece.get_duration_cache))
    exp = [b - a for a, b in zip(times, times[1:] + [end])]
    ctx.eq(got, exp, "durations", "time from each note to the next", times=times, end=end,
           measures=spec.lay.ms)
    ctx.eq(list(piece.get_duration_cache()), got, "durations-stable", "asking again gives the same")
    ctx.ev("duration", len(got))
    ctx.sig(annotated, tuple(str(x) for x in exp))


@scenario("C21", quick=70, thorough=3000)
def windows(ctx, rng, i):
    spec, st, want = safe_piece(ctx, rng)
    annotated = rng.random() < 0.75
    piece = build(ctx, spec, st, chords=annotated)
    notes, lay, n = spec.notes, spec.lay, len(spec.notes)
    end = lay.end if annotated else max(x["t"] + x["dur"] for x in notes)
    times = [x["t"] for x in notes]
    window = rng.choice([0, 1, 2, 2, 5])
    real = annotated and rng.random() < 0.5
    if real:
        ranges = [tuple(int(v) for v in r) for r in piece.get_chord_ranges()]
        changes = [int(v) for v in piece.get_chord_change_indices()]
        spans = [(w["t"], w["duration"]) for w in want]
        if any(a >= b and window == 0 or a > b for a, b in ranges):
            return  # a chord without any note has no window of its own
        got = ctx.call("windows", quiet, piece.get_chord_note_inputs, window=window)
    else:
        ranges, changes, spans = [], [], []
        for _ in range(rng.randrange(1, 5)):
            a = rng.randrange(n)
            b = rng.randrange(a + 1, n + 1)
            ch = rng.randrange(a, b)
            while ch > a and times[ch - 1] == times[ch]:
                ch -= 1
            ranges.append((a, b))
            changes.append(ch)
            e = times[b] if b < n else end
            spans.append((times[ch], e - times[ch]))
        got = ctx.call("windows", quiet, piece.get_chord_note_inputs, window=window, ranges=ranges,
                       change_indices=changes)
    ctx.eq(len(got), len(ranges), "windows-count", "one window per range")
    for (a, b), ch, (t0, dur), arr in zip(ranges, changes, spans, got):
        det = dict(range=(a, b), change=ch, window=window, real=real, n=n, chord=(t0, dur), times=times,
                   measures=lay.ms)
        ctx.ev("window")
        ctx.ev("window_past_edge", int(a - window < 0 or b + window > n))
        ctx.ev("window_unaligned", int(times[ch] != t0))
        ctx.sig(a, b, ch, window, n, str(t0), str(dur))
        ctx.require(arr.shape[0] == b - a + 2 * window, "windows-size", "range plus context on both sides",
                    got=arr.shape, **det)
        inside = [k for k in range(a - window, b + window) if 0 <= k < n]
        lo = min(notes[k]["midi"] for k in inside)
        hi = max(notes[k]["midi"] for k in inside)
        for row, k in zip(arr, range(a - window, b + window)):
            if not 0 <= k < n:
                ctx.check(not np.any(row), "windows-padding", "empty row beyond the piece", k=k, **det)
                ctx.ev("padding_row")
                continue
            x = notes[k]
            on, off = lay.pos(x["t"]), lay.pos(x["t"] + x["dur"])
            if dur == 0:
                rel = (1, 1, 1)
            else:
                o = (x["t"] - t0) / dur
                rel = (o, o + x["dur"] / dur, x["dur"] / dur)
            w = want_note_vec(
                dict(pc=x["tpc"] + T.C_TPC, oct=x["midi"] // 12, midi=x["midi"],
                     onl=level(lay.by_mc[on[0]]["timesig"], on[1]),
                     offl=level(lay.by_mc[off[0]]["timesig"], off[1])),
                TPC, rel, (lo // 12, lo), (hi // 12, hi),
                times[k] - times[k - 1] if k else None,
                (times[k + 1] if k + 1 < n else end) - times[k])
            ctx.ev("note_row")
            ctx.check(row.shape == w.shape and np.allclose(row, w.astype(float), rtol=3e-3, atol=1e-3),
                      "windows-note", "the note's vector relative to the chord", k=k,
                      diff=np.where(~np.isclose(row, w.astype(float), rtol=3e-3, atol=1e-3))[0].tolist()
                      if row.shape == w.shape else None, **det)


@scenario("C21", quick=70, thorough=3000)
def lookup(ctx, rng, i):
    spec, st, want = safe_piece(ctx, rng, n_notes=rng.choice([2, 5, 9, 14]))
    piece = build(ctx, spec, st)
    changes = [int(v) for v in piece.get_chord_change_indices()]
    chords = list(piece.get_chords())
    n = len(spec.notes)
    ends = changes[1:] + [n]
    for a in range(n):
        for b in [None] + list(range(a + 1, n + 1)):
            got = ctx.call("within-range", piece.get_chords_within_range, a, b)
            got_ids = [next(k for k, c in enumerate(chords) if c is g) for g in got]
            ctx.ev("lookup")
            ctx.sig(a, b, tuple(changes), n, sample=False)
            hi = n if b is None else b
            # chords having at least one note of the range under their label
            need = [k for k, (s, e) in enumerate(zip(changes, ends)) if s < e and s < hi and e > a]
            may = [k for k, (s, e) in enumerate(zip(changes, ends)) if s < hi and e >= a]
            if a < changes[0]:
                may = sorted(set(may) | {0})
            det = dict(a=a, b=b, changes=changes, n=n, got=got_ids)
            ctx.check(set(need) <= set(got_ids), "within-range-missing", "every overlapped chord is there",
                      need=need, **det)
            ctx.check(set(got_ids) <= set(may), "within-range-extra", "no chord outside the range",
                      may=may, **det)
            ctx.eq(got_ids, sorted(got_ids), "within-range-order", "in order", **det)
    full = ctx.call("within-range", piece.get_chords_within_range)
    ctx.check(len(full) == len(chords) and all(x is y for x, y in zip(full, chords)), "within-range-all",
              "the default range holds all chords", changes=changes)
