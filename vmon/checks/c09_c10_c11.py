"""C09-C11: chord, key and note vectors, and reductions."""
import contextlib
import io
from collections import defaultdict
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vmon import gen
from vmon import theory as T
from vmon.checks.c07_c08 import CT, MIDI, MODE, RED, TPC, TRIAD_OF, level
from vmon.core import rule, scenario

import harmonic_inference.data.vector_decoding as vd
from harmonic_inference.data.chord import Chord, get_chord_vector_length
from harmonic_inference.data import data_types
from harmonic_inference.data.data_types import NO_REDUCTION, ChordType, KeyMode, PitchType
from harmonic_inference.data.key import Key, get_key_change_vector_length
from harmonic_inference.data.note import Note, get_note_vector_length

TYPES = list(T.CHORD_FIFTHS)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


def rand_reduction(rng):
    """A reduction over the real ChordTypes and its name-level twin."""
    r = rng.random()
    if r < 0.25:
        names = {t: t for t in TYPES}
    elif r < 0.5:
        names = dict(TRIAD_OF)
    elif r < 0.6:
        names = {t: "MAJOR" for t in TYPES}
    else:
        targets = rng.sample(TYPES, rng.randrange(1, 6))
        names = {t: t if t in targets else rng.choice(targets) for t in TYPES}
        if rng.random() < 0.3:  # not idempotent
            names = {t: rng.choice(targets) for t in TYPES}
    return {CT[a]: CT[b] for a, b in names.items()}, names


def rand_chord(rng, pt, lo=0, hi=None, levels=True):
    ct = rng.choice(TYPES)
    n = 12 if pt == MIDI else T.N_TPC
    while True:
        root = rng.randrange(n)
        inv = rng.randrange(T.inv_count(ct))
        bass = T.chord_tones(ct, root, pt == MIDI)[inv]
        if 0 <= bass < n:
            break
    tonic = rng.randrange(n) if rng.random() < 0.5 or pt == MIDI else min(n - 1, max(0, root + rng.randrange(-9, 10)))
    c = dict(root=root, bass=bass, key_tonic=tonic, key_mode=rng.choice(list(KeyMode)),
             chord_type=CT[ct], inversion=inv, onset=(1, F(0)), onset_level=rng.randrange(4),
             offset=(2, F(1, 4)), offset_level=rng.randrange(4),
             duration=F(rng.randrange(1, 64), rng.choice([1, 2, 4, 8, 16])), pitch_type=pt)
    return Chord(**c), c


# ------------------------------------------------------------------------------------------- C09
rule("C09", "random chords x keys x pitch type x padding x reduction, encoded and decoded (also with a "
     "key-change vector attached); oracle: the expected vector built section by section; non-trivial "
     "= one encoded chord or refusal")


def sections(pt, pad):
    n = 12 if pt == MIDI else T.REL_MAX - T.REL_MIN + (2 * T.REL_PAD if pad else 0)
    lo = 0 if pt == MIDI else T.REL_MIN - (T.REL_PAD if pad else 0)
    return n, lo


def want_vec(c, pt, pad, tonic, mode, names):
    n, lo = sections(pt, pad)
    v = np.zeros(2 * n + 12 + 14, dtype=np.float16)

    def rel(p):
        if pt == MIDI:
            return (p - tonic) % 12
        r = p - tonic - lo
        if not 0 <= r < n:
            raise ValueError
        return r

    v[rel(c["root"])] = 1
    v[n + TYPES.index(names[c["chord_type"].name])] = 1
    v[n + 12 + rel(c["bass"])] = 1
    o = 2 * n + 12
    v[o + c["inversion"]] = 1
    v[o + 4 + c["onset_level"]] = 1
    v[o + 8 + c["offset_level"]] = 1
    v[o + 12] = np.float16(float(c["duration"]))
    v[o + 13] = 1 if mode == KeyMode.MAJOR else 0
    return v


@scenario("C09", quick=400, thorough=30000)
def chord_vectors(ctx, rng, i):
    pt = rng.choice([TPC, TPC, MIDI])
    chord, c = rand_chord(rng, pt)
    n_p = 12 if pt == MIDI else T.N_TPC
    other = Key(rng.randrange(n_p), rng.randrange(n_p), rng.randrange(n_p), rng.choice(list(KeyMode)),
                rng.choice(list(KeyMode)), rng.choice(list(KeyMode)), pt)
    if pt == TPC and rng.random() < 0.6:
        other.relative_tonic = min(n_p - 1, max(0, c["root"] + rng.randrange(-9, 10)))
    red, names = rand_reduction(rng)
    for pad in (False, True):
        for key in (None, other):
            tonic = c["key_tonic"] if key is None else key.relative_tonic
            mode = c["key_mode"] if key is None else key.relative_mode
            kw = dict(pad=pad)
            nm = {t: t for t in TYPES}
            if rng.random() < 0.6:
                kw["reduction"] = red
                nm = names
            if key is not None:
                kw["relative_to"] = key
            det = dict(chord=c, tonic=tonic, pad=pad, red={a: b for a, b in nm.items() if a != b})
            before = chord.to_dict()
            try:
                want = want_vec(c, pt, pad, tonic, mode, nm)
            except ValueError:
                ctx.ev("refused")
                ctx.sig("refused", pt.name, pad, c["root"] - tonic, c["bass"] - tonic)
                ctx.raises("vec-refuse", ValueError, chord.to_vec, **kw)
                continue
            got = ctx.call("to-vec", chord.to_vec, **kw)
            ctx.ev("encoded")
            ctx.sig(pt.name, pad, str(c["root"]), str(c["bass"]), tonic, nm[c["chord_type"].name],
                    c["inversion"], c["onset_level"], c["offset_level"])
            length = ctx.call("vec-length", get_chord_vector_length, pt, one_hot=False, relative=True,
                              pad=pad)
            ctx.eq(len(got), int(length), "vec-length", "announced length", **det)
            ctx.eq(int(chord.get_chord_vector_length(one_hot=False, relative=True, pad=pad)),
                   len(want), "vec-length", "announced length (method)", **det)
            if not ctx.check(got.shape == want.shape and np.array_equal(got, want), "vec-content",
                             "each section encodes its field", ones=np.where(got)[0].tolist(),
                             want=np.where(want)[0].tolist(), **det):
                continue
            ctx.eq(chord.to_dict(), before, "vec-pure", "encoding does not change the chord")
            # decode
            for tp in (None, pt):
                dec = ctx.call("decode-chord", quiet, vd.decode_chord_vector, got, pad=pad, pitch_type=tp)
                rel = (lambda p: (p - tonic) % 12) if pt == MIDI else (lambda p: p - tonic)
                ctx.eq((int(dec.root), int(dec.bass), dec.chord_type, int(dec.inversion),
                        int(dec.onset_level), int(dec.offset_level), dec.key_mode, dec.pitch_type),
                       (rel(c["root"]), rel(c["bass"]), CT[nm[c["chord_type"].name]], c["inversion"],
                        c["onset_level"], c["offset_level"], mode, pt),
                       "decode-chord", "decoded chord", **det)
                ctx.ev("decoded")
            # with key change attached, as in chord sequence data
            kpt = rng.choice([pt, pt, MIDI, TPC])
            nk = 12 if kpt == MIDI else T.N_TPC
            k1, k2 = [Key(rng.randrange(nk), 0, 0, rng.choice(list(KeyMode)), MODE["MAJOR"],
                          MODE["MAJOR"], kpt) for _ in range(2)]
            if kpt == TPC and not T.KEY_MIN <= k2.relative_tonic - k1.relative_tonic < T.KEY_MAX:
                k2.relative_tonic = k1.relative_tonic
            kv = k1.get_key_change_vector(k2)
            change = rng.random() < 0.6
            full = np.concatenate([got, kv if change else np.zeros_like(kv), [1 if change else 0]])
            types = rng.choice([{"root_type": pt}, {"tonic_type": kpt}, {"root_type": pt, "tonic_type": kpt}])
            dec, dk = ctx.call("decode-both", quiet, vd.decode_chord_and_key_change_vector, full,
                               pad=pad, **types)
            ctx.eq((int(dec.root), int(dec.bass), dec.chord_type, int(dec.inversion)),
                   (rel(c["root"]), rel(c["bass"]), CT[nm[c["chord_type"].name]], c["inversion"]),
                   "decode-both", "decoded chord", **det)
            if change:
                iv = k2.relative_tonic - k1.relative_tonic
                ctx.eq((int(dk.relative_tonic), dk.relative_mode, dk.tonic_type),
                       (iv % 12 if kpt == MIDI else iv, k2.relative_mode, kpt), "decode-key",
                       "decoded key change", **det)
                ctx.ev("key_change_decoded")
            else:
                ctx.eq(dk, None, "decode-key", "no key change decoded", **det)
                bad = np.concatenate([got, kv, [0]])
                ctx.raises("decode-inconsistent", ValueError, quiet,
                           vd.decode_chord_and_key_change_vector, bad, pad=pad, **types)
    for pad in (False, True):
        for t in (TPC, MIDI):
            ln = int(get_chord_vector_length(t, one_hot=False, pad=pad))
            ctx.eq(vd.infer_chord_vector_pitch_type(ln, pad), t, "infer-type",
                   "pitch type from length")
        ctx.raises("infer-type", ValueError, vd.infer_chord_vector_pitch_type, 3, pad)


# ------------------------------------------------------------------------------------------- C10
rule("C10", "random notes (all spellings, octaves, layouts, meters) read from rows in both pitch types "
     "with and without cache; vectors built with random chord windows; decoded; transposed by all "
     "intervals; oracle: expected vector section by section; non-trivial = one note or transposition")


def rand_note_row(rng, lay, top=120):
    midi = rng.randrange(top - 12, top) if rng.random() < 0.05 else rng.randrange(0, top)
    cands = [f for f in range(-22, 26) if (7 * f) % 12 == midi % 12]
    tpc = rng.choice(cands)
    t = lay.rand_time(rng)
    dur = rng.choice(gen.GRIDS) * rng.randrange(0, 16)
    on, off = lay.pos(t), lay.pos(t + dur)
    row = pd.Series({"midi": midi, "tpc": tpc, "mc": on[0], "mn_onset": on[1],
                     "mc_onset": on[1] - lay.by_mc[on[0]]["mc_offset"], "offset_mc": off[0],
                     "offset_beat": off[1], "duration": dur})
    return row, dict(midi=midi, tpc=tpc, on=on, off=off, dur=dur, t=t)


@scenario("C10", quick=60, thorough=5000)
def note_rows(ctx, rng, i):
    lay = gen.layout(rng)
    df = lay.df()
    cache = defaultdict(dict)
    for _ in range(5):
        row, s = rand_note_row(rng, lay, 128)
        for pt in (TPC, MIDI):
            for kw in ({}, {"levels_cache": cache}):
                n = ctx.call("note-from-series", Note.from_series, row, df, pt, **kw)
                det = dict(row=s, pitch_type=pt.name, measures=lay.ms, cached=bool(kw))
                if pt == TPC and not 0 <= s["tpc"] + T.C_TPC < T.N_TPC:
                    ctx.eq(n, None, "note-unrepresentable", "no note outside the TPC range", **det)
                    ctx.ev("note_unrepresentable")
                    continue
                ctx.require(n is not None, "note-missing", "a note is read", **det)
                ctx.ev("note_read")
                ctx.sig(pt.name, s["midi"], s["tpc"], str(s["on"]), str(s["off"]))
                want = (s["tpc"] + T.C_TPC if pt == TPC else s["midi"] % 12, s["midi"] // 12, s["on"],
                        s["off"], s["dur"], level(lay.by_mc[s["on"][0]]["timesig"], s["on"][1]),
                        level(lay.by_mc[s["off"][0]]["timesig"], s["off"][1]), pt,
                        s["on"][1] - lay.by_mc[s["on"][0]]["mc_offset"])
                got = (int(n.pitch_class), int(n.octave), (int(n.onset[0]), n.onset[1]),
                       (int(n.offset[0]), n.offset[1]), n.duration, n.onset_level, n.offset_level,
                       n.pitch_type, n.mc_onset)
                ctx.eq(got, want, "note-fields", "fields of the note", **det)
                ctx.eq(int(n.get_midi_note_number()), s["midi"], "note-midi", "sounding pitch", **det)
                m = ctx.call("note-convert", n.to_pitch_type, MIDI)
                ctx.eq(int(m.get_midi_note_number()), s["midi"], "note-midi",
                       "sounding pitch after conversion", **det)
                ctx.eq(n.get_vector_length(), get_note_vector_length(pt), "note-length", "length", **det)


def want_note_vec(n, pt, chord, minp, maxp, prev, nxt):
    N = 12 if pt == MIDI else T.N_TPC
    v = np.zeros(N + 10 + 4 + 4 + 3 + 2 + 1 + 10 + 1 + 1)
    v[n["pc"]] = 1
    v[N + n["oct"]] = 1
    v[N + 10 + n["onl"]] = 1
    v[N + 14 + n["offl"]] = 1
    o = N + 18
    if chord is not None:
        v[o], v[o + 1], v[o + 2] = [float(x) for x in chord]
    v[o + 3] = 0 if prev is None else float(prev)
    v[o + 4] = 0 if nxt is None else float(nxt)
    v[o + 5] = 1 if minp is not None and n["midi"] == minp[1] else 0
    v[o + 6 + n["oct"] - (0 if minp is None else minp[0])] = 1
    v[o + 16] = n["midi"] / 127
    if minp is not None and maxp is not None:
        v[o + 17] = (n["midi"] - minp[1]) / max(1, maxp[1] - minp[1])
    return v.astype(np.float16)


@scenario("C10", quick=60, thorough=5000)
def note_vectors(ctx, rng, i):
    lay = gen.layout(rng)
    df = lay.df()
    for _ in range(6):
        row, s = rand_note_row(rng, lay)
        pt = rng.choice([TPC, MIDI])
        if pt == TPC and not 0 <= s["tpc"] + T.C_TPC < T.N_TPC:
            pt = MIDI
        note = Note.from_series(row, df, pt)
        a, b = sorted((lay.rand_time(rng), rng.choice([lay.end, lay.rand_time(rng)])))
        kw, chord = {}, None
        if a < b and rng.random() < 0.8:
            kw = dict(chord_onset=lay.pos(a), chord_offset=lay.pos(b) if b < lay.end else lay.end_pos(),
                      chord_duration=b - a, measures_df=df)
            on = (s["t"] - a) / (b - a)
            chord = (on, on + s["dur"] / (b - a), s["dur"] / (b - a))
            if rng.random() < 0.4:
                kw["note_onset"] = s["t"] - a
        minp = maxp = None
        if rng.random() < 0.7:
            lo = rng.choice([s["midi"], rng.randrange(0, s["midi"] + 1)])
            hi = rng.choice([s["midi"], lo if lo == s["midi"] else s["midi"], rng.randrange(s["midi"], 128)])
            minp, maxp = (lo // 12, lo), (hi // 12, hi)
            kw.update(min_pitch=minp, max_pitch=maxp)
        prev = rng.choice([None, F(1, 4), F(0)])
        nxt = rng.choice([None, F(3, 8), F(0)])
        before = note.to_dict()
        got = ctx.call("note-vec", note.to_vec, dur_from_prev=prev, dur_to_next=nxt, **kw)
        n = dict(pc=int(note.pitch_class), oct=s["midi"] // 12, midi=s["midi"],
                 onl=note.onset_level, offl=note.offset_level)
        want = want_note_vec(n, pt, chord, minp, maxp, prev, nxt)
        det = dict(note=s, pitch_type=pt.name, kw={k: v for k, v in kw.items() if k != "measures_df"},
                   prev=prev, nxt=nxt)
        ctx.ev("note_encoded")
        ctx.sig(pt.name, s["midi"], n["pc"], n["onl"], n["offl"], str(chord), str(minp), str(maxp))
        ctx.eq(len(got), get_note_vector_length(pt), "note-length", "announced length", **det)
        ok = ctx.check(got.shape == want.shape and np.allclose(got.astype(float), want.astype(float),
                                                               rtol=2e-3, atol=1e-6, equal_nan=True),
                       "note-vec", "each section holds its field", got=got.tolist(), want=want.tolist(),
                       **det)
        ctx.eq(note.to_dict(), before, "vec-pure", "encoding does not change the note")
        if not ok:
            continue
        dec = ctx.call("decode-note", quiet, vd.decode_note_vector, got)
        w = chord or (0, 0, 0)
        ctx.eq((int(dec.pitch_class), int(dec.octave), int(dec.onset_level), int(dec.offset_level),
                dec.pitch_type),
               (n["pc"], n["oct"], n["onl"], n["offl"], pt), "decode-note", "decoded note", **det)
        ctx.check(abs(float(dec.duration) - float(np.float16(float(w[2])))) < 1e-3 * (1 + abs(float(w[2]))),
                  "decode-note", "decoded duration", got=dec.duration, **det)
        ctx.ev("note_decoded")
        for iv in rng.sample(range(-40, 41), 12) + [0, 1, -1]:
            new = n["pc"] + iv
            orig = got.copy()
            tkw = {} if rng.random() < 0.5 else {"pitch_type": pt}
            ctx.ev("transposed")
            ctx.sig("tr", pt.name, n["pc"], iv, sample=False)
            if pt == TPC and not 0 <= new < T.N_TPC:
                ctx.raises("transpose-refuse", ValueError, quiet, vd.transpose_note_vector, got, iv, **tkw)
                ctx.check(np.array_equal(got, orig, equal_nan=True), "transpose-pure", "input untouched")
                continue
            res = ctx.call("transpose-note", vd.transpose_note_vector, got, iv, **tkw)
            exp = orig.copy()
            exp[n["pc"]] = 0
            exp[new % 12 if pt == MIDI else new] = 1
            ctx.check(np.array_equal(res, exp, equal_nan=True), "transpose-note",
                      "only the pitch moves, by the interval", iv=iv, **det)
            ctx.check(np.array_equal(got, orig, equal_nan=True), "transpose-pure", "input untouched")


# ------------------------------------------------------------------------------------------- C11
rule("C11", "batches of random chords encoded as vectors and indices x random reductions (identity, "
     "triads, one type, partial, non-idempotent) x inversion settings x relative/padded; oracle: "
     "encoding of the reduced chord; non-trivial = one reduced batch")


@scenario("C11", quick=150, thorough=8000)
def reduce_vectors(ctx, rng, i):
    pt = rng.choice([TPC, MIDI])
    pad = rng.random() < 0.5
    rows, chords = [], []
    for _ in range(rng.randrange(1, 9)):
        if rng.random() < 0.2:
            rows.append(None)
            chords.append(None)
            continue
        ch, c = rand_chord(rng, pt)
        try:
            want_vec(c, pt, pad, c["key_tonic"], c["key_mode"], {t: t for t in TYPES})
        except ValueError:
            continue
        rows.append(ch.to_vec(pad=pad))
        chords.append((ch, c))
    if not rows:
        return
    ln = int(get_chord_vector_length(pt, one_hot=False, pad=pad))
    extra = rng.choice([0, 0, int(get_key_change_vector_length(pt, one_hot=False)) + 1])
    tensor = np.zeros((len(rows), ln + extra), dtype=rng.choice([np.float16, np.float64]))
    for r, v in enumerate(rows):
        if v is not None:
            tensor[r, :ln] = v
            tensor[r, ln:] = [rng.randrange(2) for _ in range(extra)]
    red, names = rand_reduction(rng)
    if rng.random() < 0.3:  # partial: identity entries left out
        red = {a: b for a, b in red.items() if a != b}
    kw = {"pitch_type": pt} if extra or rng.random() < 0.5 else {}
    got = tensor.copy()
    ctx.call("reduce-types", vd.reduce_chord_types, got, red, pad, **kw)
    for r, (c, orig) in enumerate(zip(chords, tensor)):
        want = orig.copy()
        if c is not None:
            want[:ln] = want_vec(c[1], pt, pad, c[1]["key_tonic"], c[1]["key_mode"], names)
        ctx.check(np.array_equal(got[r], want), "reduce-types", "vector of the reduced chord",
                  chord=c and c[1], reduction={a.name: b.name for a, b in red.items() if a != b},
                  pad=pad, pitch_type=pt.name, diff=np.where(got[r] != want)[0].tolist())
        ctx.ev("vector_reduced")
        ctx.ev("padding_row", int(c is None))
    ctx.sig(pt.name, pad, extra, tuple(c and (c[1]["chord_type"].name, c[1]["root"]) for c in chords),
            tuple(sorted((a.name, b.name) for a, b in red.items())))
    got = tensor.copy()
    ctx.call("reduce-none", vd.reduce_chord_types, got, None, pad, **kw)
    ctx.check(np.array_equal(got, tensor), "reduce-none", "no reduction, no change")
    got = tensor.copy()
    ctx.call("remove-inversions", vd.remove_chord_inversions, got, pad, **kw)
    once = got.copy()
    n, _ = sections(pt, pad)
    o = 2 * n + 12
    for r, (c, orig) in enumerate(zip(chords, tensor)):
        want = orig.copy()
        if c is not None:
            want[o:o + 4] = [1, 0, 0, 0]
        ctx.check(np.array_equal(got[r], want), "remove-inversions", "root position, nothing else",
                  chord=c and c[1], pad=pad, pitch_type=pt.name,
                  diff=np.where(got[r] != want)[0].tolist())
        ctx.ev("inversion_removed")
    ctx.call("remove-inversions", vd.remove_chord_inversions, got, pad, **kw)
    ctx.check(np.array_equal(got, once), "reduce-idempotent", "removing inversions twice")


def space(pt, relative, pad, use_inv, types):
    """All chords of a label space, in index order: type, root, inversion."""
    if relative and pt == TPC:
        n = T.REL_MAX - T.REL_MIN + (2 * T.REL_PAD if pad else 0)
    else:
        n = 12 if pt == MIDI else T.N_TPC
    out = []
    for t in sorted(set(types), key=TYPES.index):
        for root in range(n):
            for inv in range(T.inv_count(t) if use_inv else 1):
                out.append((t, inv, root))
    return out


@scenario("C11", quick=1, thorough=1)
def named(ctx, rng, i):
    """The reductions with a name do what the name says."""
    for t in TYPES:
        ctx.ev("named_reduction", 3)
        ctx.eq(data_types.NO_REDUCTION[CT[t]], CT[t], "reduction-none", "every type is kept", type=t)
        ctx.eq(T.CHORD_FIFTHS[data_types.TRIAD_REDUCTION[CT[t]].name], T.CHORD_FIFTHS[t][:3], "reduction-triad",
               "the triad without its seventh", type=t)
        ctx.sig("named", t, sample=False)
    ctx.eq(len({data_types.ALL_ONE_TYPE_REDUCTION[CT[t]] for t in TYPES}), 1, "reduction-one", "one type for all")


@scenario("C11", quick=60, thorough=2500)
def reduce_indices(ctx, rng, i):
    pt = rng.choice([TPC, MIDI])
    relative, pad = rng.random() < 0.5, rng.random() < 0.5
    inv_present = rng.random() < 0.7
    use_inv = rng.random() < 0.5
    red0, names0 = rand_reduction(rng)
    if rng.random() < 0.5:
        red0, names0 = None, {t: t for t in TYPES}
    red, names = rand_reduction(rng)
    if rng.random() < 0.2:
        red, names = None, {t: t for t in TYPES}
    old = space(pt, relative, pad, inv_present, names0.values())
    new = {c: k for k, c in enumerate(space(pt, relative, pad, use_inv, names.values()))}
    idx, want = [], []
    for _ in range(40):
        k = rng.randrange(len(old))
        t, inv, root = old[k]
        t2 = names[t]
        i2 = inv if use_inv else 0
        if (t2, i2, root) not in new:
            continue  # inversion does not exist for the reduced type
        idx.append(k)
        want.append(new[t2, i2, root])
    if not idx:
        return
    form = rng.choice(["list", "int", "float"])
    arg = idx if form == "list" else np.array(idx, dtype=int if form == "int" else float)
    kw = dict(inversions_present=inv_present, relative=relative, use_inversions=use_inv)
    if red0 is not None:
        kw["reduction_present"] = red0
    if red is not None:
        kw["reduction"] = red
    keep = list(idx)
    got = ctx.call("reduce-indices", vd.reduce_chord_one_hots, arg, pad, pt, **kw)
    ctx.ev("index_reduced", len(idx))
    ctx.sig(pt.name, relative, pad, inv_present, use_inv, tuple(idx), tuple(want))
    det = dict(pt=pt.name, relative=relative, pad=pad, inv_present=inv_present, use_inv=use_inv,
               present={a: b for a, b in names0.items() if a != b},
               reduction={a: b for a, b in names.items() if a != b})
    ctx.eq([int(x) for x in got], want, "reduce-indices", "index of the reduced chord", idx=idx, **det)
    ctx.eq([int(x) for x in arg], keep, "reduce-pure", "input untouched")
    if form != "list":
        ctx.eq(got.dtype, arg.dtype, "reduce-dtype", "dtype kept")
