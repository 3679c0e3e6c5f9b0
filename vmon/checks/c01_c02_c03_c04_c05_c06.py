"""C01-C06: pitch, transposition, chord/key label spaces, degrees, chord tones."""
import itertools

import numpy as np

from vmon import theory as T
from vmon.core import rule, scenario

import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data.chord import Chord, get_chord_vector_length
from harmonic_inference.data.data_types import (
    ALL_ONE_TYPE_REDUCTION, NO_REDUCTION, TRIAD_REDUCTION, ChordType, KeyMode, PitchType)
from harmonic_inference.data.key import Key, get_key_change_vector_length

TPC, MIDI = PitchType.TPC, PitchType.MIDI
CT = {c.name: c for c in ChordType}
MODES = {m.name: m for m in KeyMode}

# ------------------------------------------------------------------------------------------- C01
rule("C01", "every letter x accidental (-5..5) x case x pitch type, every TPC/MIDI number and "
     "interval in a wide range; non-trivial = an observed conversion or rejection")


@scenario("C01")
def names_to_numbers(ctx, rng, i):
    for letter in T.LETTERS:
        for acc in range(-5, 6):
            for base in (letter, letter.lower()):
                name = base + ("#" * acc if acc >= 0 else "b" * -acc)
                want = T.tpc(T.name_fifths(name))
                ctx.sig("name", name)
                if 0 <= want < T.N_TPC:
                    got = ctx.call("tpc-from-name", hu.get_pitch_from_string, name, TPC)
                    ctx.ev("tpc_parse")
                    ctx.eq(int(got), want, "tpc-from-name", "TPC number of a name", name=name)
                    back = ctx.call("tpc-name", hu.get_pitch_string, got, TPC)
                    ctx.eq(back, name[0].upper() + name[1:], "tpc-round-trip", "name round trip",
                           name=name)
                    ctx.ev("round_trip")
                else:
                    ctx.ev("tpc_reject")
                    ctx.raises("tpc-reject", (ValueError, KeyError, IndexError),
                               hu.get_pitch_from_string, name, TPC)
                got = ctx.call("midi-from-name", hu.get_pitch_from_string, name, MIDI)
                ctx.ev("midi_parse")
                ctx.eq(int(got), T.name_semi(name), "midi-from-name", "pitch class of a name",
                       name=name)
                ctx.eq(int(got), T.tpc_to_midi(T.tpc(T.name_fifths(name))), "tpc-midi-agree",
                       "pitch class agrees with line of fifths", name=name)
                adj, rest = ctx.call("acc", hu.get_accidental_adjustment, name, in_front=False)
                ctx.eq((adj, rest), (acc, base), "suffix-accidentals", "accidentals of a name",
                       name=name)
    for num in "1234567":
        for acc in range(-4, 5):
            s = ("#" * acc if acc >= 0 else "b" * -acc) + num
            ctx.eq(tuple(ctx.call("acc", hu.get_accidental_adjustment, s, in_front=True)),
                   (acc, num), "prefix-accidentals", "accidentals before a degree", s=s)


@scenario("C01")
def numbers_to_names(ctx, rng, i):
    seen = {}
    for t in range(T.N_TPC):
        name = ctx.call("tpc-name", hu.get_pitch_string, t, TPC)
        ctx.eq(name, T.tpc_name(t), "tpc-name", "name of a TPC", t=t)
        ctx.check(name not in seen, "tpc-name-unique", "two numbers share a name", t=t, name=name)
        seen[name] = t
        ctx.eq(ctx.call("tpc-from-name", hu.get_pitch_from_string, name, TPC), t, "tpc-round-trip",
               "number round trip", t=t)
        # numpy integers come from data frames and must behave the same
        ctx.eq(ctx.call("tpc-name", hu.get_pitch_string, np.int64(t), TPC), name, "tpc-name-np",
               "numpy integer", t=t)
        ctx.ev("round_trip")
        ctx.sig("tpc", t, name)
        # every spelling sounds like its pitch class
        ctx.eq(ctx.call("midi-from-name", hu.get_pitch_from_string, name, MIDI), T.tpc_to_midi(t),
               "tpc-midi-agree", "TPC -> name -> MIDI", t=t)
    for m in range(-24, 36):
        name = ctx.call("midi-name", hu.get_pitch_string, m, MIDI)
        ctx.eq(name, T.MIDI_NAMES[m % 12], "midi-name", "name of a pitch class", m=m)
        ctx.eq(ctx.call("midi-from-name", hu.get_pitch_from_string, name, MIDI), m % 12,
               "midi-round-trip", "pitch class round trip", m=m)
        for part in name.split("/"):
            ctx.eq(ctx.call("midi-from-name", hu.get_pitch_from_string, part, MIDI), m % 12,
                   "midi-enharmonic", "enharmonic names agree", m=m, part=part)
        ctx.ev("round_trip")
        ctx.sig("midi", m)
    for iv in range(-60, 61):
        ctx.eq(ctx.call("interval", hu.tpc_interval_to_midi_interval, iv), (7 * iv) % 12,
               "interval-convert", "fifths to semitones", interval=iv)
        ctx.ev("interval")
        ctx.sig("iv", iv)


# ------------------------------------------------------------------------------------------- C02
rule("C02", "all pitches x intervals / tonics x ranges (exhaustive); random presence vectors x "
     "intervals; non-trivial = one observed shift or refusal")


@scenario("C02")
def transpose_pitches(ctx, rng, i):
    for t in range(T.N_TPC):
        for iv in range(-40, 41):
            ctx.sig("t", t, iv, sample=False)
            if 0 <= t + iv < T.N_TPC:
                got = ctx.call("transpose", hu.transpose_pitch, t, iv, TPC)
                ctx.ev("tpc_shift")
                if ctx.eq(int(got), t + iv, "transpose-tpc", "TPC transposition", t=t, iv=iv):
                    ctx.eq(ctx.call("transpose", hu.transpose_pitch, got, -iv, TPC), t,
                           "transpose-inverse", "transposing back", t=t, iv=iv)
            else:
                ctx.ev("tpc_refusal")
                ctx.raises("transpose-tpc-reject", ValueError, hu.transpose_pitch, t, iv, TPC)
    for m in range(12):
        for iv in range(-40, 41):
            got = ctx.call("transpose", hu.transpose_pitch, m, iv, MIDI)
            ctx.ev("midi_shift")
            ctx.sig("m", m, iv, sample=False)
            ctx.eq(int(got), (m + iv) % 12, "transpose-midi", "MIDI transposition", m=m, iv=iv)
            ctx.eq(ctx.call("transpose", hu.transpose_pitch, got, -iv, MIDI), m,
                   "transpose-inverse", "transposing back", m=m, iv=iv)


@scenario("C02")
def relative_pitches(ctx, rng, i):
    for key_change, pad in itertools.product((False, True), (False, True)):
        lo, hi = (T.KEY_MIN, T.KEY_MAX) if key_change else (T.REL_MIN, T.REL_MAX)
        if pad and not key_change:
            lo, hi = lo - T.REL_PAD, hi + T.REL_PAD
        for pitch, tonic in itertools.product(range(T.N_TPC), range(T.N_TPC)):
            rel = pitch - tonic
            ctx.sig(key_change, pad, pitch, tonic, sample=False)
            if lo <= rel < hi:
                got = ctx.call("relative", hu.absolute_to_relative, pitch, tonic, TPC, key_change,
                               pad=pad)
                ctx.ev("tpc_relative")
                ctx.eq(int(got), rel - lo, "relative-tpc", "relative index", pitch=pitch,
                       tonic=tonic, key_change=key_change, pad=pad)
                ctx.check(0 <= got < hi - lo, "relative-in-range", "relative index in range",
                          got=got)
            else:
                ctx.ev("tpc_relative_refusal")
                ctx.raises("relative-tpc-reject", ValueError, hu.absolute_to_relative, pitch,
                           tonic, TPC, key_change, pad=pad)
        for pitch, tonic in itertools.product(range(12), range(12)):
            got = ctx.call("relative", hu.absolute_to_relative, pitch, tonic, MIDI, key_change,
                           pad=pad)
            ctx.ev("midi_relative")
            ctx.eq(int(got), (pitch - tonic) % 12, "relative-midi", "relative index", pitch=pitch,
                   tonic=tonic)


@scenario("C02", quick=60, thorough=4000)
def transpose_vectors(ctx, rng, i):
    midi = i % 2 == 0
    n = 12 if midi else T.N_TPC
    pt = MIDI if midi else TPC
    kind = rng.choice(["sparse", "dense", "edge", "counts"])
    vec = np.zeros(n, dtype=int)
    if kind == "edge":
        vec[[0, n - 1]] = 1
    else:
        for p in rng.sample(range(n), rng.randint(1, 4 if kind == "sparse" else n)):
            vec[p] = 1 if kind != "counts" else rng.randint(1, 9)
    orig = vec.copy()
    for iv in range(-(n - 1), n):
        got = np.asarray(ctx.call("vector-transpose", hu.transpose_chord_vector, vec, iv, pt))
        want = np.zeros(n, dtype=int)
        for p in range(n):
            q = (p + iv) % n if midi else p + iv
            if 0 <= q < n:
                want[q] = orig[p]
        ctx.ev("vector_shift")
        ctx.check(got.shape == want.shape and (got == want).all(), "vector-transpose",
                  "transposed presence vector", vec=orig.tolist(), iv=iv, got=got.tolist())
        ctx.check((vec == orig).all(), "vector-transpose-mutates", "input vector unchanged", iv=iv)
        ctx.sig(midi, tuple(np.where(orig)[0]), iv, sample=False)
    if rng.random() < 0.5:
        # as used for chords: through the chord-type vector
        ct = rng.choice(list(ChordType))
        root = rng.randrange(n)
        got = np.asarray(ctx.call("vector-chord", hu.get_vector_from_chord_type, ct, pt, root))
        want = {p for p in T.chord_tones(ct.name, root, midi) if 0 <= p < n}
        ctx.eq(set(np.where(got)[0].tolist()), want, "vector-chord", "chord vector on a root",
               ct=ct, root=root, pt=pt)


# ------------------------------------------------------------------------------------------- C03
rule("C03", "all configurations pitch type x inversions x relative x pad x {none, triad, all-one, "
     "random total reductions}, every index and every chord enumerated; non-trivial = one "
     "configuration with its full label space walked")


def chord_space(ctx, pt, inv, rel, pad, red, tag):
    midi = pt == MIDI
    redf = red or NO_REDUCTION
    types = set(redf.values())
    if rel and not midi:
        lo, hi = T.REL_MIN, T.REL_MAX
        if pad:
            lo, hi = lo - T.REL_PAD, hi + T.REL_PAD
    else:
        lo, hi = 0, 12 if midi else T.N_TPC
    size = sum((T.inv_count(c.name) if inv else 1) for c in types) * (hi - lo)
    cfg = dict(pitch=pt.name, inv=inv, rel=rel, pad=pad, red=tag)
    ctx.sig(tuple(cfg.items()), tuple(sorted(c.name for c in types)))

    decoded = list(ctx.call("chord-decode-all", hu.get_chord_from_one_hot_index,
                            slice(None), pt, use_inversions=inv, relative=rel, pad=pad,
                            reduction=red))
    ctx.eq(len(decoded), size, "chord-space-size", "size of the chord label space", **cfg)
    ctx.eq(len(set(decoded)), len(decoded), "chord-decode-distinct", "decoded chords distinct",
           **cfg)
    labels = ctx.call("chord-labels", hu.get_chord_label_list, pt, use_inversions=inv,
                      relative=rel, pad=pad, reduction=red)
    ctx.eq(len(labels), size, "chord-labels-size", "number of chord labels", **cfg)
    ctx.eq(int(ctx.call("chord-vec-len", get_chord_vector_length, pt, one_hot=True, relative=rel,
                        use_inversions=inv, pad=pad, reduction=red)), size, "chord-length",
           "announced one-hot length", **cfg)
    if len(decoded) != size or len(labels) != size:
        return
    for idx, (root, ct, iv) in enumerate(decoded):
        ctx.ev("index_decoded")
        ctx.check(lo <= root < hi and ct in types
                  and 0 <= iv < (T.inv_count(ct.name) if inv else 1),
                  "chord-decode-range", "decoded chord lies in the space", idx=idx,
                  got=(root, ct, iv), **cfg)
        name = str(root) if rel else (T.MIDI_NAMES[root] if midi else T.tpc_name(root))
        want = f"{name}:{T.CHORD_STR[ct.name]}" + (f", inv:{iv}" if inv else "")
        ctx.eq(labels[idx], want, "chord-label", "label names the decoded chord", idx=idx, **cfg)
    step = max(1, size // 97)
    for idx in range(0, size, step):
        ctx.eq(ctx.call("chord-decode", hu.get_chord_from_one_hot_index, idx, pt,
                        use_inversions=inv, relative=rel, pad=pad, reduction=red), decoded[idx],
               "chord-decode-slice", "single and bulk decoding agree", idx=idx, **cfg)
    hit = set()
    for ct in ChordType:
        rct = redf[ct]
        n_inv = T.inv_count(rct.name)
        for root in range(lo, hi):
            for iv in range(n_inv):
                idx = ctx.call("chord-encode", hu.get_chord_one_hot_index, ct, root - lo, pt,
                               inversion=iv, use_inversion=inv, relative=rel, pad=pad,
                               reduction=red)
                ctx.ev("chord_encoded")
                ok = 0 <= idx < size
                ctx.check(ok, "chord-encode-range", "index in range", ct=ct, root=root, iv=iv,
                          got=idx, **cfg)
                if ok:
                    hit.add(int(idx))
                    ctx.eq(decoded[int(idx)], (root, rct, iv if inv else 0), "chord-encode",
                           "index decodes to the chord", ct=ct, root=root, iv=iv, idx=idx, **cfg)
        for bad_root in (lo - 1, hi, hi + 3):
            ctx.raises("chord-root-reject", ValueError, hu.get_chord_one_hot_index, ct,
                       bad_root - lo, pt, inversion=0, use_inversion=inv, relative=rel, pad=pad,
                       reduction=red)
        if inv:
            for bad in (-1, n_inv, n_inv + 1):
                ctx.raises("chord-inversion-reject", ValueError, hu.get_chord_one_hot_index, ct,
                           0, pt, inversion=bad, use_inversion=inv, relative=rel, pad=pad,
                           reduction=red)
        ctx.ev("rejections", 3 + 3 * inv)
    ctx.eq(len(hit), size, "chord-encode-onto", "every index is some chord's index", **cfg)


CONFIGS = list(itertools.product((TPC, MIDI), (True, False), (True, False), (True, False)))
FIXED_RED = [("none", None), ("no", NO_REDUCTION), ("triad", TRIAD_REDUCTION),
             ("one", ALL_ONE_TYPE_REDUCTION)]


@scenario("C03", quick=len(CONFIGS), thorough=len(CONFIGS))
def label_space_fixed(ctx, rng, i):
    pt, inv, rel, pad = CONFIGS[i]
    for tag, red in FIXED_RED:
        chord_space(ctx, pt, inv, rel, pad, red, tag)


@scenario("C03", quick=24, thorough=1200)
def label_space_random(ctx, rng, i):
    pt, inv, rel, pad = CONFIGS[i % len(CONFIGS)]
    types = list(ChordType)
    targets = rng.sample(types, rng.randint(1, 8))
    red = {t: (t if t in targets and rng.random() < 0.8 else rng.choice(targets)) for t in types}
    chord_space(ctx, pt, inv, rel, pad, red, "random" + "".join(str(red[t].value) for t in types))


@scenario("C03", quick=40, thorough=2000)
def chord_objects(ctx, rng, i):
    """Chord objects: index relative to their key / absolute, under all settings."""
    for _ in range(25):
        pt = rng.choice((TPC, MIDI))
        n = 12 if pt == MIDI else T.N_TPC
        ct = rng.choice(list(ChordType))
        inv = rng.randrange(T.inv_count(ct.name))
        root, tonic = rng.randrange(n), rng.randrange(n)
        chord = Chord(root, root, tonic, rng.choice(list(KeyMode)), ct, inv, (0, 0), 3, (1, 0), 3,
                      1, pt)
        rel, pad, ui = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.7
        tag, red = rng.choice(FIXED_RED)
        rct = (red or NO_REDUCTION)[ct]
        lo, hi = 0, n
        want_root = root
        if rel and pt == TPC:
            lo = T.REL_MIN - (T.REL_PAD if pad else 0)
            hi = T.REL_MAX + (T.REL_PAD if pad else 0)
            want_root = root - tonic
        elif rel:
            want_root = (root - tonic) % 12
        kw = dict(relative=rel, use_inversion=ui, pad=pad, reduction=red)
        ctx.sig(pt.name, rel, pad, ui, tag, want_root - lo, ct.name, inv, sample=False)
        bad = not lo <= want_root < hi or (ui and inv >= T.inv_count(rct.name))
        if bad:
            ctx.ev("object_reject")
            ctx.raises("chord-object-reject", ValueError, chord.get_one_hot_index, **kw)
            continue
        idx = ctx.call("chord-object-index", chord.get_one_hot_index, **kw)
        ctx.ev("object_index")
        dec = ctx.call("chord-decode", hu.get_chord_from_one_hot_index, int(idx), pt,
                       use_inversions=ui, relative=rel, pad=pad, reduction=red)
        ctx.eq(dec, (want_root, rct, inv if ui else 0), "chord-object-index",
               "a chord's index decodes to the chord", chord=chord, **kw)
        ctx.eq(int(chord.get_chord_vector_length(one_hot=True, relative=rel, use_inversions=ui,
                                                 pad=pad, reduction=red)),
               len(hu.get_chord_label_list(pt, use_inversions=ui, relative=rel, pad=pad,
                                           reduction=red)),
               "chord-object-length", "chord's announced length", **kw)


@scenario("C03", quick=35, thorough=35)
def labels_relative_to(ctx, rng, i):
    """Label lists spelled relative to a tonic name the transposed roots."""
    for pt in (TPC, MIDI):
        if pt == MIDI and i >= 12:
            continue
        for pad in (False, True):
            dec = hu.get_chord_from_one_hot_index(slice(None), pt, use_inversions=True,
                                                  relative=True, pad=pad, reduction=TRIAD_REDUCTION)
            labels = ctx.call("chord-labels", hu.get_chord_label_list, pt, use_inversions=True,
                              relative=True, relative_to=i, pad=pad, reduction=TRIAD_REDUCTION)
            ctx.eq(len(labels), len(dec), "chord-labels-size", "number of labels")
            for (root, ct, iv), label in zip(dec, labels):
                if pt == MIDI:
                    name = T.MIDI_NAMES[(root + i) % 12]
                else:
                    name = T.tpc_name(root + i) if 0 <= root + i < T.N_TPC else str(root)
                ctx.eq(label, f"{name}:{T.CHORD_STR[ct.name]}, inv:{iv}", "chord-label-relative-to",
                       "label relative to a tonic", tonic=i, root=root, pt=pt)
                ctx.ev("label_relative")
            ctx.sig(pt.name, pad, i)


# ------------------------------------------------------------------------------------------- C04
rule("C04", "all keys and all ordered pairs of keys in both pitch types (exhaustive); non-trivial "
     "= one key or key change encoded and decoded")


def mkkey(tonic, mode, pt, rng=None, n=None):
    other = tonic if rng is None else rng.randrange(n)
    omode = mode if rng is None else rng.choice(list(KeyMode))
    return Key(tonic, other, other, mode, omode, omode, pt)


@scenario("C04")
def key_space(ctx, rng, i):
    for pt, n in ((TPC, T.N_TPC), (MIDI, 12)):
        dec = list(ctx.call("key-decode", hu.get_key_from_one_hot_index, slice(None), pt))
        labels = ctx.call("key-labels", hu.get_key_label_list, pt)
        ctx.eq(len(dec), 2 * n, "key-space-size", "size of key space", pt=pt)
        ctx.eq(len(set(dec)), len(dec), "key-decode-distinct", "distinct keys", pt=pt)
        ctx.eq(len(labels), 2 * n, "key-labels-size", "number of key labels", pt=pt)
        for mode in KeyMode:
            for tonic in range(n):
                idx = ctx.call("key-encode", hu.get_key_one_hot_index, mode, tonic, pt)
                ctx.ev("key_encoded")
                ctx.sig(pt.name, mode.name, tonic)
                if ctx.check(0 <= idx < 2 * n, "key-encode-range", "index in range", idx=idx):
                    ctx.eq(dec[idx], (tonic, mode), "key-encode", "index decodes to key",
                           tonic=tonic, mode=mode, pt=pt)
                    ctx.eq(hu.get_key_from_one_hot_index(idx, pt), (tonic, mode), "key-decode-one",
                           "single decode", idx=idx)
                    name = T.MIDI_NAMES[tonic] if pt == MIDI else T.tpc_name(tonic)
                    if mode == KeyMode.MINOR:
                        name = name.lower()
                    ctx.eq(labels[idx], f"{name}:{mode}", "key-label", "label names the key",
                           idx=idx, pt=pt)
                    key = mkkey(tonic, mode, pt, rng, n)
                    ctx.eq(ctx.call("key-object", key.get_one_hot_index), idx, "key-object-index",
                           "index of key object is of its tonic and mode", key=key)
            for bad in (-1, n, n + 5):
                ctx.raises("key-reject", ValueError, hu.get_key_one_hot_index, mode, bad, pt)
        # relative (key change) space
        lo, hi = (T.KEY_MIN, T.KEY_MAX) if pt == TPC else (0, 12)
        rdec = list(ctx.call("key-decode", hu.get_key_from_one_hot_index, slice(None), pt,
                             relative=True))
        rlab = ctx.call("key-labels", hu.get_key_label_list, pt, relative=True)
        ctx.eq(len(rdec), 2 * (hi - lo), "key-change-size", "size of key change space", pt=pt)
        ctx.eq(len(rlab), len(rdec), "key-change-labels", "key change labels", pt=pt)
        ctx.eq(int(get_key_change_vector_length(pt)), len(rdec), "key-change-length", "one label per change by default")
        ctx.eq(int(get_key_change_vector_length(pt, one_hot=True)), len(rdec),
               "key-change-length", "announced key change length", pt=pt)
        ctx.eq(int(get_key_change_vector_length(pt, one_hot=False)), hi - lo + 2,
               "key-change-vector-length", "announced key change vector length", pt=pt)
        for (iv, mode), lab in zip(rdec, rlab):
            ctx.check(lo <= iv < hi, "key-change-range", "interval in range", iv=iv)
            want = str(iv).lower() if mode == KeyMode.MINOR else str(iv)
            ctx.eq(lab, f"{want}:{mode}", "key-change-label", "label names the change", pt=pt)
        for tonic in range(n):
            rel = ctx.call("key-labels", hu.get_key_label_list, pt, relative=True,
                           relative_to=tonic)
            for (iv, mode), lab in zip(rdec, rel):
                if pt == MIDI:
                    name = T.MIDI_NAMES[(tonic + iv) % 12]
                else:
                    name = T.tpc_name(tonic + iv) if 0 <= tonic + iv < n else str(iv)
                name = name.lower() if mode == KeyMode.MINOR else name
                ctx.eq(lab, f"{name}:{mode}", "key-change-label-to", "label of the new key",
                       tonic=tonic, iv=iv, pt=pt)
                ctx.ev("key_change_label")


@scenario("C04", quick=2, thorough=12)
def key_changes(ctx, rng, i):
    pt, n = ((TPC, T.N_TPC), (MIDI, 12))[i % 2]
    lo, hi = (T.KEY_MIN, T.KEY_MAX) if pt == TPC else (0, 12)
    rdec = list(hu.get_key_from_one_hot_index(slice(None), pt, relative=True))
    for t1, t2, m1, m2 in itertools.product(range(n), range(n), KeyMode, KeyMode):
        k1, k2 = mkkey(t1, m1, pt, rng, n), mkkey(t2, m2, pt, rng, n)
        iv = t2 - t1 if pt == TPC else (t2 - t1) % 12
        vec = np.asarray(ctx.call("key-change-vector", k1.get_key_change_vector, k2), dtype=float)
        ctx.ev("key_change")
        ctx.sig(pt.name, iv, m1.name, m2.name, sample=False)
        ctx.eq(len(vec), hi - lo + 2, "key-change-vector-length", "vector length", k1=k1, k2=k2)
        want = np.zeros(hi - lo + 2)
        want[hi - lo + m2.value] = 1
        if lo <= iv < hi:
            want[iv - lo] = 1
            idx = ctx.call("key-change-index", k1.get_key_change_one_hot_index, k2)
            if ctx.check(0 <= idx < len(rdec), "key-change-index-range", "index in range",
                         idx=idx):
                ctx.eq(rdec[int(idx)], (iv, m2), "key-change-index",
                       "key change index decodes to interval and new mode", k1=k1, k2=k2)
        else:
            ctx.ev("key_change_reject")
            ctx.raises("key-change-reject", ValueError, k1.get_key_change_one_hot_index, k2)
        ctx.check(len(vec) == len(want) and (vec == want).all(), "key-change-vector",
                  "key change vector encodes interval and new mode", k1=k1, k2=k2,
                  got=vec.tolist())
        ctx.eq(k1.is_repeated(k2), t1 == t2 and m1 == m2, "key-repeat",
               "keys repeat iff tonic and mode agree", k1=k1, k2=k2)


# ------------------------------------------------------------------------------------------- C05
rule("C05", "degrees 1-7 in digit/numeral/lower-case form x accidentals -3..3 x prefix/suffix x mode "
     "x pitch type; all intervals formatted and parsed; random slash chains; non-trivial = one "
     "parsed degree, formatted interval or resolved chain")


@scenario("C05")
def degrees(ctx, rng, i):
    for mode in KeyMode:
        for deg in range(1, 8):
            forms = [str(deg), T.NUMERALS[deg - 1], T.NUMERALS[deg - 1].lower()]
            for form, acc, front in itertools.product(forms, range(-3, 4), (True, False)):
                a = "#" * acc if acc >= 0 else "b" * -acc
                s = a + form if front else form + a
                f = T.degree_fifths(deg, acc, mode.name)
                ctx.sig(s, mode.name, front)
                got = ctx.call("degree", hu.get_interval_from_scale_degree, s, front, mode, TPC)
                ctx.eq(got, f, "degree-tpc", "interval of a degree", s=s, mode=mode)
                got = ctx.call("degree", hu.get_interval_from_scale_degree, s, front, mode, MIDI)
                ctx.eq(got % 12, (7 * f) % 12, "degree-midi", "semitones of a degree", s=s,
                       mode=mode)
                if front:
                    for pt, w in ((TPC, f), (MIDI, (7 * f) % 12)):
                        got = ctx.call("numeral", hu.get_interval_from_numeral, s, mode, pt)
                        ctx.eq(got if pt == TPC else got % 12, w, "numeral",
                               "interval of a numeral", s=s, mode=mode, pt=pt)
                ctx.ev("degree_parsed")


@scenario("C05")
def format_intervals(ctx, rng, i):
    for mode in KeyMode:
        for iv in range(-30, 31):
            s = ctx.call("format", hu.get_scale_degree_from_interval, iv, mode, TPC)
            ctx.ev("interval_formatted")
            ctx.sig("tpc", mode.name, iv, s)
            got = ctx.call("degree", hu.get_interval_from_scale_degree, s, True, mode, TPC)
            ctx.eq(got, iv, "format-round-trip", "interval -> degree -> interval", iv=iv, s=s,
                   mode=mode)
            ctx.check("#" not in s or "b" not in s, "format-canonical",
                      "no mixed accidentals", s=s)
        for iv in range(-24, 25):
            s = ctx.call("format", hu.get_scale_degree_from_interval, iv, mode, MIDI)
            got = ctx.call("degree", hu.get_interval_from_scale_degree, s, True, mode, MIDI)
            ctx.eq(got % 12, iv % 12, "format-round-trip-midi", "interval -> degree -> interval",
                   iv=iv, s=s, mode=mode)
            ctx.sig("midi", mode.name, iv, s)
            ctx.ev("interval_formatted")


@scenario("C05", quick=400, thorough=40000)
def chains(ctx, rng, i):
    pt = (TPC, MIDI)[i % 2]
    mode = rng.choice(list(KeyMode))
    n = rng.choice([1, 1, 2, 2, 3, 4, 5])
    links = []
    for _ in range(n):
        acc = rng.choice([-1, 0, 0, 0, 0, 1] if n > 1 else [-2, -1, 0, 0, 1, 2])
        num = rng.choice(T.NUMERALS)
        if rng.random() < 0.5:
            num = num.lower()
        links.append((acc, num))
    s = "/".join(("#" * a if a >= 0 else "b" * -a) + num for a, num in links)
    # oracle: resolve from the last (outermost) link inwards
    f, m, path = 0, mode.name, []
    for acc, num in reversed(links):
        f += T.degree_fifths(T.NUMERALS.index(num.upper()) + 1, acc, m)
        m = "MINOR" if num.islower() else "MAJOR"
        path.append(f)
    ctx.sig(pt.name, s, mode.name)
    for tonic in range(T.N_TPC if pt == TPC else 12):
        if pt == TPC:
            inside = all(0 <= tonic + p < T.N_TPC for p in path)
            if not inside:
                if not 0 <= tonic + path[-1] < T.N_TPC:
                    ctx.raises("chain-reject", ValueError, hu.decode_relative_keys, s, tonic,
                               mode, pt)
                    ctx.ev("chain_reject")
                continue
            want = (tonic + f, MODES[m])
        else:
            want = ((tonic + 7 * f) % 12, MODES[m])
        got = ctx.call("chain", hu.decode_relative_keys, s, tonic, mode, pt)
        ctx.ev("chain_resolved")
        ctx.eq((int(got[0]), got[1]), want, "chain", "key at the end of a relative chain", s=s,
               tonic=tonic, mode=mode, pt=pt)


# ------------------------------------------------------------------------------------------- C06
rule("C06", "all chord types x roots x pitch types x inversions (exhaustive), all figured-bass "
     "strings, random alteration strings x chords x keys; non-trivial = one chord spelled or one "
     "alteration string explained")


@scenario("C06")
def chord_tones(ctx, rng, i):
    for ct in ChordType:
        for pt, n in ((TPC, T.N_TPC), (MIDI, 12)):
            for root in range(n):
                tones = T.chord_tones(ct.name, root, pt == MIDI)
                inside = [p for p in tones if 0 <= p < n]
                vec = np.asarray(ctx.call("tones", hu.get_vector_from_chord_type, ct, pt, root))
                ctx.ev("chord_spelled")
                ctx.sig(ct.name, pt.name, root)
                ctx.eq(len(vec), n, "tones-length", "length of presence vector", ct=ct, pt=pt)
                ctx.eq(sorted(np.where(vec)[0].tolist()), sorted(set(inside)), "tones",
                       "pitches of a chord", ct=ct, pt=pt, root=root)
                ctx.check(set(vec.tolist()) <= {0, 1}, "tones-binary", "presence is 0/1", ct=ct)
                for inv, pitch in enumerate(tones):
                    if 0 <= pitch < n:
                        got = ctx.call("bass", hu.get_bass_note, ct, root, inv, pt)
                        ctx.eq(int(got), pitch, "bass", "bass of an inversion", ct=ct, pt=pt,
                               root=root, inv=inv)
                        got = ctx.call("bass", hu.get_bass_note, ct, root, inv + len(tones), pt,
                                       modulo=True)
                        ctx.eq(int(got), pitch, "bass-modulo", "bass with wrapped inversion",
                               ct=ct, pt=pt, root=root, inv=inv)
                    else:
                        ctx.raises("bass-reject", ValueError, hu.get_bass_note, ct, root, inv, pt)
                    ctx.ev("bass")
            vec = np.asarray(ctx.call("tones", hu.get_vector_from_chord_type, ct, pt))
            ctx.eq(sorted(np.where(vec)[0].tolist()),
                   sorted(T.chord_tones(ct.name, T.C_TPC if pt == TPC else 0, pt == MIDI)),
                   "tones-c", "pitches of a chord on C", ct=ct, pt=pt)
        ctx.eq(hu.get_chord_inversion_count(ct), T.inv_count(ct.name), "inversions",
               "number of inversions", ct=ct)
        s = ctx.call("type-string", hu.get_chord_string, ct)
        ctx.eq(s, T.CHORD_STR[ct.name], "type-string", "quality name", ct=ct)
        ctx.eq(ctx.call("type-parse", hu.get_chord_type_from_string, s), ct, "type-round-trip",
               "quality name round trip", ct=ct)
    for s, ct in (("It", "DIMINISHED"), ("Ger", "DIM7"), ("Fr", "MAJ_MIN7")):
        ctx.eq(ctx.call("type-parse", hu.get_chord_type_from_string, s), CT[ct], "type-aug6",
               "augmented sixth quality", s=s)
    for s in ("", "x", "M8", "mm", "7", "maj", None):
        ctx.raises("type-reject", ValueError, hu.get_chord_type_from_string, s)
    for fig, inv in T.FIGBASS.items():
        ctx.eq(ctx.call("figbass", hu.get_chord_inversion, fig), inv, "figbass",
               "inversion of a figured bass", fig=fig)
    for fig in (None, float("nan")):
        ctx.eq(ctx.call("figbass", hu.get_chord_inversion, fig), 0, "figbass", "no figures")
    for fig in ("5", "66", "653", "4", "x"):
        ctx.raises("figbass-reject", ValueError, hu.get_chord_inversion, fig)


ALTS = ["2", "4", "6", "9", "11", "13", "7", "3", "5", "8", "10", "12"]


def rand_alt(rng):
    pre = rng.choice(["", "", "", "+", "^", "v"])
    acc = rng.choice(["", "", "", "b", "#", "##", "bb"])
    if pre in "^v" and pre:
        num = rng.choice(["2", "4", "6"])
    else:
        num = rng.choice(ALTS)
    return pre + acc + num


@scenario("C06", quick=400, thorough=40000)
def split_alterations(ctx, rng, i):
    alts = [rand_alt(rng) for _ in range(rng.randint(0, 5))]
    s = "".join(alts)
    got = ctx.call("split", hu.split_changes_into_list, s)
    ctx.ev("alteration_split", len(alts))
    ctx.sig(s)
    ctx.eq(list(got), alts, "split", "alterations of a string", s=s)
    if i == 0:
        ctx.eq(list(hu.split_changes_into_list(None)), [], "split", "no alterations")


def explain_alterations(alts, root, ct, tonic, mode):
    """Oracle: list of (replaced member or '', added pitch string) in order."""
    members = [root + f for f in T.CHORD_FIFTHS[ct]]
    letter = T.tpc_name(root)[0]
    deg = [d for d in range(1, 8) if T.tpc_name(tonic + T.SCALE[mode][d - 1])[0] == letter][0]
    out = []
    for alt in alts:
        body = alt.lstrip("v^+")
        acc = body.count("#") - body.count("b")
        n = int(body.strip("#b"))
        pitch = tonic + T.degree_fifths((n + deg - 2) % 7 + 1, acc, mode)
        added = ("+" if n >= 8 else "") + str(pitch)
        removed = ""
        if alt[0] != "+":
            sus = n in (2, 4, 6)
            if alt[0] == "^" or (sus and alt[0] == "#"):
                if not (alt == "#6" and len(members) == 3):
                    removed = str(members[n // 2])
            elif alt[0] == "v" or sus:
                removed = str(members[n // 2 - 1])
        out.append((removed, added))
    return out


@scenario("C06", quick=1500, thorough=80000)
def explain_alteration_strings(ctx, rng, i):
    mode = rng.choice(["MAJOR", "MINOR"])
    ct = rng.choice(list(T.CHORD_FIFTHS))
    tonic = rng.randint(9, 21)
    root = tonic + rng.choice(T.SCALE[mode]) + rng.choice([0, 0, 0, 7, -7])
    if not 9 <= root <= 26:
        return
    alts = [rand_alt(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
    if T.inv_count(ct) == 3:
        # nothing above the fifth of a triad can be replaced
        alts = [a for a in alts if not (a.endswith("6") and (a[0] == "^" or a[0:2] == "##"))]
    want = explain_alterations(alts, root, ct, tonic, mode)
    s = "".join(alts)
    got = ctx.call("alterations", hu.get_added_and_removed_pitches, root, CT[ct], s, tonic,
                   MODES[mode])
    ctx.ev("alterations_explained", len(alts))
    ctx.sig(s, ct, mode, root - tonic)
    got = [(str(k), str(v)) for k, v in got.items()] if isinstance(got, dict) else list(got)
    removed = [r for r, _ in want]
    if len(set(removed)) < len(removed) and sorted(got) == sorted(dict(want).items()):
        # the mapping can hold one alteration per replaced member (or one plain addition)
        ctx.check(False, "alterations-collapse",
                  "several alterations of one member (or several additions) are collapsed",
                  s=s, got=got, want=want)
        return
    ctx.eq(sorted(got), sorted(want), "alterations", "alterations of a chord", s=s, ct=ct,
           root=root, tonic=tonic, mode=mode)
