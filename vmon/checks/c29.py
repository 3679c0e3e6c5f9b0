"""C29: the initial-chord prior."""
import json
import math
import os
import shutil
import tempfile
from collections import Counter

import numpy as np

from vmon import theory as T
from vmon.checks.c07_c08 import CT, MIDI, TPC
from vmon.checks.c09_c10_c11 import TYPES, rand_chord, rand_reduction
from vmon.checks.c19_c20_c21 import build, safe_piece
from vmon.core import rule, scenario

from harmonic_inference.data.data_types import KeyMode, PitchType
import harmonic_inference.models.initial_chord_models as icm
import harmonic_inference.utils.harmonic_utils as hu

rule("C29", "random multisets of initial chords (0-40 per mode, heavy ties, one mode absent) x smoothing x pitch "
     "type, trained, saved, loaded and reloaded with every inversion/reduction setting, and evaluated on random "
     "pieces; oracle: the smoothed relative frequencies; non-trivial = one trained prior")


def labels(pt, inv=True, red=None):
    return hu.get_chord_from_one_hot_index(slice(None, None), pt, use_inversions=inv, relative=True, pad=False,
                                           reduction=red)


def train(ctx, chords, smoothing):
    tmp = tempfile.mkdtemp(prefix="vmon_c29_")
    try:
        path = os.path.join(tmp, "icm.json")
        if smoothing is None:
            ctx.call("icm-train", icm.train_icm, chords, path)
        else:
            ctx.call("icm-train", icm.train_icm, chords, path, add_n_smoothing=smoothing)
        with open(path) as f:
            data = json.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    data["pitch_type"] = PitchType[data["pitch_type"].split(".")[-1]]
    return data


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-9, atol=1e-13))


@scenario("C29", quick=60, thorough=4000)
def priors(ctx, rng, i):
    pt = rng.choice([TPC, TPC, MIDI])
    pool = []
    while len(pool) < rng.randrange(1, 8):
        chord, c = rand_chord(rng, pt)
        rel = [(c["root"] - c["key_tonic"]), (c["bass"] - c["key_tonic"])]
        if pt == MIDI or all(T.REL_MIN <= r < T.REL_MAX for r in rel):
            pool.append(chord)
    chords = [rng.choice(pool) for _ in range(rng.randrange(1, 40))]
    if rng.random() < 0.2:
        mode = rng.choice(list(KeyMode))
        chords = [c for c in chords if c.key_mode == mode] or chords
    smoothing = rng.choice([None, 1.0, 0.5, 10.0])
    data = train(ctx, chords, smoothing)
    lab = labels(pt)
    n = len(lab)
    want = {}
    for mode in KeyMode:
        cnt = Counter(((c.root - c.key_tonic) % 12 if pt == MIDI else c.root - c.key_tonic, c.chord_type, c.inversion)
                      for c in chords if c.key_mode == mode)
        tot = sum(cnt.values()) + (smoothing or 1.0)
        want[mode] = np.array([(cnt.get(x, 0) + (smoothing or 1.0) / n) / tot for x in lab])
    model = ctx.call("icm-load", icm.SimpleInitialChordModel, data)
    ctx.ev("trained")
    ctx.ev("initial_chord", len(chords))
    ctx.sig(pt.name, smoothing, tuple(sorted(Counter(map(str, chords)).items())))
    det = dict(pt=pt.name, chords=[str(c) for c in chords[:6]], smoothing=smoothing)
    ctx.eq(model.PITCH_TYPE, pt, "icm-pitch", "the pitch type it was trained on", **det)
    for mode in KeyMode:
        minor = mode == KeyMode.MINOR
        p = model.get_prior(minor, log=False)
        ctx.check(close(p, want[mode]), "icm-prior", "smoothed relative frequencies of the mode", mode=mode, **det)
        ctx.check(math.isclose(float(np.sum(p)), 1.0, rel_tol=1e-9) and float(np.min(p)) > 0, "icm-valid",
                  "a positive distribution", **det)
        ctx.check(close(model.get_prior(minor, log=True), np.log(want[mode])), "icm-log", "the log of the prior", **det)
        ctx.check(close(model.get_prior(minor), np.log(want[mode])), "icm-log", "log by default", **det)
    for inv in (True, False):
        red, names = rand_reduction(rng)
        if rng.random() < 0.4:
            red, names = None, {t: t for t in TYPES}
        if inv and red is None:
            continue
        stored = {k: v for k, v in json.loads(json.dumps({k: v for k, v in data.items() if k != "pitch_type"})).items()}
        stored["pitch_type"] = pt
        kw = dict(use_inversions=inv, reduction=red)
        for k in list(kw):  # the settings may also stand in the file
            if rng.random() < 0.4:
                stored[k] = kw.pop(k)
        small = ctx.call("icm-reduced", icm.SimpleInitialChordModel, stored, **kw)
        ctx.ev("reduced_prior")
        check_reduced(ctx, small, pt, lab, want, inv, red, names, dict(det, in_file=sorted(set(stored) - set(data))))
        # what is reduced already can be stored and reduced further
        if any(names[names[t]] != names[t] for t in TYPES):
            continue
        again = dict(major=[float(x) for x in small.get_prior(False, log=False)], pitch_type=pt,
                     minor=[float(x) for x in small.get_prior(True, log=False)],
                     inversions_present=inv, reduction_present=red)
        red2, names2 = rand_reduction(rng)
        inv2 = rng.random() < 0.6
        if rng.random() < 0.4:
            red2, names2 = None, {t: t for t in TYPES}
        both = {t: names2[names[t]] for t in TYPES}
        if any(both[names[t]] != both[t] for t in TYPES):
            continue
        third = ctx.call("icm-again", icm.SimpleInitialChordModel, again, use_inversions=inv2, reduction=red2)
        ctx.ev("reduced_again")
        lab1 = labels(pt, inv, red)
        check_reduced(ctx, third, pt, lab1, {m: small.get_prior(m == KeyMode.MINOR, log=False) for m in KeyMode}, inv and inv2,
                      {CT[t]: CT[both[t]] for t in TYPES}, both, dict(det, first=(inv, names), second=(inv2, names2)))


def check_reduced(ctx, model, pt, lab, want, inv, red, names, det):
    """The model is over the labels of (inv, red) and gives each the mass of what it stands for in lab."""
    lab2 = labels(pt, inv, red)
    idx = {x: k for k, x in enumerate(lab2)}
    ctx.check(bool(model.use_inversions) == inv, "icm-settings", "tells whether it knows inversions", **det)
    for mode in KeyMode:
        exp = np.zeros(len(lab2))
        for (root, ct, iv), v in zip(lab, want[mode]):
            ct2 = CT[names[ct.name]]
            exp[idx[(root, ct2, iv % T.inv_count(ct2.name) if inv else 0)]] += v
        p = model.get_prior(mode == KeyMode.MINOR, log=False)
        ctx.check(close(p, exp), "icm-reduced", "the mass of the chords each label stands for", inv=inv,
                  red={a: b for a, b in names.items() if a != b}, **det)
        ctx.check(math.isclose(float(np.sum(p)), 1.0, rel_tol=1e-9), "icm-reduced", "sums to one", **det)
        with np.errstate(divide="ignore"):
            ctx.check(close(np.exp(model.get_prior(mode == KeyMode.MINOR)), exp), "icm-reduced", "and its log", **det)


@scenario("C29", quick=15, thorough=600)
def evaluation(ctx, rng, i):
    pcs, firsts = [], []
    for _ in range(rng.randrange(1, 5)):
        spec, st, want = safe_piece(ctx, rng, n_notes=4, n_chords=3)
        st = dict(st, red="none") if "none" in st else st
        piece = build(ctx, spec, st)
        c = piece.get_chords()[0]
        if not T.REL_MIN <= c.root - c.key_tonic < T.REL_MAX:
            continue
        pcs.append(piece)
        firsts.append((c.root - c.key_tonic, c.chord_type, c.inversion, piece.get_keys()[0].relative_mode))
    if not pcs:
        return
    data = train(ctx, [p.get_chords()[0] for p in pcs if rng.random() < 0.7] or [pcs[0].get_chords()[0]], 1.0)
    inv, red, names = True, None, {t: t for t in TYPES}
    if rng.random() < 0.5:
        inv = rng.random() < 0.5
        if rng.random() < 0.6:
            red, names = rand_reduction(rng)
        firsts = [(r, CT[names[ct.name]], iv if inv else 0, mode) for r, ct, iv, mode in firsts]
        if any(iv >= T.inv_count(ct.name) for _, ct, iv, _ in firsts):
            return  # no such label
    model = ctx.call("icm-load", icm.SimpleInitialChordModel, data, use_inversions=inv, reduction=red)
    data = {"minor": model.get_prior(True, log=False), "major": model.get_prior(False, log=False)}
    lab = labels(TPC, inv, red)
    res = ctx.call("icm-evaluate", model.evaluate, pcs)
    hit, loss = 0, 0.0
    for r, ct, inv, mode in firsts:
        p = np.asarray(data["minor" if mode == KeyMode.MINOR else "major"])
        k = lab.index((r, ct, inv))
        if list(p).count(p.max()) > 1:
            return  # which of several equally likely chords is "the" estimate is not defined
        hit += int(np.argmax(p)) == k
        loss -= math.log(p[k])
    ctx.ev("evaluated", len(pcs))
    ctx.sig(tuple(map(str, firsts)))
    ctx.check(math.isclose(res["acc"], 100 * hit / len(pcs)) and math.isclose(res["loss"], loss / len(pcs)),
              "icm-evaluate", "accuracy and loss over the pieces", got=res, want=(100 * hit / len(pcs), loss / len(pcs)),
              firsts=firsts)
