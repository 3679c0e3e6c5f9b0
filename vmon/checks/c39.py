"""C39: verbose diagnostics neither change nor break an analysis."""
import logging
import os
import re
import shutil
import tempfile
from fractions import Fraction as F

import numpy as np

from vmon import joint as J
from vmon import theory as T
from vmon.checks.c09_c10_c11 import TYPES
from vmon.checks.c23_c24 import LABELS
from vmon.checks.c25_c26_c27 import fresh_ctm, setup
from vmon.checks.c30_c31 import CT, MIDI, STR, TPC, Pair
from vmon.core import rule, scenario

import harmonic_inference.utils.eval_utils as eu
import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.data_types import KeyMode
from harmonic_inference.data.key import Key
from harmonic_inference.data.piece import ScorePiece

rule("C39", "the joint model with stand-in components, and the scripts' annotate/evaluate with prepared analyses, run "
     "quietly and verbosely on the same pieces: without truth, with sparse, late, single, repeated-index and far-fetched "
     "true labels, and with the model's own analysis as truth, with chord- and pitch-based chord sequence models; oracle: same analysis, score, piece and files, no failure; logged structures and rates recomputed; "
     "non-trivial = one verbose run",
     ["torch, pytorch_lightning and h5py are replaced by numpy models when they are not installed"])


def with_truth(rng, score, pt):
    """The score's piece with random true labels (a truth as the corpus readers produce it)."""
    n, times = score.n, [t for t, _ in score.notes]
    tt = TPC if pt == TPC or rng.random() < 0.6 else MIDI
    wild = rng.random() < 0.3
    kind = rng.choice(["single", "some", "some", "many"])
    cuts = {times[0]} if rng.random() < 0.75 else set()
    for _ in range({"single": 0, "some": 3, "many": 9}[kind]):
        cuts.add(rng.choice(times) if rng.random() < 0.8
                 else times[0] + (times[-1] - times[0]) * F(rng.randrange(8), 8))
    cuts = sorted(cuts) or [rng.choice(times)]
    changes = [next((j for j, x in enumerate(times) if x >= t), n - 1) for t in cuts]
    lay = score.lay
    end = lay.end if rng.random() < 0.5 else score.end
    if end <= cuts[-1]:
        end = lay.end

    def pos(t):
        return lay.end_pos() if t == lay.end else lay.pos(t)

    keys, key_changes, chords = [], [], []
    for k, t in enumerate(cuts):
        if not keys or rng.random() < 0.4:
            if tt == MIDI:
                tonic = rng.randrange(12)
            elif wild or not keys:
                tonic = rng.randrange(2, 33) if wild else rng.randrange(9, 26)
            else:
                tonic = keys[-1].relative_tonic + rng.choice([-3, -1, 1, 3])
            mode = rng.choice(list(KeyMode))
            keys.append(Key(tonic, tonic, tonic, mode, mode, mode, tt))
            key_changes.append(k)
        key = keys[-1]
        while True:
            ct = CT[rng.choice(TYPES)]
            inv = rng.randrange(T.inv_count(ct.name))
            if tt == MIDI:
                root = rng.randrange(12)
            else:
                root = rng.randrange(T.N_TPC) if wild else key.relative_tonic + rng.randrange(-4, 6)
            bass = T.chord_tones(ct.name, root, tt == MIDI)[inv]
            if tt == MIDI or (0 <= bass < T.N_TPC and 0 <= root < T.N_TPC):
                break
        u = cuts[k + 1] if k + 1 < len(cuts) else end
        chords.append(Chord(root, bass, key.relative_tonic, key.relative_mode, ct, inv, pos(t), 3, pos(u), 1, u - t, tt))
    ranges = [(c, changes[k + 1] if k + 1 < len(changes) else n) for k, c in enumerate(changes)]
    return ScorePiece(score.piece.measures_df, score.note_objs, chords, keys, changes, ranges, key_changes, name="score")


def found_truth(cfg, score, path):
    """The score's piece whose truth is the given analysis, so that the correct labels are among those considered."""
    lay, pt = score.lay, cfg.pt
    times = [t for t, _ in score.notes]

    def pos(t):
        return lay.end_pos() if t == lay.end else lay.pos(t)

    keys, key_changes, chords, changes, ranges = [], [], [], [], []
    last = None
    for k, (c, key, a, b) in enumerate(path):
        tonic, mode = hu.get_key_from_one_hot_index(key, pt)
        if key != last:
            last = key
            keys.append(Key(tonic, tonic, tonic, mode, mode, mode, pt))
            key_changes.append(k)
        root, ct, inv = hu.get_chord_from_one_hot_index(c, pt, use_inversions=True)
        bass = T.chord_tones(ct.name, root, pt == MIDI)[inv]
        if pt == TPC and not 0 <= bass < T.N_TPC:
            return None
        t, u = times[a], times[b] if b < score.n else lay.end
        chords.append(Chord(root, bass, tonic, mode, ct, inv, pos(t), 3, pos(u), 1, u - t, pt))
        changes.append(a)
        ranges.append((a, b))
    return ScorePiece(score.piece.measures_df, score.note_objs, chords, keys, changes, ranges, key_changes, name="score")


def snap(piece):
    return [None if x is None else [o.to_dict() for o in x] for x in (piece.get_inputs(), piece.get_chords(), piece.get_keys())] + \
        [None if x is None else [int(v) for v in x] for x in (piece.get_chord_change_indices(), piece.get_key_change_indices())]


@scenario("C39", quick=24, thorough=1500)
def search(ctx, rng, i):
    cfg, score, lo, hi, probs, max_len = setup(rng, rng.random() < 0.4, pitch_csm=True if i % 6 == 5 else None)
    piece = score.piece if rng.random() < 0.3 else with_truth(rng, score, cfg.pt)
    probs = np.clip(probs, 1e-6, 1 - 1e-6)
    if i % 2:  # the truth is what the model finds
        narrow = cfg.model(probs.copy(), min_chord_change_prob=lo, max_no_chord_change_prob=hi, max_chord_length=max_len,
                           beam_size=2, hash_length=1)
        fresh_ctm(cfg, narrow, probs)
        with np.errstate(all="ignore"):
            state, _ = J.logged(logging.INFO, ctx.call, "plain-call", narrow.get_harmony, score.piece)
        mine = None if state is None else found_truth(cfg, score, J.analysis(cfg, state))
        if mine is not None:
            piece = mine
            ctx.ev("truth_is_found_pitch_csm" if cfg.pitch_csm else "truth_is_found")
    kw = dict(min_chord_change_prob=lo, max_no_chord_change_prob=hi, max_chord_length=max_len,
              beam_size=rng.choice([1, 2, 5, 20]), hash_length=rng.choice([None, 1, 3]))
    det = dict(pt=cfg.pt.name, n=score.n, starts=score.starts, kw=dict(cfg.kw, **kw),
               truth=None if piece.get_chords() is None else [str(c) for c in piece.get_chords()],
               changes=None if piece.get_chords() is None else [int(c) for c in piece.get_chord_change_indices()],
               keys=None if piece.get_keys() is None else [str(k) for k in piece.get_keys()])
    before, out, log = snap(piece), {}, []
    order = [logging.INFO, logging.DEBUG]
    rng.shuffle(order)
    shared = cfg.model(probs.copy(), **kw) if rng.random() < 0.5 else None
    for lvl in order:
        model = shared or cfg.model(probs.copy(), **kw)
        fresh_ctm(cfg, model, probs)
        with np.errstate(all="ignore"):
            state, recs = J.logged(lvl, ctx.call, "verbose-call" if lvl == logging.DEBUG else "plain-call",
                                   model.get_harmony, piece)
        out[lvl] = None if state is None else (J.analysis(cfg, state), float(state.log_prob))
        if lvl == logging.DEBUG:
            log = [r.getMessage() for r in recs]
    ctx.ev("verbose_run")
    ctx.ev("debug_lines", len(log))
    ctx.sig(out[logging.DEBUG], cfg.pt.name, len(log), sample=False)
    ctx.eq(out[logging.DEBUG], out[logging.INFO], "verbose-same", "verbose logging changes no result", **det)
    ctx.eq(snap(piece), before, "verbose-pure", "the piece is unchanged", **det)
    # rates in the log are rates, and those of the chord changes count every place which may change
    rates = []
    for m in log:
        g = re.search(r": (\d+) / (\d+) = (\S+)", m)
        if g:
            a, b, c = int(g.group(1)), int(g.group(2)), float(g.group(3))
            rates.append((m, a, b))
            ctx.check(0 <= a <= b and (b == 0 or abs(c - a / b) < 1e-9), "verbose-rate", "a logged rate", line=m, **det)
    ctx.ev("rate", len(rates))
    if piece.get_chords() is None:
        return
    places = [s for s in score.starts if s]
    truth = set(int(c) for c in piece.get_chord_change_indices())
    for word, pool, good in (("    Change:", [p for p in places if p in truth], lambda p: probs[p] >= 0.5),
                             ("    No change:", [p for p in places if p not in truth], lambda p: probs[p] <= 0.5)):
        got = [(a, b) for m, a, b in rates if m.startswith(word)]
        if pool:
            ctx.eq(got, [(sum(bool(good(p)) for p in pool), len(pool))], "verbose-changes", "chord change rate", line=word, **det)


@scenario("C39", quick=20, thorough=1500)
def structure(ctx, rng, i):
    """The structure logged for a piece whose labels are not known."""
    p = Pair(rng, truth=False)
    _, recs = J.logged(logging.DEBUG, ctx.call, "log-unknown", eu.log_state, p.state, p.piece, p.ept, p.ept)
    want, got = [], []
    for j in range(p.n):
        cur = (p.est_key[j], p.est_chord[j])
        if not want or want[-1][0] != cur:
            want.append([cur, F(0)])
        want[-1][1] += p.dur[j]
    idx = {k: LABELS[p.ept][k].index for k in ("key", "chord")}
    want = [(d, (STR[p.ept]["key"][idx["key"](k)], STR[p.ept]["chord"][idx["chord"](c)])) for (k, c), d in want]
    for r in recs:
        m = r.getMessage()
        if "(duration" in m:
            got.append([F(m.split("(duration ")[1].split(")")[0]), None])
        elif "Estimated structure: " in m:
            got[-1][1] = tuple(m.split("structure: ")[1].split("\t"))
        elif "Correct structure: " in m:
            ctx.check(False, "log-unknown-truth", "nothing is called correct when the truth is unknown", line=m, **p.det())
    ctx.ev("logged_segment", len(want))
    ctx.sig(tuple(str(w) for w in want), sample=False)
    ctx.eq([tuple(g) for g in got], want, "log-unknown", "one entry per segment of the analysis", **p.det())


def tree(path):
    out = {}
    for base, _, files in os.walk(path):
        for f in files:
            with open(os.path.join(base, f), "rb") as h:
                out[os.path.relpath(os.path.join(base, f), path)] = h.read()
    return out


@scenario("C39", quick=8, thorough=300)
def scripts(ctx, rng, i):
    """annotate and evaluate write the same files verbosely."""
    name = rng.choice(["annotate", "test"])
    pairs = [Pair(rng, pt=TPC, est_pt=TPC, truth=name == "test" or rng.random() < 0.4, name="%d: c/p%d.mscx" % (k, k))
             for k in range(rng.choice([1, 2, 3]))]
    states = {id(p.piece): (p.state if rng.random() < 0.85 else None) for p in pairs}
    out, infos = {}, {}
    for lvl in (logging.INFO, logging.DEBUG):
        tmp = tempfile.mkdtemp(prefix="vmon_c39_")
        try:
            mod = J.script(name)
            _, recs = J.logged(lvl, ctx.call, "verbose-script", getattr(mod, {"annotate": "annotate", "test": "evaluate"}[name]),
                               J.StandIn(states, TPC), [p.piece for p in pairs], output_tsv_dir=tmp)
            out[lvl] = tree(tmp)
            infos[lvl] = [r.getMessage().replace(tmp, "") for r in recs if r.levelno >= logging.INFO]
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    ctx.ev("verbose_script")
    ctx.ev("file", len(out[logging.DEBUG]))
    ctx.sig(name, sorted(out[logging.DEBUG].items()), sample=False)
    ctx.eq(sorted(out[logging.DEBUG]), sorted(out[logging.INFO]), "verbose-files", "the same files", script=name)
    ctx.eq(out[logging.DEBUG], out[logging.INFO], "verbose-files", "the same contents", script=name)
    ctx.eq(infos[logging.DEBUG], infos[logging.INFO], "verbose-messages", "verbose logging only adds messages", script=name)
