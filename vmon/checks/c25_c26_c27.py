"""C25-C27: chord ranges, joint inference and forced labels, with stand-in component models."""
import random
import math
from argparse import ArgumentError
from fractions import Fraction as F

import numpy as np

from vmon import joint as J
from vmon.checks.c09_c10_c11 import quiet
from vmon.core import rule, scenario

ASSUME = ["torch, pytorch_lightning and h5py are replaced by numpy models when they are not installed",
          "component models answer pure pseudo-random functions of their inputs and hidden states"]


class Stop(Exception):
    pass


def close(a, b):
    return a == b or math.isclose(a, b, rel_tol=1e-7, abs_tol=1e-7)


def forces(rng, score, cfg, rate=0.5, wild=0.0):
    """Random forcing arguments for get_harmony, mostly consistent."""
    f = dict(forced_chord_changes=set(), forced_chord_non_changes=set(), forced_key_changes=set(),
             forced_key_non_changes=set(), forced_chords={}, forced_keys={})
    starts = score.starts[1:]
    taken = set()

    def some(pool, k=1):
        return set(rng.sample(pool, min(k, len(pool)))) if pool else set()

    if rng.random() < rate:
        f["forced_chord_changes"] = some(starts, rng.choice([1, 1, 2]))
    if rng.random() < rate:
        f["forced_chord_non_changes"] = some(list(range(1, score.n)), rng.choice([1, 1, 2]))
    if rng.random() < rate * 0.6:
        f["forced_key_changes"] = some(starts, 1)
    if rng.random() < rate * 0.6:
        f["forced_key_non_changes"] = some(list(range(1, score.n)), rng.choice([1, 2]))
    if rng.random() < 0.15:
        f["forced_chord_changes"] = f["forced_chord_changes"] | {0}
    if rng.random() < 0.1:
        name = rng.choice(["forced_chord_non_changes", "forced_key_non_changes"])
        f[name] = f[name] | {0}
    for name, pool in (("forced_chords", cfg.palette), ("forced_keys", None)):
        if rng.random() < rate:
            for _ in range(rng.choice([1, 1, 2, 3])):
                a = rng.randrange(score.n)
                b = rng.randrange(a + 1, score.n + 1) if rng.random() < 0.5 else a + 1
                if pool is None:
                    lab = near_key(rng, cfg)
                else:
                    lab = rng.choice(pool)
                f[name][a, b] = lab
    if rng.random() < 1 - wild:  # make it consistent
        f["forced_chord_non_changes"] -= f["forced_chord_changes"] | f["forced_key_changes"]
        f["forced_key_non_changes"] -= f["forced_key_changes"]
        for name in ("forced_chords", "forced_keys"):
            keep, ids = {}, {}
            for (a, b), lab in f[name].items():
                if all(ids.get(i, lab) == lab for i in range(a, b)):
                    keep[a, b] = lab
                    ids.update({i: lab for i in range(a, b)})
            f[name] = keep
    else:
        r = rng.random()
        if r < 0.15:
            f[rng.choice(["forced_chord_changes", "forced_key_changes", "forced_chord_non_changes",
                          "forced_key_non_changes"])].add(score.n + rng.randrange(3))
        elif r < 0.3:
            f["forced_keys"][0, 1] = rng.choice([-1, len(cfg.labels["key"]), 999])
        elif r < 0.45:
            f["forced_chords"][0, 1] = rng.choice([-1, cfg.n_chords, cfg.n_chords + 7])
        elif r < 0.6 and any(b - a > 1 for a, b in zip(score.starts, score.starts[1:] + [score.n])):
            g = rng.choice([a + 1 for a, b in zip(score.starts, score.starts[1:] + [score.n]) if b - a > 1])
            f[rng.choice(["forced_chord_changes", "forced_key_changes"])].add(g)
    return {k: v for k, v in f.items() if v or rng.random() < 0.3}


def near_key(rng, cfg):
    if cfg.pt == J.MIDI:
        return rng.randrange(len(cfg.labels["key"]))
    return rng.choice([k for k, (t, _) in enumerate(cfg.labels["key"]) if abs(t - cfg.near) <= 4])


def meaning(score, cfg, f):
    """(reference forcing dict, reason for refusal or None)."""
    g = {k: set(f.get("forced_" + k, ())) for k in ("chord_changes", "chord_non_changes", "key_changes", "key_non_changes")}
    out = dict(g, chord_ids={}, key_ids={})
    why = None
    for typ, n_labels in (("chord", cfg.n_chords), ("key", len(cfg.labels["key"]))):
        ch, non = g[typ + "_changes"] - {0}, g[typ + "_non_changes"]
        out[typ + "_changes"] = ch
        if any(i >= score.n for i in ch | non):
            return None, typ + " position after the end"
        if ch & non:
            why = why or typ + " change and non-change"
        if any(i not in score.starts for i in ch):
            why = why or typ + " change inside a group of simultaneous notes"
        ids = out[typ + "_ids"]
        for (a, b), lab in f.get("forced_%ss" % typ, {}).items():
            if not 0 <= lab < n_labels:
                return None, typ + " label outside the label space"
            for i in range(a, b):
                if ids.setdefault(i, lab) != lab:
                    return None, typ + " forced to two labels"
        for i in ch:
            if i in ids and ids.get(i - 1) == ids[i]:
                why = why or typ + " change between equal labels"
        out[typ + "_non_changes"] = non - {0}
        for i in non - {0}:
            if i in ids and i - 1 in ids and ids[i] != ids[i - 1]:
                why = why or typ + " non-change between different labels"
    if out["key_changes"] & out["chord_non_changes"]:
        why = why or "key change on a chord non-change"
    c, k = out["chord_ids"], out["key_ids"]
    if any(i in c and c.get(i - 1) == c[i] for i in out["key_changes"]):
        why = why or "key change within a forced chord"
    if any(i in k and i - 1 in k and k[i] != k[i - 1] for i in out["chord_non_changes"]):
        why = why or "chord non-change on a forced key change"
    return out, why


# ------------------------------------------------------------------------------------------- C25
rule("C25", "random pieces (2-14 groups of 1-3 simultaneous notes, irregular layouts) x change probabilities "
     "(on, around and at the thresholds) x thresholds x length limits x forced positions and labels; the ranges "
     "the model proposes are recorded while it analyses the piece; oracle: the set of admissible ranges from exact "
     "times, with the log-probability of the change pattern; non-trivial = one proposal", ASSUME)


@scenario("C25", quick=150, thorough=6000)
def ranges(ctx, rng, i):
    if getattr(ctx, "_cfg", (None,))[0] != i // 240:  # a configuration is costly: one per 240 cases
        ctx._cfg = (i // 240, J.Config(random.Random(f"C25|{ctx.seed}|{i // 240}"), pt=J.MIDI))
    cfg = ctx._cfg[1]
    cfg.rng = rng
    score = J.Score(rng, cfg.pt, rng.choice([1, 2, 3, 5, 8, 14]))
    lo, hi = J.thresholds(rng)
    probs = J.change_probs(rng, score, lo, hi)
    max_len = rng.choice([F(1, 4), F(1, 2), F(3, 4), F(1), F(2), F(8)])
    f = forces(rng, score, cfg, rate=rng.choice([0.0, 0.3, 0.6]))
    ref, why = meaning(score, cfg, f)
    if why:
        return
    model = cfg.model(probs.copy(), min_chord_change_prob=lo, max_no_chord_change_prob=hi, max_chord_length=max_len)
    seen = []
    orig = model.get_chord_ranges

    def spy(change_probs):
        with np.errstate(divide="ignore", invalid="ignore"):
            seen.append(orig(change_probs))
        raise Stop

    model.get_chord_ranges = spy
    try:
        ctx.call("ranges-call", quiet, lambda: catch(model.get_harmony, score.piece, **{k: copy(v) for k, v in f.items()}))
    except Stop:
        pass
    if not seen:
        ctx.fail("ranges-call", "no ranges were proposed", forces=f)
        return
    got_ranges, logs, rejoin = seen[0]
    strict = J.ref_ranges(score, probs, lo, hi, max_len, ref, final_tail=True)
    loose = J.ref_ranges(score, probs, lo, hi, max_len, ref, final_tail=False)
    got = [(int(a), int(b)) for a, b in got_ranges]
    ctx.ev("proposal")
    ctx.ev("range", len(got))
    det = dict(probs=[round(float(p), 4) for p in probs], lo=lo, hi=hi, max_len=str(max_len), starts=score.starts, n=score.n,
               times=[str(t) for t in score.times], forces=f)
    ctx.eq(len(set(got)), len(got), "ranges-once", "each range is proposed once", got_all=got, **det)
    ctx.eq((len(logs), len(rejoin)), (len(got), len(got)), "ranges-lengths", "one probability per range", **det)
    missing = sorted(set(strict) - set(got))
    ctx.check(not missing, "ranges-missing", "every admissible range is proposed", missing=missing, got_all=got, **det)
    extra = sorted(set(got) - set(strict))
    tail = [r for r in extra if r in loose]
    other = [r for r in extra if r not in loose]
    ctx.check(not other, "ranges-extra", "only admissible ranges are proposed", extra=other, **det)
    if tail:
        ctx.fail("final-range-too-long", "the last range exceeds the maximum chord length", ranges=tail, **det)
    must = ref["chord_changes"] | ref["key_changes"]
    for (a, b), lp, rj in zip(got, logs, rejoin):
        if (a, b) in loose:
            ctx.check(close(float(lp), loose[a, b]), "ranges-probability", "log-probability of the change pattern",
                      at=(a, b), got=float(lp), want=loose[a, b], **det)
        if a:
            p = 1.0 if a in must else float(probs[a])
            if 0 < p < 1:
                ctx.check(close(float(rj), math.log(1 - p) - math.log(p)), "ranges-rejoin",
                          "the difference that turns the change into no change", at=(a, b), got=float(rj), p=p, **det)
    ctx.sig(tuple(got), lo, hi, str(max_len))


def catch(func, *args, **kw):
    try:
        return func(*args, **kw)
    except Stop:
        return None


def copy(v):
    return set(v) if isinstance(v, set) else dict(v)


# ------------------------------------------------------------------------------------------- C26
rule("C26", "random pieces, component models (pure functions of inputs and hidden states), label spaces (both pitch "
     "types), thresholds, branching and beam settings; optimal: beams that hold every candidate, compared with an "
     "exhaustive reference search; beams: narrow and hashed beams, path and score checked against a reference "
     "evaluation, repeated and interleaved with failing calls; combined: components whose pitch or input types disagree, "
     "missing ones, thresholds that leave a gap; non-trivial = one analysis", ASSUME)


def run(ctx, model, score, key="harmony-call", **f):
    with np.errstate(divide="ignore", invalid="ignore"):
        return ctx.call(key, quiet, model.get_harmony, score.piece, **{k: copy(v) for k, v in f.items()})


def structure(ctx, cfg, score, state, lo, probs, det, ref):
    chords, cc = state.get_chords()
    keys, kc = state.get_keys()
    ctx.require(list(cc[:1]) == [0] and cc[-1] == score.n and all(a < b for a, b in zip(cc, cc[1:])) and
                len(cc) == len(chords) + 1, "harmony-cover", "chord segments cover the piece without gap or overlap",
                changes=cc, **det)
    ctx.require(list(kc[:1]) == [0] and kc[-1] == score.n and all(a < b for a, b in zip(kc, kc[1:])) and
                len(kc) == len(keys) + 1 and set(kc) <= set(cc), "harmony-keys", "keys cover the piece and change only with chords",
                chord_changes=cc, key_changes=kc, **det)
    ctx.check(all(0 <= c < cfg.n_chords for c in chords) and all(0 <= k < len(cfg.labels["key"]) for k in keys),
              "harmony-labels", "labels lie in the label space", chords=chords, keys=keys, **det)
    ctx.check(all(a != b for a, b in zip(chords, chords[1:])) and all(a != b for a, b in zip(keys, keys[1:])),
              "harmony-changes", "neighbouring segments differ", chords=chords, keys=keys, **det)
    must = ref.get("chord_changes", set()) | ref.get("key_changes", set())
    ctx.check(all(e in score.starts and (e in must or probs[e] >= lo) for e in cc[1:-1]), "harmony-onsets",
              "changes lie where notes begin and a change is allowed", changes=cc, **det)


def score_of(ctx, R, path, state, det):
    mod = R.model_score(path)
    if not ctx.check(mod is not None, "harmony-candidate", "every key of the analysis is admissible on its path", path=path, **det):
        return
    base = mod + R.ctm_score(path)
    sums = {0.0}
    prev = None
    for c, k, s, e in path:
        opts = R.splits(c, s, e, prev)
        if not ctx.check(opts, "harmony-candidate-chord", "every chord of the analysis was a candidate of its ranges",
                         segment=(c, s, e), path=path, **det):
            return
        sums = {round(a + b, 9) for a in sums for b in opts}
        prev = c
        if len(sums) > 4000:
            ctx.ev("score_unchecked")
            return
    got = float(state.log_prob)
    ok = any(close(got, base + x) for x in sums)
    ctx.ev("score")
    ctx.check(ok, "harmony-score", "the score is the sum of the component scores along the path", got=got,
              want=sorted(base + x for x in sums)[-3:], path=path, **det)


def setup(rng, small, **kw):
    cfg = J.Config(rng, **kw)
    score = J.Score(rng, cfg.pt, rng.choice([1, 2, 2, 3, 3, 4]) if small else rng.choice([3, 5, 8, 11]), max_group=2)
    lo, hi = J.thresholds(rng)
    probs = np.clip(J.change_probs(rng, score, lo, hi), 1e-6, 1)
    max_len = rng.choice([F(1, 2), F(1), F(8), F(8)])
    return cfg, score, lo, hi, probs, max_len


@scenario("C26", quick=26, thorough=500)
def optimal(ctx, rng, i):
    cfg, score, lo, hi, probs, max_len = setup(rng, True)
    f = {"forced_keys": {(0, 1): near_key(rng, cfg)}} if rng.random() < 0.8 else {}
    exhaustive(ctx, rng, cfg, score, lo, hi, probs, max_len, f)


@scenario("C26", quick=14, thorough=300)
def one_chord(ctx, rng, i):
    """With a single chord nothing is ever dropped from the beam unscored: however narrow, it holds the best one."""
    cfg = J.Config(rng)
    score = J.Score(rng, cfg.pt, rng.choice([1, 2, 2, 3]), max_group=2)
    lo, hi = rng.choice([(0.4, 0.6), (0.5, 0.9)])
    probs = np.array([rng.uniform(0.01, 0.35) for _ in range(score.n)])
    exhaustive(ctx, rng, cfg, score, lo, hi, probs, F(8), {}, limit=6000, beam_size=rng.choice([1, 2, 3, 8]),
               hash_length=rng.choice([None, None, 1, 2, 5]))
    ctx.ev("narrow_single")


@scenario("C26", quick=14, thorough=300)
def branching(ctx, rng, i):
    """Several near-equal candidates that stay the same from range to range: all of them are tried after each other."""
    cfg = J.Config(rng)
    cfg.palette = cfg._palette(rng.choice([4, 5]))
    nprng = np.random.RandomState(rng.randrange(1 << 30))
    cfg.ccm_rows = [cfg._ccm_row(rng, nprng) for _ in range(rng.choice([1, 1, 2]))]
    for row in cfg.ccm_rows:
        row[cfg.palette] = [rng.uniform(0.8, 1.2) for _ in cfg.palette]
        row /= row.sum()
    cfg.kw.update(max_chord_branching_factor=rng.choice([3, 3, 4]), target_chord_branch_prob=rng.choice([0.6, 0.95, 1.0]),
                  max_key_branching_factor=rng.choice([1, 1, 2]), target_key_branch_prob=rng.choice([0.01, 0.3, 0.9]))
    score = J.Score(rng, cfg.pt, rng.choice([2, 2, 3]), max_group=2)
    lo, hi = 0.2, 0.4
    probs = np.array([rng.uniform(0.45, 0.99) for _ in range(score.n)])
    f = {"forced_keys": {(0, 1): near_key(rng, cfg)}}
    if exhaustive(ctx, rng, cfg, score, lo, hi, probs, F(8), f, limit=6000):
        ctx.ev("branching")


def exhaustive(ctx, rng, cfg, score, lo, hi, probs, max_len, f, limit=1500, beam_size=50000, hash_length=None):
    ref, why = meaning(score, cfg, f)
    R = J.Reference(cfg, score, probs, lo, hi, max_len, cfg.kw, ref)
    best = R.search(limit)
    if best == "many":
        ctx.ev("too_many_candidates")
        return None
    model = cfg.model(probs.copy(), min_chord_change_prob=lo, max_no_chord_change_prob=hi, max_chord_length=max_len,
                      beam_size=beam_size, hash_length=hash_length)
    state = run(ctx, model, score, **f)
    det = dict(pt=cfg.pt.name, probs=[round(float(p), 4) for p in probs], lo=lo, hi=hi, max_len=str(max_len),
               starts=score.starts, n=score.n, kw=cfg.kw, forces=f)
    ctx.ev("analysis" if state is not None else "no_analysis")
    if best is None or best[0] == -math.inf:
        if best is None:
            ctx.check(state is None, "harmony-none", "no analysis is returned when none is possible",
                      got=state and J.analysis(cfg, state), **det)
        return None
    if not ctx.check(state is not None, "harmony-missing", "an analysis is returned when one is possible",
                     best=best, **det):
        return None
    structure(ctx, cfg, score, state, lo, probs, det, ref)
    path = J.analysis(cfg, state)
    score_of(ctx, R, path, state, det)
    ctx.check(close(float(state.log_prob), best[0]), "harmony-best", "a beam that holds every candidate finds a best one",
              got=(float(state.log_prob), path), want=best, **det)
    ctx.sig(cfg.pt.name, path)
    return path


@scenario("C26", quick=26, thorough=500)
def beams(ctx, rng, i):
    cfg, score, lo, hi, probs, max_len = setup(rng, False)
    size, hl = rng.choice([1, 2, 3, 5, 8]), rng.choice([None, 1, 2, 3, 5])
    kw = dict(min_chord_change_prob=lo, max_no_chord_change_prob=hi, max_chord_length=max_len, beam_size=size, hash_length=hl)
    model = cfg.model(probs.copy(), **kw)
    before = [n.to_dict() for n in score.piece.get_inputs()]
    state = run(ctx, model, score)
    det = dict(pt=cfg.pt.name, probs=[round(float(p), 4) for p in probs], lo=lo, hi=hi, max_len=str(max_len),
               starts=score.starts, n=score.n, kw=cfg.kw, beam=size, hash_length=hl)
    ctx.eq([n.to_dict() for n in score.piece.get_inputs()], before, "harmony-pure", "the piece is unchanged", **det)
    path = None
    if state is not None:
        structure(ctx, cfg, score, state, lo, probs, det, {})
        path = J.analysis(cfg, state)
        R = J.Reference(cfg, score, probs, lo, hi, max_len, cfg.kw, {})
        score_of(ctx, R, path, state, det)
        ctx.ev("analysis")
        ctx.sig(cfg.pt.name, path, size, hl)
    else:
        ctx.ev("no_analysis")
    # reuse: after a refused call, after another piece, and by a fresh model
    hist = rng.sample(["refused", "other", "same", "fresh"], 2)
    for h in hist:
        m = model
        if h == "refused":
            try:
                quiet(model.get_harmony, score.piece, forced_chord_changes={score.n + 3})
            except Exception:
                ctx.ev("refused")
        elif h == "other":
            other = J.Score(rng, cfg.pt, 2)
            p2 = J.change_probs(rng, other, lo, hi)
            keep = model.chord_transition_model.get_output
            model.chord_transition_model.get_output = lambda batch, p2=p2: (J.T_(np.array([p2])), J.T_(np.array([len(p2)])))
            run(ctx, model, other)
            model.chord_transition_model.get_output = keep
        elif h == "fresh":
            m = cfg.model(probs.copy(), **kw)
        fresh_ctm(cfg, m, probs)
        again = run(ctx, m, score)
        ctx.ev("repeat")
        ctx.eq((None if again is None else (J.analysis(cfg, again), float(again.log_prob))),
               (None if state is None else (path, float(state.log_prob))), "harmony-repeat",
               "repeating the inference gives the same result", history=h, **det)


# (component, attribute) that must hold one pitch type, one tuple per stream of data between the components
STREAMS = [[("ccm", "INPUT_PITCH"), ("ctm", "PITCH_TYPE")],
           [("ccm", "OUTPUT_PITCH"), ("csm", "INPUT_CHORD_PITCH_TYPE"), ("csm", "OUTPUT_PITCH_TYPE"),
            ("ksm", "INPUT_CHORD_PITCH_TYPE"), ("ktm", "INPUT_CHORD_PITCH_TYPE"), ("icm", "PITCH_TYPE")],
           [("csm", "INPUT_KEY_PITCH_TYPE"), ("ktm", "INPUT_KEY_PITCH_TYPE"), ("ksm", "INPUT_KEY_PITCH_TYPE"),
            ("ksm", "OUTPUT_PITCH_TYPE")]]
PARTS = dict(ccm="chord_classifier", ctm="chord_transition_model", csm="chord_sequence_model", ktm="key_transition_model",
             ksm="key_sequence_model", icm="initial_chord_model")


@scenario("C26", quick=20, thorough=600)
def combined(ctx, rng, i):
    """Components are combined exactly if every one understands what it is given."""
    if getattr(ctx, "_cfg26", None) is None:
        ctx._cfg26 = J.Config(random.Random(f"C26|{ctx.seed}"), pt=J.TPC)
    model = ctx._cfg26.model(np.array([0.5]))
    parts = {k: getattr(model, v) for k, v in PARTS.items()}
    kinds = {}
    for stream in STREAMS:
        pt = rng.choice([J.MIDI, J.TPC])
        for k, a in stream:
            kinds[k, a] = pt
    spots = sorted(kinds)
    ok, kw, what = True, {}, None
    r = rng.random()
    if r < 0.6:
        what = spots[(i + ctx.seed) % len(spots)]
        kinds[what] = J.MIDI if kinds[what] == J.TPC else J.TPC
        ok = False
    elif r < 0.7:
        what = rng.choice(["ccm", "ctm"])
        parts[what].INPUT_TYPE = rng.choice([t for t in type(parts[what].INPUT_TYPE) if t != parts[what].INPUT_TYPE])
        ok = False
    elif r < 0.85:
        lo, hi = rng.choice([(0.3, 0.2), (0.5, 0.4999), (0.4, 0.4), (1.0, 0.0), (0.2, 0.9)])
        name = rng.choice(["chord", "key"])
        kw = {"min_%s_change_prob" % name: lo, "max_no_%s_change_prob" % name: hi}
        ok, what = lo <= hi, (name, lo, hi)
    for (k, a), pt in kinds.items():
        setattr(parts[k], a, pt)
    if r > 0.95:
        what, ok = rng.choice(sorted(parts)), False
        if rng.random() < 0.5:
            del parts[what]
        else:
            parts[what] = parts[rng.choice([k for k in PARTS if k != what])]
    det = dict(kinds={"%s.%s" % k: v.name for k, v in kinds.items()}, what=what)
    make = lambda: quiet(J.jm.HarmonicInferenceModel, parts, **kw)  # noqa: E731
    ctx.sig(ok, what, tuple(v.name for v in kinds.values()), sample=False)
    if ok:
        ctx.ev("combined")
        ctx.call("combine", make)
        ctx.oracle_evaluations += 1
    else:
        ctx.ev("incompatible")
        ctx.raises("combine-refuse:" + str(what)[:40], (AssertionError, ValueError, TypeError, KeyError), make)


def fresh_ctm(cfg, model, probs):
    """The stand-in hands out one array per call, as a real model would."""
    model.chord_transition_model.get_output = lambda batch: (
        J.T_(np.array([probs])), J.T_(np.asarray(batch["input_lengths"])))


# ------------------------------------------------------------------------------------------- C27
rule("C27", "random forced chord/key changes, non-changes, chord ids and key ids (alone and combined, consistent, "
     "contradictory, out of range, inside groups of simultaneous notes) on random pieces and models; oracle: "
     "refusal exactly for the contradictory requests, before any model runs; otherwise every returned analysis "
     "obeys every force, and with an exhaustive reference none is lost; non-trivial = one request", ASSUME)
REFUSE = (ArgumentError, ValueError, AssertionError)


def obeys(ctx, score, path, f, ref, det):
    chord_at, key_at = {}, {}
    for c, k, s, e in path:
        for j in range(s, e):
            chord_at[j], key_at[j] = c, k
    starts = {s for _, _, s, _ in path}
    for j in ref["chord_changes"]:
        ctx.check(j in starts, "force-chord-change", "a forced chord change is in the analysis", at=j, **det)
    for j in ref["key_changes"]:
        ctx.check(key_at[j] != key_at[j - 1], "force-key-change", "a forced key change is in the analysis", at=j, **det)
    for j in ref["chord_non_changes"]:
        ctx.check(j not in starts, "force-chord-non-change", "no chord change where it is forbidden", at=j, **det)
    for j in ref["key_non_changes"]:
        ctx.check(key_at[j] == key_at[j - 1], "force-key-non-change", "no key change where it is forbidden", at=j, **det)
    for (a, b), lab in f.get("forced_chords", {}).items():
        ctx.check(all(chord_at[j] == lab for j in range(a, b)) and not any(a < s < b for s in starts), "force-chord",
                  "the forced chord holds over its range", at=(a, b), label=lab, **det)
    for (a, b), lab in f.get("forced_keys", {}).items():
        ctx.check(all(key_at[j] == lab for j in range(a, b)), "force-key", "the forced key holds over its range",
                  at=(a, b), label=lab, **det)


@scenario("C27", quick=50, thorough=900)
def forced(ctx, rng, i):
    cfg, score, lo, hi, probs, max_len = setup(rng, rng.random() < 0.7)
    f = forces(rng, score, cfg, rate=rng.choice([0.3, 0.6]))
    ref, why = meaning(score, cfg, f)
    det = dict(pt=cfg.pt.name, starts=score.starts, n=score.n, forces=f, probs=[round(float(p), 4) for p in probs],
               lo=lo, hi=hi, kw=cfg.kw)
    if why:
        return refused(ctx, rng, cfg, score, probs, f, why, det)
    model = cfg.model(probs.copy(), min_chord_change_prob=lo, max_no_chord_change_prob=hi, max_chord_length=max_len,
                      beam_size=rng.choice([2, 5, 20, 50]), hash_length=rng.choice([None, 2, 5]))
    given = {k: copy(v) for k, v in f.items()}
    with np.errstate(divide="ignore", invalid="ignore"):
        state = ctx.call("force-call", quiet, model.get_harmony, score.piece, **given)
    ctx.eq(given, f, "force-args", "the caller's forces are not changed", **det)
    ctx.ev("accepted")
    for k, v in f.items():
        ctx.ev(k, len(v))
    ctx.sig(cfg.pt.name, sorted((k, str(sorted(v))) for k, v in f.items()), tuple(score.starts))
    if state is None:
        ctx.ev("unsatisfied")
    else:
        path = J.analysis(cfg, state)
        structure(ctx, cfg, score, state, lo, probs, det, ref)
        ctx.check(not math.isnan(float(state.log_prob)), "force-score", "the score is a number", path=path, **det)
        obeys(ctx, score, path, f, ref, dict(det, path=path))
    if score.n <= 6 and rng.random() < 0.5:
        if not any(a == 0 for a, _ in f.get("forced_keys", {})):
            return
        exhaustive(ctx, rng, cfg, score, lo, hi, probs, max_len, f)


@scenario("C27", quick=240, thorough=6000)
def contradictory(ctx, rng, i):
    cfg = J.Config(rng, pt=rng.choice([J.MIDI, J.TPC])) if not hasattr(ctx, "_cfg27") or i % 60 == 0 else ctx._cfg27
    ctx._cfg27 = cfg
    score = J.Score(rng, cfg.pt, rng.choice([2, 3, 5, 8]), max_group=3)
    probs = J.change_probs(rng, score, 0.25, 0.45)
    f = forces(rng, score, cfg, rate=rng.choice([0.3, 0.6, 0.9]), wild=0.9)
    ref, why = meaning(score, cfg, f)
    det = dict(pt=cfg.pt.name, starts=score.starts, n=score.n, forces=f)
    if why:
        refused(ctx, rng, cfg, score, probs, f, why, det)
        return
    # consistent: it must get past the checks
    model = cfg.model(probs.copy())
    ran = []

    def stop(batch):
        ran.append(1)
        raise Stop

    model.chord_transition_model.get_output = stop
    ctx.call("force-refused", quiet, lambda: catch(model.get_harmony, score.piece, **{k: copy(v) for k, v in f.items()}))
    ctx.check(ran, "force-refused", "a consistent request is searched", **det)
    ctx.ev("accepted")
    ctx.sig("ok", cfg.pt.name, sorted((k, str(sorted(v))) for k, v in f.items()))


def refused(ctx, rng, cfg, score, probs, f, why, det):
    model = cfg.model(probs.copy())
    ran = []
    for m in (model.chord_transition_model, model.chord_classifier):
        inner = m.get_output
        m.get_output = lambda batch, inner=inner: (ran.append(1), inner(batch))[1]
    ctx.ev("refused:" + why)
    ctx.raises("force-accepted", REFUSE, quiet, lambda: model.get_harmony(score.piece, **{k: copy(v) for k, v in f.items()}))
    ctx.check(not ran, "force-late", "refused before the search starts", why=why, **det)
    ctx.sig("refused", why, cfg.pt.name, sorted((k, str(sorted(v))) for k, v in f.items()))
    if rng.random() < 0.05:  # still usable
        fresh_ctm(cfg, model, probs)
        small = J.Score(rng, cfg.pt, 1)
        fresh_ctm(cfg, model, J.change_probs(rng, small, 0.25, 0.45))
        run(ctx, model, small)
        ctx.ev("usable_after_refusal")
