"""C23, C24: beams and search states."""
import math
from fractions import Fraction as F

import numpy as np

from vmon import theory as T
from vmon.checks.c07_c08 import CT, MIDI, MODE, TPC
from vmon.checks.c09_c10_c11 import TYPES, rand_reduction
from vmon.core import rule, scenario

import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.data_types import KeyMode
from harmonic_inference.data.key import Key
from harmonic_inference.utils.beam_search_utils import Beam, HashedBeam, State

# ------------------------------------------------------------------------------------------- C23
rule("C23", "random operation histories (add, forced add, fits, top, empty, iterate) on beams of size "
     "1-12 with score ties and 1-20 equivalence classes; oracle: after every operation the content must be an "
     "allowed successor of the content before it, and the whole content the best of everything "
     "offered; non-trivial = one history")


def content(ctx, beam, det):
    states = list(beam)
    ctx.require(len({id(s) for s in states}) == len(states), "beam-duplicate", "no state twice", **det)
    ctx.eq(len(beam), len(states), "beam-len", "length counts the states held", **det)
    return states


@scenario("C23", quick=4000, thorough=60000)
def histories(ctx, rng, i):
    hashed = rng.random() < 0.6
    size = rng.choice([1, 1, 2, 3, 4, 6, 12])
    beam = (HashedBeam if hashed else Beam)(size)
    hash_len = rng.choice([1, 2, 3]) if hashed else rng.choice([None, 2])
    classes = rng.randrange(1, 21)
    ties = rng.random() < 0.4
    before, offered, log = [], [], []
    forced = 0
    for step in range(rng.randrange(5, 60)):
        r = rng.random()
        det = dict(size=size, hashed=hashed, log=log[-12:])
        if r < 0.03:
            beam.empty()
            log.append("empty")
            before, offered, forced = [], [], 0
            ctx.ev("empty")
            ctx.eq((len(beam), ctx.call("beam-top", beam.get_top_state)), (0, None), "beam-empty",
                   "an emptied beam is empty", **det)
            ctx.eq(ctx.call("beam-iter", list, beam), [], "beam-empty", "an emptied beam is empty", **det)
            continue
        cls = rng.randrange(classes)
        score = -float(rng.randrange(8)) if ties else -rng.random() * 20
        if rng.random() < 0.02:
            score = -math.inf
        s = State(chord=cls, key=0, log_prob=score, hash_length=hash_len)
        force = rng.random() < 0.04
        full = len(before) >= size
        same = [x for x in before if hashed and x.get_hash() == s.get_hash()]
        worst = min((x.log_prob for x in before), default=None)
        # what must happen (None = either, because of a tie)
        if same:
            need = None if same[0].log_prob == score else same[0].log_prob < score
        elif force or not full:
            need = True
        else:
            need = None if worst == score else worst < score
        if rng.random() < 0.4:
            fits = ctx.call("beam-fits", beam.fits_in_beam, s)
            glob = ctx.call("beam-fits", beam.fits_in_beam, s, check_hash=False)
            ctx.ev("fits")
            g = True if not full else (None if worst == score else worst < score)
            if g is not None:
                ctx.eq(bool(glob), g, "beam-fits", "whether the state fits by size and score", score=score, **det)
            if same:
                h = None if same[0].log_prob == score else same[0].log_prob < score
            else:
                h = True
            if g is False or h is False:
                ctx.eq(bool(fits), False, "beam-fits", "whether the state would be kept", score=score, **det)
            elif g and h:
                ctx.eq(bool(fits), True, "beam-fits", "whether the state would be kept", score=score, **det)
            ctx.eq(sorted(map(id, beam)), sorted(map(id, before)), "beam-fits-pure",
                   "asking does not change the beam", **det)
        added = ctx.call("beam-add", beam.add, s, force=True) if force else ctx.call("beam-add", beam.add, s)
        log.append(("add" + ("!" if force else ""), cls, round(score, 3), bool(added)))
        ctx.ev("added" if added else "rejected")
        if force:
            forced += 1
        offered.append(s)
        if need is not None:
            ctx.eq(bool(added), need, "beam-accept", "accepted iff it belongs in the beam", **det)
        after = content(ctx, beam, det)
        ids, bids = {id(x) for x in after}, {id(x) for x in before}
        if not added:
            ctx.eq(ids, bids, "beam-reject-pure", "a rejected state leaves the beam as it was", **det)
        else:
            ctx.check(id(s) in ids, "beam-added", "an accepted state is in the beam", **det)
            gone = [x for x in before if id(x) not in ids]
            new = ids - bids - {id(s)}
            ctx.eq(len(new), 0, "beam-resurrect", "nothing else enters the beam", **det)
            if same:
                ctx.eq([id(x) for x in gone], [id(same[0])], "beam-class", "it replaces its equivalent", **det)
            elif force or not full:
                ctx.eq(len(gone), 0, "beam-evict", "nothing is evicted while there is room", **det)
            else:
                ctx.eq([x.log_prob for x in gone], [worst], "beam-evict", "only a worst state is evicted", **det)
        ctx.check(len(after) <= size + forced, "beam-size", "never more states than its size", n=len(after), **det)
        if hashed:
            hs = [x.get_hash() for x in after]
            ctx.eq(len(set(hs)), len(hs), "beam-class", "one state per equivalence class", **det)
        if not forced:  # the best of everything offered
            pool = {}
            for k, x in enumerate(offered):
                h = x.get_hash() if hashed else k
                pool[h] = max(pool.get(h, -math.inf), x.log_prob)
            best = sorted(pool.values(), reverse=True)[:size]
            ctx.eq(sorted((x.log_prob for x in after), reverse=True), best, "beam-best",
                   "the beam holds the best states offered", **det)
        top = ctx.call("beam-top", beam.get_top_state)
        if after:
            ctx.check(top is not None and id(top) in ids and top.log_prob == max(x.log_prob for x in after),
                      "beam-top", "the top state is a best one", **det)
        before = after
    ctx.sig(size, hashed, hash_len, classes, tuple(map(str, log)))


# ------------------------------------------------------------------------------------------- C24
rule("C24", "random trees of chord transitions, key transitions, rejoins, copies and scorings from shared "
     "ancestors, in both pitch types, with and without hashing; oracle: a reference path with the charges "
     "of each step, evaluated on every live state after every operation; non-trivial = one derived state")


class Hid:
    """A hidden state stand-in that can only be compared, as tensors are."""

    def __init__(self, v):
        self.v = v

    def equal(self, other):
        return self.v == other.v


class Ref:
    """What a state means: segments of (chord, key, end), charges, recent model charges."""

    def __init__(self, key, segs, prev, base, models, must, hid):
        self.key, self.segs, self.prev, self.base, self.models = key, segs, prev, base, models
        self.must, self.hid = must, hid  # hid: how many KSM runs the hidden state reflects
        self.prior = self.csm = self.ktm = None  # tags of the CSM prior and the hidden states

    def score(self):
        return self.base + sum(v for v in self.models.values() if v is not None)


def labels_of(pt):
    return {"chord": hu.get_chord_from_one_hot_index(slice(None, None), pt),
            "key": hu.get_key_from_one_hot_index(slice(None, None), pt)}


LABELS = {pt: labels_of(pt) for pt in (TPC, MIDI)}


def chord_pitches(pt, chord):
    root, ct, inv = LABELS[pt]["chord"][chord]
    return root, T.chord_tones(ct.name, root, pt == MIDI)[inv]


def in_range(pt, chord, tonic, extra):
    root, bass = chord_pitches(pt, chord)
    if pt == MIDI:
        return True
    if not 0 <= bass < T.N_TPC:
        return False  # a chord whose bass cannot be spelled
    lo, hi = T.REL_MIN - extra, T.REL_MAX + extra
    return all(lo <= p - tonic < hi for p in (root, bass))


def key_path(ref):
    keys, ends = [], [0]
    for chord, key, end in ref.segs:
        if not keys or keys[-1] != key:
            keys.append(key)
            ends.append(end)
        else:
            ends[-1] = end
    return keys, ends


def hash_of(ref, n):
    pairs = [(ref.first_key, None)] + [(k, c) for c, k, _ in ref.segs]
    return tuple(([None] * n + pairs)[-n:])


def verify(ctx, s, ref, hash_len, det):
    ctx.check(math.isclose(s.log_prob, ref.score(), rel_tol=1e-9, abs_tol=1e-9), "state-score",
              "the score is the sum of its path's charges", got=s.log_prob, want=ref.score(), **det)
    chords, changes = ctx.call("state-chords", s.get_chords)
    ctx.eq((list(chords), list(changes)), ([c for c, _, _ in ref.segs], [0] + [e for _, _, e in ref.segs]),
           "state-chords", "the chords of its path", **det)
    keys, changes = ctx.call("state-keys", s.get_keys)
    wk, we = key_path(ref)
    ctx.eq((list(keys), list(changes)), (wk, we), "state-keys", "the keys of its path", **det)
    ctx.eq((s.key, s.change_index), (ref.key, ref.segs[-1][2] if ref.segs else 0), "state-current",
           "current key and position", **det)
    ctx.eq((s.is_valid(), s.is_valid(check_key=True)), (True, not ref.must), "state-must-change",
           "whether the key must change", **det)
    ctx.eq(s.can_key_transition(), len(ref.segs) > 1, "state-can-change", "no key change on the first chord", **det)
    ctx.eq((s.csm_hidden_state, s.ktm_hidden_state, None if s.csm_log_prior is None else np.asarray(s.csm_log_prior).tolist()),
           (ref.csm, ref.ktm, ref.prior), "state-hidden", "model states follow the path", **det)
    if hash_len:
        ctx.eq(s.get_hash(), hash_of(ref, hash_len), "state-hash", "hash = the last chords and keys", **det)


@scenario("C24", quick=900, thorough=8000)
def trees(ctx, rng, i):
    pt = rng.choice([TPC, TPC, MIDI])
    labels = LABELS[pt]
    n = rng.randrange(3, 14)
    durs = np.array([F(rng.randrange(0, 9), 8) for _ in range(n)])
    onsets = [(k // 3, F(k % 3, 4)) for k in range(n + 1)]
    levels = [rng.randrange(4) for _ in range(n + 1)]
    hash_len = rng.choice([None, 1, 2, 3, 5])
    near = rng.randrange(12) if pt == MIDI else rng.randrange(4, 31)
    args = (durs, onsets, levels, labels)

    favourites = []

    def some_key():
        if favourites and rng.random() < 0.4:  # keys are left and come back
            return rng.choice(favourites)
        k = new_key()
        favourites.append(k)
        return k

    def new_key():
        if rng.random() < 0.7 and pt == TPC:
            tonic = min(34, max(0, near + rng.randrange(-4, 5)))
            return rng.choice([k for k, (t, _) in enumerate(labels["key"]) if t == tonic])
        return rng.randrange(len(labels["key"]))

    def some_chord(tonic):
        while True:
            c = rng.randrange(len(labels["chord"]))
            if pt == MIDI or rng.random() < 0.15 or abs(labels["chord"][c][0] - tonic) <= rng.choice([8, 14, 20]):
                root, bass = chord_pitches(pt, c)
                if 0 <= bass < (12 if pt == MIDI else T.N_TPC) or rng.random() < 0.3:
                    return c

    key0 = some_key()
    root = State(key=key0, hash_length=hash_len)
    ref = Ref(key0, [], None, 0.0, {"csm": None, "ksm": None, "ktm": None}, False, 0)
    ref.first_key = key0
    if hash_len:
        ctx.eq(root.get_hash(), tuple([None] * (hash_len - 1) + [(key0, None)]), "state-hash",
               "hash of an initial state", key=key0)
    live = [(root, ref)]
    log = []
    chain = rng.random() < 0.35
    for step in range(rng.randrange(6, 30)):
        s, ref = live[-1] if chain and rng.random() < 0.8 else rng.choice(live[-6:] if rng.random() < 0.7 else live)
        tonic = labels["key"][ref.key][0]
        pos = ref.segs[-1][2] if ref.segs else 0
        op = rng.choice(["chord", "chord", "chord", "key", "rejoin", "copy", "ktm", "csm", "read", "ksmhid", "run", "run"])
        if chain and rng.random() < 0.6:  # a long path through several keys
            op = rng.choice(["chord", "chord", "key"])
        det = dict(pt=pt.name, op=op, log=log[-8:])
        lp = -rng.random() * 5
        new = None
        if op == "chord" and pos < n:
            c, end = some_chord(tonic), rng.randrange(pos + 1, min(n + 1, pos + 3 if chain else n + 1))
            got = ctx.call("state-chord", s.chord_transition, c, end, lp, pt, labels)
            ok = in_range(pt, c, tonic, T.REL_PAD)
            ctx.ev("chord_transition" if ok else "refused_chord")
            ctx.require((got is not None) == ok, "state-refuse", "refused iff out of range", chord=labels["chord"][c],
                        tonic=tonic, **det)
            if ok:
                r2 = Ref(ref.key, ref.segs + [(c, ref.key, end)], ref, ref.score() + lp,
                         {"csm": None, "ksm": None, "ktm": None}, not in_range(pt, c, tonic, 0), ref.hid)
                r2.prior, r2.csm, r2.ktm = ref.prior, ref.csm, ref.ktm
                new = (got, r2)
        elif op == "key" and ref.segs and len(ref.segs) > 1:
            k = some_key()
            c = ref.segs[-1][0]
            got = ctx.call("state-key", s.key_transition, k, lp, pt, labels)
            ok = in_range(pt, c, labels["key"][k][0], 0)
            ctx.ev("key_transition" if ok else "refused_key")
            ctx.require((got is not None) == ok, "state-refuse", "refused iff out of range", chord=labels["chord"][c],
                        key=labels["key"][k], **det)
            if ok:
                base, models = ref.base, dict(ref.models)
                if models["ksm"] is not None:  # a second key change: the first stays charged
                    base += models["ksm"]
                models["ksm"] = lp
                r2 = Ref(k, ref.segs[:-1] + [(c, k, pos)], ref.prev, base, models, False, ref.prev.hid)
                r2.prior, r2.csm, r2.ktm = ref.prior, ref.csm, ref.prev.ktm
                new = (got, r2)
        elif op == "rejoin" and ref.segs and pos < n:
            end = rng.randrange(pos + 1, n + 1)
            c = ref.segs[-1][0]
            got = ctx.call("state-rejoin", s.rejoin, end, lp, pt, labels)
            ctx.ev("rejoin")
            r2 = Ref(ref.prev.key, ref.segs[:-1] + [(c, ref.prev.key, end)], ref.prev, ref.base + lp,
                     {"csm": None, "ksm": None, "ktm": None},
                     not in_range(pt, c, labels["key"][ref.prev.key][0], 0), ref.prev.hid)
            r2.prior, r2.csm, r2.ktm = ref.prev.prior, ref.prev.csm, ref.prev.ktm
            new = (got, r2)
        elif op == "copy" and ref.segs:
            got = ctx.call("state-copy", s.copy)
            ctx.ev("copy")
            r2 = Ref(ref.key, list(ref.segs), ref.prev, ref.base, dict(ref.models), ref.must, ref.hid)
            r2.prior, r2.csm, r2.ktm = ref.prior, ref.csm, ref.ktm
            new = (got, r2)
        elif op == "ktm" and ref.segs and ref.models["ktm"] is None and not any(r.prev is ref for _, r in live):
            ctx.call("state-ktm", s.add_ktm_log_prob, lp)
            ref.models["ktm"] = lp
            ctx.ev("ktm")
        elif op == "csm" and ref.segs and not ref.must and ref.models["csm"] is None and \
                not any(r.prev is ref for _, r in live):
            red, names = rand_reduction(rng)
            use_inv = rng.random() < 0.5
            if rng.random() < 0.5:
                red, names = None, {t: t for t in TYPES}
            first = len(ref.segs) == 1
            by_pitch = rng.random() < 0.3
            if by_pitch:
                red, names, use_inv = None, {t: t for t in TYPES}, True
            lab = hu.get_chord_from_one_hot_index(
                slice(None, None), pt, use_inversions=use_inv or first, relative=True, pad=False,
                reduction=None if first else red)
            prior = -np.array([rng.random() * 9 for _ in lab])
            r0, ct, inv = labels["chord"][ref.segs[-1][0]]
            rel = (r0 - tonic) % 12 if pt == MIDI else r0 - tonic
            ct2 = ct if first else CT[names[ct.name]]
            inv2 = (inv if inv < T.inv_count(ct2.name) else None) if use_inv or first else 0
            if inv2 is None:
                continue  # an inversion the reduced chord does not have
            want = prior[lab.index((rel, ct2, inv2))] * (pos - (ref.segs[-2][2] if not first else 0))
            if by_pitch and not first:  # one probability per relative pitch
                prior = np.array([0.02 + 0.96 * rng.random() for _ in range(12 if pt == MIDI else T.REL_MAX - T.REL_MIN)])
                tones = {x % 12 if pt == MIDI else x - T.REL_MIN for x in T.chord_tones(ct.name, rel, pt == MIDI)}
                want = sum(math.log(p if x in tones else 1 - p) for x, p in enumerate(prior)) * (pos - ref.segs[-2][2])
            s.csm_log_prior = prior
            ref.prior = prior.tolist()
            ctx.call("state-csm", s.add_csm_prior, by_pitch, pt, *args, use_inv, red)
            ref.models["csm"] = want
            ctx.ev("csm_pitch" if by_pitch and not first else "csm")
        elif op == "ksmhid" and len(ref.segs) > 1 and ref.hid == ref.prev.hid and not any(
                r.prev is ref for _, r in live):
            ref.hid = ref.hid + 1
            s.ksm_hidden_state = (Hid((id(ref), 1)), Hid((id(ref), 2)))
            ref.hidkey = id(ref)
            ctx.ev("ksm_run")
        elif op == "run":  # the sequence models were run on this state
            ref.csm, ref.ktm, s.csm_hidden_state, s.ktm_hidden_state = (step, 1), (step, 2), (step, 1), (step, 2)
            s.csm_log_prior = prior = np.array([float(step)])
            ref.prior = prior.tolist()
        elif op == "read" and ref.segs:
            check_reads(ctx, s, ref, pt, args, det)
        if new is not None:
            new[1].first_key = key0
            live.append(new)
            ctx.check(new[0] is not s, "state-new", "a transition makes a new state", **det)
            log.append((op, live.index((s, ref)), new[1].segs[-1], round(lp, 3)))
            ctx.sig(pt.name, hash_len, tuple(new[1].segs), op)
            if len(set(key_path(new[1])[0])) < len(key_path(new[1])[0]):
                ctx.ev("key_revisited")
            if new[1].segs and rng.random() < 0.3:
                check_reads(ctx, new[0], new[1], pt, args, det)
        for st, r in live:
            if r.segs or st is root:
                verify_any(ctx, st, r, hash_len, det)
    for st, r in rng.sample(live, min(4, len(live))):
        if r.segs:
            check_reads(ctx, st, r, pt, args, dict(pt=pt.name, op="final-read", log=log[-8:]))


def verify_any(ctx, st, r, hash_len, det):
    if not r.segs:
        ctx.eq((st.log_prob, st.get_chords(), st.get_keys()), (0.0, ([], [0]), ([], [0])), "state-initial",
               "an initial state is unchanged", **det)
    else:
        verify(ctx, st, r, hash_len, det)


def key_vec(pt, a, b, labels):
    """Key-change vector (tonic interval section + mode section) and flag."""
    n = 12 if pt == MIDI else T.KEY_MAX - T.KEY_MIN
    v = np.zeros(n + 3)
    if a != b:
        (t0, _), (t1, m1) = labels["key"][a], labels["key"][b]
        d = (t1 - t0) % 12 if pt == MIDI else t1 - t0 - T.KEY_MIN
        if 0 <= d < n:
            v[d] = 1
        v[n + [KeyMode.MAJOR, KeyMode.MINOR].index(m1)] = 1
        v[-1] = 1
    return v


def chord_vec(pt, ref, args, pad):
    durs, onsets, levels, labels = args
    c, k, end = ref.segs[-1]
    start = ref.segs[-2][2] if len(ref.segs) > 1 else 0
    root, bass = chord_pitches(pt, c)
    _, ct, inv = labels["chord"][c]
    tonic, mode = labels["key"][k]
    return Chord(root, bass, tonic, mode, ct, inv, onsets[start], levels[start], onsets[end], levels[end],
                 sum(durs[start:end], F(0)), pt)


def check_reads(ctx, s, ref, pt, args, det):
    durs, onsets, levels, labels = args
    want = chord_vec(pt, ref, args, False)
    got = ctx.call("state-get-chord", s.get_chord, pt, *args)
    ctx.ev("read")
    ctx.eq({f: v for f, v in got.to_dict().items() if f != "suspension"},
           {f: v for f, v in want.to_dict().items() if f != "suspension"}, "state-get-chord",
           "the chord object of the current segment", segs=ref.segs, **det)
    gk = ctx.call("state-get-key", s.get_key, pt, labels)
    t, m = labels["key"][ref.key]
    g = labels["key"][ref.first_key]
    ctx.eq((gk.relative_tonic, gk.relative_mode, gk.local_tonic, gk.local_mode, gk.global_tonic, gk.global_mode),
           (t, m, t, m, g[0], g[1]), "state-get-key", "the key object of the state", segs=ref.segs, **det)
    if ref.must and pt == TPC:
        return
    prev_key = ref.prev.key
    kv = key_vec(pt, prev_key, ref.key, labels)
    for name, pad, f in (("csm", False, s.get_csm_input), ("ktm", True, s.get_ktm_input)):
        got = ctx.call("state-input-" + name, f, pt, *args)
        exp = np.concatenate([want.to_vec(pad=pad), kv])[None]
        ctx.check(got.shape == exp.shape and np.array_equal(got, exp), "state-input-" + name,
                  "the model input of the state", segs=ref.segs, got=np.nonzero(got)[-1].tolist(),
                  want=np.nonzero(exp)[-1].tolist(), **det)
    # chain of refs since the last KSM run
    chain, r = [ref], ref
    while r.prev is not None and r.prev.prev is not None and r.prev.hid == r.prev.prev.hid:
        r = r.prev
        chain.insert(0, r)
    rows = [np.concatenate([chord_vec(pt, x, args, True).to_vec(pad=True), key_vec(pt, x.prev.key, x.key, labels)])
            for x in chain if not (x.must and False)]
    got = ctx.call("state-input-ksm", s.get_ksm_input, pt, *args)
    ctx.ev("ksm_rows", len(rows))
    ctx.check(got.shape == (len(rows), len(rows[0])) and np.array_equal(got, np.array(rows)), "state-input-ksm",
              "one row per chord since the last key-model run", segs=ref.segs, n=len(got), want=len(rows), **det)
