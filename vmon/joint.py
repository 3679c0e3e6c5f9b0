"""The joint model driven by stand-in component models, with a reference evaluation of analyses.

The component models are instances of the real classes whose numeric outputs are replaced by pure
pseudo-random functions of what they are given (input vectors, hidden states).  A wrong input, a
hidden state of another path or a misaligned batch therefore changes the numbers and is observed."""
import hashlib
import importlib.util
import logging
import math
import os
from fractions import Fraction as F

import numpy as np

from vmon import gen, shim
from vmon import theory as T
from vmon.core import repo_dir

STUBBED = shim.install()

import harmonic_inference.models.chord_classifier_models as ccm
import harmonic_inference.models.chord_sequence_models as csm
import harmonic_inference.models.chord_transition_models as ctm
import harmonic_inference.models.initial_chord_models as icm
import harmonic_inference.models.joint_model as jm
import harmonic_inference.models.key_sequence_models as ksm
import harmonic_inference.models.key_transition_models as ktm
import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data.chord import Chord, get_chord_vector_length
from harmonic_inference.data.data_types import KeyMode, PieceType, PitchType
from harmonic_inference.data.key import get_key_change_vector_length
from harmonic_inference.data.note import Note
from harmonic_inference.data.piece import ScorePiece

from vmon.checks.c07_c08 import CT, level
from vmon.checks.c09_c10_c11 import rand_reduction, sections
from vmon.checks.c23_c24 import LABELS, chord_pitches, in_range, key_vec

TPC, MIDI = PitchType.TPC, PitchType.MIDI
MODES = [KeyMode.MAJOR, KeyMode.MINOR]


def reduction(rng):
    """(reduction or None, its names): an idempotent chord type reduction."""
    if rng.random() < 0.5:
        return None, {t: t for t in T.CHORD_STR}
    while True:
        red, names = rand_reduction(rng)
        if all(names[names[t]] == names[t] for t in names):
            return red, names


def digest(*parts):
    h = hashlib.blake2b(digest_size=6)
    for p in parts:
        h.update(p if isinstance(p, bytes) else repr(p).encode())
    return int.from_bytes(h.digest(), "big")


def vbytes(x):
    return (np.round(np.asarray(x, dtype=np.float64), 6) + 0.0).tobytes()


def step(hidden, row):
    """Next hidden value (a float with 48 significant bits) of the recurrent stand-ins."""
    return digest(float(hidden), vbytes(row)) / float(1 << 48)


def cell_of(hidden):
    """The cell state that belongs to a hidden state."""
    return step(hidden, np.array([7.0])) if float(hidden) else 0.0


def joined(hidden, cell):
    """The hidden value, or another one if the cell state is not its own."""
    return float(hidden) if float(cell) == cell_of(hidden) else step(hidden, np.array([float(cell)]))


def T_(x):
    import torch

    return torch.from_numpy(np.asarray(x))


class Config:
    """One random configuration: label spaces, tables, thresholds."""

    def __init__(self, rng, pt=None, near=None, pitch_csm=None):
        self.rng = rng
        self.pt = pt or rng.choice([MIDI, MIDI, TPC])
        self.labels = LABELS[self.pt]
        self.n_chords = len(self.labels["chord"])
        self.near = near if near is not None else (rng.randrange(12) if self.pt == MIDI else rng.randrange(9, 26))
        # the chord sequence model rates pitches, not chords
        self.pitch_csm = rng.random() < 0.2 if pitch_csm is None else pitch_csm
        self.use_out_inv = rng.random() < 0.5 or self.pitch_csm
        # third inversions do not exist after a reduction to triads, so not both
        self.out_red, self.red_names = (None, {t: t for t in T.CHORD_STR}) if self.use_out_inv else reduction(rng)
        # what each sequence model wants its input chords reduced to: (reduction, inversions)
        self.want = {m: (reduction(rng)[0], rng.random() < 0.6) for m in ("csm", "ktm", "ksm")}
        self.palette = self._palette(rng.choice([2, 3, 4, 6]))
        # tables of model outputs, selected by digests
        nprng = np.random.RandomState(rng.randrange(1 << 30))
        self.ccm_rows = [self._ccm_row(rng, nprng) for _ in range(24)]
        self.rel = hu.get_chord_from_one_hot_index(slice(None, None), self.pt, use_inversions=self.use_out_inv,
                                                   relative=True, pad=False, reduction=self.out_red)
        self.rel_full = hu.get_chord_from_one_hot_index(slice(None, None), self.pt, use_inversions=True,
                                                        relative=True, pad=False, reduction=None)
        self.rel_index = {x: k for k, x in enumerate(self.rel)}
        self.rel_full_index = {x: k for k, x in enumerate(self.rel_full)}
        self.csm_rows = np.log(nprng.dirichlet(np.ones(len(self.rel)) * 0.5, 12) + 1e-6)
        if self.pitch_csm:
            self.csm_rows = 0.02 + 0.96 * nprng.rand(12, 12 if self.pt == MIDI else T.REL_MAX - T.REL_MIN)
        self.icm_rows = np.log(nprng.dirichlet(np.ones(len(self.rel_full)) * 0.5, 2) + 1e-6)
        self.n_keys = get_key_change_vector_length(self.pt, one_hot=True)
        self.ksm_rows = np.log(nprng.dirichlet(np.ones(self.n_keys) * 0.1, 12) + 1e-9)
        if self.pt == TPC and rng.random() < 0.6:  # near keys are likelier: fewer unrepresentable ones
            w = np.array([math.exp(-abs(k % (self.n_keys // 2) - 14) / 3) for k in range(self.n_keys)])
            self.ksm_rows = np.log(np.array([nprng.dirichlet(w + 0.01) for _ in range(12)]) + 1e-9)
        lo = rng.choice([0.0, 0.05, 0.2])
        hi = rng.choice([0.4, 0.75, 0.95])
        self.ktm_vals = [rng.choice([rng.random(), 0.02, 0.98, max(lo, 1e-6), hi, 0.3]) for _ in range(16)]
        self.kw = dict(
            min_key_change_prob=lo, max_no_key_change_prob=hi,
            max_chord_branching_factor=rng.choice([1, 2, 2, 3]),
            target_chord_branch_prob=rng.choice([0.3, 0.75, 0.95, 1.0]),
            max_key_branching_factor=rng.choice([1, 1, 2, 3]),
            target_key_branch_prob=rng.choice([0.3, 0.5, 0.9, 1.0]),
            ksm_exponent=rng.choice([1, 2, 50]),
        )

    def _palette(self, n):
        out = []
        while len(out) < n:
            c = self.rng.randrange(self.n_chords)
            root, bass = chord_pitches(self.pt, c)
            far = self.rng.choice([5, 12, 17, 22])
            if self.pt == TPC and not abs(root - self.near) <= far:
                continue
            if self.pt == TPC and not 0 <= bass < T.N_TPC and self.rng.random() < 0.8:
                continue
            if c not in out:
                out.append(c)
        return out

    def _ccm_row(self, rng, nprng):
        p = nprng.dirichlet(np.ones(self.n_chords) * 0.01) * 0.02 + 1e-7
        w = np.array([rng.random() ** 2 + 1e-3 for _ in self.palette])
        p = p * (0.02 / p.sum())
        p[self.palette] += 0.98 * w / w.sum()
        return p / p.sum()

    # -- model functions ---------------------------------------------------------------------
    def ccm_of(self, window):
        return self.ccm_rows[digest(vbytes(window)) % len(self.ccm_rows)]

    def pick(self, rows, hidden):
        return rows[int(float(hidden) * (1 << 48)) % len(rows)]

    # -- the model ---------------------------------------------------------------------------
    def model(self, probs, **kw):
        """A HarmonicInferenceModel whose CTM answers `probs`."""
        pt = self.pt
        small = dict(lstm_hidden_dim=1, hidden_dim=1)
        m_ccm = ccm.SimpleChordClassifier(PieceType.SCORE, pt, pt, use_inversions=True, reduction=None, **small)
        m_ctm = ctm.SimpleChordTransitionModel(PieceType.SCORE, pt, embed_dim=1, **small)
        small_csm = dict(small, embed_dim=1, input_reduction=self.want["csm"][0], use_input_inversions=self.want["csm"][1])
        if self.pitch_csm:
            m_csm = csm.PitchBasedChordSequenceModel(pt, pt, pt, **small_csm)
        else:
            m_csm = csm.SimpleChordSequenceModel(pt, pt, pt, use_output_inversions=self.use_out_inv,
                                                 output_reduction=self.out_red, **small_csm)
        m_ktm = ktm.SimpleKeyTransitionModel(pt, pt, reduction=self.want["ktm"][0],
                                             use_inversions=self.want["ktm"][1], embed_dim=1, **small)
        m_ksm = ksm.SimpleKeySequenceModel(pt, pt, pt, reduction=self.want["ksm"][0],
                                           use_inversions=self.want["ksm"][1], embed_dim=1, **small)
        m_icm = object.__new__(icm.SimpleInitialChordModel)
        m_icm.PITCH_TYPE = pt
        m_icm.use_inversions, m_icm.reduction = True, None

        def ccm_out(batch):
            rows = []
            for x, n in zip(np.asarray(batch["inputs"]), np.asarray(batch["input_lengths"])):
                rows.append(self.ccm_of(x[:int(n)]))
            return T_(np.array(rows))

        def ctm_out(batch):
            n = np.asarray(batch["input_lengths"])
            return T_(np.array([probs])), T_(n)

        def hidden(batch, which):
            return np.asarray(batch["hidden_states"][which])[:, 0, 0]

        def recur(batch, outs):
            x = np.asarray(batch["inputs"])
            h = [step(joined(a, c), r) for a, c, r in zip(hidden(batch, 0), hidden(batch, 1), x.reshape(len(x), -1))]
            cell = [cell_of(a) for a in h]
            return T_(np.array([outs(a, c) for a, c in zip(h, cell)])), (
                T_(np.array(h).reshape(1, -1, 1)), T_(np.array(cell).reshape(1, -1, 1)))

        def csm_step(batch):
            return recur(batch, lambda h, c: self.pick(self.csm_rows, h)[None])

        def ktm_step(batch):
            return recur(batch, lambda h, c: [self.ktm_vals[int(h * (1 << 48)) % len(self.ktm_vals)]])

        def ksm_out(batch):
            x, n = np.asarray(batch["inputs"]), np.asarray(batch["input_lengths"])
            hs, cs, outs = [], [], []
            for rows, k, h, c in zip(x, n, hidden(batch, 0), hidden(batch, 1)):
                h = joined(h, c)
                for row in rows[:int(k)]:
                    h = step(h, row)
                hs.append(h)
                cs.append(cell_of(h))
                outs.append(self.pick(self.ksm_rows, h))
            return T_(np.array(outs)), (T_(np.array(hs).reshape(1, -1, 1)), T_(np.array(cs).reshape(1, -1, 1)))

        m_ccm.get_output, m_ctm.get_output = ccm_out, ctm_out
        m_csm.run_one_step, m_ktm.run_one_step, m_ksm.get_output = csm_step, ktm_step, ksm_out
        m_icm.get_prior = lambda minor, log=False: (
            self.icm_rows[int(minor)] if log else np.exp(self.icm_rows[int(minor)]))
        args = dict(self.kw)
        args.update(kw)
        return jm.HarmonicInferenceModel(
            {"ccm": m_ccm, "ctm": m_ctm, "csm": m_csm, "ktm": m_ktm, "ksm": m_ksm, "icm": m_icm}, **args)


# --------------------------------------------------------------------------------------- pieces
class Score:
    """A generated piece: groups of simultaneous notes; `piece` is the real ScorePiece."""

    def __init__(self, rng, pt, n_groups, max_group=3, unit=None):
        lay = gen.layout(rng, n=rng.choice([2, 4, 6]), irregular=rng.random() < 0.4)
        unit = unit or rng.choice([F(1, 8), F(1, 4), F(1, 4), F(1, 2)])
        times, t = [], F(0)
        for _ in range(n_groups):
            if t >= lay.end:
                break
            times.append(t)
            t += unit * rng.choice([1, 1, 1, 2, 3])
        self.lay, self.times = lay, times
        self.notes, self.group_of = [], []
        for g, t in enumerate(times):
            k = rng.choice([1, 1, 1, 2, max_group])
            for _ in range(k):
                dur = min(unit * rng.choice([1, 1, 2, 4]), lay.end - t)
                if rng.random() < 0.04:
                    dur = F(0)
                self.notes.append((t, dur))
                self.group_of.append(g)
        self.n = len(self.notes)
        self.starts = [self.group_of.index(g) for g in range(len(times))]  # first note of each group
        self.end = max(t + d for t, d in self.notes)
        notes = []
        for t, d in self.notes:
            on = lay.pos(t)
            off = lay.end_pos() if t + d == lay.end else lay.pos(t + d)
            pc = rng.randrange(12) if pt == MIDI else rng.randrange(8, 28)
            notes.append(Note(pc, rng.randrange(2, 7), on, level(lay.by_mc[on[0]]["timesig"], on[1]), d, off,
                              level(lay.by_mc[off[0]]["timesig"], off[1]), pt))
        df = lay.df()
        df.index.name = "measure_id"
        self.piece = ScorePiece(df, notes, None, None, None, None, None, name="score")
        self.note_objs = notes

    def onset_time(self, i):
        return self.notes[i][0] if i < self.n else self.end

    def window(self, start, end):
        """The classifier window of the range: from the first note sounding at its start."""
        t = self.notes[start][0]
        first = next(k for k, (a, d) in enumerate(self.notes) if a >= t or a + d > t)
        return self.piece.get_chord_note_inputs(ranges=[(first, end)], change_indices=[start])[0]


def change_probs(rng, score, lo, hi):
    probs = []
    for _ in range(score.n):
        probs.append(rng.choice([rng.random(), rng.random(), lo, hi, lo / 2, (1 + hi) / 2, (lo + hi) / 2]))
    return np.array(probs)


def thresholds(rng):
    lo, hi = sorted([rng.choice([0.0, 0.1, 0.25, 0.5]), rng.choice([0.25, 0.45, 0.6, 0.9, 1.0])])
    return lo, hi


# --------------------------------------------------------------------------------------- reference
def ref_ranges(score, probs, lo, hi, max_len, forced=None, final_tail=False):
    """The ranges that may be a chord: {(start, end): log probability}."""
    f = forced or {}
    must, never = f.get("chord_changes", set()) | f.get("key_changes", set()), f.get("chord_non_changes", set())
    cid, kid = f.get("chord_ids", {}), f.get("key_ids", {})

    def p(i):
        return 1.0 if i in must else 0.0 if i in never else float(probs[i])

    def may_end(i):
        return i == score.n or (i not in never and (i in must or p(i) >= lo))

    def may_span(i):
        return i not in must and (i in never or p(i) <= hi)

    out, todo, seen = {}, [0], {0}
    bounds = score.starts[1:] + [score.n]
    while todo:
        s = todo.pop()
        lp = 0.0
        for e in bounds:
            if e <= s:
                continue
            inside = range(s, e)
            if len({cid[i] for i in inside if i in cid}) > 1 or len({kid[i] for i in inside if i in kid}) > 1:
                break
            stop = score.onset_time(e) if e < score.n or final_tail else score.onset_time(score.n - 1)
            if stop - score.onset_time(s) > max_len:
                break
            if may_end(e):
                out[s, e] = lp + (math.log(p(e)) if e < score.n and p(e) > 0 else -math.inf if e < score.n else 0.0)
                if e < score.n and e not in seen:
                    seen.add(e)
                    todo.append(e)
            if e == score.n or not may_span(e):
                break
            lp += math.log(1 - p(e)) if p(e) < 1 else -math.inf
    return out


def pitch_score(pt, row, chord_type, rel):
    """Log-probability of the chord's pitches, and of no others, under one probability per relative pitch."""
    tones = set()
    for x in T.chord_tones(chord_type.name, rel, pt == MIDI):
        tones.add(x % 12 if pt == MIDI else x - T.REL_MIN)
    return sum(math.log(p if x in tones else 1 - p) for x, p in enumerate(row))


class Reference:
    """Scores of analyses under a Config, and the set of analyses the search may choose from."""

    def __init__(self, cfg, score, probs, lo, hi, max_len, kw, forced=None):
        self.cfg, self.score, self.kw, self.forced = cfg, score, kw, forced or {}
        self.probs = np.array(probs, dtype=float)
        f = self.forced
        for i in f.get("chord_changes", set()) | f.get("key_changes", set()):
            self.probs[i] = 1.0
        for i in f.get("chord_non_changes", set()):
            self.probs[i] = 0.0
        self.ranges = ref_ranges(score, probs, lo, hi, max_len, f)
        self.cond = {}
        self.memo = {}
        self.vecs = {}
        dur = score.piece.get_duration_cache()
        self.levels = [n.onset_level for n in score.note_objs] + [score.note_objs[-1].offset_level]
        self.onsets = [n.onset for n in score.note_objs] + [score.note_objs[-1].offset]
        self.dur = list(dur)

    # .. chord classifier
    def prior(self, rng_):
        if rng_ not in self.cond:
            self.cond[rng_] = self.cfg.ccm_of(self.score.window(*rng_))
        return self.cond[rng_]

    def candidates(self, rng_, prev_chord):
        """Chords the search may give the range after prev_chord."""
        forced = {self.forced["chord_ids"][i] for i in range(*rng_) if i in self.forced.get("chord_ids", {})}
        if forced:
            return sorted(forced)
        p = self.prior(rng_)
        order = np.argsort(-p)[:8].tolist()
        mass, k = 0.0, 0
        for c in order:
            mass += p[c]
            k += 1
            if mass >= self.kw["target_chord_branch_prob"] or k >= self.kw["max_chord_branching_factor"]:
                break
        if k == 1 and order[0] == prev_chord:
            k = 2
        return order[:k]

    # .. vectors
    def vec(self, seg, key, pad, model):
        ck = (seg, key, pad, model)
        if ck not in self.vecs:
            chord, s, e = seg
            pt = self.cfg.pt
            root, bass = chord_pitches(pt, chord)
            _, ct, inv = self.cfg.labels["chord"][chord]
            tonic, mode = self.cfg.labels["key"][key]
            self.vecs[ck] = Chord(
                root, bass, tonic, mode, ct, inv, self.onsets[s], self.levels[s], self.onsets[e], self.levels[e],
                sum(self.dur[s:e], F(0)), pt).to_vec(pad=pad)
            v = self.vecs[ck] = np.array(self.vecs[ck])
            red, inversions = self.cfg.want[model]
            n = sections(pt, pad)[0]
            if red is not None:
                v[n:n + 12] = 0
                v[n + red[ct].value] = 1
            if not inversions:
                v[2 * n + 12:2 * n + 16] = (1, 0, 0, 0)
        return self.vecs[ck]

    def row(self, seg, prev_key, key, model):
        return np.concatenate([self.vec(seg, key, model != "csm", model), key_vec(self.cfg.pt, prev_key, key, self.cfg.labels)])

    # .. models along a path: path = tuple of (chord, key, start, end)
    def hidden(self, path):
        """(csm, ktm, ksm, rows since the last ksm run) after the path."""
        if path in self.memo:
            return self.memo[path]
        if not path:
            out = (0.0, 0.0, 0.0, ())
        else:
            c, k, s, e = path[-1]
            prev = path[:-1]
            pk = prev[-1][1] if prev else k
            hc, hk, hs, pend = self.hidden(prev)
            hc = step(hc, self.row((c, s, e), pk, k, "csm"))
            hk = step(hk, self.row((c, s, e), pk, k, "ktm"))
            r = self.row((c, s, e), pk, k, "ksm")
            if k != pk:
                for x in pend + (r,):
                    hs = step(hs, x)
                pend = ()
            else:
                pend = pend + (r,)
            out = (hc, hk, hs, pend)
        self.memo[path] = out
        return out

    def key_change_prob(self, prev, seg):
        """KTM probability of a key change on the new segment, in the key before it."""
        if not prev:
            return 0.0
        pk = prev[-1][1]
        h = step(self.hidden(prev)[1], self.row(seg, pk, pk, "ktm"))
        return self.cfg.ktm_vals[int(h * (1 << 48)) % len(self.cfg.ktm_vals)]

    def key_prior(self, prev, seg):
        pk = prev[-1][1] if prev else None
        _, _, hs, pend = self.hidden(prev)
        for x in pend + (self.row(seg, pk, pk, "ksm"),):
            hs = step(hs, x)
        return self.cfg.pick(self.cfg.ksm_rows, hs)

    def key_index(self, old, new):
        (t0, _), (t1, m1) = self.cfg.labels["key"][old], self.cfg.labels["key"][new]
        n = self.cfg.n_keys // 2
        d = (t1 - t0) % 12 if self.cfg.pt == MIDI else t1 - t0 - T.KEY_MIN
        return MODES.index(m1) * n + d if 0 <= d < n else None

    def chord_prior(self, prev, seg, key):
        pt = self.cfg.pt
        r0, ct, inv = self.cfg.labels["chord"][seg[0]]
        tonic, mode = self.cfg.labels["key"][key]
        rel = (r0 - tonic) % 12 if pt == MIDI else r0 - tonic
        if not prev:
            return self.cfg.icm_rows[int(mode == KeyMode.MINOR)][self.cfg.rel_full_index[rel, ct, inv]]
        row = self.cfg.pick(self.cfg.csm_rows, self.hidden(prev)[0])
        if self.cfg.pitch_csm:
            return pitch_score(pt, row, ct, rel)
        ct2 = CT[self.cfg.red_names[ct.name]]
        return row[self.cfg.rel_index[rel, ct2, inv if self.cfg.use_out_inv else 0]]

    def key_options(self, prev, seg):
        """Keys the search may give the new segment: {key: charge per note}."""
        f, cfg, kw = self.forced, self.cfg, self.kw
        chord, s, e = seg
        ids = {f["key_ids"][i] for i in range(s, e) if i in f.get("key_ids", {})}
        if len(ids) > 1:
            return {}
        if cfg.pt == TPC and not 0 <= chord_pitches(cfg.pt, chord)[1] < T.N_TPC:
            return {}  # a chord whose bass cannot be spelled
        want = next(iter(ids)) if ids else None
        if not prev:
            keys = range(len(cfg.labels["key"])) if want is None else [want]
            return {k: self.chord_prior(prev, seg, k) for k in keys if in_range(cfg.pt, chord, cfg.labels["key"][k][0], 0)}
        pk = prev[-1][1]
        if not in_range(cfg.pt, chord, cfg.labels["key"][pk][0], T.REL_PAD):
            return {}
        p = self.key_change_prob(prev, seg)
        stay = p <= kw["max_no_key_change_prob"]
        move = p >= kw["min_key_change_prob"]
        if want is not None:
            stay, move = want == pk, want != pk
        if s in f.get("key_changes", ()):
            stay, move = False, True
        if s in f.get("key_non_changes", ()):
            stay, move = (stay or want is None), False
        out = {}
        if stay and in_range(cfg.pt, chord, cfg.labels["key"][pk][0], 0):
            out[pk] = (math.log(1 - p) if p < 1 else -math.inf) + self.chord_prior(prev, seg, pk)
        if move:
            prior = self.key_prior(prev, seg)
            order = np.argsort(-prior)
            mass, k = 0.0, 0
            for c in order:
                mass += math.exp(prior[c])
                k += 1
                if mass >= kw["target_key_branch_prob"] or k >= kw["max_key_branching_factor"]:
                    break
            got = 0
            back = {self.key_index(pk, x): x for x in range(len(cfg.labels["key"]))}
            for c in order.tolist():
                key = back.get(c)
                if key is None or key == pk or (want is not None and key != want):
                    continue
                if in_range(cfg.pt, chord, cfg.labels["key"][key][0], 0):
                    out[key] = (math.log(p) if p > 0 else -math.inf) + prior[c] * kw["ksm_exponent"]
                    got += 1
                    if got >= k or want is not None:
                        break
        return out

    def ctm_score(self, path):
        ends = {e for _, _, _, e in path}
        tot = 0.0
        for b in self.score.starts[1:]:
            q = self.probs[b] if b in ends else 1 - self.probs[b]
            tot += math.log(q) if q > 0 else -math.inf
        return tot

    def splits(self, chord, s, e, prev_chord):
        """Classifier scores the segment can have: one per way of building it from ranges."""
        out = []

        def go(pos, acc, last):
            if pos == e:
                out.append(acc)
                return
            for (a, b) in self.by_start.get(pos, ()):
                if b <= e and chord in self.candidates((a, b), last):
                    if last == chord and self.blocked(a):
                        continue
                    go(b, acc + math.log(self.prior((a, b))[chord]) * (b - a), chord)

        go(s, 0.0, prev_chord)
        return out

    @property
    def by_start(self):
        if not hasattr(self, "_by"):
            self._by = {}
            for a, b in self.ranges:
                self._by.setdefault(a, []).append((a, b))
        return self._by

    def blocked(self, i):
        return i in self.forced.get("chord_changes", ()) or i in self.forced.get("key_changes", ())

    def model_score(self, path):
        """Sum of the model charges of the path (without the classifier); None if not a candidate."""
        tot = 0.0
        for j, (c, k, s, e) in enumerate(path):
            opts = self.key_options(path[:j], (c, s, e))
            if k not in opts:
                return None
            tot += opts[k] * (e - s)
        return tot

    def search(self, limit):
        """Best score and analysis by exhaustive enumeration, or None if there are more than limit."""
        best, count = (-math.inf, None), 0
        # a state: (segments before the last, last segment incl. keys, classifier score)
        stack = [((), 0, 0.0, 0.0)]
        found = False
        while stack:
            path, pos, acc, mod = stack.pop()
            count += 1
            if count > limit:
                return "many"
            if pos == self.score.n:
                tot = acc + mod + self.ctm_score(path)
                found = True
                if best[1] is None or tot > best[0]:
                    best = (tot, path)
                continue
            last = path[-1] if path else None
            for rg in self.by_start.get(pos, ()):
                for c in self.candidates(rg, last[0] if last else None):
                    a2 = acc + math.log(self.prior(rg)[c]) * (rg[1] - rg[0])
                    if last and c == last[0]:
                        if self.blocked(pos):
                            continue
                        prev, s = path[:-1], last[2]
                        base = self.model_score(prev)
                    else:
                        prev, s, base = path, pos, mod
                    for k, v in self.key_options(prev, (c, s, rg[1])).items():
                        stack.append((prev + ((c, k, s, rg[1]),), rg[1], a2, base + v * (rg[1] - s)))
        return best if found else None


def analysis(cfg, state):
    """Path of a returned State through its public accessors: tuple of (chord, key, start, end)."""
    chords, cc = state.get_chords()
    keys, kc = state.get_keys()
    segs = []
    for c, s, e in zip(chords, cc[:-1], cc[1:]):
        k = [key for key, a, b in zip(keys, kc[:-1], kc[1:]) if a <= s < b]
        segs.append((int(c), int(k[0]) if len(k) == 1 else None, int(s), int(e)))
    return tuple(segs)


# ----------------------------------------------------------------------------- the scripts
def script(name):
    """One of the repository's scripts as a module (test.py shares its name with a standard module)."""
    spec = importlib.util.spec_from_file_location("vmon_script_" + name, os.path.join(repo_dir(), name + ".py"))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


class StandIn:
    """A model with prepared analyses."""

    def __init__(self, states, pt):
        self.states, self.CHORD_OUTPUT_TYPE, self.KEY_OUTPUT_TYPE = states, pt, pt
        self.calls = []

    def get_harmony(self, piece, **kwargs):
        self.calls.append((piece.name, kwargs))
        return self.states[id(piece)]


class Records(logging.Handler):
    def __init__(self):
        super().__init__(level=0)
        self.records = []

    def emit(self, record):
        self.records.append(record)


def logged(level, func, *args, **kwargs):
    """Run func with the root logger at a level; returns (result, records)."""
    root = logging.getLogger()
    h, old, dis = Records(), root.level, logging.root.manager.disable
    handlers, root.handlers = root.handlers, [h]
    root.setLevel(level)
    logging.disable(logging.NOTSET)
    try:
        return func(*args, **kwargs), h.records
    finally:
        logging.disable(dis)
        root.setLevel(old)
        root.handlers = handlers
