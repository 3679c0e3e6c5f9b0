"""C30: evaluation scores; C31: result and annotation tables."""
import logging
import math
import os
import shutil
import tempfile
from fractions import Fraction as F

import numpy as np
import pandas as pd

from vmon import joint
from vmon import theory as T
from vmon.checks.c07_c08 import CT, MIDI, TPC, level
from vmon.checks.c09_c10_c11 import TYPES, rand_reduction
from vmon.checks.c23_c24 import LABELS
from vmon.core import rule, scenario
from vmon.joint import StandIn, logged, script

import harmonic_inference.utils.eval_utils as eu
import harmonic_inference.utils.harmonic_utils as hu
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.data_types import (ALL_ONE_TYPE_REDUCTION, NO_REDUCTION, TRIAD_REDUCTION, KeyMode)
from harmonic_inference.data.key import Key
from harmonic_inference.data.note import Note
from harmonic_inference.data.piece import ScorePiece
from harmonic_inference.utils.beam_search_utils import State

rule("C30", "random pieces (irregular measures, chords of simultaneous notes, grace notes, true labels that start "
     "between notes) x estimated label sequences (near misses in root, type, inversion, tonic, mode; segments split "
     "at random) x reductions, inversions, tonic-only, pitch types of truth and estimate; oracle: exact fractions; "
     "non-trivial = one evaluated pair")
rule("C31", "the same pieces and estimates, and the scripts' annotate/evaluate with a stand-in model writing into a "
     "scratch directory; oracle: tables rebuilt from the labels of each note; non-trivial = one table",
     ["the joint model is replaced by a stand-in whose get_harmony returns a prepared State"])
STR = {}
for _pt in (TPC, MIDI):
    STR[_pt] = {"chord": list(hu.get_chord_label_list(_pt, use_inversions=True)), "key": list(hu.get_key_label_list(_pt))}
CHORD_IDX = {pt: {x: k for k, x in enumerate(LABELS[pt]["chord"])} for pt in (TPC, MIDI)}
KEY_IDX = {pt: {x: k for k, x in enumerate(LABELS[pt]["key"])} for pt in (TPC, MIDI)}


def midi(pt, p):
    return p % 12 if pt == MIDI else T.tpc_to_midi(p)


def conv(pt, p, to):
    """The pitches of type `to` a pitch of type pt may become."""
    if pt == to:
        return {p}
    if to == MIDI:
        return {midi(pt, p)}
    return {t for t in range(T.N_TPC) if T.tpc_to_midi(t) == p % 12}


def rand_label(rng, pt, near=None):
    if near is not None and rng.random() < 0.75:
        root, ct, inv = near
        r = rng.random()
        if r < 0.45:
            return near
        if r < 0.6:
            return root, ct, rng.randrange(T.inv_count(ct.name))
        if r < 0.8:
            ct = CT[rng.choice(TYPES)]
            return root, ct, min(inv, T.inv_count(ct.name) - 1)
        n = 12 if pt == MIDI else T.N_TPC
        return (root + rng.choice([1, -1, 7, 12])) % n, ct, inv
    ct = rng.choice(TYPES)
    root = rng.randrange(12) if pt == MIDI else rng.randrange(4, 31)
    return root, CT[ct], rng.randrange(T.inv_count(ct))


def rand_key(rng, pt, near=None):
    if near is not None and rng.random() < 0.7:
        tonic, mode = near
        r = rng.random()
        if r < 0.5:
            return near
        if r < 0.75:
            return tonic, rng.choice(list(KeyMode))
        n = 12 if pt == MIDI else T.N_TPC
        return (tonic + rng.choice([1, -1, 12, 3])) % n, mode
    return (rng.randrange(12) if pt == MIDI else rng.randrange(4, 31)), rng.choice(list(KeyMode))


class Pair:
    """A piece with true labels and an estimate: the label of every note, and the real objects."""

    def __init__(self, rng, pt=None, est_pt=None, suspensions=False, name=None, truth=True):
        self.pt = pt or rng.choice([TPC, TPC, MIDI])
        while True:
            sc = joint.Score(rng, self.pt, rng.choice([1, 3, 6, 10]))
            lay = sc.lay
            end = max(sc.end, rng.choice([sc.end, lay.end]))
            if end > 0:
                break
        self.lay = lay
        self.times = [t for t, _ in sc.notes]
        n = self.n = len(self.times)
        self.notes = [Note(x.pitch_class, x.octave, x.onset, x.onset_level, x.duration, x.offset, x.offset_level,
                           x.pitch_type, mc_onset=x.onset[1] + F(rng.randrange(3), 7) if rng.random() < 0.5 else None)
                      for x in sc.note_objs]
        for a, b in zip(self.notes, self.notes[1:]):
            if a.onset == b.onset:
                b.mc_onset = a.mc_onset
        # durations: to the next onset, the last one to the end of the last true chord
        self.end = end
        dur_end = end if truth else sc.end
        self.dur = [b - a for a, b in zip(self.times, self.times[1:] + [dur_end])]
        # true chords start at random places; the first one at the first note
        cuts = {self.times[0]}
        for _ in range(rng.randrange(0, 6)):
            r = rng.random()
            t = rng.choice(self.times) if r < 0.8 else self.times[0] + (self.times[-1] - self.times[0]) * F(rng.randrange(8), 8)
            cuts.add(t)
        cuts = sorted(cuts)
        labels, keys, key_changes = [], [], []
        for k, t in enumerate(cuts):
            labels.append(rand_label(rng, self.pt, labels[-1] if labels else None))
            if not keys or rng.random() < 0.4:
                keys.append(rand_key(rng, self.pt, keys[-1] if keys else None))
                key_changes.append(k)
        changes = [next(j for j, x in enumerate(self.times) if x >= t) for t in cuts]
        self.true_chord = [labels[max(k for k, c in enumerate(changes) if c <= j)] for j in range(n)]
        of_key = [max(q for q, c in enumerate(key_changes) if c <= k) for k in range(len(cuts))]
        self.true_key = [keys[of_key[max(k for k, c in enumerate(changes) if c <= j)]] for j in range(n)]

        def pos(t):
            return lay.end_pos() if t == lay.end else lay.pos(t)

        self.susp = [None] * len(cuts)
        chords = []
        for k, (t, (root, ct, inv)) in enumerate(zip(cuts, labels)):
            u = cuts[k + 1] if k + 1 < len(cuts) else end
            tonic, mode = keys[of_key[k]]
            if suspensions and self.pt == TPC and rng.random() < 0.5:
                self.susp[k] = rng.choice(["4", "2", "9", "6", "+9", "+4", "4+9", "#5", "b6", "64", "^4"])
            bass = T.chord_tones(ct.name, root, self.pt == MIDI)[inv]
            chords.append(Chord(root, bass, tonic, mode, ct, inv, pos(t), 3, pos(u), 1, u - t, self.pt, self.susp[k]))
        self.chords = chords
        self.chord_of = [max(k for k, c in enumerate(changes) if c <= j) for j in range(n)]
        other = [rand_key(rng, self.pt) for _ in range(2)]  # the local and global keys
        key_objs = [Key(t, other[0][0], other[1][0], m, other[0][1], other[1][1], self.pt) for t, m in keys]
        ranges = [(c, changes[k + 1] if k + 1 < len(changes) else n) for k, c in enumerate(changes)]
        df = lay.df()
        if truth:
            self.piece = ScorePiece(df, self.notes, chords, key_objs, changes, ranges, key_changes, name=name)
        else:
            self.piece = ScorePiece(df, self.notes, None, None, None, None, None, name=name)
        # the estimate: per-note labels that change at onsets
        self.ept = est_pt or (self.pt if rng.random() < 0.7 else MIDI)
        perfect = rng.random() < 0.12
        self.est_chord, self.est_key = [], []
        for j in range(n):
            tc = self.to_est_chord(rng, self.true_chord[j])
            tk = self.to_est_key(rng, self.true_key[j])
            new = j == 0 or (self.times[j] != self.times[j - 1] and rng.random() < 0.5)
            if perfect:
                self.est_chord.append(tc)
                self.est_key.append(tk)
                continue
            self.est_chord.append(rand_label(rng, self.ept, tc) if new else self.est_chord[-1])
            self.est_key.append(rand_key(rng, self.ept, tk) if new and (j == 0 or rng.random() < 0.4)
                                else self.est_key[-1])
        self.perfect = perfect
        self.state = self.make_state(rng)
        self.rows = [j for j in range(n) if self.dur[j] > 0]

    def to_est_chord(self, rng, label):
        return (rng.choice(sorted(conv(self.pt, label[0], self.ept))),) + tuple(label[1:])

    def to_est_key(self, rng, key):
        return (rng.choice(sorted(conv(self.pt, key[0], self.ept))), key[1])

    def make_state(self, rng):
        """A chain of states for the estimate, split at random where nothing changes."""
        s = State(change_index=0)
        for j in range(1, self.n + 1):
            last = j == self.n
            if last or self.est_chord[j] != self.est_chord[j - 1] or self.est_key[j] != self.est_key[j - 1] \
                    or rng.random() < 0.2:
                s = State(chord=CHORD_IDX[self.ept][self.est_chord[j - 1]], key=KEY_IDX[self.ept][self.est_key[j - 1]],
                          change_index=j, prev_state=s)
        return s

    def det(self):
        return dict(pt=self.pt.name, est=self.ept.name, times=[str(t) for t in self.times],
                    true=[(c[0], c[1].name, c[2]) for c in self.true_chord],
                    estimate=[(c[0], c[1].name, c[2]) for c in self.est_chord],
                    keys=[(k[0], k[1].name) for k in self.true_key], est_keys=[(k[0], k[1].name) for k in self.est_key])

    # the truth in the estimate's pitch type (well defined: the same, or TPC to MIDI)
    def gt_chord(self, j):
        c = self.true_chord[j]
        return (min(conv(self.pt, c[0], self.ept)),) + tuple(c[1:])

    def gt_key(self, j):
        k = self.true_key[j]
        return min(conv(self.pt, k[0], self.ept)), k[1]

    def chord_ok(self, j, names, inv):
        a, b = self.gt_chord(j), self.est_chord[j]
        return a[0] == b[0] and names[a[1].name] == names[b[1].name] and (not inv or a[2] == b[2])

    def key_ok(self, j, tonic_only):
        a, b = self.gt_key(j), self.est_key[j]
        return a[0] == b[0] and (tonic_only or a[1] == b[1])

    def score(self, ok):
        return sum((self.dur[j] for j in self.rows if ok(j)), F(0)) / sum(self.dur)


TRIAD = {t: next(q for q in T.TRIADS if T.CHORD_FIFTHS[q] == T.CHORD_FIFTHS[t][:3]) for t in TYPES}
PLAIN = {t: t for t in TYPES}
ONE = {t: "x" for t in TYPES}


def close(a, b):
    return math.isclose(float(a), float(b), rel_tol=1e-9, abs_tol=1e-9)


def reductions(rng):
    red, names = rand_reduction(rng)
    return [(NO_REDUCTION, PLAIN), (TRIAD_REDUCTION, TRIAD), (ALL_ONE_TYPE_REDUCTION, ONE), (red, names)]


@scenario("C30", quick=180, thorough=4000)
def scores(ctx, rng, i):
    p = Pair(rng)
    if p.ept != p.pt and p.ept == TPC:
        return
    det = p.det()
    other = p.make_state(rng)  # the same labels, split elsewhere
    got = {}
    ctx.ev("piece")
    ctx.ev("note", p.n)
    ctx.sig(p.pt.name, p.ept.name, tuple(det["times"]), tuple(det["true"]), tuple(det["estimate"]))
    for q, (red, names) in enumerate(reductions(rng)):
        for inv in (True, False):
            want = p.score(lambda j: p.chord_ok(j, names, inv))
            for st in (p.state, other):
                acc = ctx.call("eval-chords", eu.evaluate_chords, p.piece, st, p.ept, use_inversion=inv, reduction=red)
                ctx.check(close(acc, want), "eval-chords", "share of the duration whose chords agree", got_acc=acc,
                          want_acc=want, inv=inv, red=q, **det)
            got[q, inv] = float(acc)
            for to in (False, True):
                want = p.score(lambda j: p.chord_ok(j, names, inv) and p.key_ok(j, to))
                acc = ctx.call("eval-joint", eu.evaluate_chords_and_keys_jointly, p.piece, other if inv else p.state,
                               p.ept, p.ept, use_inversion=inv, chord_reduction=red, tonic_only=to)
                ctx.check(close(acc, want), "eval-joint", "share of the duration whose chords and keys agree",
                          got_acc=acc, want_acc=want, inv=inv, red=q, tonic_only=to, **det)
                got[q, inv, to] = float(acc)
            ctx.ev("score", 4)
    for to in (False, True):
        want = p.score(lambda j: p.key_ok(j, to))
        for st in (p.state, other):
            acc = ctx.call("eval-keys", eu.evaluate_keys, p.piece, st, p.ept, tonic_only=to)
            ctx.check(close(acc, want), "eval-keys", "share of the duration whose keys agree", got_acc=acc,
                      want_acc=want, tonic_only=to, **det)
        got[to] = float(acc)
        ctx.ev("score", 2)
    # defaults: everything must match
    ctx.check(close(ctx.call("eval-chords", eu.evaluate_chords, p.piece, p.state, p.ept),
                    p.score(lambda j: p.chord_ok(j, PLAIN, True))), "eval-default", "default chord score", **det)
    ctx.check(close(ctx.call("eval-keys", eu.evaluate_keys, p.piece, p.state, p.ept),
                    p.score(lambda j: p.key_ok(j, False))), "eval-default", "default key score", **det)
    ctx.check(close(ctx.call("eval-joint", eu.evaluate_chords_and_keys_jointly, p.piece, p.state, p.ept, p.ept),
                    p.score(lambda j: p.key_ok(j, False) and p.chord_ok(j, PLAIN, True))), "eval-default",
              "default joint score", **det)
    eps = 1e-9
    ctx.check(all(-eps <= v <= 1 + eps for v in got.values()), "eval-bounds", "scores lie in [0, 1]", **det)
    for q in range(4):
        ctx.check(got[q, True] <= got[q, False] + eps and got[0, True] <= got[q, True] + eps
                  and got[q, False] <= got[2, False] + eps, "eval-monotone", "more must match, lower score", **det)
        for inv in (True, False):
            for to in (True, False):
                ctx.check(got[q, inv, to] <= min(got[q, inv], got[to]) + eps
                          and got[q, inv] + got[to] - 1 <= got[q, inv, to] + eps, "eval-monotone",
                          "the joint score is bounded by the others", **det)
    if p.perfect:
        ctx.ev("perfect_estimate")
        ctx.check(all(close(v, 1) for v in got.values()), "eval-perfect", "a perfect estimate scores one", **det)


@scenario("C30", quick=120, thorough=2000)
def distances(ctx, rng, i):
    """The pairwise distances behind the scores, over pairs of labels."""
    red, names = rng.choice(reductions(rng))
    for _ in range(40):
        pt = rng.choice([TPC, MIDI])
        a = rand_label(rng, pt)
        b = rand_label(rng, pt, a)
        for inv in (True, False):
            d = ctx.call("chord-distance", eu.get_chord_distance, a[0], a[1], a[2], b[0], b[1], b[2],
                         use_inversion=inv, reduction=red)
            same = a[0] == b[0] and names[a[1].name] == names[b[1].name] and (not inv or a[2] == b[2])
            ctx.eq(float(d), 0.0 if same else 1.0, "chord-distance", "zero exactly for the same chord", a=a, b=b, inv=inv)
            d2 = eu.get_chord_distance(b[0], b[1], b[2], a[0], a[1], a[2], use_inversion=inv, reduction=red)
            ctx.eq(d2, d, "chord-distance", "symmetric", a=a, b=b)
        k = rand_key(rng, pt)
        m = rand_key(rng, pt, k)
        for to in (True, False):
            d = ctx.call("key-distance", eu.get_key_distance, k[0], k[1], m[0], m[1], tonic_only=to)
            same = k[0] == m[0] and (to or k[1] == m[1])
            ctx.eq(float(d), 0.0 if same else 1.0, "key-distance", "zero exactly for the same key", a=k, b=m, to=to)
        ctx.ev("pair", 2)
        ctx.sig(pt.name, a[0], a[1].name, a[2], b[0], b[1].name, b[2], sample=False)


# ------------------------------------------------------------------------------------------- C31
def pos_of(row):
    return int(row["mc"]), F(row["mn_onset"])


def check_results(ctx, p, df, root_pt, tonic_pt, det, key="results"):
    """A results table against the labels of every note with a duration."""
    ctx.require(len(df) == len(p.rows), key + "-rows", "one row per onset", got=len(df), want=len(p.rows), **det)
    ok = True
    for j, row in zip(p.rows, df.to_dict("records")):
        for pre, ch, ky, pt in (("gt", p.true_chord[j], p.true_key[j], p.pt), ("est", p.est_chord[j], p.est_key[j], p.ept)):
            chords = {STR[root_pt]["chord"][CHORD_IDX[root_pt][(r,) + tuple(ch[1:])]] for r in conv(pt, ch[0], root_pt)}
            keys = {STR[tonic_pt]["key"][KEY_IDX[tonic_pt][(t, ky[1])]] for t in conv(pt, ky[0], tonic_pt)}
            ok &= ctx.check(row[pre + "_chord"] in chords, key + "-" + pre + "-chord", "the chord of this onset",
                            row=row, allowed=sorted(chords)[:4], note=j, **det)
            ok &= ctx.check(row[pre + "_key"] in keys, key + "-" + pre + "-key", "the key of this onset", row=row,
                            allowed=sorted(keys)[:4], note=j, **det)
        ok &= ctx.eq(F(row["duration"]), p.dur[j], key + "-duration", "the duration of this onset", row=row, note=j, **det)
        ctx.ev("result_row")
        if not ok:
            return


def change_rows(p, coloured):
    """Expected rows of the label tables: (label, mc, mc_onset, mn_onset[, colour])."""
    out, prev = [], None
    for j in p.rows:
        cur = dict(ec=p.est_chord[j], ek=p.est_key[j], gc=p.gt_chord(j), gk=p.gt_key(j))
        at = (int(p.notes[j].onset[0]), p.notes[j].mc_onset, p.notes[j].onset[1])
        for kind, e, g in (("key", "ek", "gk"), ("chord", "ec", "gc")):
            e_new = prev is None or cur[e] != prev[e]
            g_new = prev is None or cur[g] != prev[g]
            if not (e_new or (coloured and g_new)):
                continue
            idx = KEY_IDX if kind == "key" else CHORD_IDX
            text = STR[p.ept][kind][idx[p.ept][cur[e]]] if e_new else "--"
            if not coloured:
                out.append((text,) + at)
                continue
            if kind == "key":
                colour = "green" if p.key_ok(j, False) else "yellow" if p.key_ok(j, True) else "red"
            else:
                colour = "green" if p.chord_ok(j, PLAIN, True) else "yellow" if p.chord_ok(j, TRIAD, False) else "red"
            out.append((text,) + at + (colour,))
        prev = cur
    return out


def table_rows(df, coloured):
    cols = ["label", "mc", "mc_onset", "mn_onset"] + (["color_name"] if coloured else [])
    return [tuple(F(r[c]) if c.endswith("onset") else int(r[c]) if c == "mc" else r[c] for c in cols)
            for r in df.to_dict("records")]


@scenario("C31", quick=110, thorough=4000)
def tables(ctx, rng, i):
    p = Pair(rng)
    det = p.det()
    ctx.ev("piece")
    ctx.sig(p.pt.name, p.ept.name, tuple(det["times"]), tuple(det["true"]), tuple(det["estimate"]))
    for root_pt, tonic_pt in ((TPC, TPC), (MIDI, MIDI), (rng.choice([TPC, MIDI]), rng.choice([TPC, MIDI]))):
        df = ctx.call("results", eu.get_results_df, p.piece, p.state, p.ept, p.ept, root_pt, tonic_pt)
        check_results(ctx, p, df, root_pt, tonic_pt, dict(det, out=(root_pt.name, tonic_pt.name)))
    df = ctx.call("annotation", eu.get_annotation_df, p.state, p.piece, p.ept, p.ept)
    want = change_rows(p, False)
    ctx.eq(table_rows(df, False), want, "annotation", "a row wherever the estimated key or chord changes", **det)
    ctx.ev("annotation_row", len(want))
    df = ctx.call("labels", eu.get_label_df, p.state, p.piece, p.ept, p.ept)
    want = change_rows(p, True)
    ctx.eq(table_rows(df, True), want, "labels", "a coloured row wherever estimate or truth changes", **det)
    ctx.ev("label_row", len(want))
    # the same without ground truth
    q = Pair(rng, truth=False)
    df = ctx.call("annotation", eu.get_annotation_df, q.state, q.piece, q.ept, q.ept)
    ctx.eq(table_rows(df, False), change_rows(q, False), "annotation-no-truth",
           "annotations do not need ground truth", **q.det())


@scenario("C31", quick=110, thorough=4000)
def truth_table(ctx, rng, i):
    p = Pair(rng, pt=TPC, suspensions=True)
    tpc_c = rng.choice([None, None, 0, 14, 20])
    shift = 0 if tpc_c is None else tpc_c - T.C_TPC
    det = dict(p.det(), tpc_c=tpc_c, susp=p.susp)
    want_susp = []
    for c in p.chords:
        if c.suspension is None:
            want_susp.append(("", ""))
            continue
        try:
            m = hu.get_added_and_removed_pitches(c.root, c.chord_type, c.suspension, c.key_tonic, c.key_mode)
            tp, mi = [], []
            for orig, new in m.items():
                pre, new = ("+", new[1:]) if new[0] == "+" else ("", new)
                if not all(0 <= int(x) < T.N_TPC for x in (orig, new) if x != ""):
                    return  # not a representable pitch
                tp.append("%s:%s%d" % ("" if orig == "" else int(orig) + shift, pre, int(new) + shift))
                mi.append("%s:%s%d" % ("" if orig == "" else T.tpc_to_midi(int(orig)), pre, T.tpc_to_midi(int(new))))
        except Exception:
            return  # the label itself is refused (C06)
        want_susp.append((";".join(tp), ";".join(mi)))
    df = ctx.call("truth", eu.get_labels_df, p.piece, **({} if tpc_c is None else dict(tpc_c=tpc_c)))
    ctx.ev("piece")
    ctx.sig(tuple(det["times"]), tuple(det["true"]), tpc_c, tuple(p.susp))
    ctx.require(len(df) == len(p.rows), "truth-rows", "one row per onset", got=len(df), want=len(p.rows), **det)
    for j, r in zip(p.rows, df.to_dict("records")):
        root, ct, inv = p.true_chord[j]
        tonic, mode = p.true_key[j]
        s = want_susp[p.chord_of[j]]
        got = (r["chord_root_tpc"], r["chord_root_midi"], r["chord_type"], r["chord_inversion"], r["chord_suspension_tpc"],
               r["chord_suspension_midi"], r["key_tonic_tpc"], r["key_tonic_midi"], r["key_mode"], r["duration"], r["mc"],
               r["mn_onset"])
        want = (root + shift, T.tpc_to_midi(root), ct, inv, s[0], s[1], tonic + shift, T.tpc_to_midi(tonic), mode,
                p.dur[j]) + tuple(p.notes[j].onset)
        ctx.eq(got, want, "truth", "the true labels of this onset", note=j, **det)
        ctx.ev("truth_row")


def read_tsv(path):
    return pd.read_csv(path, sep="\t", index_col=0, converters={c: F for c in ("mc_onset", "mn_onset", "duration")},
                       keep_default_na=False, engine="python")


@scenario("C31", quick=12, thorough=300)
def scripts(ctx, rng, i):
    """annotate.annotate and test.evaluate write every piece's own table; the log holds its scores."""
    pt = rng.choice([TPC, TPC, MIDI])
    k = rng.randrange(1, 5)
    ext = rng.choice(["tsv", "tsv", "mxl"])
    paths = rng.sample(["%s/%s" % (d, n) for d in ("Bach", "Cle_menti", "x/y", "J S/Bach", "x")
                        for n in ("op1.1", "op1.2", "op 1.2", "a", "b: c")], k)
    names = ["%d: %s.%s" % (q, path, ext) for q, path in enumerate(paths)]
    ps = [Pair(rng, pt=TPC, est_pt=pt, name=nm) for nm in names]
    gone = [rng.random() < 0.2 for _ in ps]
    model = StandIn({id(p.piece): None if g else p.state for p, g in zip(ps, gone)}, pt)
    tmp = tempfile.mkdtemp(prefix="vmon_c31_")
    det = dict(names=names, none=gone, pt=pt.name)
    ctx.sig(pt.name, tuple(names), tuple(gone), tuple(len(p.rows) for p in ps))
    try:
        ann = script("annotate")
        ctx.call("annotate", ann.annotate, model, [p.piece for p in ps], output_tsv_dir=os.path.join(tmp, "a"))
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk(os.path.join(tmp, "a")) for f in fs)
        by_path = {os.path.relpath(f, os.path.join(tmp, "a")): f for f in files}
        ctx.eq(sorted(by_path), sorted(n + ".tsv" for n, g in zip(paths, gone) if not g), "annotate-files",
               "one file per analysed piece, in a sub-directory according to its name", **det)
        for p, nm, path, g in zip(ps, names, paths, gone):
            if g or path + ".tsv" not in by_path:
                continue
            df = read_tsv(by_path[path + ".tsv"])
            ctx.eq(table_rows(df, False), change_rows(p, False), "annotate-table", "the piece's own annotations",
                   piece=nm, **det)
            ctx.ev("annotated_piece")
        test = script("test")
        _, recs = logged(logging.INFO, ctx.call, "evaluate", test.evaluate, model, [p.piece for p in ps],
                         output_tsv_dir=os.path.join(tmp, "e"))
        for p, nm, path, g in zip(ps, names, paths, gone):
            base = os.path.join(tmp, "e", path)
            got = [os.path.exists(base + s) for s in (".tsv", "_results.tsv", "_results_midi.tsv")]
            ctx.eq(got, [not g] * 3, "evaluate-files", "tables for the analysed pieces only", piece=nm, **det)
            if g or not all(got):
                continue
            ctx.eq(table_rows(read_tsv(base + ".tsv"), True), change_rows(p, True), "evaluate-table",
                   "the piece's own labels", piece=nm, **det)
            check_results(ctx, p, read_tsv(base + "_results.tsv"), TPC, TPC, dict(det, piece=nm), "evaluate-results")
            check_results(ctx, p, read_tsv(base + "_results_midi.tsv"), MIDI, MIDI, dict(det, piece=nm), "evaluate-midi")
            ctx.ev("evaluated_piece")
        # the log, averaged
        log = os.path.join(tmp, "log.txt")
        with open(log, "w") as f:
            f.write("\n".join(r.getMessage() for r in recs) + "\n")
        avg = ctx.call("average", eu.average_results, log)
        full = [p for p, g in zip(ps, gone) if not g]
        if full:
            def mean(fn):
                return sum(p.score(lambda j: fn(p, j)) for p in full) / len(full)

            want = {"Chord accuracy": mean(lambda p, j: p.chord_ok(j, PLAIN, True)),
                    "Chord accuracy, no inversions": mean(lambda p, j: p.chord_ok(j, PLAIN, False)),
                    "Chord accuracy, triads": mean(lambda p, j: p.chord_ok(j, TRIAD, True)),
                    "Chord accuracy, triad, no inversions": mean(lambda p, j: p.chord_ok(j, TRIAD, False)),
                    "Chord accuracy, root only": mean(lambda p, j: p.chord_ok(j, ONE, False)),
                    "Key accuracy": mean(lambda p, j: p.key_ok(j, False)),
                    "Key accuracy, tonic only": mean(lambda p, j: p.key_ok(j, True)),
                    "Full accuracy": mean(lambda p, j: p.chord_ok(j, PLAIN, True) and p.key_ok(j, False))}
            for key, value in want.items():
                if ctx.check(key in avg, "average", "every logged score is averaged", missing=key, **det):
                    ctx.check(close(avg[key], value), "average", "the mean of the pieces' scores", score=key,
                              got_avg=avg[key], want_avg=value, **det)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


@scenario("C31", quick=40, thorough=800)
def averages(ctx, rng, i):
    """Result files: every `name = value` line with an accuracy counts once, everything else is ignored."""
    sep = rng.choice([" = ", " = ", ": ", "="])
    names = rng.sample(["Full accuracy", "Chord accuracy", "Chord accuracy, no inversions", "Key accuracy", "accuracy"], 3)
    lines, vals = [], {}
    for _ in range(rng.randrange(1, 30)):
        r = rng.random()
        if r < 0.7:
            nm, v = rng.choice(names), rng.choice([0.0, 1.0, rng.random(), rng.random() * 1e-9])
            vals.setdefault(nm, []).append(v)
            lines.append(rng.choice(["", "", "  ", "\t"]) + nm + sep + repr(v))
        elif r < 0.8:
            lines.append(rng.choice(["Running piece 3" + sep + "x", "accuracy a" + sep + "b" + sep + "0.5"]))
        elif r < 0.9:
            lines.append("no separator here, accuracy")
        else:
            lines.append("")
    tmp = tempfile.mkdtemp(prefix="vmon_c31_")
    try:
        path = os.path.join(tmp, "r.txt")
        with open(path, "w") as f:
            f.write("\n".join(lines) + rng.choice(["", "\n"]))
        avg = ctx.call("average", eu.average_results, path, **({} if sep == " = " and rng.random() < 0.5 else dict(split_on=sep)))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.ev("averaged", len(vals))
    ctx.sig(sep, tuple(lines), sample=False)
    ctx.eq(sorted(avg), sorted(vals), "average", "the accuracies of the file", lines=lines[:8])
    for nm, v in vals.items():
        ctx.check(nm in avg and close(avg[nm], math.fsum(v) / len(v)), "average", "the mean of the values", lines=lines[:8])


@scenario("C31", quick=40, thorough=800)
def state_log(ctx, rng, i):
    """The logged structure of an analysis."""
    p = Pair(rng)
    _, recs = logged(logging.DEBUG, ctx.call, "log-state", eu.log_state, p.state, p.piece, p.ept, p.ept)
    segs = []
    for j in range(p.n):
        cur = (p.gt_key(j), p.gt_chord(j), p.est_key[j], p.est_chord[j])
        if not segs or segs[-1][0] != cur:
            segs.append([cur, F(0)])
        segs[-1][1] += p.dur[j]
    want = []
    for (gk, gc, ek, ec), d in segs:
        gt = STR[p.ept]["key"][KEY_IDX[p.ept][gk]], STR[p.ept]["chord"][CHORD_IDX[p.ept][gc]]
        est = STR[p.ept]["key"][KEY_IDX[p.ept][ek]], STR[p.ept]["chord"][CHORD_IDX[p.ept][ec]]
        want.append((d, est, gt if gt != est else None))
    got = []
    for r in recs:
        m = r.getMessage()
        if "(duration" in m:
            got.append([F(m.split("(duration ")[1].split(")")[0]), None, None])
        elif "Estimated structure: " in m:
            got[-1][1] = tuple(m.split("structure: ")[1].split("\t"))
        elif "Correct structure: " in m:
            got[-1][2] = tuple(m.split("structure: ")[1].split("\t"))
    ctx.ev("logged_segment", len(want))
    ctx.sig(tuple(str(w) for w in want), sample=False)
    ctx.eq([tuple(g) for g in got], want, "log-state", "one entry per segment of constant labels", **p.det())


@scenario("C31", quick=3, thorough=20)
def no_truth(ctx, rng, i):
    """The evaluation script on a piece whose ground truth is unknown (it says so and goes on)."""
    p = Pair(rng, pt=TPC, est_pt=TPC, truth=False, name="0: a/b.mxl")
    tmp = tempfile.mkdtemp(prefix="vmon_c31_")
    try:
        test = script("test")
        try:
            test.evaluate(StandIn({id(p.piece): p.state}, TPC), [p.piece], output_tsv_dir=tmp)
        except Exception as exc:
            ctx.check(False, "label-df-no-truth", "evaluating a piece without ground truth fails", error=repr(exc))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.ev("no_truth")
    ctx.sig(i)
