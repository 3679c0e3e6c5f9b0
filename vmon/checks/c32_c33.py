"""C32: dataset items; C33: saving, loading and splitting datasets."""
import copy
import os
import shutil
import tempfile
from fractions import Fraction as F

import numpy as np

from vmon import joint, pieces, shim
from vmon import theory as T
from vmon.checks.c07_c08 import CT, MIDI, TPC
from vmon.checks.c09_c10_c11 import TYPES, quiet, rand_reduction, sections, space, want_note_vec, want_vec
from vmon.core import rule, scenario

import harmonic_inference.data.datasets as ds
from harmonic_inference.data.chord import Chord
from harmonic_inference.data.data_types import KeyMode
from harmonic_inference.data.key import Key
from harmonic_inference.data.piece import ScorePiece

rule("C32", "random pieces (1-4, several keys, chords that start between notes, simultaneous and grace notes) made into "
     "each kind of dataset x reduction x inversions x pitch-based x transposition range, read in random orders with "
     "repetition, in batches, padded or not, with settings changed in between; oracle: each item rebuilt from the "
     "piece's chords, keys and notes; non-trivial = one item",
     ["torch's DataLoader and default collation are replaced by a numpy stand-in"])
rule("C33", "the same datasets saved, loaded (in memory, streamed after a MemoryError injected at any read, with every "
     "chunk size), copied and saved again; random corpora with missing or unusable pieces split by random proportions "
     "and seeds; oracle: the items of the original dataset at half precision, and the partition rule; non-trivial = "
     "one reloaded dataset or one split",
     ["h5py is replaced by a stand-in that stores the same arrays and can fail on a read"])
MAJ = KeyMode.MAJOR


class Data:
    """A piece built directly, with the abstract chords and keys behind it."""

    def __init__(self, rng, pt, n_chords=None, n_keys=None, edge=False):
        self.pt = pt
        midi = pt == MIDI
        n = n_chords or rng.randrange(1, 11)
        sc = joint.Score(rng, pt, rng.choice([1, 3, 6, 10]))
        self.sc = sc
        times = [t for t, _ in sc.notes]
        self.times = times
        starts = sorted({0} | {rng.randrange(len(times)) for _ in range(n - 1)})
        starts = [times.index(times[s]) for s in starts]
        starts = sorted(set(starts)) if rng.random() < 0.7 else starts
        n = len(starts)
        nk = min(n, n_keys or rng.choice([1, 1, 2, 3, 5]))
        self.key_changes = [0] + sorted(rng.sample(range(1, n), nk - 1))
        lo, hi = (0, 12) if midi else ((4, 31) if edge else (12, 23))
        self.keys = []
        for _ in self.key_changes:
            while True:
                k = (rng.randrange(lo, hi), rng.choice(list(KeyMode)))
                if not self.keys or (k != self.keys[-1] and
                                     (midi or T.KEY_MIN <= k[0] - self.keys[-1][0] < T.KEY_MAX)):
                    break
            self.keys.append(k)
        self.key_of = [max(q for q, c in enumerate(self.key_changes) if c <= k) for k in range(n)]
        end = max(sc.end, times[-1])
        self.chords = []
        for k in range(n):
            tonic, mode = self.keys[self.key_of[k]]
            prev = self.keys[max(0, self.key_of[k] - 1)][0]
            while True:
                ct = rng.choice(TYPES)
                inv = rng.randrange(T.inv_count(ct))
                root = rng.randrange(12) if midi else tonic + rng.randrange(-8, 9)
                tones = T.chord_tones(ct, root, midi)
                if midi:
                    break
                n0, lo0 = sections(pt, False)
                n1, lo1 = sections(pt, True)
                if 0 <= root < T.N_TPC and 0 <= tones[inv] < T.N_TPC and \
                        all(0 <= p - tonic - lo0 < n0 and 0 <= p - prev - lo1 < n1 for p in (root, tones[inv])):
                    break
            t0 = times[starts[k]]
            t1 = times[starts[k + 1]] if k + 1 < n else end
            self.chords.append(dict(
                root=root, bass=tones[inv], key_tonic=tonic, key_mode=mode, chord_type=CT[ct], inversion=inv,
                onset=sc.note_objs[starts[k]].onset, onset_level=rng.randrange(4),
                offset=sc.lay.end_pos() if t1 == sc.lay.end else sc.lay.pos(t1), offset_level=rng.randrange(4),
                duration=t1 - t0, pitch_type=pt))
        self.starts = starts
        other = (rng.randrange(lo, hi), rng.choice(list(KeyMode)))
        self.dur = [b - a for a, b in zip(times, times[1:] + [end])]
        ranges = []
        for k in range(n):
            t = times[starts[k]]
            first = next(j for j, (a, d) in enumerate(sc.notes) if a >= t or a + d > t)
            ranges.append((first, starts[k + 1] if k + 1 < n else len(times)))
        self.piece = ScorePiece(
            sc.piece.measures_df, sc.note_objs, [Chord(**c) for c in self.chords],
            [Key(t, other[0], t, m, other[1], m, pt) for t, m in self.keys], starts, ranges, self.key_changes, name="p")

    def key_change_vec(self, q):
        """The vector of the change into key q (a dense vector and a flag)."""
        n = 12 if self.pt == MIDI else T.KEY_MAX - T.KEY_MIN
        v = np.zeros(n + 3)
        if q == 0:
            return v
        (t0, _), (t1, m1) = self.keys[q - 1], self.keys[q]
        v[(t1 - t0) % 12 if self.pt == MIDI else t1 - t0 - T.KEY_MIN] = 1
        v[n + [KeyMode.MAJOR, KeyMode.MINOR].index(m1)] = 1
        v[-1] = 1
        return v

    def chord_row(self, k, pad, names, inv, key=None):
        """Expected sequence row of chord k relative to a key (its own by default; no key change then)."""
        c = self.chords[k]
        tonic, mode = self.keys[self.key_of[k]] if key is None else self.keys[key]
        v = want_vec(c, self.pt, pad, tonic, mode, names)
        n, _ = sections(self.pt, pad)
        if not inv:
            o = 2 * n + 12
            v[o:o + 4] = [1, 0, 0, 0]
        new = key is None and k in self.key_changes
        kv = self.key_change_vec(self.key_of[k] if new else 0)
        return np.concatenate([v, kv])

    def seq(self, upto, pad, names, inv):
        return [self.chord_row(k, pad, names, inv) for k in range(upto)]

    def label(self, k, names, inv, relative):
        """Index of chord k in the label space of the settings, or None if it has none."""
        c = self.chords[k]
        t = names[c["chord_type"].name]
        i = c["inversion"] if inv else 0
        if i >= T.inv_count(t):
            return None
        if relative:
            root = (c["root"] - c["key_tonic"]) % 12 if self.pt == MIDI else c["root"] - c["key_tonic"] - T.REL_MIN
        else:
            root = c["root"]
        return spaces(self.pt, relative, inv, names)[t, i, root]


_SPACES = {}


def spaces(pt, relative, inv, names):
    key = (pt, relative, inv, tuple(sorted(set(names.values()))))
    if key not in _SPACES:
        _SPACES[key] = {c: k for k, c in enumerate(space(pt, relative, False, inv, names.values()))}
    return _SPACES[key]


ID = {t: t for t in TYPES}


def pick_reduction(rng, kind_inv):
    """(reduction, names) for labels: third inversions cannot be kept by a reduction to triads."""
    r = rng.random()
    if r < 0.4:
        return None, ID
    while True:
        red, names = rand_reduction(rng)
        if any(names[names[t]] != names[t] for t in TYPES):
            continue  # a kept type stays as it is
        if not kind_inv or all(T.inv_count(names[t]) >= T.inv_count(t) for t in TYPES):
            return red, names
        if rng.random() < 0.2:
            return None, ID


class Model:
    """A dataset under test: how to make it, and its expected items."""

    def __init__(self, rng, kind=None, datas=None):
        self.kind = kind or rng.choice(["ctd", "ccd", "csd", "ktd", "ksd"])
        pt = rng.choice([TPC, TPC, MIDI])
        if datas is None:
            datas = [Data(rng, pt, edge=self.kind == "ccd" and rng.random() < 0.5) for _ in range(rng.choice([1, 2, 3, 4]))]
        self.datas, self.pt = datas, datas[0].pt
        self.resettle(rng)
        self.trans = (0, 0)
        if self.kind == "ccd" and rng.random() < 0.5:
            lo = rng.choice([0, -1, -3, -5, -9])
            self.trans = (lo, rng.choice([0, 1, 2, 7]))
        self.dummy = self.kind in ("ctd", "ccd") and rng.random() < 0.15
        if self.dummy:
            self.trans = (0, 0)
        self.cls = dict(ctd=ds.ChordTransitionDataset, ccd=ds.ChordClassificationDataset, csd=ds.ChordSequenceDataset,
                        ktd=ds.KeyTransitionDataset, ksd=ds.KeySequenceDataset)[self.kind]

    def resettle(self, rng):
        self.inv = rng.random() < 0.6
        self.red, self.names = pick_reduction(rng, self.inv and self.kind in ("ccd",))
        self.inv_in = rng.random() < 0.6
        self.red_in, self.names_in = pick_reduction(rng, False)
        if self.kind == "csd":
            self.red, self.names = pick_reduction(rng, self.inv)
        self.pitch_based = self.kind == "csd" and rng.random() < 0.3

    def kwargs(self):
        if self.kind == "ctd":
            return {}
        if self.kind == "ccd":
            return dict(reduction=self.red, use_inversions=self.inv, transposition_range=list(self.trans))
        if self.kind == "csd":
            return dict(input_reduction=self.red_in, output_reduction=self.red, use_inversions_input=self.inv_in,
                        use_inversions_output=self.inv, pitch_based=self.pitch_based)
        return dict(reduction=self.red, use_inversions=self.inv)

    def make(self, ctx):
        kw = self.kwargs()
        if self.dummy:
            kw["dummy_targets"] = True
        return ctx.call("make", quiet, self.cls, [d.piece for d in self.datas], **kw)

    def apply(self, dataset):
        """Give a dataset the present settings (documented as safe after initialization)."""
        for k, v in self.kwargs().items():
            if k == "transposition_range":
                continue
            setattr(dataset, k, v)

    def det(self):
        return dict(kind=self.kind, pt=self.pt.name, red={a: b for a, b in self.names.items() if a != b}, inv=self.inv,
                    red_in={a: b for a, b in self.names_in.items() if a != b}, inv_in=self.inv_in, trans=self.trans,
                    keys=[[(t, m.name) for t, m in d.keys] for d in self.datas],
                    key_changes=[d.key_changes for d in self.datas], chords=[len(d.chords) for d in self.datas],
                    dummy=self.dummy, pitch_based=self.pitch_based)

    # ---- expected items -------------------------------------------------------------------------
    def expected(self):
        return getattr(self, "exp_" + self.kind)()

    def exp_ctd(self):
        out = []
        for d in self.datas:
            rows = []
            for j, note in enumerate(d.sc.note_objs):
                nd = dict(pc=note.pitch_class, oct=note.octave, onl=note.onset_level, offl=note.offset_level,
                          midi=note.get_midi_note_number())
                rows.append(want_note_vec(nd, d.pt, None, None, None, None if j == 0 else d.dur[j - 1], d.dur[j]))
            tgt = [1 if j in d.starts else 0 for j in range(len(rows))]
            tgt = [-100 if j == 0 or d.dur[j - 1] == 0 else x for j, x in enumerate(tgt)]
            if self.dummy:
                tgt = [0] * len(rows)
            out.append(dict(inputs=rows, input_lengths=len(rows), targets=tgt, target_lengths=len(rows)))
        return out

    def exp_ccd(self):
        out = []
        for d in self.datas:
            windows = quiet(d.piece.get_chord_note_inputs)
            for k in range(len(d.chords)):
                base = [np.asarray(r, dtype=float) for r in windows[k]]
                for t in range(self.trans[0], self.trans[1] + 1):
                    out.append(self.one_ccd(d, k, base, t))
        return out

    def one_ccd(self, d, k, base, t):
        if self.dummy:
            return dict(inputs=base, input_lengths=len(base), targets=0)
        midi = d.pt == MIDI
        N = 12 if midi else T.N_TPC
        c = d.chords[k]
        ct = self.names[c["chord_type"].name]
        inv = c["inversion"] if self.inv else 0
        bad = dict(targets=-1, input_lengths=-1, bad=True)
        if inv >= T.inv_count(ct):
            return bad
        root = c["root"] + t
        root = root % 12 if midi else root
        tones = T.chord_tones(ct, root, midi)
        rows = []
        for v in base:
            if not np.any(v):
                rows.append(v)
                continue
            p = int(np.argmax(v[:N] == 1))
            q = (p + t) % 12 if midi else p + t
            if not 0 <= q < N:
                return bad
            w = v.copy()
            w[p] = 0
            w[q] = 1
            rows.append(w)
        if not 0 <= root < N or not 0 <= tones[inv] < N:
            return bad
        item = dict(inputs=rows, input_lengths=len(rows), targets=spaces(d.pt, False, self.inv, self.names)[ct, inv, root])
        pitches = np.zeros(N)
        for p in tones:
            if 0 <= p < N:
                pitches[p] = 1
        item["intermediate_targets"] = dict(root=root, bass=tones[inv], pitches=pitches)
        item["maybe_bad"] = not all(0 <= p < N for p in tones)
        return item

    def exp_csd(self):
        out = []
        for d in self.datas:
            n = len(d.chords)
            rows = d.seq(n, False, self.names_in, self.inv_in)
            tgt = [d.label(k, self.names, self.inv, True) for k in range(n)]
            item = dict(inputs=rows, input_lengths=n, target_lengths=n, targets=tgt)
            if self.pitch_based:
                N = 12 if d.pt == MIDI else T.REL_MAX - T.REL_MIN
                tgt = []
                for k, c in enumerate(d.chords):
                    if k == 0 or k in d.key_changes:
                        tgt.append(np.full(N, -100.0))
                        continue
                    v = np.zeros(N)
                    for p in T.chord_tones(self.names[c["chord_type"].name], c["root"], d.pt == MIDI):
                        r = (p - c["key_tonic"]) % 12 if d.pt == MIDI else p - c["key_tonic"] - T.REL_MIN
                        if not 0 <= r < N:
                            item["lost"] = True  # a tone outside of the relative range: refused
                        else:
                            v[r] = 1
                    tgt.append(v)
                item["targets"] = tgt
            out.append(item)
        return out

    def exp_ktd(self):
        out = []
        for d in self.datas:
            ends = d.key_changes[1:] + [len(d.chords)]
            for q, end in enumerate(ends):
                rows = d.seq(end, True, self.names, self.inv)
                tgt = [-100] * end
                for j in range(d.key_changes[q] + 1, end):
                    tgt[j] = 0
                if end < len(d.chords):
                    rows.append(d.chord_row(end, True, self.names, self.inv, key=q))
                    tgt.append(1)
                out.append(dict(inputs=rows, input_lengths=len(rows), targets=tgt))
        return out

    def exp_ksd(self):
        out = []
        for d in self.datas:
            for q, end in enumerate(d.key_changes[1:]):
                rows = d.seq(end, True, self.names, self.inv)
                rows.append(d.chord_row(end, True, self.names, self.inv, key=q))
                (t0, _), (t1, m1) = d.keys[q], d.keys[q + 1]
                n = 12 if d.pt == MIDI else T.KEY_MAX - T.KEY_MIN
                dt = (t1 - t0) % 12 if d.pt == MIDI else t1 - t0 - T.KEY_MIN
                out.append(dict(inputs=rows, input_lengths=len(rows), targets=n * [MAJ, KeyMode.MINOR].index(m1) + dt))
        return out


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=2e-3, atol=1e-3, equal_nan=True))


def compare(ctx, key, got, want, m, det):
    """One item against its expectation. True if it matches."""
    n = int(got["input_lengths"])
    if want.get("bad") or (want.get("maybe_bad") and n == -1):
        ok = ctx.check(n == -1 and int(got["targets"]) == -1, key + "-refused",
                       "an example that cannot be transposed is marked invalid", got_length=n, got_target=got["targets"], **det)
        inter = got["intermediate_targets"]
        return ok and ctx.check(not np.any(got["inputs"]) and inter["root"] == -1 and inter["bass"] == -1
                                and not np.any(inter["pitches"]), key + "-refused", "and carries no data", **det)
    ok = ctx.eq(n, want["input_lengths"], key + "-length", "reported input length", **det)
    inp = np.asarray(got["inputs"])
    if not ctx.check(inp.ndim == 2 and len(inp) >= n, key + "-shape", "inputs hold at least their length", shape=inp.shape, **det):
        return False
    w = np.asarray(want["inputs"], dtype=float)
    if ok and not close(inp[:n], w):
        diff = np.argwhere(~np.isclose(inp[:n].astype(float), w, rtol=2e-3, atol=1e-3)) if inp[:n].shape == w.shape else "shape"
        ok = ctx.check(False, key + "-inputs", "the inputs of the event", where=np.asarray(diff)[:6].tolist()
                       if not isinstance(diff, str) else diff, **det)
    else:
        ctx.oracle_evaluations += 1
    if m.kind in ("ctd", "ccd", "csd"):
        ok &= ctx.check(not np.any(inp[n:]), key + "-padding", "zeros after the reported length", **det)
    tgt = got["targets"]
    if m.kind in ("ctd", "csd"):
        ok &= ctx.eq(int(got["target_lengths"]), want["target_lengths"], key + "-target-length", "reported target length", **det)
    if m.kind in ("ccd", "ksd"):
        ok &= ctx.eq(int(tgt), want["targets"], key + "-target", "the target of the event", **det)
    else:
        tgt = np.asarray(tgt, dtype=float)
        k = len(want["targets"])
        ok &= ctx.check(len(tgt) >= k and close(tgt[:k], want["targets"]), key + "-target", "the targets of the events",
                        got=tgt[:k].tolist(), want=[x if isinstance(x, (int, type(None))) else x.tolist() for x in want["targets"]], **det)
        if m.kind == "ktd":
            ok &= ctx.check(np.all(tgt[k:] == -100), key + "-target", "nothing is measured after the last chord", **det)
        if m.kind == "ctd":
            ok &= ctx.check(not np.any(tgt[k:]), key + "-padding", "target padding", **det)
    if "intermediate_targets" in want:
        inter, wi = got["intermediate_targets"], want["intermediate_targets"]
        ok &= ctx.eq((int(inter["root"]), int(inter["bass"])), (wi["root"], wi["bass"]), key + "-intermediate",
                     "root and bass of the target", **det)
        ok &= ctx.check(close(inter["pitches"], wi["pitches"]), key + "-intermediate", "pitches of the target", **det)
    return bool(ok)


def read(ctx, key, dataset, j, want):
    """An item, or None if it may be refused."""
    if want.get("lost"):
        try:
            dataset[j]
        except AssertionError:
            pass
        return None
    return ctx.call(key, dataset.__getitem__, j)


@scenario("C32", quick=150, thorough=4000)
def items(ctx, rng, i):
    m = Model(rng)
    before = [repr(d.piece.to_dict()) for d in m.datas]
    dataset = m.make(ctx)
    want = m.expected()
    det = m.det()
    ctx.eq(len(dataset), len(want), "item-count", "number of items", **det)
    ctx.ev("dataset:" + m.kind)
    ctx.sig(m.kind, m.pt.name, repr(det["keys"]), repr(det["key_changes"]), m.trans, m.inv, sample=False)
    if not want:
        return
    shapes = set()
    for phase in range(3):
        det = m.det()
        order = [rng.randrange(len(want)) for _ in range(len(want))] + rng.sample(range(len(want)), len(want))
        for j in order[-60:]:
            got = read(ctx, "item", dataset, j, want[j])
            if got is None:
                continue
            ctx.ev("item")
            if not compare(ctx, "item", got, want[j], m, dict(det, item=j, phase=phase)):
                return
            shapes.add(np.asarray(got["inputs"]).shape)
        if phase == 0 and m.kind != "ctd":
            m.resettle(rng)
            m.apply(dataset)
            want = m.expected()
        elif phase == 1:
            ctx.call("pad", dataset.pad)
    ctx.check(len(shapes) <= 1, "item-shape", "all items have one shape", shapes=sorted(shapes), **det)
    ctx.eq([repr(d.piece.to_dict()) for d in m.datas], before, "item-pure", "the pieces are untouched", **det)


@scenario("C32", quick=50, thorough=1500)
def batches(ctx, rng, i):
    """Items collated by a loader keep their order and content; a transform is applied to arrays."""
    from torch.utils.data import DataLoader

    m = Model(rng)
    if m.dummy:
        return
    dataset = m.make(ctx)
    want = m.expected()
    if not want or any(w.get("lost") for w in want):
        return
    det = m.det()
    size = rng.choice([1, 2, 3, 7, 64])
    rows = []
    for batch in ctx.call("batch", lambda: list(DataLoader(dataset, batch_size=size, shuffle=False))):
        k = len(np.asarray(batch["input_lengths"]))
        ctx.check(k <= size, "batch-size", "batch size", **det)
        for r in range(k):
            item = {x: (np.asarray(v)[r] if not isinstance(v, dict) else {y: np.asarray(u)[r] for y, u in v.items()})
                    for x, v in batch.items()}
            rows.append(item)
    ctx.eq(len(rows), len(want), "batch-count", "every item once", **det)
    for j, (g, w) in enumerate(zip(rows, want)):
        ctx.ev("batched_item")
        compare(ctx, "batch", g, w, m, dict(det, item=j, size=size))
    ctx.sig(m.kind, m.pt.name, size, len(want), repr(det["key_changes"]), sample=False)
    calls = []

    def tr(x):
        calls.append(x.shape)
        return x + 0

    dataset.transform = tr
    g = ctx.call("item", dataset.__getitem__, rng.randrange(len(want)))
    ctx.check(tuple(np.asarray(g["inputs"]).shape) in calls, "transform", "the transform sees the inputs", **det)


# ------------------------------------------------------------------------------------------- C33
def check_all(ctx, key, dataset, want, m, rng, det):
    if not ctx.eq(len(dataset), len(want), key + "-count", "number of items", **det):
        return
    for j in rng.sample(range(len(want)), min(len(want), 40)):
        got = read(ctx, key, dataset, j, want[j])
        if got is None:
            continue
        ctx.ev("reloaded_item")
        if not compare(ctx, key, got, want[j], m, dict(det, item=j)):
            return


@scenario("C33", quick=45, thorough=3000)
def saved(ctx, rng, i):
    from pathlib import Path

    m = Model(rng)
    if m.dummy:
        return
    want = m.expected()
    if not want:
        return
    det = m.det()
    dataset = m.make(ctx)
    tmp = tempfile.mkdtemp(prefix="vmon_c33_")
    chunk = m.cls.chunk_size
    try:
        path = os.path.join(tmp, rng.choice(["a.h5", "sub/a.h5"]))
        ids = [rng.randrange(50) for _ in m.datas] if rng.random() < 0.5 else None
        if rng.random() < 0.3:
            read(ctx, "item", dataset, 0, want[0])  # used before saving
        ctx.call("save", dataset.to_h5, rng.choice([str, Path])(path), **({} if ids is None else dict(file_ids=ids)))
        import h5py

        with h5py.File(path, "r") as f:
            ctx.eq(list(np.array(f["file_ids"])) if "file_ids" in f else None, ids, "save-ids", "file ids are stored", **det)
        if rng.random() < 0.5:
            check_all(ctx, "after-save", dataset, want, m, rng, det)  # saving leaves the dataset usable
        m.cls.chunk_size = det["chunk"] = rng.choice([1, 2, 3, 5, chunk])
        shim.FAULTS["memory"], shim.READS[0] = None, 0
        loaded = ctx.call("load", quiet, ds.h5_to_dataset, rng.choice([str, Path])(path), m.cls, dataset_kwargs=m.kwargs())
        reads = shim.READS[0]
        ctx.check(loaded.in_ram, "load-ram", "a dataset that fits is in memory", **det)
        ctx.ev("loaded:" + m.kind)
        ctx.sig(m.kind, m.pt.name, det["chunk"], repr(det["keys"]), sample=False)
        check_all(ctx, "loaded", loaded, want, m, rng, det)
        check_all(ctx, "loaded-again", loaded, want, m, rng, det)
        # memory runs out at some read
        for _ in range(2):
            at = rng.randrange(max(1, reads))
            shim.FAULTS["memory"] = at
            try:
                streamed = ctx.call("stream", quiet, ds.h5_to_dataset, path, m.cls, dataset_kwargs=m.kwargs())
            finally:
                shim.FAULTS["memory"] = None
            if not streamed.in_ram:
                ctx.ev("streamed:" + m.kind)
            check_all(ctx, "streamed", streamed, want, m, rng, dict(det, fault_at=at, of=reads))
            again = os.path.join(tmp, "copy%d.h5" % at)
            ctx.call("copy", streamed.to_h5, again)
            os.rename(path, path + ".away")  # it now reads from the file it was saved to
            try:
                check_all(ctx, "copy", streamed, want, m, rng, dict(det, fault_at=at, of=reads))
            finally:
                os.rename(path + ".away", path)
            third = ctx.call("load", quiet, ds.h5_to_dataset, again, m.cls, dataset_kwargs=m.kwargs())
            check_all(ctx, "copied", third, want, m, rng, dict(det, fault_at=at, of=reads))
        # other settings on the stored data
        if m.kind != "ctd":
            m.resettle(rng)
            want = m.expected()
            det = m.det()
            m.apply(loaded)
            check_all(ctx, "resettled", loaded, want, m, rng, det)
    finally:
        m.cls.chunk_size = chunk
        shim.FAULTS["memory"] = None
        shutil.rmtree(tmp, ignore_errors=True)


@scenario("C33", quick=25, thorough=1500)
def padding(ctx, rng, i):
    dim = rng.choice([None, 1, 3])
    arrs = [np.array([rng.randrange(-100, 100) for _ in range(n * (dim or 1))], dtype=rng.choice([int, float, np.float16]))
            .reshape((n,) if dim is None else (n, dim)) for n in [rng.randrange(0 if dim is None else 1, 9)
                                                                  for _ in range(rng.randrange(1, 9))]]
    if max(len(a) for a in arrs) == 0:
        return
    keep = [a.copy() for a in arrs]
    padded, lengths = ctx.call("pad-array", ds.pad_array, arrs)
    ctx.ev("padded")
    ctx.sig(dim, tuple(len(a) for a in arrs), sample=False)
    ctx.eq([int(x) for x in lengths], [len(a) for a in keep], "pad-array", "true lengths")
    ctx.eq(padded.shape[:2], (len(keep), max(len(a) for a in keep)), "pad-array", "one row per array, of the longest length")
    for p, a in zip(padded, keep):
        ctx.check(np.array_equal(p[:len(a)], a) and not np.any(p[len(a):]), "pad-array", "the array, then zeros")
    ctx.check(all(np.array_equal(a, b) for a, b in zip(arrs, keep)), "pad-array", "input untouched")


@scenario("C33", quick=10, thorough=500)
def splits(ctx, rng, i):
    """A corpus split into datasets."""
    import pandas as pd

    n = rng.choice([1, 2, 3, 5, 8, 12])
    ids = sorted(rng.sample(range(60), n))
    specs = {}
    for q in ids:
        while True:
            specs[q] = pieces.make(rng, n_notes=rng.choice([2, 4, 8]), n_chords=rng.choice([1, 2, 4]), start_late=False)
            piece = quiet(ds.get_score_piece_from_data_frames, specs[q].notes_df(), specs[q].chords_df(), specs[q].measures_df())
            if len(piece.get_inputs()) and len(piece.get_chords()):
                break  # a piece without any chord in range makes no training data
    missing = {q: rng.choice(["chords", "measures", "notes", "broken"]) for q in ids if rng.random() < 0.2}
    tables = {}
    for name, fn in (("chords", "chords_df"), ("measures", "measures_df"), ("notes", "notes_df")):
        parts = []
        for q in ids:
            if missing.get(q) == name:
                continue
            df = getattr(specs[q], fn)()
            if name == "notes" and missing.get(q) == "broken":
                df = df.assign(fault=[q] * len(df))  # its parsing fails
            elif name == "notes":
                df = df.assign(fault=[-1] * len(df))
            parts.append(pd.concat([df], keys=[q], names=["file_id"]))
        if not parts:
            return
        tables[name] = pd.concat(parts)
    tables["files"] = pd.DataFrame({"corpus_name": ["c%d" % (q % 3) for q in ids], "file_name": ["f%d.tsv" % q for q in ids]},
                                   index=pd.Index(ids, name="file_id"))
    k = rng.choice([1, 2, 3, 3, 4])
    props = [rng.choice([0, 1, 1, 0.1, 0.8, rng.random(), 3]) for _ in range(k)]
    if sum(props) == 0:
        props[-1] = 1
    seed = rng.choice([0, 1, 17, 12345])
    kw = dict(data_dfs=tables, splits=rng.choice([list, tuple])(props), seed=seed)
    parse, raised = ds.get_score_piece_from_data_frames, set()

    def faulty(*a, **k):
        for df in list(a) + list(k.values()):
            if "fault" in getattr(df, "columns", ()) and df["fault"].iloc[0] >= 0:
                raised.add(int(df["fault"].iloc[0]))
                raise rng_error
        return parse(*a, **k)

    rng_error = rng.choice([KeyError("injected"), ValueError("injected"), AssertionError("injected"), TypeError("injected")])
    ds.get_score_piece_from_data_frames = faulty
    try:
        run_splits(ctx, rng, ids, specs, missing, raised, kw, props, seed, k)
    finally:
        ds.get_score_piece_from_data_frames = parse


def run_splits(ctx, rng, ids, specs, missing, raised, kw, props, seed, k):
    got_ids, got_pieces = ctx.call("split", quiet, ds.get_split_file_ids_and_pieces, **kw)
    usable = [q for q in ids if q not in raised and missing.get(q, "broken") == "broken"]
    det = dict(ids=ids, missing=missing, props=props, seed=seed)
    ctx.ev("split")
    ctx.ev("unusable_piece", len(missing))
    ctx.sig(tuple(ids), tuple(props), seed, tuple(sorted(missing.items())), sample=False)
    flat = [int(q) for s in got_ids for q in s]
    ctx.require(len(got_ids) == k and len(got_pieces) == k, "split-count", "one part per proportion", **det)
    ctx.eq(sorted(flat), usable, "split-partition", "every usable piece in exactly one part", **det)
    ctx.eq([len(s) for s in got_ids], [len(s) for s in got_pieces], "split-aligned", "ids and pieces correspond", **det)
    total = F(0)
    exact = [F(p) for p in props]
    for p, s in zip(exact, got_ids):
        share = p / sum(exact) * len(usable)
        ctx.check(abs(len(s) - share) <= 1 + 1e-6, "split-size", "the requested share, within rounding",
                  size=len(s), share=float(share), **det)
        if p == 0:
            ctx.eq(len(s), 0, "split-size", "an empty share gets nothing", **det)
    for s, ps in zip(got_ids, got_pieces):
        for q, piece in zip(s, ps):
            spec = specs[int(q)]
            ctx.eq([(x.pitch_class, x.duration) for x in piece.get_inputs()],
                   [(x["tpc"] + T.C_TPC, x["dur"]) for x in spec.notes], "split-own", "the piece of that id", file=q, **det)
            ctx.ev("split_piece")
    noise = rng.randrange(5)
    np.random.seed(noise)
    again, _ = ctx.call("split", quiet, ds.get_split_file_ids_and_pieces, **kw)
    ctx.eq([[int(q) for q in s] for s in again], [[int(q) for q in s] for s in got_ids], "split-seed",
           "the same seed gives the same split", **det)
    classes = rng.sample([ds.ChordTransitionDataset, ds.ChordClassificationDataset], rng.choice([1, 2]))
    sets, ids2, pieces2 = ctx.call("split-sets", quiet, ds.get_dataset_splits, classes, **kw)
    ctx.eq([[int(q) for q in s] for s in ids2], [[int(q) for q in s] for s in got_ids], "split-seed",
           "the same split for the datasets", **det)
    for c, row in zip(classes, sets):
        ctx.eq(len(row), k, "split-sets", "one dataset per part", **det)
        for s, ps, dset in zip(ids2, pieces2, row):
            if len(s) == 0:
                ctx.check(dset is None, "split-sets", "no dataset for an empty part", **det)
                continue
            ref = quiet(c, list(ps))
            ctx.check(type(dset) is c and len(dset) == len(ref), "split-sets", "a dataset of the part's pieces", **det)
            a = dset.inputs
            ctx.check(len(a) == len(ref.inputs) and all(np.array_equal(x, y) for x, y in zip(a, ref.inputs))
                      and all(np.array_equal(x, y) for x, y in zip(dset.targets, ref.targets)), "split-sets",
                      "made from the part's pieces, in order", **det)
            ctx.ev("split_dataset")


from vmon.checks.c34 import pipeline  # noqa: E402

scenario("C33", quick=2, thorough=200)(pipeline)
