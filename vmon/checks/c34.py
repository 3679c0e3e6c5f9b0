"""C34: configuration and piece loading, up to the whole data-creation pipeline."""
import io
import json
import os
import pickle
import runpy
import shutil
import sys
import tempfile
import zipfile
from contextlib import redirect_stderr, redirect_stdout
from fractions import Fraction as F
from pathlib import Path

import numpy as np
import pandas as pd

from vmon import joint, mxml, pieces, shim
from vmon import theory as T
from vmon.checks.c07_c08 import CT
from vmon.checks.c09_c10_c11 import TYPES, quiet, rand_reduction
from vmon.checks.c18 import make_piece, write_piece
from vmon.checks.c19_c20_c21 import snapshot
from vmon.checks.c22 import layout_of
from vmon.core import rule, scenario

from harmonic_inference.data import corpus_reading as cr
from harmonic_inference.data import piece as pm
from harmonic_inference.data.data_types import PieceType, PitchType
from harmonic_inference.utils import data_utils as du

rule("C34", "random configuration files; random corpora on disk as tables (missing annotations, sparse ids) and as "
     "compressed scores with label files (missing labels, equal names in different folders, single files), loaded by "
     "random id lists, specific ids, saved dictionaries present or absent; create_h5_data.py run over such corpora and its "
     "splits loaded again; oracle: each piece read on its own from its own file; non-trivial = one loaded piece",
     ["torch and h5py are replaced by numpy stand-ins"])


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vmon_c34_")
        self.old = tempfile.tempdir
        tempfile.tempdir = self.dir
        return self.dir

    def __exit__(self, *a):
        tempfile.tempdir = self.old
        shutil.rmtree(self.dir, ignore_errors=True)


def rand_json(rng, depth=0):
    r = rng.random()
    if depth < 2 and r < 0.2:
        return [rand_json(rng, depth + 1) for _ in range(rng.randrange(3))]
    if depth < 2 and r < 0.3:
        return {rng.choice("abcd") + str(k): rand_json(rng, depth + 1) for k in range(rng.randrange(3))}
    return rng.choice([None, True, False, rng.randrange(-5, 500), rng.random(), "", "TPC", "MIDI", "x y",
                       "a PitchType.TPC", "ChordType.MAJOR", "SCORE"])


@scenario("C34", quick=60, thorough=5000)
def kwargs(ctx, rng, i):
    want, raw = {}, {}
    for k in range(rng.randrange(0, 7)):
        name = rng.choice(["hidden_dim", "dropout", "input", "name", "kind", "pitch_type", "x"]) + str(k)
        r = rng.random()
        if r < 0.25:
            v = rng.choice(list(PitchType))
            raw[name], want[name] = "PitchType." + v.name, v
        elif r < 0.4:
            v = rng.choice(list(PieceType))
            raw[name], want[name] = "PieceType." + v.name, v
        elif r < 0.65:
            name = rng.choice(["reduction", "input_reduction", "output_reduction"])
            if rng.random() < 0.3:
                raw[name] = want[name] = None
                continue
            red, names = rand_reduction(rng)
            keep = rng.sample(TYPES, rng.randrange(0, len(TYPES) + 1))
            raw[name] = {"ChordType." + a: "ChordType." + names[a] for a in keep}
            want[name] = {CT[a]: CT[names[a]] for a in keep}
        else:
            raw[name] = want[name] = rand_json(rng)
    with Scratch() as tmp:
        path = os.path.join(tmp, "k.json")
        with open(path, "w") as f:
            json.dump(raw, f)
        got = ctx.call("kwargs", du.load_kwargs_from_json, rng.choice([str, Path])(path))
    ctx.ev("config")
    ctx.ev("config_value", len(raw))
    ctx.sig(json.dumps(raw, sort_keys=True), sample=False)
    ctx.eq(got, want, "kwargs", "stored values in their typed form", raw=raw)
    ctx.eq(repr(got), repr(want), "kwargs", "types and order", raw=raw)
    ctx.eq(du.load_kwargs_from_json(None), {}, "kwargs-none", "no file, no arguments")


# ------------------------------------------------------------------------------------ corpora
def table_corpus(rng, tmp, n=None, complete=False):
    """A corpus directory as written by the aggregation, with arbitrary ids. Returns (dir, {id: name}, unlabelled)."""
    src, dst = os.path.join(tmp, "src"), os.path.join(tmp, "corpus")
    n = n or rng.choice([1, 2, 3, 4, 6])
    seen = set()
    notes_only = not complete and rng.random() < 0.4
    bare = rng.random() < 0.3  # nothing is labelled
    for k in range(n):
        corpus = rng.choice(["A", "B", "c d"])
        name = f"p{rng.randrange(7)}.tsv"
        if (corpus, name) in seen:
            continue
        seen.add((corpus, name))
        tables = ["measures", "notes", "harmonies"]
        if notes_only and (bare or rng.random() < 0.3):
            tables.remove("harmonies")
        write_piece(rng, make_piece(rng), os.path.join(src, corpus), name, tables, False)
    quiet(cr.aggregate_annotation_dfs, src, dst, notes_only=notes_only)
    ids = [int(x) for x in pd.read_csv(os.path.join(dst, "files.tsv"), sep="\t", index_col=0).index]
    if rng.random() < 0.5:  # other, sparse ids
        new = rng.sample(range(40), len(ids))
        for fn in ("files", "measures", "notes", "chords"):
            path = os.path.join(dst, fn + ".tsv")
            if os.path.exists(path):
                df = pd.read_csv(path, sep="\t", dtype=str, keep_default_na=False)
                first = df.columns[0]
                df[first] = [str(dict(zip(map(str, ids), new))[x]) for x in df[first]]
                df.to_csv(path, sep="\t", index=False)
    return dst


def table_reference(dst):
    """Every piece of a table corpus, made on its own."""
    files, measures, chords, notes = quiet(cr.load_clean_corpus_dfs, dst)
    out = {}
    for q in files.index:
        have = chords is not None and q in chords.index.get_level_values(0)
        p = quiet(pm.get_score_piece_from_data_frames, notes.loc[q], chords.loc[q] if have else None, measures.loc[q])
        out[int(q)] = (p, "%s: %s/%s" % (q, files.loc[q, "corpus_name"], files.loc[q, "file_name"]))
    return out


def labels_for(rng, lay):
    n = rng.randrange(1, 6)
    bounds = sorted({F(0), lay.end} | {F(1, 8) * rng.randrange(1, max(2, int(lay.end * 8))) for _ in range(n)})
    key = rng.choice(["C", "a", "F", "G", "e"])
    rows = []
    for a, b in zip(bounds, bounds[1:]):
        if b > lay.end:
            break
        if rng.random() < 0.25:
            key = rng.choice(["C", "a", "F", "G", "e", "B-", "f+"])
        rows.append("%s,%s,%s,%s,%s,%d" % (a * 4, b * 4, key, rng.choice("1245"), rng.choice(["M", "m", "D7", "d"]), rng.randrange(3)))
    return "\n".join(rows) + "\n"


def score_corpus(rng, tmp, n=None, labelled=0.75):
    """A directory of compressed scores with label files. Returns (dir, [(path, csv or None)] in id order)."""
    base = os.path.join(tmp, "scores")
    os.makedirs(base)
    out = {}
    for k in range(n or rng.choice([1, 2, 3, 4])):
        folder = os.path.join(base, rng.choice(["a", "b", "b/deep"]))
        stem = rng.choice(["x", "y", "z w", "op1.2"])
        path = os.path.join(folder, rng.choice(["scores", "scores"]), stem + ".mxl")
        if path in out:
            continue
        while True:
            ms, notes, xml = mxml.make(rng, tie_prob=0.15)
            if notes:
                break
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("META-INF/container.xml", '<?xml version="1.0"?><container><rootfiles>'
                       '<rootfile full-path="s.xml"/></rootfiles></container>')
            z.writestr("s.xml", xml)
        csv = None
        if rng.random() < labelled:
            csv = os.path.join(folder, "chords", stem + ".csv")
            os.makedirs(os.path.dirname(csv), exist_ok=True)
            with open(csv, "w") as f:
                f.write(labels_for(rng, layout_of(ms)))
        out[path] = csv
    return base, sorted(out.items())


def score_reference(base, files):
    return {k: (quiet(pm.get_score_piece_from_music_xml, p, c), "%d: %s" % (k, os.path.relpath(p, base)))
            for k, (p, c) in enumerate(files)}


def same(ctx, key, got, ref, ids, det):
    if not ctx.eq([p.name for p in got], [ref[q][1] for q in ids], key + "-names", "the requested pieces, in order, under their names", **det):
        return
    for p, q in zip(got, ids):
        ctx.ev("loaded_piece")
        a, b = snapshot(p), snapshot(ref[q][0])
        for f in b:
            ctx.eq(a[f], b[f], key + "-" + f, "the content of the piece", id=q, **det)
        m, w = p.measures_df, ref[q][0].measures_df
        ctx.check(len(m) == len(w) and all(list(m[c]) == list(w[c]) for c in ("mc", "timesig", "start", "act_dur", "mc_offset") if c in w),
                  key + "-measures", "the measures of the piece", id=q, **det)


def selections(ctx, rng, xml, path, ref, det):
    """Load by every kind of request."""
    all_ids = list(ref)
    tmp = os.path.dirname(str(path))
    for kind in rng.sample(["all", "ids", "ids", "one", "one-of", "unknown", "absent", "dicts", "dicts", "dict-one"], 4):
        d = dict(det, request=kind)
        kw = dict(input_path=rng.choice([str, Path])(path))
        if xml:
            kw["xml"] = True
        elif rng.random() < 0.5:
            kw["xml"] = False
        ids = all_ids
        conv = rng.choice([int, np.int64])
        if kind in ("ids", "one-of", "dicts", "dict-one") or (kind in ("unknown", "absent") and rng.random() < 0.5):
            ids = rng.sample(all_ids, rng.randrange(1, len(all_ids) + 1))
            if kind == "ids" and rng.random() < 0.2:
                ids = ids + [rng.choice(all_ids)]
            kw["file_ids"] = [conv(q) for q in ids]
        if kind == "one":
            kw["specific_id"] = rng.choice(ids)
        if kind in ("one-of", "dict-one"):
            kw["specific_id"] = rng.choice(ids)
        if kind in ("dicts", "dict-one", "absent"):
            pkl = os.path.join(tmp, "pieces%d.pkl" % rng.randrange(10 ** 9))
            if kind != "absent":
                with open(pkl, "wb") as f:
                    pickle.dump([ref[q][0].to_dict() for q in ids], f)
            kw["piece_dicts_path"] = rng.choice([str, Path])(pkl)
        if kind == "unknown":
            kw["specific_id"] = rng.choice([q for q in range(-3, 60) if q not in ids])
            ctx.ev("unknown_id")
            ctx.raises("load-unknown", ValueError, quiet, du.load_pieces, **kw)
            continue
        d["kw"] = {k: str(v) for k, v in kw.items()}
        given = list(kw["file_ids"]) if "file_ids" in kw else None
        got = ctx.call("load", quiet, du.load_pieces, **kw)
        ctx.ev("load:" + kind)
        same(ctx, "load", got, ref, [kw["specific_id"]] if "specific_id" in kw else ids, d)
        if given is not None:
            ctx.eq(kw["file_ids"], given, "load-pure", "the caller's list is untouched", **d)


@scenario("C34", quick=8, thorough=900)
def tables(ctx, rng, i):
    with Scratch() as tmp:
        dst = table_corpus(rng, tmp)
        ref = table_reference(dst)
        if not ref:
            return
        bare = sum(p.get_chords() is None for p, _ in ref.values())
        ctx.ev("unlabelled_piece", bare)
        ctx.sig("tables", tuple(sorted(n for _, n in ref.values())), bare, sample=False)
        selections(ctx, rng, False, dst, ref, dict(pieces=[n for _, n in ref.values()], unlabelled=bare))


@scenario("C34", quick=4, thorough=500)
def scores(ctx, rng, i):
    with Scratch() as tmp:
        base, files = score_corpus(rng, tmp)
        ref = score_reference(base, files)
        det = dict(files=[(os.path.relpath(p, base), bool(c)) for p, c in files])
        ctx.sig("scores", repr(det), sample=False)
        ctx.ev("unlabelled_score", sum(c is None for _, c in files))
        selections(ctx, rng, True, base, ref, det)
        # one file on its own
        p, _ = rng.choice(files)
        got = ctx.call("load-file", quiet, du.load_pieces, xml=True, input_path=rng.choice([str, Path])(p))
        one = {0: (quiet(pm.get_score_piece_from_music_xml, p, None), "0: " + os.path.basename(p))}
        same(ctx, "load-file", got, one, [0], det)
        ctx.ev("single_file")


# ------------------------------------------------------------------------------------ pipeline
def run_script(name, argv):
    """Run a script of the repository as a program."""
    import logging

    old, level = sys.argv, logging.disable
    sys.argv = [name] + argv
    logging.disable(logging.CRITICAL)
    try:
        with redirect_stderr(io.StringIO()), redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(os.environ["REPO_DIR"], name), run_name="__main__")
    finally:
        logging.disable(logging.NOTSET)
        sys.argv = old


@scenario("C34", quick=3, thorough=300)
def pipeline(ctx, rng, i):
    """create_h5_data.py, then the pieces and datasets that training and testing load."""
    import h5py

    import harmonic_inference.data.datasets as ds

    xml = rng.random() < 0.5
    with Scratch() as tmp:
        if xml:
            path, files = score_corpus(rng, tmp, n=rng.choice([2, 3, 5]))
            ref = score_reference(path, files)
            usable = [k for k, (p, c) in enumerate(files) if c is not None]
        else:
            path = table_corpus(rng, tmp, n=rng.choice([2, 4, 7]), complete=True)
            ref = table_reference(path)
            usable = list(ref)
        if not usable or any(not len(ref[q][0].get_chords()) or not len(ref[q][0].get_inputs()) for q in usable):
            return
        out = os.path.join(tmp, "h5")
        seed = rng.choice([0, 3])
        props = rng.choice([["0.8", "0.1", "0.1"], ["1", "1", "1"], ["0", "1", "2"], ["1", "0", "0"]])
        argv = ["-i", path, "-o", out, "-s", str(seed), "--splits"] + props + (["-x"] if xml else [])
        det = dict(xml=xml, props=props, names=[ref[q][1] for q in ref], usable=usable)
        ctx.call("create", run_script, "create_h5_data.py", argv)
        ctx.ev("corpus_created:" + ("xml" if xml else "tables"))
        ctx.sig(xml, tuple(props), tuple(det["names"]), len(usable), sample=False)
        seen = []
        for split in ("train", "valid", "test"):
            h5 = os.path.join(out, "ChordTransitionDataset_%s_seed_%d.h5" % (split, seed))
            pkl = Path(out) / ("pieces_%s_seed_%d.pkl" % (split, seed))
            if not ctx.check(os.path.exists(h5) == pkl.exists(), "create-files", "a split has all of its files", split=split, **det):
                continue
            if not pkl.exists():
                continue
            with h5py.File(h5, "r") as f:
                ids = list(np.array(f["file_ids"]))
            seen += [int(q) for q in ids]
            if any(int(q) not in ref for q in ids):
                break
            for dicts in (pkl, None):
                got = ctx.call("create-load", quiet, du.load_pieces, xml=xml, input_path=path, piece_dicts_path=dicts, file_ids=ids)
                same(ctx, "create", got, ref, [int(q) for q in ids], dict(det, split=split, dicts=bool(dicts)))
            for cls in (ds.ChordTransitionDataset, ds.ChordClassificationDataset, ds.ChordSequenceDataset,
                        ds.KeyTransitionDataset, ds.KeySequenceDataset):
                hp = os.path.join(out, "%s_%s_seed_%d.h5" % (cls.__name__, split, seed))
                fresh = quiet(cls, [ref[int(q)][0] for q in ids])
                if not len(fresh):
                    ctx.ev("empty_dataset")
                    continue
                if not ctx.check(os.path.exists(hp), "create-files", "every dataset of the split is there", cls=cls.__name__, **det):
                    continue
                loaded = ctx.call("create-dataset", quiet, ds.h5_to_dataset, hp, cls)
                if not ctx.eq(len(loaded), len(fresh), "create-dataset", "its items", cls=cls.__name__, **det):
                    continue
                for j in rng.sample(range(len(fresh)), min(5, len(fresh))):
                    a, b = loaded[j], fresh[j]
                    ok = set(a) == set(b) and all(np.allclose(np.asarray(a[x], dtype=float), np.asarray(b[x], dtype=float), rtol=2e-3, atol=1e-3)
                                                  for x in ("inputs", "targets", "input_lengths"))
                    ctx.check(ok, "create-dataset", "the items of the split's pieces", cls=cls.__name__, item=j, **det)
                    ctx.ev("created_item")
        ctx.eq(sorted(seen), sorted(usable), "create-ids", "every labelled piece in one split, under its id", **det)
