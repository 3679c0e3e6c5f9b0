"""C40: the course data (key and chord sequences, vocabularies) written from a corpus."""
import io
import logging
import os
import runpy
import shutil
import tempfile
from contextlib import redirect_stderr, redirect_stdout

import pandas as pd

from vmon import pieces
from vmon import theory as T
from vmon.checks.c19_c20_c21 import expected
from vmon.core import rule, scenario

rule("C40", "random annotated corpora (several composers, names that begin with each other, pieces without labels, irregular "
     "measures, applied and changing keys, pivots, rows outside the pitch range) on disk, create_ml_course_data.py run once "
     "or twice in that folder; oracle: the annotations in fifths; non-trivial = one piece in the output")

COMPOSERS = ["Bach", "WFBach", "Bachelet", "Corelli", "Liszt F", "ABC", "A"]
KINDS = {"MAJOR": "MAJ", "MINOR": "MIN", "DIMINISHED": "DIM", "AUGMENTED": "AUG"}


def degree(f, mode):
    """The scale degree f fifths above the tonic."""
    for deg in range(1, 8):
        acc, rest = divmod(f - T.degree_fifths(deg, 0, mode), 7)
        if rest == 0:
            return ("#" * acc if acc >= 0 else "b" * -acc) + T.NUMERALS[deg - 1]


def spelled(spec):
    """(keys, sections) of one piece: [symbol], [(mode, [symbol])], with the global mode in front."""
    chords = expected(spec, "triad", False, False, False)
    if not chords:
        return None
    keys, sections, prev = [], [], None
    for c in chords:
        mode = c["local"][1].name
        if c["local"] != prev:
            prev = c["local"]
            keys.append(degree(prev[0] - c["glob"][0], c["glob"][1].name) + ":" + mode)
            sections.append((mode, []))
        sections[-1][1].append(degree(c["root"] - prev[0], mode) + ":" + KINDS[c["chord_type"].name])
    return chords[0]["glob"][1].name, keys, sections


def frac(df, cols):
    for c in cols:
        df[c] = [str(x) for x in df[c]]
    return df


def write_corpus(rng, dst, specs):
    os.makedirs(dst)
    files, tables = [], {"measures": [], "notes": [], "chords": []}
    for fid, (corpus, name, spec, labelled) in specs.items():
        files.append((fid, corpus, name))
        m = frac(spec.measures_df(), ["act_dur", "mc_offset"])
        m["next"] = ["-1" if pd.isna(x) else str(int(x)) for x in m["next"]]
        n = frac(spec.notes_df(), ["mn_onset", "mc_onset", "duration"]).drop(columns=["offset_mc", "offset_beat"])
        c = frac(spec.chords_df(), ["mn_onset"]).drop(columns=["mc_next", "mn_onset_next", "duration"])
        for col in ("globalkey_is_minor", "localkey_is_minor"):
            c[col] = [str(int(x)) for x in c[col]]
        tables["measures"].append((fid, m))
        tables["notes"].append((fid, n))
        if labelled:
            tables["chords"].append((fid, c))
    pd.DataFrame(files, columns=["", "corpus_name", "file_name"]).to_csv(os.path.join(dst, "files.tsv"), sep="\t", index=False)
    for kind, parts in tables.items():
        pd.concat([d for _, d in parts], keys=[k for k, _ in parts], names=["file_id", kind[:-1] + "_id"]).to_csv(
            os.path.join(dst, kind + ".tsv"), sep="\t")


def run(tmp):
    """The program, in a folder of its own; it may only delete there."""
    old, real = os.getcwd(), shutil.rmtree
    root = os.path.realpath(tmp) + os.sep
    outside = []

    def rmtree(path, *a, **kw):
        if not os.path.realpath(str(path)).startswith(root):
            outside.append(str(path))
            return
        real(path, *a, **kw)

    os.chdir(tmp)
    shutil.rmtree = rmtree
    logging.disable(logging.CRITICAL)
    try:
        with redirect_stderr(io.StringIO()), redirect_stdout(io.StringIO()):
            runpy.run_path(os.path.join(os.environ["REPO_DIR"], "create_ml_course_data.py"), run_name="__main__")
    finally:
        logging.disable(logging.NOTSET)
        shutil.rmtree = real
        os.chdir(old)
    return outside


def tree(base):
    out = {}
    for d, _, names in os.walk(base):
        for n in names:
            p = os.path.join(d, n)
            out[os.path.relpath(p, base)] = open(p).read()
    return out


@scenario("C40", quick=10, thorough=900)
def course_data(ctx, rng, i):
    tmp = tempfile.mkdtemp(prefix="vmon_c40_")
    try:
        _course(ctx, rng, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _course(ctx, rng, tmp):
    pool = rng.sample(COMPOSERS, rng.choice([1, 2, 3, 4]))
    specs, told = {}, {}
    for fid in sorted(rng.sample(range(30), rng.choice([1, 2, 3, 5, 7]))):
        spec = pieces.make(rng, n_notes=rng.choice([1, 3, 8]))
        want = spelled(spec)
        if want is None:
            continue
        corpus = rng.choice(pool) + rng.choice(["", " - Sonatas", "-op1", " - x-y"])
        labelled = not told or rng.random() < 0.8
        specs[fid] = (corpus, "p%d.tsv" % fid, spec, labelled)
        if labelled:
            told[fid] = want
    if not told:
        return
    keys, chords = {}, {}
    vocab = {"key": {"MAJOR": set(), "MINOR": set()}, "chord": {"MAJOR": set(), "MINOR": set()}}
    for fid, (gm, ks, sections) in told.items():
        who = specs[fid][0].split("-")[0].strip()
        keys.setdefault(who, []).append(",".join(ks))
        vocab["key"][gm] |= set(ks)
        for mode, syms in sections:
            chords.setdefault(who, []).append(mode + ";" + ",".join(syms))
            vocab["chord"][mode] |= set(syms)
            ctx.ev("section")
        ctx.ev("piece_written")
    want = {}
    for kind, lines in (("key", keys), ("chord", chords)):
        for who, ls in lines.items():
            want[os.path.join(kind, who + ".csv")] = ls
        v = vocab[kind]
        for name, syms in (("major", v["MAJOR"]), ("minor", v["MINOR"]), ("full", v["MAJOR"] | v["MINOR"])):
            want["%s_vocab_%s.txt" % (kind, name)] = sorted(syms)
    write_corpus(rng, os.path.join(tmp, "corpus_data"), specs)
    before = tree(os.path.join(tmp, "corpus_data"))
    base = os.path.join(tmp, "ML_course_data")
    det = dict(corpora=[(k, s[0], s[3]) for k, s in specs.items()])
    runs = rng.choice([1, 1, 2])
    if rng.random() < 0.2:  # results of an older corpus
        os.makedirs(os.path.join(base, "key"))
        for k in ("key/Old.csv", "key/%s.csv" % pool[0]):
            with open(os.path.join(base, k), "w") as f:
                f.write("stale\n")
    for k in range(runs):
        outside = ctx.call("course-run", run, tmp)
        ctx.check(not outside, "course-delete", "deletes only its own output", paths=outside)
    ctx.sig(tuple(sorted(want)), sum(map(len, keys.values())), sum(map(len, chords.values())), runs)
    got = {k: [x for x in v.split("\n") if x] for k, v in tree(base).items()}
    ctx.eq(sorted(k for k, v in got.items() if v), sorted(k for k, v in want.items() if v), "course-files", "one file per composer", runs=runs, **det)
    for k, lines in want.items():
        ctx.eq(got.get(k, []), lines, "course-" + ("vocab" if "vocab" in k else os.path.dirname(k)), "its lines", file=k, runs=runs, **det)
    ctx.eq(tree(os.path.join(tmp, "corpus_data")), before, "course-input", "the corpus is left alone", **det)
