"""C22: MusicXML scores (and their label files) read into pieces."""
import os
import shutil
import tempfile
from collections import Counter
from fractions import Fraction as F

import pandas as pd

from vmon import gen, mxml
from vmon import theory as T
from vmon.checks.c07_c08 import level
from vmon.checks.c09_c10_c11 import quiet
from vmon.core import rule, scenario

from harmonic_inference.data import piece as pm
from harmonic_inference.data.data_types import KeyMode

rule("C22", "generated MusicXML files (1-3 parts, 1-2 voices, chords, partial ties in chords and across "
     "barlines, triplets, pickups, split measures incl. uncounted ones, meter changes, first endings, all "
     "spellings), parsed by the installed music21 and read by the repo; label files over them; oracle: "
     "the generated score in exact whole notes; non-trivial = one score",
     ["music21 6.7.1 parses the generated MusicXML faithfully"])


class Scratch:
    def __enter__(self):
        self.dir = tempfile.mkdtemp(prefix="vmon_c22_")
        self.old = tempfile.tempdir
        tempfile.tempdir = self.dir  # music21's pickled copies of parsed files go here
        return self.dir

    def __exit__(self, *a):
        tempfile.tempdir = self.old
        shutil.rmtree(self.dir, ignore_errors=True)


def layout_of(ms):
    return gen.Layout([dict(mc=k, mn=0, timesig=m["ts"], act_dur=m["dur"], mc_offset=m["off"],
                            start=m["start"]) for k, m in enumerate(x for x in ms if not x["skip"])])


def check_score(ctx, piece, ms, notes, det):
    lay = layout_of(ms)
    mdf = piece.measures_df
    ctx.eq([(int(r["mc"]), r["timesig"], F(r["start"]), F(r["act_dur"]), F(r["mc_offset"]),
             None if pd.isna(r["next"]) else int(r["next"])) for _, r in mdf.iterrows()],
           [(m["mc"], m["timesig"], m["start"], m["act_dur"], m["mc_offset"],
             m["mc"] + 1 if k + 1 < len(lay.ms) else None) for k, m in enumerate(lay.ms)],
           "xml-measures", "the measures of the score", **det)
    want = Counter()
    for n in notes:
        on, off = lay.pos(n["t"]), lay.pos(n["t"] + n["dur"])
        step, alter, _ = n["pitch"]
        m = mxml.midi(*n["pitch"])
        want[(mxml.FIFTH[step] + 7 * alter + T.C_TPC, m // 12 - 1, on, off, n["dur"],
              level(lay.by_mc[on[0]]["timesig"], on[1]), level(lay.by_mc[off[0]]["timesig"], off[1]))] += 1
    got = Counter()
    onsets = []
    for n in piece.get_inputs():
        got[(int(n.pitch_class), int(n.octave), (int(n.onset[0]), n.onset[1]),
             (int(n.offset[0]), n.offset[1]), n.duration, n.onset_level, n.offset_level)] += 1
        onsets.append((int(n.onset[0]), n.onset[1]))
        if int(n.onset[0]) in lay.by_mc:
            ctx.eq(n.mc_onset, n.onset[1] - lay.by_mc[int(n.onset[0])]["mc_offset"], "xml-mc-onset",
                   "position from the start of the written measure", note=onsets[-1], **det)
    ctx.eq(list(((want - got)).items())[:4], [], "xml-notes", "every sounding note is read", **det)
    ctx.eq(list(((got - want)).items())[:4], [], "xml-notes", "no other note is read", **det)
    ctx.eq(onsets, sorted(onsets), "xml-order", "notes in order of onset", **det)
    return lay


@scenario("C22", quick=22, thorough=1600)
def scores(ctx, rng, i):
    ms, notes, xml = mxml.make(rng, wild=rng.random() < 0.4, tie_prob=rng.choice([0, 0.15, 0.5]))
    if not notes:
        return
    with Scratch() as tmp:
        path = os.path.join(tmp, "score.xml")
        with open(path, "w") as f:
            f.write(xml)
        piece = ctx.call("xml-read", quiet, pm.get_score_piece_from_music_xml,
                         rng.choice([path, pm.Path(path)]), None, name="n")
    ctx.ev("score")
    ctx.ev("note", len(notes))
    ctx.ev("tied_across_barline", sum(1 for n in notes if layout_of(ms).pos(n["t"])[0] != layout_of(ms).pos(n["t"] + n["dur"])[0]))
    ctx.ev("first_ending", sum(m["skip"] for m in ms))
    ctx.ev("uncounted_measure", sum(isinstance(m["number"], str) for m in ms))
    ctx.sig(tuple((m["ts"], str(m["dur"]), str(m["off"])) for m in ms), len(notes))
    det = dict(measures=[(m["number"], m["ts"], m["dur"], m["off"], m["skip"]) for m in ms])
    check_score(ctx, piece, ms, notes, det)
    ctx.eq((piece.name, piece.get_chords(), piece.get_keys()), ("n", None, None), "xml-unlabelled",
           "no labels without a label file", **det)


@scenario("C22", quick=14, thorough=1000)
def labelled(ctx, rng, i):
    ms, notes, xml = mxml.make(rng, tie_prob=0.15)
    if not notes:
        return
    lay = layout_of(ms)
    grid = F(1, 8)
    n = rng.randrange(1, 7)
    bounds = sorted({F(0), lay.end} | {grid * rng.randrange(1, max(2, int(lay.end / grid))) for _ in range(n)})
    bounds = [b for b in bounds if b <= lay.end]
    labels, key = [], rng.choice(["C", "a", "F", "G", "e"])
    for a, b in zip(bounds, bounds[1:]):
        if rng.random() < 0.25:
            key = rng.choice(["C", "a", "F", "G", "e", "B-", "f+"])
        rel = rng.choice(["5", "2", "4"]) if rng.random() < 0.2 else None
        deg = rng.choice(["1", "2", "4", "5"])
        labels.append(dict(a=a, b=b, key=key, deg=deg, rel=rel, typ=rng.choice(["M", "m", "D7", "d"]),
                           inv=rng.randrange(3)))
    rows = []
    for lb in labels:
        degree = lb["deg"] + ("/" + lb["rel"] if lb["rel"] else "")
        if not lb["rel"] and rng.random() < 0.1:
            degree += "+"  # augmented marker in the label files
        rows.append((lb["a"] * 4, lb["b"] * 4, lb["key"], degree, lb["typ"], lb["inv"]))
        if rng.random() < 0.1:  # a zero-length label is dropped
            rows.append((lb["b"] * 4, lb["b"] * 4, lb["key"], "1", "M", 0))
    if rng.random() < 0.2:
        rows.insert(0, (F(-1), F(0), "C", "1", "M", 0))
    fmt = rng.choice([str, lambda x: str(float(x)) if float(x) * 2 == int(float(x) * 2) else str(x)])
    with Scratch() as tmp:
        path, csv = os.path.join(tmp, "s.xml"), os.path.join(tmp, "s.csv")
        with open(path, "w") as f:
            f.write(xml)
        with open(csv, "w") as f:
            f.write("\n".join(",".join([fmt(r[0]), fmt(r[1])] + [str(x) for x in r[2:]]) for r in rows) + "\n")
        piece = ctx.call("xml-labelled", quiet, pm.get_score_piece_from_music_xml, path, csv)
    det = dict(measures=[(m["number"], m["ts"], m["dur"], m["off"], m["skip"]) for m in ms], rows=rows)
    check_score(ctx, piece, ms, notes, det)
    ctx.ev("labelled_score")
    ctx.ev("label", len(labels))
    ctx.sig(tuple(map(str, rows)))
    CTN = {"M": "MAJOR", "m": "MINOR", "D7": "MAJ_MIN7", "d": "DIMINISHED"}
    APP = {"MAJOR": {"5": "MAJOR", "2": "MINOR", "4": "MAJOR"}, "MINOR": {"5": "MINOR", "2": "MINOR", "4": "MINOR"}}
    chords = list(piece.get_chords())
    ctx.require(len(chords) == len(labels), "xml-chords", "one chord per label", got=len(chords), **det)
    times = [lay.abs((int(x.onset[0]), x.onset[1])) for x in piece.get_inputs()]
    ends = [t + x.duration for t, x in zip(times, piece.get_inputs())]
    changes = [next((k for k, t in enumerate(times) if t >= lb["a"]), len(times) - 1) for lb in labels]
    keys, kc = [], []
    for k, (lb, ch) in enumerate(zip(labels, chords)):
        name = lb["key"].replace("-", "b").replace("+", "#")
        kf, mode = T.name_fifths(name), "MINOR" if name[0].islower() else "MAJOR"
        rf, rm = kf, mode
        if lb["rel"]:
            rf, rm = kf + T.degree_fifths(int(lb["rel"]), 0, mode), APP[mode][lb["rel"]]
        root = rf + T.degree_fifths(int(lb["deg"]), 0, rm)
        ct = CTN[lb["typ"]]
        ctx.eq((ch.root, ch.chord_type.name, ch.inversion, ch.key_tonic, ch.key_mode.name, ch.duration,
                lay.abs((int(ch.onset[0]), ch.onset[1])), lay.abs((int(ch.offset[0]), ch.offset[1]))),
               (root + T.C_TPC, ct, lb["inv"] % len(T.CHORD_FIFTHS[ct]), rf + T.C_TPC, rm, lb["b"] - lb["a"],
                lb["a"], lb["b"]), "xml-chords", "the labelled chord", label=lb, **det)
        if not keys or keys[-1] != (rf, rm):
            keys.append((rf, rm))
            kc.append(k)
    ctx.eq([(int(k.relative_tonic) - T.C_TPC, k.relative_mode.name) for k in piece.get_keys()], keys,
           "xml-keys", "keys in force", **det)
    ctx.eq([int(k) for k in piece.get_key_change_indices()], kc, "xml-key-changes", "where keys change", **det)
    ctx.eq([int(k) for k in piece.get_chord_change_indices()], changes, "xml-changes",
           "first note at or after each label", **det)
    starts = [next((k for k, (t, e) in enumerate(zip(times, ends)) if t >= lb["a"] or e > lb["a"]), len(times))
              for lb in labels]
    ctx.eq([tuple(int(v) for v in r) for r in piece.get_chord_ranges()],
           list(zip(starts, changes[1:] + [len(times)])), "xml-ranges", "note range of each label", **det)
