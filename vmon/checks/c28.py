"""C28: forced labels written into a score, and their positions."""
import os
import shutil
import tempfile
from fractions import Fraction as F

from vmon import theory as T
from vmon.checks.c07_c08 import CT, TPC
from vmon.checks.c19_c20_c21 import build, safe_piece
from vmon.checks.c09_c10_c11 import quiet
from vmon.core import rule, scenario

from harmonic_inference.data.data_types import KeyMode
import harmonic_inference.utils.forces as forces
import harmonic_inference.utils.harmonic_utils as hu

rule("C28", "generated MuseScore files read by the installed ms3 (harmony symbols and lyrics, pickups, several "
     "meters, two voices) with every kind of forced label: all chord types, inversions present or not, all "
     "spellings, both modes, next to ordinary labels and text; positions of random pieces; oracle: the "
     "label that was written; non-trivial = one label read or one position resolved",
     ["ms3 0.4.8 reads the generated MuseScore files faithfully"])

CHORDS = {c: k for k, c in enumerate(hu.get_chord_from_one_hot_index(slice(None, None), TPC))}
KEYS = {(t, m): k for k, (t, m) in enumerate(hu.get_key_from_one_hot_index(slice(None, None), TPC))}
PLAIN = ["V65", "I", "ii6", "(Fine)", "viio7/V", "text", "{", "I}", "#VII+"]
DUR = {F(1): "whole", F(1, 2): "half", F(1, 4): "quarter", F(1, 8): "eighth"}


def some_name(rng):
    return rng.choice("CDEFGAB") + rng.choice(["", "", "", "#", "b", "##", "bb"])


def some_label(rng):
    """A forced label and what it means."""
    kind = rng.choice(["!C", "=C", "!K", "=K", "C", "C", "C", "C", "K", "K", "plain"])
    if kind == "plain":
        return rng.choice(PLAIN), None
    if kind in ("!C", "=C", "!K", "=K"):
        return kind, (kind, None)
    name = some_name(rng)
    if kind == "K":
        minor = rng.random() < 0.5
        label = name[0].lower() + name[1:] if minor else name
        return "K=" + label, ("K", KEYS[(T.name_fifths(name) + T.C_TPC, KeyMode.MINOR if minor else KeyMode.MAJOR)])
    ct = rng.choice(list(T.CHORD_FIFTHS))
    inv = rng.choice([None, 0, 1, 2, 3])
    if inv is not None:
        inv = min(inv, T.inv_count(ct) - 1)
    label = "C=" + name + T.CHORD_STR[ct] + ("" if inv is None else f"_{inv}")
    return label, ("C", CHORDS[(T.name_fifths(name) + T.C_TPC, CT[ct], inv or 0)])


def make_score(rng, where):
    """(xml, {kind: [(mc, mn_onset, id)]})."""
    out, want = [], {k: [] for k in ("!C", "=C", "!K", "=K", "C", "K")}
    ts = rng.choice([(4, 4), (3, 4), (2, 2), (6, 8)])
    labels = []
    for mc in range(1, rng.randrange(2, 6)):
        change = mc > 1 and rng.random() < 0.2
        if change:
            ts = rng.choice([(4, 4), (3, 4), (2, 4)])
        full, off = F(*ts), F(0)
        length = full
        if mc == 1 and rng.random() < 0.4:
            length = full - F(1, 4)
            off = full - length
            out.append(f'<Measure len="{length.numerator}/{length.denominator}"><irregular>1</irregular><voice>')
        else:
            out.append("<Measure><voice>")
        if mc == 1:
            out.append("<KeySig><accidental>0</accidental></KeySig>")
        if mc == 1 or change:
            out.append(f"<TimeSig><sigN>{ts[0]}</sigN><sigD>{ts[1]}</sigD></TimeSig>")
        pos = F(0)
        while pos < length:
            d = rng.choice([x for x in DUR if x <= length - pos])
            lyric = ""
            for place in ("harmony", "lyrics"):
                if place not in where or rng.random() < 0.45:
                    continue
                text, meaning = some_label(rng)
                labels.append(text)
                if place == "harmony":
                    out.append(f"<Harmony><name>{text}</name></Harmony>")
                else:
                    lyric = f"<Lyrics><text>{text}</text></Lyrics>"
                if meaning:
                    want[meaning[0]].append((mc, pos + off) + (() if meaning[1] is None else (meaning[1],)))
            p = rng.randrange(48, 72)
            out.append(f"<Chord><durationType>{DUR[d]}</durationType>{lyric}"
                       f"<Note><pitch>{p}</pitch><tpc>{14}</tpc></Note></Chord>")
            pos += d
        out.append("</voice></Measure>")
    xml = ('<?xml version="1.0" encoding="UTF-8"?>\n<museScore version="3.01">\n'
           "<programVersion>3.6.2</programVersion>\n<programRevision>3224f34</programRevision>\n<Score>\n"
           '<Division>480</Division>\n<Style/>\n<metaTag name="workTitle">t</metaTag>\n'
           '<Part><Staff id="1"><StaffType group="pitched"><name>stdNormal</name></StaffType></Staff>'
           "<trackName>P</trackName><Instrument><longName>P</longName></Instrument></Part>\n"
           '<Staff id="1">\n' + "\n".join(out) + "\n</Staff></Score></museScore>\n")
    return xml, want, labels


@scenario("C28", quick=30, thorough=2500)
def label_files(ctx, rng, i):
    where = [("harmony", "lyrics"), ("harmony",), ("lyrics",)][i % 3]
    xml, want, labels = make_score(rng, where)
    if not labels:
        return
    tmp = tempfile.mkdtemp(prefix="vmon_c28_")
    try:
        path = os.path.join(tmp, "s.mscx")
        with open(path, "w") as f:
            f.write(xml)
        got = ctx.call("forces-read:" + "+".join(where), quiet, forces.extract_forces_from_musescore, path)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.ev("score")
    for kind, rows in zip(("!C", "=C", "!K", "=K", "C", "K"), got):
        rows = sorted((int(r[0]), F(r[1])) + tuple(int(x) for x in r[2:]) for r in rows)
        ctx.ev("label:" + kind, len(want[kind]))
        ctx.eq(rows, sorted(want[kind]), "forces-" + kind, "exactly the labels written", labels=labels)
    for t in labels:
        ctx.sig(where, t)


@scenario("C28", quick=80, thorough=6000)
def positions(ctx, rng, i):
    spec, st, _ = safe_piece(ctx, rng)
    piece = build(ctx, spec, st)
    onsets = [(int(n.onset[0]), n.onset[1]) for n in piece.get_inputs()]
    if onsets != sorted(onsets):
        return
    good, bad = [], []
    for _ in range(rng.randrange(1, 12)):
        p = rng.choice(onsets)
        extra = (rng.randrange(100),) if rng.random() < 0.5 else ()
        good.append(p + extra)
    for p in [(onsets[0][0], onsets[0][1] - F(1, 64)), (onsets[-1][0], onsets[-1][1] + F(1, 64)),
              (onsets[-1][0] + 1, F(0)), (rng.choice(onsets)[0], F(rng.randrange(64), 63))]:
        if p not in onsets:
            bad.append(p)
    got = ctx.call("positions", forces.convert_score_positions_to_note_indexes, good, piece)
    ctx.ev("position", len(good))
    want = [onsets.index(g[:2]) if len(g) == 2 else (onsets.index(g[:2]), g[2]) for g in good]
    ctx.eq([tuple(map(int, x)) if isinstance(x, tuple) else int(x) for x in got], want, "positions",
           "the first note at each position", forces=good, onsets=onsets)
    ctx.sig(tuple(map(str, good)))
    for p in bad:
        ctx.ev("no_note")
        ctx.raises("positions-refuse", ValueError, forces.convert_score_positions_to_note_indexes,
                   [rng.choice(good)[:2], p], piece)


# ------------------------------------------------------------------------------ test.py --forces-json
SETS = ["forced_chord_changes", "forced_chord_non_changes", "forced_key_changes", "forced_key_non_changes"]


@scenario("C28", quick=50, thorough=1500)
def json_forces(ctx, rng, i):
    """Forces read from a json file: parsed with the right types, and given to the pieces they name."""
    import json
    import os
    import shutil
    import tempfile

    from vmon.joint import StandIn, script

    def one():
        raw, want = {}, {}
        for key in SETS:
            if rng.random() < 0.5:
                want[key] = {rng.randrange(40) for _ in range(rng.randrange(0, 4))}
                raw[key] = sorted(want[key]) + ([min(want[key])] if want[key] and rng.random() < 0.2 else [])
        for key in ("forced_chords", "forced_keys"):
            if rng.random() < 0.6:
                want[key] = {}
                for _ in range(rng.randrange(0, 4)):
                    a = rng.randrange(30)
                    want[key][(a, a + rng.randrange(1, 9))] = rng.randrange(200)
                raw[key] = {rng.choice(["(%d, %d)", "(%d,%d)", "( %d , %d )"]) % r: v for r, v in want[key].items()}
        if rng.random() < 0.15:
            raw["forced_typo"] = [1, 2]
        return raw, want

    nested = rng.random() < 0.55
    if nested:
        names = rng.sample(["default", "Bach/a", "Bach/b", "op1", "op2"], rng.randrange(1, 5))
        pairs = {nm: one() for nm in names}
        raw, want = {nm: p[0] for nm, p in pairs.items()}, {nm: p[1] for nm, p in pairs.items()}
    else:
        raw, one_want = one()
        if rng.random() < 0.5 and one_want:  # one kind only
            key = rng.choice(sorted(one_want))
            raw, one_want = {key: raw[key]}, {key: one_want[key]}
        if not set(raw) - {"forced_typo"}:
            raw, one_want = {"forced_keys": {}}, {"forced_keys": {}}
        want = {"default": one_want}
    test = script("test")
    tmp = tempfile.mkdtemp(prefix="vmon_c28_")
    try:
        path = os.path.join(tmp, "f.json")
        with open(path, "w") as f:
            json.dump(raw, f)
        got = ctx.call("json-forces", test.load_forces_from_json, path)
        ctx.ev("forces_file")
        ctx.sig(repr(raw), sample=False)
        ctx.eq(got, want, "json-forces", "the forces of the file, typed, per piece", raw=raw)
        ctx.check(all(isinstance(v, set if k in SETS else dict) for d in got.values() for k, v in d.items()),
                  "json-forces", "sets of positions, dictionaries of labels", raw=raw)

        class Piece:
            def __init__(self, name):
                self.name = name

            def get_chords(self):
                return None

        pieces = [Piece(nm) for nm in ("0: Bach/a/x.tsv", "1: Bach/b/y.tsv", "2: Liszt/op1/z.tsv", "3: none/q.tsv", None)]
        model = StandIn({id(p): None for p in pieces}, TPC)
        ctx.call("json-forces-use", test.evaluate, model, pieces, forces_path=path)
        for p, (nm, kwargs) in zip(pieces, model.calls):
            mine = [k for k in want if k != "default" and p.name is not None and k in p.name]
            ctx.eq(kwargs, want[mine[0]] if mine else want.get("default", {}), "json-forces-use",
                   "a piece gets the forces filed under its name, others the default ones", piece=p.name, raw=raw)
            ctx.ev("forced_piece")
        ctx.eq([c[0] for c in model.calls], [p.name for p in pieces], "json-forces-use", "every piece once", raw=raw)
        model.calls.clear()
        ctx.call("json-forces-use", test.evaluate, model, pieces)
        ctx.check(all(c[1] == {} for c in model.calls), "json-forces-use", "no forces without a file")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
