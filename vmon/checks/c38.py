"""C38: labels written onto scores."""
import os
import random
import xml.etree.ElementTree as ET
from collections import Counter
from fractions import Fraction as F

import pandas as pd

from vmon.checks.c34 import Scratch, run_script
from vmon.core import rule, scenario

rule("C38", "random directories of label tables (plain and coloured, with result tables among them) and MuseScore scores (2-3 "
     "staves, several voices, pickups, changing metres, labels already there; names with dots, brackets, spaces, and names "
     "that end in one another), some tables without a score and scores without a table; write_to_score.py run over them, "
     "once or twice; oracle: an independent reader of the scores; non-trivial = one label on a score",
     ["scores are written and read through the installed ms3"])

DUR = [("whole", F(1)), ("half", F(1, 2)), ("quarter", F(1, 4)), ("eighth", F(1, 8))]
COLOR = {"green": (0, 128, 0), "red": (255, 0, 0), "yellow": (255, 255, 0)}


class Score:
    """A random score; `text` is its MuseScore file."""

    def __init__(self, rng):
        self.staves = rng.choice([2, 2, 3])
        self.measures = []  # (timesig or None, actual length, is pickup)
        ts = rng.choice([(4, 4), (3, 4), (2, 4), (6, 8)])
        for k in range(rng.randrange(1, 6)):
            sig = None
            if k == 0 or rng.random() < 0.15:
                ts = ts if k == 0 else rng.choice([(4, 4), (3, 4), (2, 4), (6, 8)])
                sig = ts
            dur = F(*ts)
            short = rng.random() < 0.25
            self.measures.append((sig, F(1, 4) if short else dur, short))
        out = ['<?xml version="1.0" encoding="UTF-8"?>', '<museScore version="3.01">', "<programVersion>3.6.2</programVersion>",
               "<programRevision>3224f34</programRevision>", "<Score>", "<Division>480</Division>", "<Style>", "</Style>",
               '<metaTag name="composer">x</metaTag>', "<Part>"]
        for s in range(self.staves):
            out += ['<Staff id="%d">' % (s + 1), '<StaffType group="pitched">', "<name>stdNormal</name>", "</StaffType>", "</Staff>"]
        out += ["<trackName>Piano</trackName>", "<Instrument>", "<trackName>Piano</trackName>", "</Instrument>", "</Part>"]
        old = rng.random() < 0.3
        for s in range(self.staves):
            out.append('<Staff id="%d">' % (s + 1))
            for sig, dur, short in self.measures:
                out.append('<Measure len="%s">' % dur if short else "<Measure>")
                for v in range(rng.choice([1, 1, 2])):
                    out.append("<voice>")
                    if sig and v == 0:
                        out += ["<TimeSig>", "<sigN>%d</sigN>" % sig[0], "<sigD>%d</sigD>" % sig[1], "</TimeSig>"]
                    left = dur
                    while left > 0:
                        name, d = rng.choice([x for x in DUR if x[1] <= left])
                        left -= d
                        if old and rng.random() < 0.3:
                            out += ["<Harmony>", "<name>%s</name>" % rng.choice(["V7", "I", ".i", "C.IV"]), "</Harmony>"]
                        if v == 0 and left == 0 and d == dur and rng.random() < 0.2:
                            out += ["<Rest>", "<durationType>measure</durationType>", "<duration>%d/%d</duration>" % (d.numerator, d.denominator), "</Rest>"]
                        elif rng.random() < 0.15:
                            out += ["<Rest>", "<durationType>%s</durationType>" % name, "</Rest>"]
                        else:
                            out += ["<Chord>", "<durationType>%s</durationType>" % name]
                            for p in sorted(rng.sample(range(48, 84), rng.choice([1, 1, 2, 3]))):
                                out += ["<Note>", "<pitch>%d</pitch>" % p, "<tpc>%d</tpc>" % rng.randrange(10, 20), "</Note>"]
                            out.append("</Chord>")
                    out.append("</voice>")
                out.append("</Measure>")
            out.append("</Staff>")
        out += ["</Score>", "</museScore>", ""]
        self.text = "\n".join(out)


def read(path):
    """(labels, notes) of a score: counters of what sounds or stands where."""
    labels, notes = Counter(), Counter()
    root = ET.parse(path).getroot()
    lengths = dict((n, d) for n, d in DUR)
    lengths.update({"16th": F(1, 16), "32nd": F(1, 32), "64th": F(1, 64)})
    for staff in root.find("Score").findall("Staff"):
        for mc, measure in enumerate(staff.findall("Measure"), 1):
            for v, voice in enumerate(measure.findall("voice"), 1):
                t = F(0)
                for e in voice:
                    at = (int(staff.get("id")), v, mc, t)
                    if e.tag == "location":
                        t += F(e.find("fractions").text)
                    elif e.tag == "Harmony":
                        color = e.find("color")
                        labels[at + (e.find("name").text, None if color is None else tuple(int(color.get(x)) for x in "rgb"))] += 1
                    elif e.tag in ("Chord", "Rest"):
                        kind = e.find("durationType").text
                        d = F(e.find("duration").text) if kind == "measure" else lengths[kind]
                        for n in e.findall("Note"):
                            notes[at + (d, int(n.find("pitch").text), int(n.find("tpc").text))] += 1
                        if e.tag == "Rest":
                            notes[at + (d, None, None)] += 1
                        t += d
    return labels, notes


def rand_labels(rng, score, coloured):
    rows = []
    places = sorted({(mc, F(1, 8) * rng.randrange(0, int(dur * 8))) for mc, (_, dur, _) in enumerate(score.measures, 1)
                     for _ in range(rng.choice([0, 1, 2, 3]))})
    for mc, onset in places or [(1, F(0))]:
        for kind in rng.choice([["c"], ["c"], ["k", "c"]]):
            label = rng.choice(["C", "G", "Ab", "F#", "bb"]) + ":KeyMode." + rng.choice(["MAJOR", "MINOR"]) if kind == "k" else \
                rng.choice(["C", "G", "Ab", "F##"]) + ":" + rng.choice(["M", "m", "Mm7", "o7", "%7", "+"]) + ", inv:" + str(rng.randrange(4))
            row = {"label": label, "mc": mc, "mc_onset": onset, "mn_onset": onset}
            if coloured:
                row["color_name"] = rng.choice(sorted(COLOR))
            rows.append(row)
    return rows


@scenario("C38", quick=8, thorough=500)
def written(ctx, rng, i):
    with Scratch() as tmp:
        corpus, out = os.path.join(tmp, "corpus"), os.path.join(tmp, "out")
        pool = ["p1", "xp1", "1", "11", "K 331-1", "op.1", "op71", "op11", "a (b)", "a+b", "aab", "[x]"]
        pieces = {}
        for k in range(rng.choice([1, 2, 3])):
            sub = rng.choice(["A", "A", "B c", "C/d"])
            names = rng.sample(pool, rng.choice([1, 2, 3]))
            if rng.random() < 0.5:
                names = list(dict.fromkeys(names + rng.choice([["p1", "xp1"], ["1", "11"], ["op.1", "op71"], ["a+b", "aab"]])))
            for name in names:
                pieces.setdefault((sub, name), None)
        det = dict(pieces=sorted(map(str, pieces)))
        todo, scores = {}, {}
        for sub, name in pieces:
            score = scores[sub, name] = Score(rng)
            has_score, has_table = rng.choice([(1, 1), (1, 1), (1, 1), (1, 0), (0, 1)])
            if has_score:
                path = os.path.join(corpus, sub, "MS3", name + ".mscx")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as f:
                    f.write(score.text)
                for extra in ("notes", "measures"):
                    if rng.random() < 0.3:
                        os.makedirs(os.path.join(corpus, sub, extra), exist_ok=True)
                        with open(os.path.join(corpus, sub, extra, name + ".tsv"), "w") as f:
                            f.write("mc\tmn\ttimesig\tact_dur\tmc_onset\n1\t1\t4/4\t1\t0\n")
            if has_table:
                coloured = rng.random() < 0.5
                rows = rand_labels(rng, score, coloured)
                path = os.path.join(out, sub, name + ".tsv")
                os.makedirs(os.path.dirname(path), exist_ok=True)
                pd.DataFrame(rows).to_csv(path, sep="\t")
                if coloured and rng.random() < 0.5:
                    pd.DataFrame([{"gt_key": "C", "est_key": "C", "duration": F(1)}]).to_csv(path[:-4] + "_results.tsv", sep="\t")
                if has_score:
                    todo[sub, name] = rows
            pieces[sub, name] = (bool(has_score), bool(has_table))
        if not os.path.isdir(corpus) or not os.path.isdir(out):
            return
        if rng.random() < 0.5:  # tables of a corpus that is not there at all
            sub = rng.choice(["0 gone", "AA", "C/e", "Z"])
            os.makedirs(os.path.join(out, sub))
            pd.DataFrame(rand_labels(rng, Score(rng), False)).to_csv(os.path.join(out, sub, rng.choice(pool) + ".tsv"), sep="\t")
            ctx.ev("no_directory")
        for sub, _ in pieces:  # the corpus has a directory for every set of tables, or not
            if rng.random() < 0.5:
                os.makedirs(os.path.join(corpus, sub), exist_ok=True)
        before = {}
        for base in (corpus, out):
            for d, _, fs in os.walk(base):
                for f in fs:
                    with open(os.path.join(d, f), "rb") as h:
                        before[os.path.join(d, f)] = h.read()
        det["pieces"] = [(s, n) + p for (s, n), p in sorted(pieces.items())]
        state = random.getstate()
        for run in range(rng.choice([1, 1, 2, 2])):
            if run and todo and rng.random() < 0.7:  # the tables have changed since the last run
                sub, name = rng.choice(sorted(todo))
                path = os.path.join(out, sub, name + ".tsv")
                coloured = "color_name" in todo[sub, name][0]
                todo[sub, name] = rand_labels(rng, scores[sub, name], coloured)
                pd.DataFrame(todo[sub, name]).to_csv(path, sep="\t")
                with open(path, "rb") as h:
                    before[path] = h.read()
                ctx.ev("rewritten")
            ctx.call("write", run_script, "write_to_score.py", ["--output", out, "--annotations", corpus])
        random.setstate(state)
        ctx.ev("run")
        for path, data in before.items():
            with open(path, "rb") as h:
                ctx.check(h.read() == data, "write-input", "tables and scores that are read stay as they are", path=path, **det)
        new = {}
        for base in (corpus, out):
            for d, _, fs in os.walk(base):
                for f in fs:
                    p = os.path.join(d, f)
                    if p not in before and f.endswith(".mscx"):
                        new[os.path.relpath(d, out), f] = p
        want = {(os.path.join(sub, "MS3"), name + "_inferred.mscx"): (sub, name) for sub, name in todo}
        ctx.eq(sorted(new), sorted(want), "write-files", "one annotated score per table that has a score", **det)
        for key, (sub, name) in want.items():
            if key not in new:
                continue
            old_labels, old_notes = read(os.path.join(corpus, sub, "MS3", name + ".mscx"))
            labels, notes = read(new[key])
            ctx.eq(notes - old_notes, Counter(), "write-notes", "no note is added", piece=key, **det)
            ctx.eq(old_notes - notes, Counter(), "write-notes", "no note is lost", piece=key, **det)
            exp = Counter(old_labels)
            for r in todo[sub, name]:
                exp[(2, 1, r["mc"], r["mc_onset"], r["label"], COLOR.get(r.get("color_name")))] += 1
                ctx.ev("label_written")
                ctx.sig(r["mc"], str(r["mc_onset"]), r["label"], len(exp), sample=False)
            ctx.eq(labels - exp, Counter(), "write-labels", "no other label appears", piece=key, **det)
            ctx.eq(exp - labels, Counter(), "write-labels", "every label stands at its position", piece=key, **det)
            ctx.ev("score_written")
