"""Generates MusicXML scores together with what they contain (exact times in whole notes)."""
from fractions import Fraction as F

DIV = 24  # divisions per quarter
STEPS = "CDEFGAB"
SEMI = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
FIFTH = {"F": -1, "C": 0, "G": 1, "D": 2, "A": 3, "E": 4, "B": 5}


def midi(step, alter, octave):
    return 12 * (octave + 1) + SEMI[step] + alter


def rand_pitch(rng, wild):
    step = rng.choice(STEPS)
    alter = rng.choice([0, 0, 0, 1, -1] + ([2, -2] if wild else []))
    return step, alter, rng.randrange(2, 7)


class Score:
    """measures: dicts(number, ts, dur, off, start, first_ending); notes: dicts(t, dur, pitch)."""

    def __init__(self):
        self.measures, self.notes, self.parts = [], [], []


def make_measures(rng, endings=True):
    ms, start = [], F(0)
    ts = rng.choice(["4/4", "3/4", "2/4", "6/8", "3/8", "2/2", "9/8"])
    n = rng.choice([1, 2, 2, 3, 4, 6, 9])
    number = 1
    if n > 1 and rng.random() < 0.35:  # pickup
        unit = F(1, 8)
        k = int(F(ts) / unit)
        d = unit * rng.randrange(1, k) if k > 1 else F(ts)
        ms.append(dict(number=0 if rng.random() < 0.7 else 1, ts=ts, dur=d, off=F(ts) - d))
        number = ms[0]["number"] + 1
    while len(ms) < n:
        if ms and rng.random() < 0.2:
            ts = rng.choice(["4/4", "3/4", "2/4", "6/8", "3/8"])
        if n > 2 and ms and rng.random() < 0.15:  # a measure split into two sounding parts
            unit = F(1, 8)
            k = int(F(ts) / unit)
            d = unit * rng.randrange(1, k) if k > 1 else None
            if d:
                ms.append(dict(number=number, ts=ts, dur=d, off=F(0)))
                number += 1
                if rng.random() < 0.5:  # as MuseScore exports measures that are not counted
                    ms.append(dict(number=f"X{number - 1}", ts=ts, dur=F(ts) - d, off=d))
                else:
                    ms.append(dict(number=number, ts=ts, dur=F(ts) - d, off=d))
                    number += 1
                continue
        ms.append(dict(number=number, ts=ts, dur=F(ts), off=F(0)))
        number += 1
    for m in ms:
        m["skip"] = False
    if endings and len(ms) >= 4 and rng.random() < 0.45:
        free = [k > 0 and m["off"] == 0 and m["dur"] == F(m["ts"]) for k, m in enumerate(ms)]
        for _ in range(rng.choice([1, 1, 2])):
            n1, n2 = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
            cand = [k for k in range(1, len(ms) - n1 - n2 + 1) if all(free[k:k + n1 + n2])]
            if not cand:
                continue
            k = rng.choice(cand)
            first, second = rng.choice([(1, 2), (1, 2), ("1, 2", 3), ("1, 2, 3", 4)])
            for j in range(k, k + n1 + n2):
                free[j] = False
                ms[j]["skip"] = j < k + n1
                ms[j]["ending"] = first if j < k + n1 else second
                ms[j]["ending_start"] = j in (k, k + n1)
                ms[j]["ending_stop"] = j in (k + n1 - 1, k + n1 + n2 - 1)
            free[k - 1] = False
            if k + n1 + n2 < len(ms):
                free[k + n1 + n2] = False
    t = F(0)
    for m in ms:
        m["start"] = t
        if not m["skip"]:
            t += m["dur"]
    return ms


TYPES = {F(1): ("whole", 0), F(3, 4): ("half", 1), F(1, 2): ("half", 0), F(3, 8): ("quarter", 1),
         F(1, 4): ("quarter", 0), F(3, 16): ("eighth", 1), F(1, 8): ("eighth", 0),
         F(1, 16): ("16th", 0), F(1, 12): ("eighth", 3), F(1, 24): ("16th", 3)}
DURS = [F(1, 4), F(1, 4), F(1, 8), F(1, 8), F(1, 16), F(3, 8), F(1, 2), F(1), F(3, 16), F(3, 4)]


def _type(d):
    name, mod = TYPES[d]
    return (f"<type>{name}</type>" + ("<dot/>" if mod == 1 else "")
            + ("<time-modification><actual-notes>3</actual-notes><normal-notes>2</normal-notes>"
               "</time-modification>" if mod == 3 else ""))


def make_voice(rng, ms, wild, tie_prob, links):
    """Events per measure: (offset, dur, pitches or None, tie flags) and the sounding notes.

    links collects the (pitch, time) at which some tie ends (to keep the score unambiguous)."""
    events, notes = [], []
    open_ties = {}  # pitch -> note dict that continues into the next event
    saved = None  # the ties into a first ending, which also lead into the second
    for k, m in enumerate(ms):
        pos, row, triplet = F(0), [], [0, None]
        after = next((j for j in range(k + 1, len(ms)) if not ms[j]["skip"]), None)
        last_chance = (k + 1 < len(ms) and ms[k + 1]["skip"]) if m["skip"] else after is not None
        if m["skip"] and saved is None:
            saved = open_ties
            open_ties = {p: dict(n) for p, n in open_ties.items()}
        elif not m["skip"] and saved is not None:
            assert not open_ties
            open_ties, saved = saved, None
        while pos < m["dur"]:
            left = m["dur"] - pos
            if triplet[0]:
                triplet[0] -= 1
                d = triplet[1]
            elif rng.random() < 0.15 and left >= F(1, 4):
                triplet = [2, rng.choice([F(1, 12), F(1, 24)])]
                d = triplet[1]
            else:
                d = rng.choice([x for x in DURS if x <= left])
            is_last = pos + d == m["dur"]
            for p in list(open_ties):  # a tie that leads nowhere
                if rng.random() < 0.08:
                    del open_ties[p]
            # (music21 reads every "whole" rest as a full-measure rest)
            if not open_ties and rng.random() < 0.2 and d != 1:
                row.append((pos, d, None, ()))
                pos += d
                continue
            pitches = list(open_ties)
            while len(pitches) < 1 or (rng.random() < 0.25 and len(pitches) < 4):
                # coming back to a pitch is what makes wrong ties visible
                p = rng.choice(notes)["pitch"] if notes and rng.random() < 0.3 else rand_pitch(rng, wild)
                if midi(*p) not in [midi(*q) for q in pitches]:
                    pitches.append(p)
            pitches.sort(key=lambda p: midi(*p))
            flags, new_open = [], {}
            for p in pitches:
                stop = p in open_ties
                may = not is_last or last_chance
                st = may and rng.random() < tie_prob
                if stop:
                    note = open_ties[p]
                    note["dur"] += d
                else:
                    note = dict(t=m["start"] + pos, dur=d, pitch=p, skip=m["skip"])
                    notes.append(note)
                if st:
                    new_open[p] = note
                    if not m["skip"]:
                        links.append((p, m["start"] + pos + d))
                flags.append((stop, st))
            open_ties = new_open
            row.append((pos, d, pitches, flags))
            pos += d
        events.append(row)
    return events, [n for n in notes if not n["skip"]]


def _dur(d):
    return int(d * 4 * DIV)


def to_xml(ms, parts):
    out = ['<?xml version="1.0" encoding="UTF-8"?>', '<score-partwise version="3.1"><part-list>']
    for p in range(len(parts)):
        out.append(f'<score-part id="P{p}"><part-name>P{p}</part-name></score-part>')
    out.append("</part-list>")
    for p, voices in enumerate(parts):
        out.append(f'<part id="P{p}">')
        prev_ts = None
        for k, m in enumerate(ms):
            imp = ' implicit="yes"' if m["dur"] != F(m["ts"]) else ""
            out.append(f'<measure number="{m["number"]}"{imp}>')
            if m.get("ending_start"):
                out.append(f'<barline location="left"><ending number="{m["ending"]}" type="start"/></barline>')
            attr = ""
            if k == 0:
                attr += f"<divisions>{DIV}</divisions>"
            if m["ts"] != prev_ts:
                a, b = m["ts"].split("/")
                attr += f"<time><beats>{a}</beats><beat-type>{b}</beat-type></time>"
                prev_ts = m["ts"]
            if attr:
                out.append(f"<attributes>{attr}</attributes>")
            for v, events in enumerate(voices):
                if v:
                    out.append(f"<backup><duration>{_dur(m['dur'])}</duration></backup>")
                for pos, d, pitches, flags in events[k]:
                    if pitches is None:
                        out.append(f"<note><rest/><duration>{_dur(d)}</duration><voice>{v + 1}</voice>"
                                   f"{_type(d)}</note>")
                        continue
                    for j, (pi, (stop, start)) in enumerate(zip(pitches, flags)):
                        alter = f"<alter>{pi[1]}</alter>" if pi[1] else ""
                        ties = ('<tie type="stop"/>' if stop else "") + ('<tie type="start"/>' if start else "")
                        out.append(
                            "<note>" + ("<chord/>" if j else "")
                            + f"<pitch><step>{pi[0]}</step>{alter}<octave>{pi[2]}</octave></pitch>"
                            + f"<duration>{_dur(d)}</duration>{ties}<voice>{v + 1}</voice>{_type(d)}</note>")
            if m.get("ending_stop"):
                typ = "stop"
                rep = '<repeat direction="backward"/>' if str(m["ending"])[0] == "1" else ""
                out.append(f'<barline location="right"><ending number="{m["ending"]}" type="{typ}"/>{rep}</barline>')
            out.append("</measure>")
        out.append("</part>")
    out.append("</score-partwise>")
    return "\n".join(out)


def make(rng, parts=None, voices=None, tie_prob=0.15, wild=False, endings=True):
    ms = make_measures(rng, endings)
    n_parts = parts or rng.choice([1, 1, 2, 3])
    all_parts, notes, links = [], [], []
    for p in range(n_parts):
        vs = []
        for v in range(voices or rng.choice([1, 1, 2])):
            while True:
                mine = []
                ev, ns = make_voice(rng, ms, wild, tie_prob, mine)
                if not set(mine) & set(links):
                    break
            vs.append(ev)
            notes += ns
            links += mine
        all_parts.append(vs)
    return ms, notes, to_xml(ms, all_parts)
