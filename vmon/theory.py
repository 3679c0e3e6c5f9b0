"""Independent music-theory reference used as oracle (shares no code with /repo)."""
FIFTHS = {"F": -1, "C": 0, "G": 1, "D": 2, "A": 3, "E": 4, "B": 5}
SEMI = {"C": 0, "D": 2, "E": 4, "F": 5, "G": 7, "A": 9, "B": 11}
LETTERS = "CDEFGAB"
C_TPC = 15
N_TPC = 35
N_MIDI = 12
MIDI_NAMES = ["C", "C#/Db", "D", "D#/Eb", "E", "F", "F#/Gb", "G", "G#/Ab", "A", "A#/Bb", "B"]
REL_MIN, REL_MAX, REL_PAD = -14, 15, 5
KEY_MIN, KEY_MAX = -14, 15

# intervals of chord members in fifths above the root
THIRD = {"M": 4, "m": -3}
CHORD_FIFTHS = {
    "MAJOR": [0, 4, 1], "MINOR": [0, -3, 1], "DIMINISHED": [0, -3, -6], "AUGMENTED": [0, 4, 8],
    "MAJ_MAJ7": [0, 4, 1, 5], "MAJ_MIN7": [0, 4, 1, -2], "MIN_MAJ7": [0, -3, 1, 5],
    "MIN_MIN7": [0, -3, 1, -2], "DIM7": [0, -3, -6, -9], "HALF_DIM7": [0, -3, -6, -2],
    "AUG_MIN7": [0, 4, 8, -2], "AUG_MAJ7": [0, 4, 8, 5],
}
CHORD_STR = {
    "MAJOR": "M", "MINOR": "m", "DIMINISHED": "o", "AUGMENTED": "+", "MAJ_MAJ7": "MM7",
    "MAJ_MIN7": "Mm7", "MIN_MAJ7": "mM7", "MIN_MIN7": "mm7", "DIM7": "o7", "HALF_DIM7": "%7",
    "AUG_MIN7": "+7", "AUG_MAJ7": "+M7",
}
TRIADS = ["MAJOR", "MINOR", "DIMINISHED", "AUGMENTED"]
SCALE = {"MAJOR": [0, 2, 4, -1, 1, 3, 5], "MINOR": [0, 2, -3, -1, 1, -4, -2]}  # fifths
NUMERALS = ["I", "II", "III", "IV", "V", "VI", "VII"]
FIGBASS = {"": 0, "7": 0, "6": 1, "65": 1, "43": 2, "64": 2, "2": 3}


def name_fifths(name):
    """Fifths above C of a note name such as 'Ebb' or 'f#'."""
    letter, acc = name[0].upper(), name[1:]
    return FIFTHS[letter] + 7 * (acc.count("#") - acc.count("b"))


def fifths_name(f):
    acc = 0
    while f < -1:
        f += 7
        acc -= 1
    while f > 5:
        f -= 7
        acc += 1
    letter = [k for k, v in FIFTHS.items() if v == f][0]
    return letter + ("#" * acc if acc > 0 else "b" * -acc)


def name_semi(name):
    letter, acc = name[0].upper(), name[1:]
    return (SEMI[letter] + acc.count("#") - acc.count("b")) % 12


def tpc(f):
    """TPC number from fifths above C."""
    return f + C_TPC


def tpc_name(t):
    return fifths_name(t - C_TPC)


def tpc_to_midi(t):
    return ((t - C_TPC) * 7) % 12


def degree_fifths(deg, acc, mode):
    return SCALE[mode][deg - 1] + 7 * acc


def inv_count(ct):
    return 3 if ct in TRIADS else 4


def chord_tones(ct, root, midi):
    fs = CHORD_FIFTHS[ct]
    if midi:
        return [(root + 7 * f) % 12 for f in fs]
    return [root + f for f in fs]
