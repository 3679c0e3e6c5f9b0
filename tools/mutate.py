"""Self-test of the monitors: mutate one function of a scratch copy of the repository, run the
checks that watch it, and report the mutants none of them notices.

    /opt/venv/bin/python tools/mutate.py --repo /repo --out /tmp/mut.jsonl --workers 6 --per 12 [--only REGEX]

Works on copies under /tmp only; nothing is written to the repository.
"""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "harmonic_inference/"
# (file, function regex) -> properties watching it, the nearest first
MAP = [
    (H + "utils/harmonic_utils.py", "get_chord_label_list|get_chord_from_one_hot_index|get_chord_one_hot_index", ["C03"]),
    (H + "utils/harmonic_utils.py", "split_changes.*|get_added_and_removed.*", ["C06"]),
    (H + "utils/harmonic_utils.py", "get_key_.*", ["C04"]),
    (H + "utils/harmonic_utils.py", "decode_relative_keys|get_interval.*|get_scale.*", ["C05"]),
    (H + "utils/harmonic_utils.py", "get_bass_note|get_chord_inversion.*|get_vector_from.*|get_chord_type.*|get_chord_string", ["C06"]),
    (H + "utils/harmonic_utils.py", "absolute_to_relative|transpose.*", ["C02"]),
    (H + "utils/harmonic_utils.py", "get_accidental.*|tpc_interval.*|get_pitch.*", ["C01", "C05"]),
    (H + "utils/rhythmic_utils.py", "get_range_length|get_rhythmic.*", ["C12"]),
    (H + "utils/rhythmic_utils.py", "get_metrical.*", ["C13"]),
    (H + "utils/corpus_utils.py", "remove_unmatched|add_chord.*", ["C15"]),
    (H + "utils/corpus_utils.py", "remove_repeats", ["C14"]),
    (H + "utils/corpus_utils.py", "add_note_offsets", ["C16"]),
    (H + "utils/corpus_utils.py", "merge_ties.*", ["C17"]),
    (H + "data/corpus_.*", ".*", ["C18"]),
    (H + "data/chord.py", r"Chord\.(get_one_hot_index|get_chord_vector_length)|get_chord_vector_length", ["C03", "C09"]),
    (H + "data/chord.py", r"Chord\.to_vec", ["C09"]),
    (H + "data/chord.py", r"Chord\.(is_repeated|merge_with)", ["C19"]),
    (H + "data/chord.py", r"Chord\.(to_pitch_type|to_dict|__eq__)", ["C20"]),
    (H + "data/chord.py", r"Chord\.from_series", ["C07", "C19"]),
    (H + "data/chord.py", r"Chord\.from_labels.*", ["C08"]),
    (H + "data/key.py", r"(Key\.)?get_.*", ["C04"]),
    (H + "data/key.py", r"Key\.is_repeated", ["C19"]),
    (H + "data/key.py", r"Key\.equals", ["C30", "C19"]),
    (H + "data/key.py", r"Key\.(to_pitch_type|to_dict|__eq__)", ["C20"]),
    (H + "data/key.py", r"Key\.from_series", ["C07"]),
    (H + "data/key.py", r"Key\.from_labels.*", ["C08"]),
    (H + "data/note.py", r"Note\.(to_pitch_type|to_dict|__eq__)", ["C20"]),
    (H + "data/note.py", r"Note\.to_vec", ["C10", "C21"]),
    (H + "data/note.py", r"Note\.from_music21", ["C22"]),
    (H + "data/note.py", r"Note\.(get_vector_length|get_midi.*|from_series)|get_note.*", ["C10"]),
    (H + "data/piece.py", "get_reduction_mask|get_range_start|Piece.get_key.*|Piece.get_chord_ch.*|Piece.get_chords|ScorePiece.__init__|get_score_piece_from_data_frames", ["C19", "C21"]),
    (H + "data/piece.py", "get_chord_note_input|.*get_chords_within.*|.*get_chord_note_inputs|.*get_duration.*", ["C21"]),
    (H + "data/piece.py", "ScorePiece.to_dict|get_score_piece_from_dict", ["C20"]),
    (H + "data/piece.py", "get_measures_df.*|get_notes.*|get_score_piece_from_music.*", ["C22", "C08"]),
    (H + "data/vector_decoding.py", "decode_note.*|transpose_note.*", ["C10"]),
    (H + "data/vector_decoding.py", "decode_chord.*|infer.*", ["C09", "C11"]),
    (H + "data/vector_decoding.py", "decode_key.*", ["C04", "C09"]),
    (H + "data/vector_decoding.py", "get_chord_vector.*|reduce.*|remove.*", ["C11"]),
    (H + "data/datasets.py", ".*to_h5|h5_to_dataset|pad_array|get_split.*|get_dataset_splits", ["C33"]),
    (H + "data/datasets.py", ".*", ["C32", "C33"]),
    (H + "models/initial_chord_models.py", ".*", ["C29"]),
    (H + "models/joint_model.py", ".*(_validate_and_load.*|_apply_forced.*)", ["C27", "C26"]),
    (H + "models/joint_model.py", ".*get_chord_ranges", ["C25"]),
    (H + "models/joint_model.py", "from_args|add_joint.*", ["C37"]),
    (H + "models/joint_model.py", "HarmonicInferenceModel.*", ["C26", "C27"]),
    (H + "models/.*_(classifier|sequence|transition)_models.py", r".*(evaluate|_step|get_data_from_batch)", ["C36", "C35"]),
    (H + "models/.*_(classifier|sequence|transition)_models.py", r"(?!Transposition).*", ["C35", "C36"]),
    (H + "utils/beam_search_utils.py", "State.*", ["C24", "C26"]),
    (H + "utils/beam_search_utils.py", ".*Beam.*", ["C23"]),
    (H + "utils/data_utils.py", "load_models.*", ["C37"]),
    (H + "utils/data_utils.py", ".*", ["C34"]),
    (H + "utils/eval_utils.py", "evaluate.*", ["C30"]),
    (H + "utils/eval_utils.py", "write_labels.*", ["C38"]),
    (H + "utils/eval_utils.py", ".*", ["C31"]),
    (H + "utils/forces.py", ".*", ["C28"]),
    ("test.py", "load_forces.*", ["C28"]),
    ("test.py", "evaluate", ["C31", "C30"]),
    ("annotate.py", "annotate", ["C31"]),
    ("annotate.py", "set_default_args", ["C37"]),
    ("create_h5_data.py", ".*", ["C34"]),
]
SWAPS = [
    ("onset", "offset"), ("local_tonic", "relative_tonic"), ("local_mode", "relative_mode"),
    ("root", "bass"), ("MAJOR", "MINOR"), ("TPC", "MIDI"), ("prefix", "suffix"),
    ("append", "insert"), ("min", "max"), ("any", "all"), ("argmin", "argmax"), ("floor", "ceil"),
    ("inputs", "targets"), ("input_lengths", "target_lengths"), ("left", "right"),
    ("zeros", "ones"), ("keys", "chords"), ("key_change_indices", "chord_change_indices"),
    ("beat_start", "beat_end"), ("num_chord_types", "num_pitches"), ("start", "end"),
    ("onset_level", "offset_level"), ("cumsum", "sum"), ("range", "list"),
]
SW = {}
for _a, _b in SWAPS:
    SW[_a] = _b
    SW[_b] = _a


def funcs(tree):
    out = []

    def walk(node, prefix):
        for c in ast.iter_child_nodes(node):
            if isinstance(c, ast.FunctionDef):
                out.append((prefix + c.name, c))
                walk(c, prefix + c.name + ".")
            elif isinstance(c, ast.ClassDef):
                walk(c, prefix + c.name + ".")

    walk(tree, "")
    return out


def is_log(node):
    try:
        txt = ast.unparse(node)
    except Exception:
        return False
    return txt.startswith(("logging.", "print(", "self.debugger", "warnings.", "logger."))


def mutants(fn):
    """Yield (description, apply) where apply mutates the node in place (on a copied tree)."""
    nested = set()
    for c in ast.walk(fn):
        if c is not fn and isinstance(c, ast.FunctionDef):
            nested |= {id(x) for x in ast.walk(c)}
    skip = set(nested)
    for node in ast.walk(fn):
        if isinstance(node, (ast.Raise, ast.Assert)) or (isinstance(node, ast.Expr) and is_log(node.value)):
            skip |= {id(x) for x in ast.walk(node)}
    ann = set()
    for node in ast.walk(fn):
        for f in ("annotation", "returns"):
            a = getattr(node, f, None)
            if a is not None:
                ann |= {id(x) for x in ast.walk(a)}
    for i, node in enumerate(ast.walk(fn)):
        if id(node) in skip or id(node) in ann:
            continue
        line = getattr(node, "lineno", 0)
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            op = node.ops[0]
            alts = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt],
                    ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
                    ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(op), [])
            for a in alts:
                yield i, f"{line}: {ast.unparse(node)} -> {a.__name__}", lambda n, a=a: n.ops.__setitem__(0, a())
        if isinstance(node, ast.BinOp):
            alts = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mod],
                    ast.Mod: [ast.FloorDiv], ast.Div: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}.get(type(node.op), [])
            if isinstance(node.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(node.left, "value", None), str):
                alts = []
            for a in alts:
                yield i, f"{line}: {ast.unparse(node)} -> {a.__name__}", lambda n, a=a: setattr(n, "op", a())
        if isinstance(node, ast.AugAssign):
            a = {ast.Add: ast.Sub, ast.Sub: ast.Add}.get(type(node.op))
            if a:
                yield i, f"{line}: {ast.unparse(node)} -> {a.__name__}", lambda n, a=a: setattr(n, "op", a())
        if isinstance(node, ast.BoolOp):
            b = ast.Or if isinstance(node.op, ast.And) else ast.And
            yield i, f"{line}: {ast.unparse(node)} -> {b.__name__}", lambda n, b=b: setattr(n, "op", b())
            for k in range(len(node.values)):
                if len(node.values) > 1:
                    yield i, f"{line}: {ast.unparse(node)} drop operand {k}", lambda n, k=k: n.values.pop(k)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield i, f"{line}: {ast.unparse(node)} drop not", lambda n: setattr(n, "op", ast.UAdd()) if False else setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand))
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                yield i, f"{line}: const {v} flip", lambda n, v=v: setattr(n, "value", not v)
            elif isinstance(v, int):
                for w in (v + 1, v - 1):
                    yield i, f"{line}: const {v} -> {w}", lambda n, w=w: setattr(n, "value", w)
        if isinstance(node, (ast.If, ast.IfExp, ast.While)):
            for w in ((True, False) if not isinstance(node, ast.While) else (False,)):
                yield i, f"{line}: if {ast.unparse(node.test)} -> {w}", lambda n, w=w: setattr(n, "test", ast.Constant(w))
        if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Return)):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                continue
            yield i, f"{line}: delete {ast.unparse(node)[:70]}", "delete"
        if isinstance(node, ast.Call):
            for k, kw in enumerate(node.keywords):
                if kw.arg:
                    yield i, f"{line}: drop {kw.arg}={ast.unparse(kw.value)[:30]} in {ast.unparse(node.func)}", lambda n, k=k: n.keywords.pop(k)
            if isinstance(node.func, ast.Attribute) and node.func.attr in ("copy", "sort_values", "reset_index", "fillna", "astype") :
                yield i, f"{line}: drop .{node.func.attr}()", "unwrap"
            if isinstance(node.func, ast.Name) and node.func.id in ("sorted", "deepcopy", "int", "abs", "set", "list", "Fraction", "min", "max", "reversed", "round") and node.args:
                yield i, f"{line}: drop {node.func.id}()", "unwrap"
        if isinstance(node, ast.Attribute) and node.attr in SW:
            yield i, f"{line}: attr {ast.unparse(node)} -> {SW[node.attr]}", lambda n: setattr(n, "attr", SW[n.attr])
        if isinstance(node, ast.Name) and node.id in SW and isinstance(node.ctx, ast.Load):
            yield i, f"{line}: name {node.id} -> {SW[node.id]}", lambda n: setattr(n, "id", SW[n.id])
        if isinstance(node, ast.Slice):
            if node.lower is not None:
                yield i, f"{line}: slice {ast.unparse(node)} drop lower", lambda n: setattr(n, "lower", None)
            if node.upper is not None:
                yield i, f"{line}: slice {ast.unparse(node)} drop upper", lambda n: setattr(n, "upper", None)


def build(src, qual, idx, apply):
    tree = ast.parse(src)
    fn = dict(funcs(tree))[qual]
    nodes = list(ast.walk(fn))
    node = nodes[idx]
    if apply == "delete":
        for parent in ast.walk(fn):
            for f, val in ast.iter_fields(parent):
                if isinstance(val, list) and node in val:
                    val[val.index(node)] = ast.copy_location(ast.Pass(), node)
    elif apply == "unwrap":
        new = node.func.value if isinstance(node.func, ast.Attribute) else node.args[0]
        for parent in ast.walk(fn):
            for f, val in ast.iter_fields(parent):
                if val is node:
                    setattr(parent, f, new)
                elif isinstance(val, list) and node in val:
                    val[val.index(node)] = new
    else:
        apply(node)
    return ast.unparse(ast.fix_missing_locations(tree))


def props_of(path, qual):
    for f, rx, props in MAP:
        if re.fullmatch(f, path) and re.fullmatch(rx, qual):
            return props
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out", required=True)
    ap.add_argument("--workers", type=int, default=6)
    ap.add_argument("--per", type=int, default=10, help="mutants per 40 lines of a function")
    ap.add_argument("--only", default="")
    ap.add_argument("--seed", default="1")
    ap.add_argument("--budget", default="100")
    args = ap.parse_args()
    rng = random.Random(args.seed)
    jobs = []
    files = subprocess.run(["git", "-C", args.repo, "ls-files", "*.py"], capture_output=True, text=True).stdout.split()
    done = set()
    if os.path.exists(args.out):
        for line in open(args.out):
            r = json.loads(line)
            done.add((r["file"], r["func"], r["desc"]))
    for path in files:
        src = open(os.path.join(args.repo, path)).read()
        for qual, fn in funcs(ast.parse(src)):
            props = props_of(path, qual)
            if not props or not re.search(args.only, f"{path}:{qual}:{','.join(props)}"):
                continue
            ms = list(mutants(fn))
            rng.shuffle(ms)
            n = max(2, round(args.per * (fn.end_lineno - fn.lineno + 1) / 40))
            for idx, desc, apply in ms[:n]:
                if (path, qual, desc) not in done:
                    jobs.append((path, qual, idx, desc, apply, props))
    rng.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    lock = threading.Lock()
    count = {}

    def worker(k):
        copy_dir = f"/tmp/mutw{os.getpid()}_{k}"
        shutil.copytree(args.repo, copy_dir, symlinks=True, ignore=shutil.ignore_patterns("*.ipynb", "checkpoints*", "h5_data*"))
        while True:
            with lock:
                if not jobs:
                    break
                path, qual, idx, desc, apply, props = jobs.pop()
            orig = open(os.path.join(args.repo, path)).read()
            try:
                new = build(orig, qual, idx, apply)
            except Exception as exc:
                print("cannot build", desc, exc)
                continue
            if new == ast.unparse(ast.parse(orig)):
                continue
            target = os.path.join(copy_dir, path)
            with open(target, "w") as f:
                f.write(new)
            res = {}
            for prop in props:
                env = dict(os.environ, REPO_DIR=copy_dir, VMON_FAST=args.budget, PYTHONDONTWRITEBYTECODE="1",
                           PYTHONPATH=f"{HERE}:{copy_dir}", PYTHONHASHSEED="0", OMP_NUM_THREADS="1",
                           OPENBLAS_NUM_THREADS="1", VERIF_SEED="1", VMON_NOWRITE="1")
                t = time.time()
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-m", "vmon.main", prop, "--jobs", "1"],
                                       cwd=HERE, env=env, capture_output=True, text=True, timeout=600)
                    keys = re.findall(r"^  \[([^\]]+)\]", p.stdout, re.M)
                    res[prop] = (p.returncode, keys[:3], round(time.time() - t, 1))
                    if p.returncode == 1 and "VIOLATION property=" + prop not in p.stdout:
                        res[prop] = ("died", [p.stderr[-400:]], round(time.time() - t, 1))
                except subprocess.TimeoutExpired:
                    res[prop] = ("timeout", [], 600)
                if res[prop][0] == 1:
                    break
            with open(target, "w") as f:
                f.write(orig)
            caught = [p for p, r in res.items() if r[0] == 1]
            verdict = ("killed" if caught[:1] == props[:1] else "killed-other" if caught
                       else "noanswer" if any(r[0] not in (0, 1) for r in res.values()) else "SURVIVED")
            with lock:
                count[verdict] = count.get(verdict, 0) + 1
                with open(args.out, "a") as f:
                    f.write(json.dumps({"file": path, "func": qual, "desc": desc, "verdict": verdict, "res": res}) + "\n")
        shutil.rmtree(copy_dir)

    ths = [threading.Thread(target=worker, args=(k,)) for k in range(args.workers)]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    print(count)


if __name__ == "__main__":
    main()
