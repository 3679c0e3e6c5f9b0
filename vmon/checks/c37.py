"""C37: the scripts run what their arguments name."""
import argparse
import inspect
import io
import itertools
import json
import logging
import os
import shlex
from contextlib import redirect_stdout
from fractions import Fraction as F
from pathlib import Path

import numpy as np

from vmon import shim
from vmon.checks.c07_c08 import CT, TPC
from vmon.checks.c09_c10_c11 import TYPES, quiet
from vmon.checks.c32_c33 import spaces
from vmon.checks.c34 import Scratch, run_script, same, score_corpus, score_reference, table_corpus, table_reference
from vmon.core import rule, scenario

import harmonic_inference.data.datasets as ds
from harmonic_inference.data.data_types import PieceType
from harmonic_inference.models import initial_chord_models as icm
from harmonic_inference.models import joint_model as jm
from harmonic_inference.utils import data_utils as du

rule("C37", "train.py, test.py and annotate.py run as programs over random corpora on disk (tables or scores), data directories "
     "made by create_h5_data.py with several seeds, and checkpoint directories with random versions, files and network kinds, "
     "with random arguments; create_h5_data.py with random selections and proportions; grid_search.py with random value lists; monitors on the trainer, on the model constructors and "
     "on the analyses that are started; oracle: the arguments, the files on disk and the published settings; "
     "non-trivial = one run",
     ["torch, pytorch_lightning (trainer, checkpoints) and h5py are replaced by numpy stand-ins",
      "version numbers and checkpoint names whose alphabetical and numerical orders differ are not generated"])

MODELS = ["ccm", "ctm", "csm", "ktm", "ksm"]
NAMES = ["min_chord_change_prob", "max_no_chord_change_prob", "max_chord_length", "min_key_change_prob",
         "max_no_key_change_prob", "beam_size", "max_chord_branching_factor", "target_chord_branch_prob",
         "max_key_branching_factor", "target_key_branch_prob", "hash_length", "ksm_exponent"]
PLAIN = dict(zip(NAMES, (0.25, 0.45, 8, 0.05, 0.75, 50, 5, 0.75, 2, 0.5, 5, 50)))
PUBLISHED = {0: (0.25, 0.45, 8, 0.1, 0.75, 50, 5, 0.75, 2, 0.5, 5, 100), 1: (0.25, 0.5, 8, 0.05, 0.75, 50, 5, 0.75, 2, 0.5, 5, 50),
             2: (0.25, 0.45, 8, 0.05, 0.75, 50, 5, 0.5, 2, 0.5, 5, 50)}
PUBLISHED_FH = (0.3, 0.4, 8, 0.1, 0.7, 50, 5, 0.75, 2, 0.5, 5, 30)
IDENT = {t: t for t in TYPES}
SIZE = dict(lstm_layers=1, lstm_hidden_dim=2, hidden_dim=2)


def classes():
    return {"ccm": ["SimpleChordClassifier"], "ctm": ["SimpleChordTransitionModel"],
            "csm": ["SimpleChordSequenceModel", "PitchBasedChordSequenceModel"],
            "ktm": ["SimpleKeyTransitionModel"], "ksm": ["SimpleKeySequenceModel"]}


def make_net(cls, **kw):
    size = dict(SIZE) if cls.__name__ == "SimpleChordClassifier" else dict(SIZE, embed_dim=2)
    types = [PieceType.SCORE, TPC, TPC] if cls.__name__ == "SimpleChordClassifier" else \
        [PieceType.SCORE, TPC] if cls.__name__ == "SimpleChordTransitionModel" else \
        [TPC, TPC] if cls.__name__ == "SimpleKeyTransitionModel" else [TPC, TPC, TPC]
    return cls(*types, **dict(size, **kw))


def load(cls, path):
    with open(path) as f:
        data = json.load(f)
    if data["class"] != cls.__name__:
        raise RuntimeError("Error(s) in loading state_dict")
    return make_net(cls)


class Patched:
    """Record constructor arguments of classes and analyses; restore everything afterwards."""

    def __init__(self, nets=(), joint=False):
        self.nets, self.joint = nets, joint
        self.made, self.models, self.analysed = {}, [], []

    def __enter__(self):
        self.undo = []
        self.level, self.handlers = logging.root.level, list(logging.root.handlers)
        shim.CHECKPOINTS["load"] = load
        del shim.FITS[:]
        for cls in self.nets:
            self.patch(cls, "__init__", self.init(cls))
        if self.joint:
            me, cls = self, jm.HarmonicInferenceModel
            self.patch(cls, "__init__", self.init(cls))

            def get_harmony(model, piece, *a, **k):
                me.analysed.append((model, piece, a, k))
                return None

            self.patch(cls, "get_harmony", get_harmony)
        return self

    def patch(self, cls, name, func):
        self.undo.append((cls, name, getattr(cls, name)))
        setattr(cls, name, func)

    def init(self, cls):
        old, me = cls.__init__, self
        sig = inspect.signature(old)

        def __init__(obj, *a, **k):
            bound = sig.bind(obj, *a, **k)
            bound.apply_defaults()
            args = dict(bound.arguments)
            args.pop(next(iter(args)))
            me.made.setdefault(id(obj), (obj, cls, args))
            old(obj, *a, **k)

        # frozen arguments are read from the signature by callers
        __init__.__signature__ = sig
        __init__.__wrapped__ = old
        return __init__

    def args(self, obj):
        rec = self.made.get(id(obj))
        return rec[2] if rec else None

    def __exit__(self, *a):
        for cls, name, old in reversed(self.undo):
            setattr(cls, name, old)
        shim.CHECKPOINTS["load"] = None
        for h in list(logging.root.handlers):
            if h not in self.handlers:
                logging.root.removeHandler(h)
                h.close()
        logging.root.setLevel(self.level)


def program(name, argv):
    """Exit code of a script."""
    try:
        run_script(name, argv)
    except SystemExit as e:
        return 0 if e.code is None else e.code
    return 0


class Corpus:
    def __init__(self, rng, tmp):
        self.xml = rng.random() < 0.3
        if self.xml:
            self.path, files = score_corpus(rng, tmp, n=rng.choice([3, 4]), labelled=0.95)
            self.ref = score_reference(self.path, files)
            self.usable = [k for k, (p, c) in enumerate(files) if c is not None]
        else:
            self.path = table_corpus(rng, tmp, n=rng.choice([3, 4, 6]), complete=True)
            self.ref = table_reference(self.path)
            self.usable = list(self.ref)
        ok = [q for q in self.usable if len(self.ref[q][0].get_chords()) and len(self.ref[q][0].get_inputs())]
        self.ok = bool(ok) and len(ok) == len(self.usable)

    def h5(self, rng, tmp):
        """A data directory with splits for several seeds. {(split, seed): ids}"""
        import h5py

        self.dir = os.path.join(tmp, "h5 data")
        self.splits = {}
        for seed in (0, 3):
            props = rng.choice([["0.5", "0.25", "0.25"], ["1", "1", "1"], ["1", "1", "1"], ["1", "1", "0"]])
            argv = ["-i", self.path, "-o", self.dir, "-s", str(seed), "--splits"] + props + (["-x"] if self.xml else [])
            run_script("create_h5_data.py", argv)
            for split in ("train", "valid", "test"):
                path = os.path.join(self.dir, "ChordTransitionDataset_%s_seed_%d.h5" % (split, seed))
                if os.path.exists(path):
                    with h5py.File(path, "r") as f:
                        self.splits[split, seed] = [int(q) for q in np.array(f["file_ids"])]

    def det(self):
        return dict(xml=self.xml, pieces=[n for _, n in self.ref.values()])


def prior(rng):
    n = len(spaces(TPC, True, True, IDENT))
    out = {}
    for mode in ("major", "minor"):
        v = [rng.random() + 0.01 for _ in range(n)]
        out[mode] = [x / sum(v) for x in v]
    return dict(out, inversions_present=True, reduction_present=None, pitch_type="PitchType.TPC")


def checkpoints(rng, tmp):
    """A checkpoint directory. Returns (dir, {model: {version: [(path, class name)]}}, prior)."""
    base = os.path.join(tmp, "check points")
    tree = {}
    for m in MODELS:
        tree[m] = {}
        vs = rng.sample(range(0, 10), rng.choice([1, 1, 2, 3]))
        if rng.random() < 0.4:  # longer numbers that end or begin alike
            vs = rng.choice([[1, 11], [1, 10], [2, 22, 23], [1, 21], [3, 31, 43], [0, 10, 20]])
        for v in sorted(vs):
            folder = os.path.join(base, m, "lightning_logs", "version_%d" % v, "checkpoints")
            os.makedirs(folder)
            tree[m][v] = []
            for e in sorted(rng.sample(range(10, 100), rng.choice([1, 1, 2]))):
                path = os.path.join(folder, "epoch=%d-step=%d.ckpt" % (e, e * 10))
                name = rng.choice(classes()[m])
                with open(path, "w") as f:
                    json.dump({"class": name}, f)
                tree[m][v].append((path, name))
    os.makedirs(os.path.join(base, "icm"))
    p = prior(rng)
    with open(os.path.join(base, "icm", "initial_chord_prior.json"), "w") as f:
        json.dump(p, f)
    return base, tree, p


def setting(rng, name):
    if name == "max_chord_length":
        return rng.choice(["3", "5/2", "0.5", "16"])
    if name in ("beam_size", "hash_length") or "branching" in name:
        return str(rng.randrange(1, 90))
    if name == "ksm_exponent":
        return str(rng.choice([1, 7.5, 20, 300]))
    if name.startswith("min_"):  # every change probability must allow a change or no change
        return str(round(rng.random() * 0.45, 3))
    return str(round(0.5 + rng.random() / 2, 3) if name.startswith("max_no") else round(rng.random(), 3))


def value(name, text):
    return F(text) if name == "max_chord_length" else float(text)


def same_settings(got, want):
    return got is not None and all(got.get(n) is not None and F(got[n]) == F(want[n]) if n == "max_chord_length" else
                                   float(got.get(n)) == float(want[n]) for n in NAMES)


@scenario("C37", quick=8, thorough=900)
def inference(ctx, rng, i):
    """test.py and annotate.py: components, settings and pieces."""
    name = ["test.py", "annotate.py"][i % 2]
    with Scratch() as tmp:
        c = Corpus(rng, tmp)
        if not c.ok:
            return
        argv = ["-i", c.path, "-o", os.path.join(tmp, "out")] + (["-x"] if c.xml else [])
        ids, fail = list(c.ref), None
        if name == "test.py":
            quiet(c.h5, rng, tmp)
            if c.xml or rng.random() < 0.8:
                argv += ["-h5", c.dir]
                seed, split = rng.choice([0, 0, 3]), rng.choice(["valid", "test"])
                if (split, seed) not in c.splits and c.splits:
                    split, seed = rng.choice(sorted(k for k in c.splits if k[0] != "train") or [(split, seed)])
                if split == "test":
                    argv.append("--test")
                if seed or rng.random() < 0.3:
                    argv += ["-s", str(seed)]
                if (split, seed) not in c.splits:
                    ctx.ev("empty_split")
                    return
                ids = c.splits[split, seed]
                ctx.ev("split:" + split)
            else:
                argv += rng.choice([["--no_h5"], ["--no_h5", "-h5", c.dir, "--test"]])
        if rng.random() < 0.4:
            if rng.random() < 0.2:
                one = rng.choice([q for q in range(0, 60) if q not in ids])
                fail = "id"
            else:
                one = rng.choice(ids)
                ids = [one]
            argv += ["--id", str(one)]
        base, tree, prior_ = checkpoints(rng, tmp)
        argv += ["--checkpoint", base]
        want = {}
        for m in MODELS:
            r = rng.random()
            versions = sorted(tree[m])
            want[m] = tree[m][versions[-1]][-1]
            other = rng.choice(tree[m][rng.choice(versions)])
            if r < 0.25:
                v = rng.choice(versions)
                argv += ["--%s-version" % m, str(v)]
                want[m] = tree[m][v][-1]
                if rng.random() < 0.3:
                    argv += ["--" + m, other[0]]
            elif r < 0.45:
                argv += ["--" + m, other[0]]
                want[m] = other
        if rng.random() < 0.2:
            prior_ = prior(rng)
            path = os.path.join(tmp, "my prior.json")
            with open(path, "w") as f:
                json.dump(prior_, f)
            argv += ["--icm-json", path]
        settings = dict(PLAIN)
        for n in NAMES:
            if rng.random() < 0.3:
                t = setting(rng, n)
                argv += ["--" + n.replace("_", "-"), t]
                settings[n] = value(n, t)
        if (i // 2) % 2 == 0:
            versions = sorted(tree["csm"])
            v = (0, 1, 2, None)[(i // 4) % 4]
            if v is None and "--csm-version" in argv:
                del argv[argv.index("--csm-version"):argv.index("--csm-version") + 2]
                want["csm"] = None
            if v is not None:
                # make sure that version exists
                folder = os.path.join(base, "csm", "lightning_logs", "version_%d" % v, "checkpoints")
                if v not in tree["csm"]:
                    os.makedirs(folder)
                    cls = rng.choice(classes()["csm"])
                    path = os.path.join(folder, "epoch=50-step=1.ckpt")
                    with open(path, "w") as f:
                        json.dump({"class": cls}, f)
                    tree["csm"][v] = [(path, cls)]
                argv += ["--csm-version", str(v)]
                want["csm"] = tree["csm"][v][-1]
            elif want["csm"] is None:
                want["csm"] = tree["csm"][versions[-1]][-1]
                if "--csm" in argv:
                    with open(argv[argv.index("--csm") + 1]) as f:
                        want["csm"] = (argv[argv.index("--csm") + 1], json.load(f)["class"])
            how = [["--defaults"], ["--fh-defaults"]][(i // 16) % 2]
            argv += how
            settings = dict(zip(NAMES, PUBLISHED[2 if v is None else v] if how == ["--defaults"] else PUBLISHED_FH))
            ctx.ev("published:%s:%s" % (how[0], v))
            if rng.random() < 0.08:
                argv += ["--csm-version", "7"]
                fail = "defaults"
        if rng.random() < 0.08:
            m = rng.choice(MODELS)
            argv += ["--%s-version" % m, str(rng.choice([v for v in range(12) if v not in tree[m]]))]
            fail = "checkpoint"
        det = dict(c.det(), script=name, argv=argv, fail=fail)
        with Patched(joint=True) as mon:
            try:
                code = program(name, argv)
            except ValueError:
                if fail != "id":
                    raise
                code = "ValueError"
        ctx.ev("run:" + name)
        ctx.sig(name, fail, len(ids), tuple(sorted(settings.items())), sample=False)
        if fail:
            ctx.ev("refused:" + fail)
            ctx.check(code != 0 and not mon.analysed, "refuse", "a request that cannot be met is refused and nothing is analysed",
                      code=code, analysed=len(mon.analysed), **det)
            return
        if not ctx.eq(code, 0, "exit", "the run succeeds", **det):
            return
        same(ctx, "pieces", [p for _, p, _, _ in mon.analysed], c.ref, ids, det)
        for model in {id(m): m for m, _, _, _ in mon.analysed}.values():
            args = mon.args(model) or {}
            ctx.check(same_settings(args, settings), "settings", "the settings of the run",
                      got={n: args.get(n) for n in NAMES}, want=settings, **det)
            parts = args.get("models") or {}
            for m in MODELS:
                part = parts.get(m)
                got = (os.path.normpath(str(getattr(part, "loaded_from", None))), type(part).__name__)
                ctx.eq(got, (os.path.normpath(want[m][0]), want[m][1]), "component", "the component named by the arguments", model=m, **det)
                ctx.check(getattr(part, "frozen", False), "frozen", "components do not change while they are used", model=m, **det)
                ctx.ev("component")
            for minor in (False, True):
                p = np.asarray(parts["icm"].get_prior(minor, log=False), dtype=float)
                q = np.asarray(prior_["minor" if minor else "major"])
                ctx.check(p.shape == q.shape and np.allclose(p, q), "component-icm", "the initial-chord prior named by the arguments", **det)


# ------------------------------------------------------------------------------------ training
DATASETS = {"ccm": ds.ChordClassificationDataset, "ctm": ds.ChordTransitionDataset, "csm": ds.ChordSequenceDataset,
            "ktm": ds.KeyTransitionDataset, "ksm": ds.KeySequenceDataset}


def model_kwargs(rng, m, pitch_based):
    """Random settings of a network: (as stored, as given to the constructor)."""
    raw, want = {}, {}
    for n in ("lstm_layers", "lstm_hidden_dim", "hidden_dim") + (() if m == "ccm" else ("embed_dim",)):
        if rng.random() < 0.5:
            raw[n] = want[n] = rng.choice([1, 2, 3])
    if rng.random() < 0.3:
        raw["dropout"] = want["dropout"] = 0.25
    flags = {"ccm": ["use_inversions"], "ctm": [], "ktm": ["use_inversions"], "ksm": ["use_inversions"],
             "csm": ["use_input_inversions"] + ([] if pitch_based else ["use_output_inversions"])}[m]
    reds = {"ccm": ["reduction"], "ctm": [], "ktm": ["reduction"], "ksm": ["reduction"],
            "csm": ["input_reduction"] + ([] if pitch_based else ["output_reduction"])}[m]
    for n in flags:
        if rng.random() < 0.5:
            raw[n] = want[n] = rng.random() < 0.5
    for n in reds:
        if rng.random() < 0.3:
            to = dict(IDENT)
            to.update({"MAJ_MAJ7": "MAJ_MIN7", "MIN_MAJ7": "MIN_MIN7", "AUG_MAJ7": "AUG_MIN7"})
            raw[n] = {"ChordType." + a: "ChordType." + b for a, b in to.items()}
            want[n] = {CT[a]: CT[b] for a, b in to.items()}
    if m == "ccm" and rng.random() < 0.3:
        raw["transposition_range"] = want["transposition_range"] = [-1, 1]
    return raw, want


def optimisers(made):
    """The optimisers in what a network configures, in any of the accepted forms."""
    if isinstance(made, dict):
        made = list(made.values())
    if isinstance(made, (list, tuple)):
        return [o for x in made for o in optimisers(x)]
    return [made] if hasattr(made, "param_groups") else []


def equal_items(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and set(a) == set(b) and all(equal_items(a[x], b[x]) for x in b)
    p, q = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return p.shape == q.shape and np.array_equal(p, q)


@scenario("C37", quick=8, thorough=700)
def training(ctx, rng, i):
    import torch

    with Scratch() as tmp:
        c = Corpus(rng, tmp)
        if not c.ok:
            return
        quiet(c.h5, rng, tmp)
        m = (MODELS + ["csm", "icm"])[i % 7]
        seed = rng.choice([0, 0, 3])
        base = os.path.join(tmp, "check points")
        argv = ["-m", m, "-h5", c.dir, "--checkpoint", base] + (["-s", str(seed)] if seed or rng.random() < 0.3 else [])
        if ("train", seed) not in c.splits or (m != "icm" and ("valid", seed) not in c.splits):
            ctx.ev("empty_split")
            return
        if m != "icm" and not all(os.path.exists(os.path.join(c.dir, "%s_%s_seed_%d.h5" % (DATASETS[m].__name__, x, seed)))
                                  for x in ("train", "valid")):
            ctx.ev("empty_dataset")
            return
        det = dict(c.det(), argv=argv, splits={"%s %d" % k: v for k, v in c.splits.items()})
        if m == "icm":
            argv += ["-i", c.path] + (["-x"] if c.xml else [])
            code = ctx.call("train", program, "train.py", argv)
            ctx.eq(code, 0, "train-exit", "training succeeds", **det)
            got = icm.SimpleInitialChordModel(du.load_kwargs_from_json(os.path.join(base, "icm", "initial_chord_prior.json")))
            n = len(spaces(TPC, True, True, IDENT))
            counts = np.ones((2, n)) / n
            for q in c.splits["train", seed]:
                first = c.ref[q][0].get_chords()[0]
                counts[int(first.key_mode.name == "MINOR"), first.get_one_hot_index(relative=True, use_inversion=True, pad=False)] += 1
            for k in (0, 1):
                ctx.check(np.allclose(got.get_prior(bool(k), log=False), counts[k] / counts[k].sum()), "train-icm",
                          "the prior of the first chords of the training pieces", minor=k, **det)
            ctx.ev("trained:icm")
            return
        pitch_based = m == "csm" and rng.random() < 0.5
        if pitch_based or (m != "csm" and rng.random() < 0.2):
            argv.append("--pitch-based")
        raw, kw = model_kwargs(rng, m, pitch_based)
        if raw or rng.random() < 0.5:
            path = os.path.join(tmp, "kwargs.json")
            with open(path, "w") as f:
                json.dump(raw, f)
            argv += ["--model-kwargs", path]
        lr = 0.001
        if rng.random() < 0.6:
            lr = rng.choice([0.01, 0.0005, 1.0])
            argv += ["-lr", str(lr)]
        resume = None
        if rng.random() < 0.3:
            resume = os.path.join(tmp, "some.ckpt")
            argv += ["--resume", resume]
        if rng.random() < 0.3:
            argv += ["-w", "0"]
        if rng.random() < 0.2:
            argv += ["--threads", "2"]
        nets = [x for k in MODELS for x in jm.MODEL_CLASSES[k]]
        with Patched(nets=nets) as mon:
            code = ctx.call("train", program, "train.py", argv)
            fits = list(shim.FITS)
        ctx.eq(code, 0, "train-exit", "training succeeds", **det)
        ctx.ev("trained:" + m + ("-pitch" if pitch_based else ""))
        ctx.sig("train", m, pitch_based, repr(raw), seed, sample=False)
        if not ctx.eq(len(fits), 1, "train-once", "one network is trained once", **det):
            return
        trainer, a, k = fits[0]
        call = dict(zip(["model", "train", "valid"], a))
        call["train"] = k.get("train_dataloaders", k.get("train_dataloader", call.get("train")))
        call["valid"] = k.get("val_dataloaders", call.get("valid"))
        net = k.get("model", call.get("model"))
        name = classes()[m][1 if pitch_based else 0]
        ctx.eq(type(net).__name__, name, "train-net", "the requested kind of network", **det)
        args = dict(mon.args(net) or {})
        want = dict(kw, learning_rate=lr)
        ctx.check(all(args.get(n) == v for n, v in want.items()), "train-settings", "the requested settings",
                  got={n: args.get(n) for n in want}, want=want, **det)
        made = ctx.call("train-optimiser", net.configure_optimizers)
        rates = [float(g["lr"]) for o in optimisers(made) for g in o.param_groups]
        if rates:
            ctx.check(all(x == lr for x in rates), "train-rate", "the network learns at the requested rate", got=rates, want=lr, **det)
            ctx.ev("optimiser")
        default = {n: p.default for n, p in inspect.signature(type(net).__init__).parameters.items()
                   if p.default is not inspect.Parameter.empty and n not in want}
        ctx.check(all(args.get(n) == v for n, v in default.items()), "train-settings", "and the defaults for everything else",
                  got={n: args.get(n) for n in default}, want=default, **det)
        ctx.check(all(v == TPC for v in args.values() if isinstance(v, type(TPC))), "train-types", "pitches are spelled", got=args, **det)
        cls = DATASETS[m]
        for split in ("train", "valid"):
            exp = quiet(ds.h5_to_dataset, os.path.join(c.dir, "%s_%s_seed_%d.h5" % (cls.__name__, split, seed)), cls,
                        transform=torch.from_numpy, dataset_kwargs=net.get_dataset_kwargs())
            got = call[split].dataset
            if not ctx.eq((type(got).__name__, len(got)), (cls.__name__, len(exp)), "train-data", "examples of the split", split=split, **det):
                continue
            for j in rng.sample(range(len(exp)), min(12, len(exp))):
                ctx.check(equal_items(got[j], exp[j]), "train-data", "examples of the split, in the network's own settings",
                          split=split, item=j, net=name, **det)
                ctx.ev("trained_item")
        tk = dict(getattr(trainer, "kwargs", {}))
        ctx.eq(os.path.normpath(str(tk.get("default_root_dir"))), os.path.join(base, m), "train-where", "checkpoints are kept under the model's name", **det)
        ctx.eq(str(tk.get("resume_from_checkpoint")), str(resume), "train-resume", "the checkpoint to resume from", **det)


# ------------------------------------------------------------------------------------ grid search
class Stop(BaseException):
    pass


def parsed(name, argv):
    """What a script understands its arguments to be."""
    seen = []
    old = argparse.ArgumentParser.parse_args

    def parse_args(self, *a, **k):
        seen.append(old(self, *a, **k))
        raise Stop()

    argparse.ArgumentParser.parse_args = parse_args
    try:
        run_script(name, argv)
    except Stop:
        pass
    finally:
        argparse.ArgumentParser.parse_args = old
    return seen[0]


@scenario("C37", quick=6, thorough=800)
def grid(ctx, rng, i):
    out = "some where/out" if rng.random() < 0.5 else "out"
    argv = ["-o", out]
    fixed = {}

    def add(opt, dest, val, conv=str):
        argv.extend([opt, val])
        fixed[dest] = conv(val)

    if rng.random() < 0.4:
        add("-i", "input", rng.choice(["corpus", "my corpus", "a'b"]), Path)
    for opt, dest in (("--test", "test"), ("-x", "xml")):
        if rng.random() < 0.4:
            argv.append(opt)
            fixed[dest] = True
    if rng.random() < 0.4:
        add("--checkpoint", "checkpoint", rng.choice(["ck", "check points", "checkpoints-best"]))
    if rng.random() < 0.3:
        add("-h5", "h5_dir", rng.choice(["h5", "h5 dir"]), Path)
    if rng.random() < 0.4:
        add("-s", "seed", str(rng.randrange(5)), int)
    if rng.random() < 0.3:
        add("--threads", "threads", str(rng.randrange(1, 5)), int)
    if rng.random() < 0.3:
        add("--icm-json", "icm_json", rng.choice(["icm.json", "my icm.json"]))
    for m in MODELS:
        r = rng.random()
        if r < 0.2:
            add("--%s-version" % m, m + "_version", str(rng.randrange(4)), int)
        elif r < 0.4:
            add("--" + m, m, rng.choice(["x.ckpt", "version_1/epoch=3 .ckpt", "v*/last.ckpt"]))
    lists = {n: [PLAIN[n]] for n in NAMES}
    for n in rng.sample(NAMES, rng.randrange(0, 5)):
        vals = list(dict.fromkeys(setting(rng, n) for _ in range(rng.choice([1, 2, 3]))))
        argv += ["--" + n.replace("_", "-")] + vals
        lists[n] = [value(n, v) for v in vals]
    det = dict(argv=argv)
    buf = io.StringIO()
    import vmon.checks.c34 as c34

    old = c34.redirect_stdout
    c34.redirect_stdout = lambda _: redirect_stdout(buf)
    try:
        code = ctx.call("grid", program, "grid_search.py", argv)
    finally:
        c34.redirect_stdout = old
    lines = [x for x in buf.getvalue().splitlines() if x.strip()]
    ctx.eq(code, 0, "grid-exit", "the search is written", **det)
    want = sorted(tuple(float(v) for v in x) for x in itertools.product(*(lists[n] for n in NAMES)))
    ctx.ev("grid")
    ctx.ev("grid_command", len(lines))
    ctx.sig("grid", tuple(len(lists[n]) for n in NAMES), tuple(sorted(fixed)), sample=False)
    if not ctx.eq(len(lines), len(want), "grid-size", "one command per combination", **det):
        return
    base = parsed("test.py", [])
    got, outs = [], set()
    for line in (lines if len(lines) <= 6 else rng.sample(lines, 6)) if len(lines) > 40 else lines:
        words = shlex.split(line)
        if not ctx.eq(words[:2], ["python", "test.py"], "grid-command", "a run of the evaluation", line=line, **det):
            return
        ns = ctx.call("grid-parse", parsed, "test.py", words[2:])
        got.append(tuple(float(getattr(ns, n)) for n in NAMES))
        outs.add(str(ns.output))
        ctx.check(Path(out) in Path(ns.output).parents, "grid-output", "its results go below the output directory", line=line, **det)
        for dest, val in vars(ns).items():
            if dest in NAMES or dest in ("output", "log"):
                continue
            ctx.eq(val, fixed.get(dest, getattr(base, dest)), "grid-fixed", "the other arguments are passed on", dest=dest, line=line, **det)
    ctx.eq(len(outs), len(got), "grid-distinct", "every command has its own output directory", **det)
    if len(got) == len(want):
        ctx.eq(sorted(got), want, "grid-values", "every combination once", **det)
    else:
        ctx.check(len(set(got)) == len(got) and set(got) <= set(want), "grid-values", "every combination once", **det)


# ------------------------------------------------------------------------------------ data creation
@scenario("C37", quick=6, thorough=500)
def creation(ctx, rng, i):
    """create_h5_data.py uses the pieces that were asked for, and aggregate_corpus_data.py likewise."""
    import h5py

    with Scratch() as tmp:
        path = table_corpus(rng, tmp, n=rng.choice([3, 6, 12]), complete=True)
        ref = table_reference(path)
        if not ref or any(not len(p.get_chords()) or not len(p.get_inputs()) for p, _ in ref.values()):
            return
        out = os.path.join(tmp, "h5")
        ids = list(ref)  # in the order of the files table
        corpus = {q: n.split(": ", 1)[1].split("/")[0] for q, (_, n) in ref.items()}
        argv = ["-i", path, "-o", out]
        det = dict(names=[n for _, n in ref.values()])
        seed = 0
        if rng.random() < 0.5:
            seed = rng.choice([0, 7])
            argv += [rng.choice(["-s", "--seed"]), str(seed)]
        r = rng.random()
        if r < 0.2:  # proportions that make no sense
            bad = rng.choice([["-1", "1", "1"], ["0", "0", "0"], ["1", "1", "-0.5"]])
            code = ctx.call("create-refused", program, "create_h5_data.py", argv + ["--splits"] + bad)
            ctx.check(code != 0 and not (os.path.isdir(out) and os.listdir(out)), "create-refused", "impossible proportions are refused",
                      props=bad, code=code)
            ctx.ev("refused_proportions")
            return
        want = ids
        if r < 0.65:
            parts = rng.choice([["A", "B"], ["A", "d"], ["zz", "c"], ["B", "A"]] if i % 2 else [["A"], ["B"], ["c d"], ["d"], [" "]])
            keep = [q for q in ids if any(x in corpus[q] for x in parts)]
            if not keep:
                return
            want = keep
            argv += [rng.choice(["-c", "--corpus"])] + parts
            ctx.ev("corpus_selection")
        elif r < 0.85:
            want = ids[:5]
            argv += ["--debug"]
            ctx.ev("debug_selection")
            ctx.ev("debug_cut", len(ids) > 5)
        props = None
        if rng.random() < 0.7:
            props = rng.choice([[8, 1, 1], [1, 1, 1], [0.2, 0.2, 0.1], [0, 3, 1], [1, 0, 0]])
            argv += ["--splits"] + [str(x) for x in props]
        det.update(argv=argv[4:])
        code = ctx.call("create", program, "create_h5_data.py", argv)
        if not ctx.eq(code, 0, "create", "the data is created", **det):
            return
        ctx.ev("data_created")
        ctx.sig("create", tuple(argv[4:]), tuple(det["names"]), sample=False)
        props = props or [0.8, 0.1, 0.1]
        got = []
        for k, split in enumerate(("train", "valid", "test")):
            h5 = os.path.join(out, "ChordTransitionDataset_%s_seed_%d.h5" % (split, seed))
            here = []
            if os.path.exists(h5):
                with h5py.File(h5, "r") as f:
                    here = [int(q) for q in np.array(f["file_ids"])]
            got += here
            share = props[k] / sum(props) * len(want)
            ctx.check(abs(len(here) - share) <= 1 and (props[k] > 0 or not here), "create-proportion", "the requested share of the pieces", split=split,
                      got=len(here), want=share, **det)
        ctx.eq(sorted(got), sorted(want), "create-pieces", "exactly the pieces asked for, each in one split", **det)
