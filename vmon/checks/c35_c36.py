"""C35: what a network predicts for an example; C36: what training and evaluation measure."""
import numpy as np

from vmon import shim
from vmon import theory as T
from vmon.checks.c07_c08 import MIDI, TPC
from vmon.checks.c09_c10_c11 import quiet
from vmon.checks.c32_c33 import Data, Model, spaces
from vmon.core import rule, scenario

from harmonic_inference.data.data_types import PieceType
from harmonic_inference.models import (
    chord_classifier_models as ccm, chord_sequence_models as csm, chord_transition_models as ctm,
    key_sequence_models as ksm, key_transition_models as ktm)

rule("C35", "every kind of network, with random weights, sizes, layers and settings, run on the examples of random pieces: "
     "alone, in batches of random size and order, with rows after the reported length replaced by noise, from random "
     "hidden states, whole and one step at a time; oracle: the prediction for the example on its own, without padding; "
     "non-trivial = one example's prediction",
     ["torch's layers are replaced by numpy layers with random weights"])
rule("C36", "the same networks evaluated, validated and trained on random pieces with random batch sizes, including examples "
     "with nothing to measure and examples marked invalid; oracle: mean loss and accuracy over the measured events, from "
     "each example's own prediction; non-trivial = one measured dataset",
     ["torch's layers, losses and loader are replaced by numpy stand-ins; gradients are not modelled"])


class Net:
    """A network of one kind with its dataset."""

    def __init__(self, ctx, rng, kind=None, plain=False):
        kind = kind or rng.choice(["ctd", "ccd", "csd", "csd", "ktd", "ksd"])
        while True:
            self.m = m = Model(rng, kind)
            if not m.dummy:
                break
        if m.pitch_based:
            m.inv, m.red = True, None
            m.names = {t: t for t in m.names}
        self.kind, pt = kind, m.pt
        np.random.seed(rng.randrange(2 ** 31))
        size = dict(lstm_layers=rng.choice([1, 1, 2]), lstm_hidden_dim=rng.choice([2, 5]), hidden_dim=rng.choice([3, 6]),
                    dropout=rng.choice([0.0, 0.3]))
        if kind != "ccd":
            size["embed_dim"] = rng.choice([4, 7])
        if kind == "ccd":
            self.net = ctx.call("net", quiet, ccm.SimpleChordClassifier, PieceType.SCORE, pt, pt, reduction=m.red,
                                use_inversions=m.inv, transposition_range=m.trans, **size)
            self.out = len(spaces(pt, False, m.inv, m.names))
        elif kind == "ctd":
            self.net = ctx.call("net", quiet, ctm.SimpleChordTransitionModel, PieceType.SCORE, pt, **size)
            self.out = None
        elif kind == "csd" and m.pitch_based:
            self.net = ctx.call("net", quiet, csm.PitchBasedChordSequenceModel, pt, pt, pt, input_reduction=m.red_in,
                                use_input_inversions=m.inv_in, **size)
            self.out = 12 if pt == MIDI else T.REL_MAX - T.REL_MIN
        elif kind == "csd":
            self.net = ctx.call("net", quiet, csm.SimpleChordSequenceModel, pt, pt, pt, input_reduction=m.red_in,
                                output_reduction=m.red, use_input_inversions=m.inv_in, use_output_inversions=m.inv, **size)
            self.out = len(spaces(pt, True, m.inv, m.names))
        elif kind == "ktd":
            self.net = ctx.call("net", quiet, ktm.SimpleKeyTransitionModel, pt, pt, use_inversions=m.inv, reduction=m.red, **size)
            self.out = None
        else:
            self.net = ctx.call("net", quiet, ksm.SimpleKeySequenceModel, pt, pt, pt, use_inversions=m.inv, reduction=m.red, **size)
            self.out = 2 * (12 if pt == MIDI else T.KEY_MAX - T.KEY_MIN)
        self.size = size
        self.want = m.expected()
        self.det = dict(m.det(), size=size)
        kw = {} if kind == "ctd" else dict(ctx.call("net-kwargs", self.net.get_dataset_kwargs))
        self.data = ctx.call("net-data", quiet, m.cls, [d.piece for d in m.datas], **kw)
        self.usable = [j for j, w in enumerate(self.want) if not w.get("lost")]

    def rows(self, w):
        return np.asarray(w["inputs"], dtype=float)

    def forward(self, rows, lengths, hidden=None):
        """(outputs, hidden) of the network on a batch."""
        args = (shim.T(np.asarray(rows, dtype=float)), shim.T(np.asarray(lengths)))
        if self.kind in ("csd", "ktd", "ksd"):
            out, h = self.net(*args, **({} if hidden is None else dict(hidden=tuple(shim.T(x) for x in hidden))))
            return np.asarray(out), tuple(np.asarray(x) for x in h)
        return np.asarray(self.net(*args)), None

    def alone(self, w, hidden=None):
        """The prediction for an example on its own, without padding."""
        out, h = self.forward(self.rows(w)[None], [len(w["inputs"])], hidden)
        return out[0], None if h is None else tuple(x[:, 0] for x in h)

    def measured(self, w):
        """(prediction, target) of every measured event of an example, from its own prediction."""
        if w.get("bad"):
            return []
        out, _ = self.alone(w)
        if self.kind in ("ccd", "ksd"):
            return [(out, w["targets"])]
        if self.kind == "csd":
            return [(out[t - 1], w["targets"][t]) for t in range(1, len(w["inputs"])) if w["inputs"][t][-1] != 1]
        return [(out[t], y) for t, y in enumerate(w["targets"]) if y != -100]


def near(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=1e-7, atol=1e-9))


@scenario("C35", quick=200, thorough=4000)
def examples(ctx, rng, i):
    n = Net(ctx, rng)
    use = [j for j in n.usable if not n.want[j].get("bad") and not n.want[j].get("maybe_bad")]
    if not use:
        return
    det = n.det
    ctx.sig(n.kind, n.m.pitch_based, repr(n.size), repr(det["key_changes"]), n.m.inv, sample=False)
    ctx.ev("network:" + n.kind + (":pitch" if n.m.pitch_based else ""))
    use = [rng.choice(use) for _ in range(rng.choice([1, 2, 3, 6]))]
    batch_items = [ctx.call("net-item", n.data.__getitem__, j) for j in use]
    alone = [ctx.call("net-run", n.alone, n.want[j]) for j in use]
    # the label space of the settings, as probabilities
    for (out, _), j in zip(alone, use):
        steps = len(n.want[j]["inputs"])
        shape = {"ctd": (steps,), "ktd": (steps,), "ccd": (n.out,), "ksd": (n.out,), "csd": (steps, n.out)}[n.kind]
        if not ctx.eq(tuple(out.shape), shape, "net-shape", "one output per label of the settings (and step)", **det):
            return
        if n.kind in ("ksd", "csd") and not n.m.pitch_based:
            ctx.check(np.allclose(np.exp(out).sum(-1), 1), "net-distribution", "log-probabilities of a distribution", **det)
        elif n.kind != "ccd":
            ctx.check(np.all((out >= 0) & (out <= 1)), "net-distribution", "probabilities", **det)
    # in a batch, with noise after the reported lengths
    length = max(len(n.rows(n.want[j])) for j in use) + rng.choice([0, 1, 4])
    width = n.rows(n.want[use[0]]).shape[1]
    noise = rng.random() < 0.6
    padded = np.random.rand(len(use), length, width) * 3 if noise else np.zeros((len(use), length, width))
    for k, j in enumerate(use):
        padded[k, :len(n.want[j]["inputs"])] = n.rows(n.want[j])
    lens = [len(n.want[j]["inputs"]) for j in use]
    keep = padded.copy()
    out, hid = ctx.call("net-run", n.forward, padded, lens)
    ctx.check(near(padded, keep), "net-pure", "the inputs are untouched", **det)
    for k, j in enumerate(use):
        o = out[k] if n.kind in ("ccd", "ksd") else out[k][:lens[k]]
        ctx.check(near(o, alone[k][0]), "net-batch", "the prediction does not depend on batch and padding",
                  lengths=lens, example=k, noise=noise, **det)
        if hid is not None:
            ctx.check(all(near(a[:, k], b) for a, b in zip(hid, alone[k][1])), "net-batch",
                      "nor does the hidden state", lengths=lens, example=k, **det)
        ctx.ev("prediction")
    # through the dataset's items and the method the inference calls
    if n.kind in ("ccd", "ctd"):
        batch = shim._collate([dict(inputs=g["inputs"], input_lengths=g["input_lengths"], targets=g["targets"],
                                    **({"target_lengths": g["target_lengths"]} if "target_lengths" in g else {}))
                               for g in batch_items])
        got = ctx.call("net-output", n.net.get_output, batch)
        if n.kind == "ccd":
            got = np.asarray(got)
            for k in range(len(use)):
                e = np.exp(alone[k][0] - alone[k][0].max())
                ctx.check(near(got[k], e / e.sum()), "net-output", "the classifier's distribution over labels", example=k, **det)
        else:
            got, lengths = got
            got = np.asarray(got)
            ctx.eq([int(x) for x in lengths], lens, "net-output", "lengths", **det)
            for k in range(len(use)):
                ctx.check(near(got[k][:lens[k]], alone[k][0]), "net-output", "change probability of each note", example=k, **det)
        ctx.ev("output")
    lay, h = n.size["lstm_layers"], n.size["lstm_hidden_dim"]
    if n.kind not in ("csd", "ktd", "ksd"):
        zero = tuple(np.asarray(x) for x in ctx.call("net-hidden", n.net.init_hidden, len(use)))
        ctx.check(len(zero) == 2 and all(x.shape == (2 * lay, len(use), h) and not np.any(x) for x in zero), "net-hidden",
                  "sequences start from zero", **det)
        return
    # one step at a time
    zero = tuple(np.asarray(x) for x in ctx.call("net-hidden", n.net.init_hidden, len(use)))
    ctx.check(all(x.shape == (lay, len(use), h) and not np.any(x) for x in zero), "net-hidden", "sequences start from zero", **det)
    state = [tuple(x[:, k] for x in zero) for k in range(len(use))]
    for step in range(max(lens)):
        live = [k for k in range(len(use)) if step < lens[k]]
        rng.shuffle(live)
        batch = dict(inputs=shim.T(np.stack([n.rows(n.want[use[k]])[step][None] for k in live])),
                     input_lengths=shim.T(np.ones(len(live), dtype=int)),
                     hidden_states=[shim.T(np.stack([state[k][q] for k in live])) for q in (0, 1)])
        if n.kind == "ksd":
            batch["targets"] = shim.T(np.zeros(len(live)))
            o, hid = ctx.call("net-step", n.net.get_output, batch)
        else:
            o, hid = ctx.call("net-step", n.net.run_one_step, batch)
        o = np.asarray(o)
        for r, k in enumerate(live):
            state[k] = tuple(np.asarray(x)[:, r] for x in hid)
            if n.kind == "ksd":
                if step == lens[k] - 1:
                    ctx.check(near(o[r], alone[k][0]), "net-step", "stepping gives the prediction of the whole sequence",
                              step=step, example=k, **det)
            else:
                ctx.check(o.shape[:2] == (len(live), 1) and near(o[r, 0], alone[k][0][step]), "net-step",
                          "stepping gives the prediction of the whole sequence", step=step, example=k, shape=o.shape, **det)
            ctx.ev("step")
    for k in range(len(use)):
        ctx.check(all(near(a, b) for a, b in zip(state[k], alone[k][1])), "net-step", "and ends in its hidden state", **det)


@scenario("C35", quick=60, thorough=1500)
def carried(ctx, rng, i):
    """Hidden states given to a dataset reach the example they belong to."""
    n = Net(ctx, rng, kind="ksd")
    if not n.usable:
        return
    det = n.det
    lay, h = n.size["lstm_layers"], n.size["lstm_hidden_dim"]
    N = len(n.want)
    hidden = [np.random.uniform(-1, 1, (lay, N, h)) for _ in range(2)]
    ctx.call("net-hidden", n.data.set_hidden_states, tuple(hidden))
    order = rng.sample(range(N), rng.randrange(1, N + 1))
    batch = ctx.call("net-item", lambda: shim._collate([n.data[j] for j in order]))
    out, _ = ctx.call("net-output", n.net.get_output, batch)
    ctx.ev("network:ksd-hidden")
    ctx.sig(N, repr(det["key_changes"]), lay, h, sample=False)
    for k, j in enumerate(order):
        ref, _ = n.alone(n.want[j], tuple(x[:, j:j + 1] for x in hidden))
        ctx.check(near(np.asarray(out)[k], ref), "net-hidden", "each example continues from its own state", example=j, **det)
        ctx.ev("prediction")


def bce(o, y):
    return -(y * max(np.log(o), -100) + (1 - y) * max(np.log(1 - o), -100))


def score(n, events):
    """(accuracy, loss) over events."""
    if n.kind in ("ctd", "ktd"):
        return 100 * np.mean([round(float(o)) == y for o, y in events]), np.mean([bce(o, y) for o, y in events])
    if n.m.pitch_based:
        return (100 * np.mean([np.round(o) == y for o, y in events]),
                np.mean([[bce(a, b) for a, b in zip(o, y)] for o, y in events]))
    logs = [(o - o.max()) - np.log(np.exp(o - o.max()).sum()) for o, _ in events]
    return 100 * np.mean([int(o.argmax()) == y for o, y in events]), np.mean([-l[y] for l, (_, y) in zip(logs, events)])


def about(a, b):
    return bool(np.allclose(float(a), float(b), rtol=1e-6, atol=1e-8))


@scenario("C36", quick=100, thorough=4000)
def measures(ctx, rng, i):
    n = Net(ctx, rng)
    det = n.det
    if not n.want or len(n.usable) < len(n.want) or any(w.get("maybe_bad") for w in n.want) \
            or (n.kind == "csd" and any(x is None for w in n.want for x in w["targets"])):
        return
    events = [ctx.call("net-run", n.measured, w) for w in n.want]
    flat = [e for es in events for e in es]
    ctx.ev("dataset:" + n.kind + (":pitch" if n.m.pitch_based else ""))
    ctx.ev("event", len(flat))
    ctx.ev("unmeasured_example", sum(not es for es in events))
    ctx.sig(n.kind, n.m.pitch_based, repr(det["key_changes"]), n.m.trans, repr(n.size), sample=False)
    if not flat:
        return
    acc, loss = score(n, flat)
    for size in rng.sample([1, 2, 3, 5, 64, len(n.want), max(1, len(n.want) - 1)], 3):
        n.data.valid_batch_size = size
        got = ctx.call("evaluate", quiet, n.net.evaluate, n.data)
        ctx.check(about(got["acc"], acc), "evaluate-acc", "accuracy over the measured events", batch=size, got=got["acc"], want=acc,
                  events=[len(e) for e in events], **det)
        ctx.check(about(got["loss"], loss), "evaluate-loss", "mean loss over the measured events", batch=size, got=got["loss"], want=loss,
                  events=[len(e) for e in events], **det)
        ctx.ev("evaluation")
    # single batches in training and validation
    for _ in range(3):
        ids = rng.sample(range(len(n.want)), rng.randrange(1, len(n.want) + 1))
        flat = [e for j in ids for e in events[j]]
        if not flat:
            continue
        acc, loss = score(n, flat)
        keys = ["inputs", "targets", "input_lengths", "target_lengths"]
        make = lambda: shim._collate([{k: g[k] for k in keys if k in g} for g in (n.data[j] for j in ids)])  # noqa: E731
        got = ctx.call("train-step", n.net.training_step, ctx.call("net-item", make), 0)
        ctx.check(about(got, loss), "train-loss", "the training loss is the mean over the batch's measured events",
                  got=float(got), want=loss, examples=ids, **det)
        n.net.__dict__["logged"] = []
        ctx.call("valid-step", n.net.validation_step, make(), 0)
        log = dict(n.net.__dict__["logged"])
        ctx.check("val_loss" in log and about(log["val_loss"], loss), "valid-loss", "validation loss over the batch's measured events",
                  got=log, want=loss, examples=ids, **det)
        ctx.check("val_acc" in log and about(log["val_acc"], acc), "valid-acc", "validation accuracy over the batch's measured events",
                  got=log, want=acc, examples=ids, **det)
        ctx.ev("batch")
