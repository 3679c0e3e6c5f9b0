"""Small numpy models of torch, pytorch_lightning and h5py, used only when the real ones are missing.

They cover what harmonic_inference uses; anything else raises ShimMissing when it is called, so that a
case which needs it is counted as inconclusive rather than judged.  Self-contained on purpose."""
import importlib.util
import os
import pickle
import sys
import types

import numpy as np


class ShimMissing(Exception):
    """The code under test used a part of a stubbed library that is not modelled."""


class _Missing:
    def __init__(self, name):
        self.__dict__["_name"] = name

    def __getattr__(self, attr):
        if attr.startswith("__"):
            raise AttributeError(attr)
        return _Missing(self._name + "." + attr)

    def __call__(self, *a, **k):
        raise ShimMissing(self._name)

    def __mro_entries__(self, bases):
        return (object,)

    def __getitem__(self, item):
        return self

    def __repr__(self):
        return self._name


class _Mod(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return _Missing(self.__name__ + "." + name)


def _module(name, **attrs):
    mod = _Mod(name)
    mod.__path__ = []
    mod.__dict__.update(attrs)
    sys.modules[name] = mod
    if "." in name:
        parent, child = name.rsplit(".", 1)
        sys.modules[parent].__dict__[child] = mod
    return mod


# ------------------------------------------------------------------------------------------- tensors
class Tensor(np.ndarray):
    """An ndarray that answers to the torch method names."""

    def __getitem__(self, item):
        if isinstance(item, Tensor):
            item = np.asarray(item)
        elif isinstance(item, tuple):
            item = tuple(np.asarray(i) if isinstance(i, Tensor) and i.ndim else
                         (int(i) if isinstance(i, Tensor) else i) for i in item)
        return T(np.asarray(self)[item])

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def numpy(self):
        return np.asarray(self)

    def cpu(self):
        return self

    def detach(self):
        return self

    def clone(self):
        return T(np.array(self))

    def to(self, *a, **k):
        return self

    def long(self):
        return T(np.asarray(self).astype(np.int64))

    int = long

    def float(self):
        return T(np.asarray(self).astype(np.float64))

    def double(self):
        return self.float()

    def bool(self):
        return T(np.asarray(self).astype(bool))

    def equal(self, other):
        return np.asarray(self).shape == np.asarray(other).shape and bool(np.array_equal(self, other))

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    size.__doc__ = "shape"

    def dim(self):
        return self.ndim

    def unsqueeze(self, dim):
        return T(np.expand_dims(np.asarray(self), dim))

    def squeeze(self, dim=None, axis=None):
        dim = axis if dim is None else dim
        a = np.asarray(self)
        if dim is None:
            return T(a.squeeze())
        return T(a.squeeze(dim)) if a.shape[dim] == 1 else self

    def expand(self, *shape):
        shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
        shape = tuple(self.shape[i] if s == -1 else s for i, s in enumerate(shape))
        return T(np.broadcast_to(np.asarray(self), shape))

    def permute(self, *dims):
        return T(np.transpose(np.asarray(self), dims))

    def transpose(self, a, b):
        return T(np.swapaxes(np.asarray(self), a, b))

    def view(self, *shape):
        if shape and all(isinstance(s, (int, np.integer)) for s in shape):
            return T(np.asarray(self).reshape(shape))
        return np.ndarray.view(self, *shape)

    def reshape(self, *shape, **kw):
        return T(np.asarray(self).reshape(*shape))

    def item(self, *a):
        return np.asarray(self).item(*a)

    def tolist(self):
        return np.asarray(self).tolist()

    def _red(name):
        def f(self, dim=None, axis=None, keepdim=False, **kw):
            return T(getattr(np.asarray(self), name)(axis=dim if axis is None else axis, keepdims=keepdim))
        return f

    sum, mean, any, all = _red("sum"), _red("mean"), _red("any"), _red("all")

    def max(self, dim=None, **kw):
        a = np.asarray(self)
        return T(a.max()) if dim is None else (T(a.max(axis=dim)), T(a.argmax(axis=dim)))

    def argmax(self, dim=None, axis=None, **kw):
        return T(np.asarray(np.asarray(self).argmax(axis=dim if axis is None else axis)))

    def min(self, dim=None, **kw):
        a = np.asarray(self)
        return T(a.min()) if dim is None else (T(a.min(axis=dim)), T(a.argmin(axis=dim)))

    def argmin(self, dim=None, axis=None, **kw):
        return T(np.asarray(np.asarray(self).argmin(axis=dim if axis is None else axis)))

    def round(self, *a, **k):
        return T(np.round(np.asarray(self)))

    def contiguous(self, *a, **k):
        return self

    def cuda(self, *a, **k):
        return self

    def numel(self):
        return int(np.asarray(self).size)

    def flatten(self, start_dim=0, end_dim=-1):
        a = np.asarray(self)
        end = end_dim % a.ndim if a.ndim else 0
        return T(a.reshape(a.shape[:start_dim] + (-1,) + a.shape[end + 1:]))

    def t(self):
        return T(np.asarray(self).T)

    def type(self, dtype=None, **k):
        return str(self.dtype) if dtype is None else T(np.asarray(self).astype(dtype))

    def _bin(name):
        def f(self, other):
            return T(getattr(np, name)(np.asarray(self), np.asarray(other)))
        return f

    eq, ne, lt, le = _bin("equal"), _bin("not_equal"), _bin("less"), _bin("less_equal")
    gt, ge, add, sub = _bin("greater"), _bin("greater_equal"), _bin("add"), _bin("subtract")
    mul, div, matmul, mm = _bin("multiply"), _bin("true_divide"), _bin("matmul"), _bin("matmul")
    logical_and, logical_or = _bin("logical_and"), _bin("logical_or")

    def _un(name):
        def f(self):
            return T(getattr(np, name)(np.asarray(self)))
        return f

    exp, log, abs, tanh, logical_not = _un("exp"), _un("log"), _un("abs"), _un("tanh"), _un("logical_not")

    def sigmoid(self):
        return T(_sig(np.asarray(self)))

    def softmax(self, dim=-1, **k):
        return _softmax(self, dim)

    def log_softmax(self, dim=-1, **k):
        return _log_softmax(self, dim)

    def relu(self):
        return T(np.maximum(np.asarray(self), 0))

    def clamp(self, min=None, max=None):
        return T(np.clip(np.asarray(self), min, max))

    clip = clamp

    def gather(self, dim, index):
        return T(np.take_along_axis(np.asarray(self), np.asarray(index), dim))

    def index_select(self, dim, index):
        return T(np.take(np.asarray(self), np.asarray(index), axis=dim))

    def masked_fill(self, mask, value):
        return T(np.where(np.asarray(mask), value, np.asarray(self)))

    def expand_as(self, other):
        return T(np.broadcast_to(np.asarray(self), np.asarray(other).shape))

    def view_as(self, other):
        return T(np.asarray(self).reshape(np.asarray(other).shape))

    def repeat(self, *reps):
        reps = reps[0] if len(reps) == 1 and isinstance(reps[0], (tuple, list)) else reps
        return T(np.tile(np.asarray(self), reps))

    def chunk(self, n, dim=0):
        return tuple(T(a) for a in np.array_split(np.asarray(self), n, axis=dim))

    def split(self, n, dim=0):
        a = np.asarray(self)
        cuts = np.cumsum(n)[:-1] if isinstance(n, (tuple, list)) else range(n, a.shape[dim], n)
        return tuple(T(x) for x in np.split(a, list(cuts), axis=dim))

    def unbind(self, dim=0):
        return tuple(T(x) for x in np.moveaxis(np.asarray(self), dim, 0))

    def nonzero(self, as_tuple=False):
        out = np.nonzero(np.asarray(self))
        return tuple(T(x) for x in out) if as_tuple else T(np.stack(out, axis=1))

    def __getattr__(self, name):
        if name.startswith("_") or name not in TORCH_METHODS:
            raise AttributeError(f"'Tensor' object has no attribute '{name}'")
        return _Missing("Tensor." + name)

    del _red, _bin, _un


# Methods of torch.Tensor that are not modelled: a case that calls one is inconclusive.
TORCH_METHODS = set("""
absolute addmm allclose amax amin aminmax argsort argwhere backward bernoulli bfloat16 bincount bmm byte ceil char
copy_ cos count_nonzero cross cumprod cumsum diag diagonal diff dist dot element_size erf expm1 fill_ flip fliplr
flipud floor fmod frac half index_add index_add_ index_copy index_copy_ index_fill index_fill_ index_put index_put_
inverse isclose isfinite isin isinf isnan is_contiguous is_floating_point kthvalue log10 log1p log2 logaddexp
logsumexp logical_xor lerp masked_fill_ masked_scatter masked_select maximum median minimum mode moveaxis movedim
msort multinomial multiply mv nan_to_num nanmean nansum narrow neg negative new_empty new_full new_ones new_tensor
new_zeros norm outer pow prod quantile ravel reciprocal relu_ remainder renorm repeat_interleave requires_grad_ roll
rot90 rsqrt scatter scatter_ scatter_add scatter_add_ select short sigmoid_ sign sin sort sqrt square squeeze_ std
stride subtract sub_ sum_to_size swapaxes swapdims take take_along_dim tan tensor_split tile topk trace transpose_
tril triu true_divide trunc type_as unflatten unfold unique unique_consecutive unsqueeze_ var where xlogy zero_
add_ mul_ div_ clamp_ clamp_min clamp_max exp_ log_ detach_ grad is_cuda requires_grad layout names item_ T H mT
data device""".split())
for _name in list(TORCH_METHODS):  # numpy has these, with the same meaning for the uses seen here
    if hasattr(np.ndarray, _name):
        TORCH_METHODS.discard(_name)


def T(x):
    return np.ndarray.view(np.asarray(x), Tensor)


def _collate(batch):
    elem = batch[0]
    if isinstance(elem, dict):
        return {k: _collate([b[k] for b in batch]) for k in elem}
    if isinstance(elem, (tuple, list)):
        if any(len(b) != len(elem) for b in batch):
            raise RuntimeError("each element in list of batch should be of equal size")
        return [_collate(list(x)) for x in zip(*batch)]
    if isinstance(elem, str):
        return list(batch)
    if isinstance(elem, np.ndarray) and elem.dtype.kind in "OUS":
        raise TypeError("default_collate: batch must contain tensors, numbers, dicts or lists; found object")
    arrs = [np.asarray(b) for b in batch]
    if any(a.shape != arrs[0].shape for a in arrs):
        raise RuntimeError(f"stack expects each tensor to be equal size, but got {[a.shape for a in arrs][:4]}")
    if arrs[0].dtype.kind in "OUS":
        raise TypeError("default_collate: batch must contain tensors, numbers, dicts or lists")
    return T(np.stack(arrs))


class Dataset:
    pass


class DataLoader:
    def __init__(self, dataset, batch_size=1, shuffle=False, drop_last=False, **kw):
        self.dataset, self.batch_size, self.shuffle, self.drop_last = dataset, batch_size, shuffle, drop_last

    def __len__(self):
        n = len(self.dataset)
        return n // self.batch_size if self.drop_last else -(-n // self.batch_size)

    def __iter__(self):
        order = list(range(len(self.dataset)))
        if self.shuffle:
            np.random.shuffle(order)
        for i in range(0, len(order), self.batch_size):
            ids = order[i:i + self.batch_size]
            if self.drop_last and len(ids) < self.batch_size:
                return
            yield _collate([self.dataset[j] for j in ids])


# ------------------------------------------------------------------------------------------- networks
class Module:
    training = False

    def __init__(self, *a, **k):
        pass

    def __call__(self, *a, **k):
        return self.forward(*a, **k)

    def eval(self):
        return self

    def train(self, mode=True):
        return self

    def parameters(self):
        return []

    def to(self, *a, **k):
        return self

    def cpu(self):
        return self


def _w(*shape):
    return np.random.uniform(-1.0, 1.0, shape)


class Linear(Module):
    def __init__(self, i, o, bias=True):
        self.weight, self.bias = _w(o, i), _w(o)

    def forward(self, x):
        a = np.asarray(x)
        if a.shape[-1] != self.weight.shape[1]:
            raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({a.shape} and {self.weight.T.shape})")
        return T(a @ self.weight.T + self.bias)


class Dropout(Module):
    def __init__(self, p=0.5):
        self.p = p

    def forward(self, x):
        return x


class Sequential(Module):
    def __init__(self, *mods):
        self.mods = list(mods)

    def forward(self, x):
        for m in self.mods:
            x = m(x)
        return x


def _act(f):
    class Activation(Module):
        def __init__(self, *a, dim=-1, **k):
            self.dim = a[0] if a and isinstance(a[0], int) else dim

        def forward(self, x):
            return f(x, self.dim)
    return Activation


class Optimizer:
    """Records what it was built with."""

    def __init__(self, params=(), *a, **k):
        self.params, self.args, self.kwargs = params, a, k
        self.lr = k.get("lr", a[0] if a else 0.001)
        self.param_groups = [{"params": params, "lr": self.lr}]


class Scheduler:
    def __init__(self, optimizer=None, *a, **k):
        self.optimizer, self.args, self.kwargs = optimizer, a, k


class ModuleList(Module, list):
    def __init__(self, items=()):
        list.__init__(self, items)


class Packed:
    def __init__(self, data, lengths):
        self.data, self.lengths = data, lengths


def pack_padded_sequence(x, lengths, batch_first=False, enforce_sorted=True):
    a = np.asarray(x) if batch_first else np.swapaxes(np.asarray(x), 0, 1)
    n = np.asarray(lengths).astype(np.int64)
    if n.shape != (a.shape[0],):
        raise RuntimeError("Expected `len(lengths)` to be equal to batch_size")
    if (n <= 0).any():
        raise RuntimeError("Length of all samples has to be greater than 0")
    if (n > a.shape[1]).any():
        raise RuntimeError("a length exceeds the padded sequence")
    if enforce_sorted and (np.diff(n) > 0).any():
        raise RuntimeError("`lengths` array must be sorted in decreasing order")
    return Packed(a, n)


def pad_packed_sequence(packed, batch_first=False, padding_value=0.0, total_length=None):
    m = int(packed.lengths.max())
    out = packed.data[:, :m].copy()
    out[np.arange(m)[None, :] >= packed.lengths[:, None]] = padding_value
    if total_length is not None:
        if total_length < m:
            raise ValueError("Expected total_length to be at least the length of the longest sequence in input")
        pad = np.full((out.shape[0], total_length - m) + out.shape[2:], padding_value)
        out = np.concatenate([out, pad], axis=1)
    return T(out if batch_first else np.swapaxes(out, 0, 1)), T(packed.lengths)


def _sig(x):
    return 1.0 / (1.0 + np.exp(-x))


class LSTM(Module):
    def __init__(self, i, h, num_layers=1, bidirectional=False, batch_first=False, dropout=0.0):
        self.h, self.layers, self.dirs = h, num_layers, 2 if bidirectional else 1
        self.ws = [[(_w(4 * h, i if lay == 0 else h * self.dirs), _w(4 * h, h), _w(4 * h))
                    for _ in range(self.dirs)] for lay in range(num_layers)]
        self.batch_first = batch_first

    def forward(self, x, hidden=None):
        packed = isinstance(x, Packed)
        if packed:
            data, n = x.data, x.lengths
        else:
            data = np.asarray(x)
            if data.ndim != 3:
                raise ShimMissing("LSTM on unbatched input")
            data = data if self.batch_first else np.swapaxes(data, 0, 1)
            n = np.full(data.shape[0], data.shape[1])
        b, t = data.shape[0], data.shape[1]
        if hidden is None:
            h0 = c0 = np.zeros((self.layers * self.dirs, b, self.h))
        else:
            h0, c0 = np.asarray(hidden[0]), np.asarray(hidden[1])
        want = (self.layers * self.dirs, b, self.h)
        if h0.shape != want or c0.shape != want:
            raise RuntimeError(f"Expected hidden size {want}, got {h0.shape}")
        hn, cn = np.zeros(want), np.zeros(want)
        for lay in range(self.layers):
            outs = []
            for d in range(self.dirs):
                wi, wh, bias = self.ws[lay][d]
                out = np.zeros((b, t, self.h))
                k = lay * self.dirs + d
                h, c = h0[k].copy(), c0[k].copy()
                for step in range(int(n.max())):
                    s = step if d == 0 else int(n.max()) - 1 - step
                    on = (s < n)[:, None]
                    g = data[:, s] @ wi.T + h @ wh.T + bias
                    i_, f_, g_, o_ = np.split(g, 4, axis=1)
                    c2 = _sig(f_) * c + _sig(i_) * np.tanh(g_)
                    h2 = _sig(o_) * np.tanh(c2)
                    h, c = np.where(on, h2, h), np.where(on, c2, c)
                    out[:, s] = np.where(on, h, 0)
                outs.append(out)
                hn[k], cn[k] = h, c
            data = np.concatenate(outs, axis=2)
        if packed:
            return Packed(data, n), (T(hn), T(cn))
        return T(data if self.batch_first else np.swapaxes(data, 0, 1)), (T(hn), T(cn))


def _softmax(x, dim=-1):
    a = np.asarray(x)
    e = np.exp(a - a.max(axis=dim, keepdims=True))
    return T(e / e.sum(axis=dim, keepdims=True))


def _log_softmax(x, dim=-1):
    a = np.asarray(x)
    a = a - a.max(axis=dim, keepdims=True)
    return T(a - np.log(np.exp(a).sum(axis=dim, keepdims=True)))


def nll_loss(out, target, ignore_index=-100, reduction="mean"):
    o, t = np.asarray(out), np.asarray(target)
    o = np.moveaxis(o, 1, -1).reshape(-1, o.shape[1])
    t = t.reshape(-1)
    keep = t != ignore_index
    if ((t[keep] < 0) | (t[keep] >= o.shape[1])).any():
        raise IndexError(f"Target {t[keep].min()} is out of bounds.")
    vals = -o[np.nonzero(keep)[0], t[keep].astype(int)]
    return T(vals if reduction == "none" else (vals.mean() if len(vals) else np.nan))


def cross_entropy(out, target, ignore_index=-100, reduction="mean"):
    return nll_loss(_log_softmax(out, 1), target, ignore_index, reduction)


def binary_cross_entropy(out, target, reduction="mean"):
    o, t = np.asarray(out), np.asarray(target)
    if o.shape != t.shape:
        raise ValueError("Using a target size that is different to the input size")
    if ((o < 0) | (o > 1)).any():
        raise RuntimeError("all elements of input should be between 0 and 1")
    v = -(t * np.maximum(np.log(o), -100) + (1 - t) * np.maximum(np.log(1 - o), -100))
    return T(v if reduction == "none" else v.mean())


def one_hot(x, num_classes=-1):
    a = np.asarray(x).astype(np.int64)
    n = int(a.max()) + 1 if num_classes == -1 else num_classes
    return T((a[..., None] == np.arange(n)).astype(np.int64))


def _torch():
    def factory(f):
        def g(*shape, device=None, dtype=None, requires_grad=False, **k):
            shape = shape[0] if len(shape) == 1 and isinstance(shape[0], (tuple, list)) else shape
            return T(f(shape, **({} if dtype is None else {"dtype": dtype})))
        return g

    def gather(x, dim, idx):
        return T(np.take_along_axis(np.asarray(x), np.asarray(idx), dim))

    def clamp(x, min=None, max=None):
        return T(np.clip(np.asarray(x), min, max))

    def squeeze(x, dim=None):
        return T(x).squeeze(dim)

    def transpose(x, a, b):
        return T(np.swapaxes(np.asarray(x), a, b))

    class no_grad:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False

        def __call__(self, f):
            return f

    t = _module(
        "torch", Tensor=Tensor, tensor=lambda x, **k: T(np.array(x)), from_numpy=T, as_tensor=lambda x, **k: T(x),
        zeros=factory(np.zeros), ones=factory(np.ones), gather=gather, clamp=clamp, squeeze=squeeze,
        transpose=transpose, no_grad=no_grad, sigmoid=lambda x: T(_sig(np.asarray(x))),
        chunk=lambda x, n, dim=0: tuple(T(a) for a in np.array_split(np.asarray(x), n, axis=dim)),
        cat=lambda xs, dim=0: T(np.concatenate([np.asarray(x) for x in xs], axis=dim)),
        stack=lambda xs, dim=0: T(np.stack([np.asarray(x) for x in xs], axis=dim)),
        roll=lambda x, shifts, dims=None: T(np.roll(np.asarray(x), shifts, axis=dims)),
        exp=lambda x: T(np.exp(np.asarray(x))), log=lambda x: T(np.log(np.asarray(x))),
        where=lambda c, a, b: T(np.where(np.asarray(c), np.asarray(a), np.asarray(b))),
        arange=lambda *a, **k: T(np.arange(*a)), tanh=lambda x: T(np.tanh(np.asarray(x))),
        zeros_like=lambda x, **k: T(np.zeros_like(np.asarray(x))), ones_like=lambda x, **k: T(np.ones_like(np.asarray(x))),
        full=lambda shape, v, **k: T(np.full(shape, v)), unsqueeze=lambda x, dim: T(x).unsqueeze(dim),
        flatten=lambda x, start_dim=0, end_dim=-1: T(x).flatten(start_dim, end_dim),
        reshape=lambda x, shape: T(x).reshape(shape), permute=lambda x, dims: T(x).permute(*dims),
        argmax=lambda x, dim=None, **k: T(x).argmax(dim), max=lambda x, dim=None, **k: T(x).max(dim),
        sum=lambda x, dim=None, **k: T(x).sum(dim, **k), mean=lambda x, dim=None, **k: T(x).mean(dim, **k),
        eq=lambda a, b: T(a).eq(b), ne=lambda a, b: T(a).ne(b), abs=lambda x: T(x).abs(),
        equal=lambda a, b: T(a).equal(b), split=lambda x, n, dim=0: T(x).split(n, dim), relu=lambda x: T(x).relu(),
        softmax=lambda x, dim=-1, **k: _softmax(x, dim), log_softmax=lambda x, dim=-1, **k: _log_softmax(x, dim),
        matmul=lambda a, b: T(a).matmul(b), is_tensor=lambda x: isinstance(x, Tensor), numel=lambda x: T(x).numel(),
        index_select=lambda x, dim, i: T(x).index_select(dim, i), movedim=lambda x, a, b: T(np.moveaxis(np.asarray(x), a, b)),
        logical_and=lambda a, b: T(a).logical_and(b), logical_or=lambda a, b: T(a).logical_or(b),
        concat=lambda xs, dim=0: T(np.concatenate([np.asarray(x) for x in xs], axis=dim)),
        hstack=lambda xs: T(np.hstack([np.asarray(x) for x in xs])), vstack=lambda xs: T(np.vstack([np.asarray(x) for x in xs])),
        LongTensor=lambda x: T(np.array(x, dtype=np.int64)), FloatTensor=lambda x: T(np.array(x, dtype=np.float64)),
        float64=np.float64, int32=np.int32, int=np.int32, double=np.float64,
        set_num_threads=lambda n: None, manual_seed=lambda n: np.random.seed(n), long=np.int64, float=np.float64,
        int64=np.int64, float32=np.float32, bool=np.bool_, device=lambda x: x, __version__="shim")
    nn = _module("torch.nn", Module=Module, Linear=Linear, Dropout=Dropout, LSTM=LSTM, ModuleList=ModuleList,
                 Sequential=Sequential, ReLU=_act(lambda x, d: T(x).relu()), Sigmoid=_act(lambda x, d: T(x).sigmoid()),
                 Tanh=_act(lambda x, d: T(x).tanh()), Softmax=_act(_softmax), LogSoftmax=_act(_log_softmax),
                 Identity=_act(lambda x, d: x))
    _module("torch.nn.functional", relu=lambda x: T(np.maximum(np.asarray(x), 0)), softmax=_softmax,
            sigmoid=lambda x: T(_sig(np.asarray(x))), tanh=lambda x: T(np.tanh(np.asarray(x))),
            dropout=lambda x, p=0.5, training=True, **k: x, one_hot=one_hot,
            log_softmax=_log_softmax, nll_loss=nll_loss, cross_entropy=cross_entropy,
            binary_cross_entropy=binary_cross_entropy)
    _module("torch.nn.utils")
    _module("torch.nn.utils.rnn", pack_padded_sequence=pack_padded_sequence,
            pad_packed_sequence=pad_packed_sequence)
    _module("torch.autograd", Variable=lambda x, **k: x)
    _module("torch.utils")
    _module("torch.utils.data", Dataset=Dataset, DataLoader=DataLoader)
    _module("torch.utils.data.dataloader", DataLoader=DataLoader)
    optims = {n: type(n, (Optimizer,), {}) for n in ("Adam", "AdamW", "SGD", "RMSprop", "Adagrad", "Adadelta")}
    _module("torch.optim", Optimizer=Optimizer, **optims)
    scheds = {n: type(n, (Scheduler,), {}) for n in (
        "ReduceLROnPlateau", "StepLR", "ExponentialLR", "CosineAnnealingLR", "LambdaLR", "MultiStepLR")}
    _module("torch.optim.lr_scheduler", **scheds)
    _module("torch.cuda", is_available=lambda: False)
    return t, nn


def _lightning():
    class LightningModule(Module):
        device = "cpu"

        def log(self, name, value, *a, **k):
            self.__dict__.setdefault("logged", []).append((name, float(np.asarray(value))))

        def save_hyperparameters(self, *a, **k):
            pass

        def freeze(self):
            self.__dict__["frozen"] = True

        @classmethod
        def load_from_checkpoint(cls, checkpoint_path, *a, **k):
            if CHECKPOINTS["load"] is None:
                raise ShimMissing("load_from_checkpoint")
            model = CHECKPOINTS["load"](cls, os.fspath(checkpoint_path))
            model.__dict__["loaded_from"] = os.fspath(checkpoint_path)
            return model

    class Settings:
        def __init__(self, *a, **k):
            self.args, self.kwargs = a, k

    class Trainer(Settings):
        def fit(self, *a, **k):
            FITS.append((self, a, k))

    _module("pytorch_lightning", LightningModule=LightningModule, Trainer=Trainer)
    _module("pytorch_lightning.callbacks", EarlyStopping=Settings, LearningRateMonitor=Settings)
    _module("pytorch_lightning.profiler", AdvancedProfiler=Settings)
    _module("pytorch_lightning.loggers")


CHECKPOINTS = {"load": None}  # function (class, path) -> model
FITS = []  # every call of Trainer.fit


# ------------------------------------------------------------------------------------------- h5py
FAULTS = {"memory": None}  # number of reads of inputs or targets until a MemoryError, None = never
READS = [0]


class H5Dataset:
    def __init__(self, arr, name=None):
        self._a = arr
        self._big = name in ("inputs", "targets")
        self.shape, self.dtype = arr.shape, arr.dtype

    def _read(self):
        if not self._big:
            return
        READS[0] += 1
        if FAULTS["memory"] is not None:
            if FAULTS["memory"] <= 0:
                raise MemoryError("injected")
            FAULTS["memory"] -= 1

    def __len__(self):
        return len(self._a)

    def __getitem__(self, item):
        self._read()
        if item == ():
            return self._a.copy()
        if isinstance(item, (int, np.integer)) and not -len(self._a) <= item < len(self._a):
            raise ValueError(f"Index ({item}) out of range")
        out = self._a[item]
        return out.copy() if isinstance(out, np.ndarray) else out

    def __array__(self, dtype=None):
        self._read()
        return np.array(self._a, dtype=dtype)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]


class H5File:
    def __init__(self, path, mode="r", **k):
        self.path, self.mode = os.fspath(path), mode
        self.data = {}
        self.closed = False
        if mode in ("r", "r+", "a") and (mode != "a" or os.path.exists(self.path)):
            if not os.path.exists(self.path):
                raise OSError(f"Unable to open file (unable to open file: name = '{self.path}')")
            with open(self.path, "rb") as f:
                if f.read(8) != b"SHIMHDF5":
                    raise OSError("Unable to open file (file signature not found)")
                self.data = pickle.load(f)
        elif mode in ("w", "a", "w-", "x"):
            with open(self.path, "wb") as f:
                f.write(b"")

    def create_dataset(self, name, shape=None, dtype=None, data=None, compression=None, **k):
        if self.mode == "r":
            raise ValueError("Unable to create dataset (no write intent on file)")
        if name in self.data:
            raise ValueError("Unable to create dataset (name already exists)")
        a = np.array(data, dtype=dtype)
        if a.dtype.kind in "OU":
            raise TypeError(f"Object dtype {a.dtype} has no native HDF5 equivalent")
        if a.shape == () and compression is not None:
            raise TypeError("Scalar datasets don't support chunk/filter options")
        self.data[name] = a
        return H5Dataset(a)

    def __contains__(self, name):
        return name in self.data

    def __getitem__(self, name):
        if self.closed:
            raise ValueError("Not a location (invalid object ID)")
        if name not in self.data:
            raise KeyError(f"Unable to open object (object '{name}' doesn't exist)")
        return H5Dataset(self.data[name], name)

    def keys(self):
        return self.data.keys()

    def close(self):
        if not self.closed and self.mode != "r":
            with open(self.path, "wb") as f:
                f.write(b"SHIMHDF5")
                pickle.dump(self.data, f, protocol=4)
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def missing(name):
    try:
        return name not in sys.modules and importlib.util.find_spec(name) is None
    except (ImportError, ValueError):
        return True


def install():
    """Make the missing libraries importable; returns the names that were stubbed."""
    done = []
    if missing("torch"):
        _torch()
        done.append("torch")
    if missing("pytorch_lightning"):
        _lightning()
        done.append("pytorch_lightning")
    if missing("h5py"):
        _module("h5py", File=H5File, Dataset=H5Dataset)
        done.append("h5py")
    return done
