"""C24: networks: their layers, losses and training, and what is kept of them"""
import contextlib
import io
import math
import pickle
import sys
import warnings

import featureflow as ff
import numpy as np
import scipy.fft
import torch
from hypothesis import strategies as st
from torch import nn
from torch.nn import functional as F

import zounds
from vlib import env, gen
from vlib.runner import Suite
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.learn import (
    BandLoss, CategoricalLoss, Conv1d, Conv2d, ConvTranspose1d,
    ConvTranspose2d, DctTransform,
    GatedConvLayer, GatedConvTransposeLayer, GatedLinearLayer, Learned,
    LearnedWassersteinLoss, MultiResolutionConvLayer, Multiply,
    PerceptualLoss, PreprocessingPipeline, PyTorchAutoEncoder, PyTorchGan,
    PyTorchNetwork, RawSampleEmbedding, SincLayer, SupervisedTrainer,
    AbsoluteValue, MeanStdNormalization, TripletEmbeddingTrainer, UnitNorm, WassersteinCriticLoss,
    WassersteinGanTrainer, WassersteinGradientPenaltyLoss, apply_network,
    batchwise_mean_std_normalization, batchwise_unit_norm, feature_map_size,
    gradients, model_hash, sample_norm)
from zounds.learn.multiresolution import MultiResolutionBlock
from zounds.learn.random_samples import InfiniteSampler
from zounds.learn.spectral import FilterBank
from zounds.learn.trainer import Trainer
from zounds.spectral import (
    AWeighting, FrequencyDimension, HanningWindowingFunc, LinearScale,
    GeometricScale, fir_filter_bank, morlet_filter_bank,
    OggVorbisWindowingFunc, WindowingFunc)
from zounds.timeseries import AudioSamples, Seconds, TimeDimension

suite = Suite(
    'C24',
    'random small networks, weights, batches and training sets, against '
    'numpy, scipy and training by hand; non-trivial = several examples, '
    'batches or bands',
    ['networks have parameters, and run on the CPU in single precision'])

torch.set_num_threads(1)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def normal(seed, *shape):
    return gen.rng(seed).normal(0, 1, shape).astype(np.float32)


def tensor(seed, *shape):
    return torch.from_numpy(normal(seed, *shape))


def seeded(network, seed):
    """weights that depend on nothing but the seed"""
    r = gen.rng(seed)
    with torch.no_grad():
        for p in network.parameters():
            if p.requires_grad:
                p.copy_(torch.from_numpy(
                    r.normal(0, .5, tuple(p.shape)).astype(np.float32)))
    return network


def array(x):
    return x.detach().numpy() if isinstance(x, torch.Tensor) \
        else np.asarray(x)


def close(a, b, tol=1e-4):
    a, b = array(a), array(b)
    assert a.shape == b.shape, (a.shape, b.shape)
    scale = max(1., np.abs(b).max()) if b.size else 1.
    assert np.all(np.abs(a - b) <= tol * scale), np.abs(a - b).max()


# -- networks as functions ----------------------------------------------------

class Net(nn.Module):
    """the arguments are known by their names"""

    def __init__(self, n_in, n_out, depth):
        super(Net, self).__init__()
        self.n_in, self.n_out, self.depth = n_in, n_out, depth
        sizes = [n_in] + [3] * (depth - 1) + [n_out]
        self.layers = nn.ModuleList(
            [nn.Linear(a, b) for a, b in zip(sizes[:-1], sizes[1:])])
        self.norm = nn.BatchNorm1d(n_in)
        self.sizes_seen = []

    def forward(self, x):
        self.sizes_seen.append(len(x))
        x = self.norm(x)
        for layer in self.layers:
            x = torch.tanh(layer(x))
        return x


def by_hand(net, x):
    """evaluation mode"""
    bn = net.norm
    x = (np.asarray(x, dtype=np.float64) - array(bn.running_mean)) / np.sqrt(
        array(bn.running_var) + bn.eps)
    x = x * array(bn.weight) + array(bn.bias)
    for layer in net.layers:
        x = np.tanh(x @ array(layer.weight).T + array(layer.bias))
    return x


def make_net(n_in, n_out, depth, seed):
    net = seeded(Net(n_in, n_out, depth), seed)
    r = gen.rng(seed + 1)
    net.norm.running_mean.copy_(torch.from_numpy(
        r.normal(0, 1, n_in).astype(np.float32)))
    net.norm.running_var.copy_(torch.from_numpy(
        r.uniform(.5, 2, n_in).astype(np.float32)))
    return net.eval()


@suite.part(
    quick=200, thorough=3000, n=st.integers(1, 12),
    chunk=st.one_of(st.none(), st.integers(1, 14)), n_in=st.integers(1, 4),
    n_out=st.integers(1, 3), depth=st.integers(1, 3), units=st.booleans(),
    seed=gen.seeds)
def networks_are_applied_in_chunks(
        ctx, n, chunk, n_in, n_out, depth, units, seed):
    """a network gives the same for every example, however many it's applied
    to at a time, never more than asked for, without learning anything"""
    net = make_net(n_in, n_out, depth, seed)
    x = normal(seed + 2, n, n_in)
    given = ArrayWithUnits(x, [TimeDimension(Seconds(1)), IdentityDimension()]
                           ) if units else x
    before = model_hash(net)
    got = apply_network(net, given, chunksize=chunk)
    assert isinstance(got, np.ndarray)
    close(got, by_hand(net, x))
    assert max(net.sizes_seen) <= (chunk or n)
    assert model_hash(net) == before
    assert all(p.grad is None for p in net.parameters())
    assert list(gradients(net)) == []
    ctx.nontrivial(chunk is not None and chunk < n)


@suite.part(
    quick=200, n_in=st.integers(1, 4), n_out=st.integers(1, 3),
    depth=st.integers(1, 3), seed=gen.seeds, at=st.integers(0, 10 ** 6),
    change=st.sampled_from(['nothing', 'weight', 'depth', 'gradient']),
    wide=st.booleans(), least=st.booleans())
def networks_are_told_apart(
        ctx, n_in, n_out, depth, seed, at, change, wide, least):
    """the hash of a network tells whether its structure and weights are the
    same; the gradients of a network are those of its parameters"""
    if wide:
        n_in, n_out = 100 * n_in, 50 * n_out
    a = make_net(n_in, n_out, depth, seed)
    b = make_net(n_in, n_out, depth + (change == 'depth'), seed)
    if change == 'weight':
        ps = list(b.parameters())
        p = ps[at % len(ps)]
        with torch.no_grad():
            # anywhere, or the very last
            v = p.view(-1)[(at * 7919) % p.numel() if at % 3 else -1]
            v.copy_(torch.nextafter(v, v + 1) if least else v + 1e-3)
    if change == 'gradient':
        b.train()
        b(tensor(seed, 3, n_in)).sum().backward()
        b.eval()
        got = {name: rest for name, *rest in gradients(b)}
        assert set(got) == {name for name, _ in b.named_parameters()}
        for name, p in b.named_parameters():
            g = array(p.grad)
            assert np.allclose(
                got[name], [g.min(), g.max(), g.mean()], atol=1e-6)
    assert (model_hash(a) == model_hash(b)) == (
        change in ('nothing', 'gradient'))
    ctx.nontrivial(change != 'nothing')


# -- layers -------------------------------------------------------------------

@suite.part(
    quick=200, thorough=3000, n=st.integers(1, 4), channels=st.integers(1, 4),
    side=st.integers(2, 6), dims=st.integers(1, 2), seed=gen.seeds,
    scale=st.sampled_from([1e-3, 1., 100.]))
def normalisation_of_examples(ctx, n, channels, side, dims, seed, scale):
    """each example is normalised by itself: to unit norm, to no mean and unit
    deviation, or, at each point, to unit average energy of its channels"""
    x = normal(seed, n, channels, *((side, side + 1)[:dims])) * scale
    t = torch.from_numpy(x)
    keep = x.copy()
    u, m, s = batchwise_unit_norm(t), batchwise_mean_std_normalization(t), \
        sample_norm(t)
    flat = x.reshape(n, -1).astype(np.float64)
    norms = np.linalg.norm(flat, axis=1)
    close(u, (flat / norms[:, None]).reshape(x.shape), 1e-3)
    close(m, ((flat - flat.mean(1)[:, None]) /
              flat.std(1, ddof=1)[:, None]).reshape(x.shape), 2e-3)
    energy = (x.astype(np.float64) ** 2).mean(axis=1, keepdims=True)
    close(s, x / np.sqrt(energy + 1e-7), 1e-3)
    assert np.array_equal(t.numpy(), keep), 'the input was changed'
    # examples don't depend on each other
    close(batchwise_unit_norm(t[:1]), array(u)[:1], 1e-6)
    close(batchwise_mean_std_normalization(t[:1]), array(m)[:1], 1e-6)
    close(sample_norm(t[:1]), array(s)[:1], 1e-6)
    zero = torch.zeros(2, channels, side)
    assert np.all(array(batchwise_unit_norm(zero)) == 0)
    assert np.all(np.isfinite(array(sample_norm(zero))))
    ctx.nontrivial(n > 1)
    ctx.label(dims)


@suite.part(
    quick=200, thorough=3000, n=st.integers(1, 3), n_in=st.integers(1, 3),
    n_out=st.integers(1, 3), kernel=st.integers(1, 4),
    stride=st.integers(1, 3), padding=st.integers(0, 1),
    size=st.integers(5, 12), kind=st.sampled_from(
        ['conv1', 'conv2', 'transposed1', 'transposed2']),
    norm=st.sampled_from(['none', 'batch', 'sample']),
    activation=st.sampled_from(['default', 'none', 'tanh']),
    dropout=st.booleans(), dilation=st.sampled_from([1, 1, 2]),
    both=st.booleans(), seed=gen.seeds)
def convolutional_layers(ctx, n, n_in, n_out, kernel, stride, padding, size,
                         kind, norm, activation, dropout, dilation, both,
                         seed):
    """convolution, then normalisation, then activation, then dropout, which
    only happens in training"""
    dims = int(kind[-1])
    transposed = kind.startswith('transposed')
    cls = dict(conv1=Conv1d, conv2=Conv2d, transposed1=ConvTranspose1d,
               transposed2=ConvTranspose2d)[kind]
    if kind.startswith('conv') and (kernel - 1) * dilation >= size:
        dilation = 1
    # (normalising each example takes precedence over normalising the batch)
    kwargs = gen.unless(
        True, dropout=dropout,
        batch_norm=norm == 'batch' or both and norm == 'sample')
    kwargs.update(gen.unless(False, sample_norm=norm == 'sample'))
    kwargs.update(gen.unless(1, dilation=dilation))
    if activation != 'default':
        kwargs['activation'] = dict(none=None, tanh=torch.tanh)[activation]
    layer = seeded(cls(n_in, n_out, kernel, stride, padding, **kwargs), seed)
    x = tensor(seed + 1, n, n_in, *((size,) * dims))
    layer.eval()
    got = layer(x)
    f = {(1, False): F.conv1d, (2, False): F.conv2d,
         (1, True): F.conv_transpose1d, (2, True): F.conv_transpose2d}[
        (dims, transposed)]
    weight, = [p for name, p in layer.named_parameters()
               if p.dim() == dims + 2]
    y = f(x, weight, None, stride, padding, dilation=dilation)
    if norm == 'batch':
        bn, = [m for m in layer.modules()
               if isinstance(m, (nn.BatchNorm1d, nn.BatchNorm2d))]
        y = bn(y)
    elif norm == 'sample':
        y = y / torch.sqrt((y ** 2).mean(dim=1, keepdim=True) + 1e-7)
    if activation == 'default':
        y = F.leaky_relu(y, 0.2)
    elif activation == 'tanh':
        y = torch.tanh(y)
    close(got, y)
    close(layer(x), got, 0)
    if not transposed and dilation == 1:
        kw = gen.unless(1, stride=stride)
        kw.update(gen.unless(0, padding=padding))
        assert int(feature_map_size(size, kernel, **kw)) == got.shape[-1]
    assert layer.in_channels == n_in and layer.out_channels == n_out
    assert layer.kernel_size == (kernel,) * dims
    assert layer.stride == (stride,) * dims
    assert layer.padding == (padding,) * dims
    layer.train()
    if norm != 'batch':
        torch.manual_seed(seed % 1000)
        t = array(layer(x))
        dropped = (t == 0) & (array(y) != 0)
        if dropout:
            kept = t != 0
            close(t[kept], array(y)[kept] / .8)
            if t.size > 100:
                assert dropped.any()
        else:
            assert not dropped.any()
            close(t, y)
    ctx.nontrivial(n > 1 or stride > 1)
    ctx.label(kind)
    ctx.label(norm)


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


@suite.part(
    quick=200, n=st.integers(1, 3), n_in=st.integers(1, 3),
    n_out=st.integers(1, 3), kernels=st.lists(
        st.integers(1, 5), min_size=1, max_size=3),
    stride=st.integers(1, 2), padding=st.one_of(st.none(), st.integers(0, 2)),
    size=st.integers(6, 12), kind=st.sampled_from(
        ['linear', 'conv', 'transposed', 'several', 'several gated']),
    dilation=st.sampled_from([1, 1, 2]), own=st.booleans(), seed=gen.seeds)
def gated_layers(ctx, n, n_in, n_out, kernels, stride, padding, size, kind,
                 dilation, own, seed):
    """a gated layer is one layer times the gate that another opens; several
    resolutions are the results of each, of equal size for odd kernels"""
    x = tensor(seed + 1, n, n_in, size)
    k, p = kernels[0], padding or 0
    kw = gen.unless(1, stride=stride, dilation=dilation)
    kw.update(gen.unless(0 if kind in ('conv', 'transposed') else None,
                         padding=p if kind in ('conv', 'transposed')
                         else padding))
    if (max(kernels) - 1) * dilation >= size:
        kw.pop('dilation', None)
        dilation = 1
    act, gate, norm = torch.tanh, torch.sigmoid, lambda y: y
    if own and kind != 'several':
        act, gate, norm = torch.relu, torch.exp, lambda y: y / 3
        kw.update(activation_func=act, attention_func=gate, norm=norm)
    if kind == 'linear':
        layer = seeded(GatedLinearLayer(n_in, n_out), seed)
        flat = x[:, :, 0]
        a, b = [flat @ m.weight.t() + m.bias for m in layer.modules()
                if isinstance(m, nn.Linear)]
        expected = [[torch.tanh(s) * torch.sigmoid(t)]
                    for s, t in ((a, b), (b, a))]
        got = [layer(flat)]
    elif kind in ('conv', 'transposed'):
        cls = GatedConvLayer if kind == 'conv' else GatedConvTransposeLayer
        layer = seeded(cls(n_in, n_out, k, **kw), seed)
        f = F.conv1d if kind == 'conv' else F.conv_transpose1d
        a, b = [norm(f(x, w, None, stride, p, dilation=dilation))
                for w in layer.parameters()]
        expected = [[act(s) * gate(t)] for s, t in ((a, b), (b, a))]
        got = [layer(x)]
    else:
        if kind == 'several':
            layer = MultiResolutionBlock(
                nn.Conv1d, n_in, n_out, kernels, **kw)
        else:
            layer = MultiResolutionConvLayer(n_in, n_out, kernels, **kw)
        seeded(layer, seed)
        got = layer(x)
        one = []
        ps = list(layer.parameters())
        assert len(ps) == 2 * len(kernels)
        for i, k in enumerate(kernels):
            pad = k // 2 if padding is None else padding
            a, b = ps[2 * i: 2 * i + 2]
            if kind == 'several':
                one.append(F.conv1d(x, a, b, stride, pad, dilation))
            else:
                a, b = [norm(F.conv1d(x, w, None, stride, pad, dilation))
                        for w in (a, b)]
                one.append(act(a) * gate(b))
            if padding is None and k % 2 and stride == dilation == 1:
                assert got[i].shape[-1] == size
        expected = [one]
    assert any(
        len(e) == len(got) and all(
            g.shape == w.shape and np.allclose(array(g), array(w), atol=1e-5)
            for g, w in zip(got, e)) for e in expected[:1])
    ctx.nontrivial(n > 1)
    ctx.label(kind)


# -- transforms ---------------------------------------------------------------

shared = DctTransform()


@suite.part(
    quick=300, thorough=4000, shape=st.lists(
        st.integers(1, 9), min_size=1, max_size=3), at=st.integers(0, 2),
    negative=st.booleans(), factor=st.sampled_from([.25, .5, .75, 1, 1.5, 2]),
    factors=st.lists(st.integers(1, 8), min_size=1, max_size=4, unique=True),
    zero=st.one_of(st.none(), st.tuples(
        st.one_of(st.none(), st.integers(0, 5)),
        st.one_of(st.none(), st.integers(0, 9)), st.integers(1, 3))),
    seed=gen.seeds, fresh=st.booleans())
def cosine_transforms(ctx, shape, at, negative, factor, factors, zero, seed,
                      fresh):
    """the cosine transform along any axis is scipy's, the inverse inverts it,
    and resampling and splitting into bands keep the coefficients they say"""
    axis = at % len(shape)
    n = shape[axis]
    x = normal(seed, *shape)
    t = torch.from_numpy(x)
    d = DctTransform() if fresh else shared
    ax = axis - len(shape) if negative or axis == len(shape) - 1 else axis
    last = axis == len(shape) - 1 and not negative
    along = {} if last else dict(axis=ax)
    c = d.dct(t, **along)
    ref = scipy.fft.dct(x.astype(np.float64), axis=axis, norm='ortho')
    close(c, ref)
    close(d.idct(c, **along), x)
    close(d.idct(t, axis=ax), scipy.fft.idct(
        x.astype(np.float64), axis=axis, norm='ortho'))
    m = int(factor * n)
    if m:
        moved = np.moveaxis(ref, axis, 0)
        kept = np.zeros((m,) + moved.shape[1:])
        kept[:min(m, n)] = moved[:m]
        if zero is not None:
            kept[slice(*zero)] = 0
        expected = scipy.fft.idct(kept, axis=0, norm='ortho')
        close(d.dct_resample(
            t, factor, **along,
            zero_slice=None if zero is None else slice(*zero)),
            np.moveaxis(expected, 0, axis))
    edges = [0] + sorted(f / 8. for f in factors)
    if all(int(f * n) > 0 for f in edges[1:]):
        given = [f / 8. for f in factors]
        bands = d.frequency_decomposition(t, given, **along)
        assert given == [f / 8. for f in factors]
        assert np.array_equal(t.numpy(), x)
        assert len(bands) == len(factors)
        for lo, hi, band in zip(edges[:-1], edges[1:], bands):
            a, b = int(lo * n), int(hi * n)
            moved = np.moveaxis(ref, axis, 0)
            kept = np.zeros((b,) + moved.shape[1:])
            kept[a:b] = moved[a:b]
            close(band, np.moveaxis(scipy.fft.idct(
                kept, axis=0, norm='ortho'), 0, axis))
        ctx.label('bands')
    ctx.nontrivial(n > 1 and len(shape) > 1)


WINDOWS = [HanningWindowingFunc(), OggVorbisWindowingFunc(),
           WindowingFunc(lambda size: np.hanning(size) ** 2),
           WindowingFunc(lambda size: np.hanning(size) ** 3)]


@suite.part(
    quick=200, thorough=2000, n=st.integers(1, 3), size=st.integers(2, 8),
    step=st.integers(1, 8), more=st.integers(0, 12), which=st.integers(0, 3),
    seed=gen.seeds)
def short_time_cosine_transforms(ctx, n, size, step, more, which, seed):
    """the cosine transform of each windowed frame: examples by coefficients by
    frames; different windows can be used in turn"""
    x = normal(seed, n, 1, size + more)
    for w in (WINDOWS[which], WINDOWS[which ^ 1]):
        got = shared.short_time_dct(torch.from_numpy(x), size, step, w)
        window = np.asarray(w * np.ones(size), dtype=np.float64)
        starts = range(0, more + 1, step)
        expected = np.stack([scipy.fft.dct(
            x[:, 0, i: i + size] * window, norm='ortho')
            for i in starts], axis=-1)
        close(got, expected)
    ctx.nontrivial(more >= step)


@suite.part(
    quick=120, thorough=1200, categories=st.one_of(
        st.integers(2, 64), st.integers(2, 1100)),
    dim=st.integers(1, 5), n=st.integers(1, 3), length=st.integers(1, 9),
    seed=gen.seeds)
def embeddings_of_samples(ctx, categories, dim, n, length, seed):
    """samples of the same category, mu-law quantised, have the same place on
    the unit sphere, in the order of the samples"""
    layer = seeded(RawSampleEmbedding(categories, dim), seed)
    x = gen.rng(seed + 1).uniform(-1, 1, (n, 1, length)).astype(np.float32)
    mu = categories - 1
    position = (np.sign(x) * np.log1p(mu * np.abs(x)) / np.log1p(mu) + 1) \
        * mu / 2.
    clear = np.abs(position % 1 - .5) > 1e-3
    c = np.round(position).astype(int)
    w = [array(p) for p in layer.parameters() if p.dim() == 2][0]
    b = [array(p) for p in layer.parameters() if p.dim() == 1][0]
    table = w.T + b
    norms = np.linalg.norm(table, axis=1, keepdims=True)
    got = array(layer(torch.from_numpy(x)))
    assert got.shape == (n, dim, length)
    expected = np.moveaxis((table / norms)[c[:, 0]], -1, 1)
    ok = clear[:, 0] & (norms[c[:, 0], 0] > 1e-3)
    for i in range(dim):
        close(got[:, i][ok], expected[:, i][ok])
    one_hot = array(layer.categorical(torch.from_numpy(x)))
    assert one_hot.shape == (n * length, categories)
    assert np.array_equal(
        one_hot.argmax(1)[clear.reshape(-1)],
        c.reshape(-1)[clear.reshape(-1)])
    # what is learned is where each category is
    layer = layer.double()
    weights = torch.from_numpy(
        gen.rng(seed + 2).normal(0, 1, (n, dim, length)))
    name, table = [(k, p) for k, p in layer.named_parameters()
                   if p.dim() == 2][0]
    f = lambda w: (torch.func.functional_call(  # noqa
        layer, {name: w}, (torch.from_numpy(x).double(),)) * weights).sum()
    if norms[c[:, 0]].min() > .05:
        for said, (one, two) in steepness(f, table.detach()):
            if abs(one - two) < 1e-3 * (1 + abs(two)):
                assert abs(said - two) < 1e-2 * (1 + abs(two)), (said, two)
                ctx.label('slope')
    ctx.nontrivial(n * length > 1)


def a_weights(scale):
    return np.asarray(ArrayWithUnits(
        np.ones(len(list(scale))), [FrequencyDimension(scale)]) * AWeighting())


RATES = (11025, 22050, 44100)


@suite.part(
    quick=100, thorough=1000, rate=st.sampled_from(RATES),
    bands=st.integers(2, 8), taps=st.integers(100, 400),
    lo=st.floats(.05, .15), hi=st.floats(.3, .9), n=st.integers(1, 3),
    geometric=st.booleans(), seed=gen.seeds)
def sinc_filters(ctx, rate, bands, taps, lo, hi, n, geometric, seed):
    """each filter initially passes the frequencies of its own band much
    better than those away from it; examples are convolved with each filter"""
    nyquist = rate / 2.
    span = zounds.FrequencyBand(lo * nyquist, hi * nyquist)
    scale = GeometricScale(
        span.start_hz, span.stop_hz * .9, .5, bands) if geometric \
        else LinearScale(span, bands)
    layer = SincLayer(scale, taps, gen.SAMPLERATES[rate]())
    # the filters are what an impulse comes out as, backwards
    impulse = np.zeros((1, 3 * taps), dtype=np.float32)
    impulse[0, taps + taps // 2] = 1
    at = taps + 2 * (taps // 2) + 1
    filters = array(layer(torch.from_numpy(impulse)))[
        0, :, at - taps: at][:, ::-1]
    assert filters.shape == (len(scale), taps)
    assert np.all(np.isfinite(filters))
    # windowed, ideal filters
    t = np.arange(taps) - (taps - 1) / 2.
    for f, band in zip(filters, scale):
        ideal = np.hamming(taps) * sum(
            sign * 2 * hz / rate * np.sinc(2 * hz / rate * t)
            for sign, hz in ((1, band.stop_hz), (-1, band.start_hz)))
        assert np.dot(f, ideal) > .99 * np.linalg.norm(f) \
            * np.linalg.norm(ideal)
    size = 8192
    response = np.abs(np.fft.rfft(filters, size))
    hz = np.arange(size // 2 + 1) * rate / size
    # the width of the main lobe of the window, and of the filter
    lobe = 4. * rate / taps
    checked = 0
    for r, band in zip(response, scale):
        inside = (hz > band.start_hz + lobe / 2) & \
            (hz < band.stop_hz - lobe / 2)
        outside = (hz < band.start_hz - lobe) | (hz > band.stop_hz + lobe)
        if band.stop_hz + lobe > nyquist or band.start_hz - lobe < 0:
            continue
        best = hz[r.argmax()]
        assert band.start_hz - lobe < best < band.stop_hz + lobe
        if inside.any():
            checked += 1
            assert r[outside].max() < .1 * r[inside].min()
    x = normal(seed, n, 600)
    got = array(layer(torch.from_numpy(x)))
    assert got.shape[:2] == (n, len(scale))
    assert got.shape[-1] == 600 + (taps % 2 == 0)
    padded = np.pad(x, ((0, 0), (taps // 2, taps // 2)))
    for i in range(n):
        for j in range(len(scale)):
            close(got[i, j], np.correlate(padded[i], filters[j], 'valid'),
                  1e-3)
    ctx.nontrivial(checked > 0)


@suite.part(
    quick=80, thorough=800, rate=st.sampled_from(RATES),
    bands=st.integers(1, 6), taps=st.integers(4, 60), n=st.integers(1, 3),
    length=st.integers(80, 300), weighted=st.booleans(),
    normalize=st.booleans(), factor=st.floats(.05, .5),
    pool=st.integers(1, 40), stride=st.integers(1, 40), seed=gen.seeds)
def filter_banks(ctx, rate, bands, taps, n, length, weighted, normalize,
                 factor, pool, stride, seed):
    """examples are convolved with every filter of the bank, rectified and put
    on a logarithmic scale, normalised if asked; the features of a sound
    have its rate over the stride and the scale of the bank"""
    sr = gen.SAMPLERATES[rate]()
    scale = GeometricScale(200, rate / 3., .3, bands) if bands > 1 else \
        LinearScale(zounds.FrequencyBand(300, 900), 1)
    bank = FilterBank(sr, taps, scale, factor, normalize, weighted)
    filters = np.asarray(morlet_filter_bank(
        sr, taps, scale, factor, normalize=normalize)).real.copy()
    if weighted:
        filters *= a_weights(scale)[:, None]
    close(bank.filter_bank.reshape(bands, taps), filters)
    assert bank.n_bands == bands
    x = normal(seed, n, length)
    padded = np.pad(x, ((0, 0), (taps // 2, taps // 2)))
    expected = np.array([[np.correlate(p, f, 'valid')
                          for f in filters.astype(np.float32)]
                         for p in padded])
    close(bank.convolve(torch.from_numpy(x)), expected, 1e-3)
    log = 20 * np.log10(1 + np.maximum(expected, 0))
    close(bank(torch.from_numpy(x), normalize=False),
          log[..., :length], 2e-3)
    flat = log.reshape(n, -1)
    if (flat.std(axis=1) > 1e-2).all():
        flat = (flat - flat.mean(1)[:, None]) / flat.std(1, ddof=1)[:, None]
        close(bank(torch.from_numpy(x)),
              flat.reshape(log.shape)[..., :length], 1e-2)
    samples = AudioSamples(x[0], sr)
    got = bank.transform(samples, pool, stride)
    padded = np.pad(log[0], ((0, 0), (pool // 2, pool // 2)))
    starts = range(0, padded.shape[1] - pool + 1, stride)
    close(got, np.array([padded[:, i: i + pool].mean(1) for i in starts]),
          2e-3)
    time, freq = got.dimensions
    assert time.frequency == sr.frequency * stride
    assert time.duration == sr.frequency * pool
    assert isinstance(freq, FrequencyDimension) and freq.scale is scale
    back = bank.transposed_convolve(bank.convolve(torch.from_numpy(x)))
    assert back.shape[0] == n
    # the transpose of the convolution
    y = normal(seed + 1, n, *expected.shape[1:])
    a = float((bank.convolve(torch.from_numpy(x)) *
               torch.from_numpy(y)).sum())
    b = float((bank.transposed_convolve(torch.from_numpy(y)) *
               torch.from_numpy(x).view(n, 1, -1)).sum())
    assert abs(a - b) <= 1e-3 * (1 + abs(a) + np.abs(expected).sum())
    ctx.nontrivial(n > 1 and bands > 1)


# -- losses -------------------------------------------------------------------

def features(x, basis, lap, factor, weights):
    taps = basis.shape[1]
    padded = np.pad(x, ((0, 0), (taps, taps)))
    out = np.array([[np.correlate(p, b, 'valid')[::lap] for b in basis]
                    for p in padded])
    out = np.log(1 + factor * np.maximum(out, 0))
    if weights is not None:
        out *= weights[None, :, None]
    return out.reshape(len(x), -1)


@suite.part(
    quick=80, thorough=800, bands=st.integers(1, 5),
    taps=st.sampled_from([16, 32, 64]), lap=st.integers(1, 4),
    factor=st.integers(1, 100), weighted=st.booleans(), cosine=st.booleans(),
    n=st.integers(1, 3), length=st.one_of(
        st.integers(8, 64), st.integers(64, 200)), seed=gen.seeds)
def perceptual_losses(ctx, bands, taps, lap, factor, weighted, cosine, n,
                      length, seed):
    """the distance of rectified, logarithmic, weighted filter responses,
    which is least for equal sounds and doesn't depend on the order"""
    sr = gen.SAMPLERATES[11025]()
    scale = LinearScale(zounds.FrequencyBand(100, 5000), bands)
    window = np.hanning(12)[1:-1]
    loss = PerceptualLoss(
        scale, sr, frequency_window=window, basis_size=taps, lap=lap,
        log_factor=factor, cosine_similarity=cosine,
        frequency_weighting=AWeighting() if weighted else None)
    a, b = normal(seed, n, length), normal(seed + 1, n, length)
    basis = np.asarray(fir_filter_bank(scale, taps, sr, window)).real
    weights = a_weights(scale) if weighted else None
    fa, fb = [features(x, basis, lap, factor, weights) for x in (a, b)]
    if cosine:
        expected = -np.mean((fa * fb).sum(1) / np.maximum(
            np.linalg.norm(fa, axis=1) * np.linalg.norm(fb, axis=1), 1e-8))
    else:
        expected = np.mean((fa - fb) ** 2)
    ta, tb = torch.from_numpy(a), torch.from_numpy(b)
    got = float(loss(ta, tb))
    assert abs(got - expected) <= 1e-3 * max(1, abs(expected))
    assert abs(float(loss(tb, ta)) - got) <= 1e-4 * max(1, abs(got))
    same = float(loss(ta, ta))
    assert same <= got + 1e-5
    if not cosine:
        assert same == 0
    elif np.linalg.norm(fa, axis=1).min() > 1e-3:
        assert abs(same + 1) < 1e-3
    # channels of one are as good as none
    assert abs(float(loss(ta[:, None], tb[:, None])) - got) <= \
        1e-5 * max(1, abs(got))
    ctx.nontrivial(n > 1 and bands > 1)


@suite.part(
    quick=100, thorough=1000, n=st.integers(1, 3), length=st.integers(32, 80),
    factors=st.one_of(
        st.lists(st.integers(1, 32), min_size=1, max_size=4, unique=True),
        st.lists(st.integers(1, 32), min_size=9, max_size=20, unique=True)),
    weight=st.sampled_from([0, 1, 2.5]), seed=gen.seeds)
def band_losses(ctx, n, length, factors, weight, seed):
    """the mean squared difference of the normalised bands, and of their
    normalised norms, weighted"""
    factors = [f / 32. for f in factors]
    loss = BandLoss(factors, spectral_shape_weight=weight)

    def transform(x):
        c = scipy.fft.dct(x.astype(np.float64), norm='ortho')
        edges = [0] + sorted(factors)
        fine, norms = [], []
        for lo, hi in zip(edges[:-1], edges[1:]):
            a, b = int(lo * length), int(hi * length)
            kept = np.zeros((len(x), b))
            kept[:, a:b] = c[:, a:b]
            band = scipy.fft.idct(kept, norm='ortho')
            norm = np.linalg.norm(band, axis=-1, keepdims=True)
            fine.append(band / (norm + 1e-8))
            norms.append(norm)
        coarse = np.concatenate(norms, axis=-1)
        return np.concatenate(fine, axis=-1), coarse / (
            np.linalg.norm(coarse, axis=-1, keepdims=True) + 1e-8)

    a, b = normal(seed, n, length), normal(seed + 1, n, length)
    (fa, ca), (fb, cb) = transform(a), transform(b)
    expected = np.mean((fa - fb) ** 2) + weight * np.mean((ca - cb) ** 2)
    ta, tb = torch.from_numpy(a), torch.from_numpy(b)
    assert abs(float(loss(ta, tb)) - expected) < 1e-4
    assert abs(float(loss(tb, ta)) - expected) < 1e-4
    assert float(loss(ta, ta)) == 0
    ctx.nontrivial(n > 1 and len(factors) > 1)


class Critic(nn.Module):
    def __init__(self, n, curve):
        super(Critic, self).__init__()
        self.w = nn.Linear(n, 1, bias=False)
        self.curve = curve

    def forward(self, x, shift=0):
        y = self.w(x)
        return (y + self.curve * (x ** 2).sum(dim=1, keepdim=True)) + shift


@suite.part(
    quick=150, n=st.integers(1, 5), size=st.integers(1, 5),
    weight=st.sampled_from([1, 10]), curve=st.sampled_from([0, .5]),
    shift=st.integers(0, 3), more=st.integers(-3, 3), seed=gen.seeds)
def wasserstein_losses(ctx, n, size, weight, curve, shift, more, seed):
    """what critics, generators and the penalty for steep critics minimise"""
    critic = seeded(Critic(size, curve), seed)
    w = array(critic.w.weight)[0].astype(np.float64)
    real, fake = normal(seed + 1, n, size), normal(seed + 2, n, size)
    value = lambda x: x @ w + curve * (x ** 2).sum(1) + shift  # noqa
    tr, tf = torch.from_numpy(real), torch.from_numpy(fake)
    close(LearnedWassersteinLoss(critic)(tf, shift=shift),
          np.array(-value(fake).mean()))
    close(WassersteinCriticLoss(critic)(tr, tf, shift=shift),
          np.array(value(fake).mean() - value(real).mean()))
    # there needn't be as many real as there are fake examples
    others = normal(seed + 3, max(1, n + more), size)
    close(WassersteinCriticLoss(critic)(
        torch.from_numpy(others), tf, shift=shift),
        np.array(value(fake).mean() - value(others).mean()))
    got = float(WassersteinGradientPenaltyLoss(critic, weight)(
        tr, tf, shift=shift))
    if curve == 0:
        expected = weight * (np.linalg.norm(w) - 1) ** 2
        assert abs(got - expected) <= 1e-3 * max(1, expected)
    else:
        # the steepness somewhere between the real and the fake
        def steep(t):
            x = t * real + (1 - t) * fake
            return np.linalg.norm(w + 2 * curve * x, axis=1)

        path = np.array([steep(t) for t in np.linspace(0, 1, 201)])
        cost = (path - 1) ** 2
        inside = ((path.min(0) <= 1) & (path.max(0) >= 1))
        low = np.where(inside, 0, cost.min(0))
        slack = 1e-2 * (1 + cost.max())
        assert weight * (low.mean() - slack) <= got \
            <= weight * (cost.max(0).mean() + slack)
    x = tf.clone().requires_grad_(True)
    WassersteinGradientPenaltyLoss(critic, weight)(tr, x).backward()
    assert critic.w.weight.grad is not None
    ctx.nontrivial(n > 1)


class Listener(nn.Module):
    def __init__(self, n):
        super(Listener, self).__init__()
        self.w = nn.Linear(n, 1)
        self.heard = []

    def forward(self, x):
        self.heard.append(x.detach().clone())
        return self.w(x)


@suite.part(
    quick=40, n=st.integers(300, 600), size=st.integers(1, 4), seed=gen.seeds)
def penalties_are_measured_anywhere_between(ctx, n, size, seed):
    """the penalty for steepness is measured at a point between each real and
    its fake example, anywhere, and each elsewhere"""
    critic = seeded(Listener(size), seed)
    # far apart, so that one can see where the points are
    real, fake = normal(seed + 1, n, size) + 20, normal(seed + 2, n, size)
    torch.manual_seed(seed)
    WassersteinGradientPenaltyLoss(critic, 10)(
        torch.from_numpy(real), torch.from_numpy(fake))
    x, = critic.heard
    at = (array(x).astype(np.float64) - fake) / (real - fake)
    assert at.shape == (n, size)
    # all of an example is at the same place
    assert np.ptp(at, axis=1).max() < 1e-4
    at = np.sort(at[:, 0])
    assert -1e-5 <= at[0] and at[-1] <= 1 + 1e-5
    assert np.abs(at - (np.arange(n) + .5) / n).max() < .13
    ctx.nontrivial(True)


def steepness(f, x):
    """(what the gradient says, what there is) in the direction of a random
    vector, and of the gradient"""
    x = x.clone().requires_grad_(True)
    f(x).backward()
    g = x.grad.detach()
    x = x.detach()
    r = gen.rng(int(x.numel()))
    for v in (torch.from_numpy(r.normal(0, 1, tuple(x.shape))).to(x.dtype), g):
        norm = float(v.norm())
        if norm < 1e-6:
            continue
        v = v / norm
        slopes = []
        for h in (1e-5, 5e-6):
            with torch.no_grad():
                slopes.append(float(f(x + h * v) - f(x - h * v)) / (2 * h))
        yield float((g * v).sum()), slopes


@suite.part(
    quick=150, thorough=1500, kind=st.sampled_from(
        ['unit', 'deviation', 'sample', 'bands', 'perceptual', 'cosine',
         'dct', 'resample', 'critic']),
    n=st.integers(1, 3), channels=st.integers(1, 3),
    length=st.integers(8, 20), seed=gen.seeds)
def gradients_are_those_of_what_is_computed(
        ctx, kind, n, channels, length, seed):
    """following the gradient changes what is computed by as much as it
    says"""
    r = gen.rng(seed)
    shape = (n, channels, length)
    if kind in ('bands', 'perceptual', 'cosine'):
        shape = (n, length)
    x = torch.from_numpy(r.normal(0, 1, shape))
    weights = torch.from_numpy(r.normal(0, 1, shape))
    if kind in ('unit', 'deviation', 'sample'):
        g = {'unit': batchwise_unit_norm, 'sample': sample_norm,
             'deviation': batchwise_mean_std_normalization}[kind]
        f = lambda x: (g(x) * weights).sum()  # noqa
    elif kind in ('dct', 'resample'):
        # these are linear, so that steps of any size show the slope
        d = DctTransform()
        x, y = x.float().requires_grad_(True), weights.float()
        g = d.dct if kind == 'dct' else \
            lambda x: d.dct_resample(x, .5, axis=-1)  # noqa
        made = g(x)
        (made * y[..., :made.shape[-1]]).sum().backward()
        with torch.no_grad():
            there = float(((g(x + y) - made) * y[..., :made.shape[-1]]).sum())
        said = float((x.grad * y).sum())
        assert abs(said - there) < 1e-3 * (1 + abs(there)), (said, there)
        ctx.nontrivial(n > 1)
        ctx.label(kind)
        return
    elif kind == 'critic':
        net = nn.Linear(length, 1).double()
        loss = LearnedWassersteinLoss(net)
        f = lambda x: loss(torch.tanh(x))  # noqa
    else:
        if kind == 'bands':
            loss = BandLoss([.25, .6, 1], spectral_shape_weight=1.5)
        else:
            loss = PerceptualLoss(
                LinearScale(zounds.FrequencyBand(100, 5000), 3),
                gen.SAMPLERATES[11025](),
                frequency_window=np.hanning(12)[1:-1], basis_size=16, lap=1,
                log_factor=10, cosine_similarity=kind == 'cosine')
        # single precision needs larger steps
        a, b = x.float(), weights.float()
        f = lambda x: loss(x, b)  # noqa
        v = a.clone().requires_grad_(True)
        f(v).backward()
        g = v.grad.detach()
        size = float(g.norm())
        if size > 1e-3:
            slopes = []
            for h in (2e-2, 1e-2):
                step = h * g / size
                with torch.no_grad():
                    slopes.append(float(f(a + step) - f(a - step)) / (2 * h))
            # where it's smooth, both steps show the slope
            if abs(slopes[0] - slopes[1]) < .05 * abs(slopes[1]):
                ctx.nontrivial(True)
                assert abs(slopes[1] - size) < .15 * size, (slopes, size)
        # both arguments can be learned
        v = b.clone().requires_grad_(True)
        loss(a, v).backward()
        assert size < 1e-6 or float(v.grad.norm()) > 0
        ctx.label(kind)
        return
    for said, (one, two) in steepness(f, x):
        if abs(one - two) < 1e-3 * (1 + abs(two)):
            assert abs(said - two) < 1e-2 * (1 + abs(two)), (said, two)
    ctx.nontrivial(n > 1)
    ctx.label(kind)


@suite.part(
    quick=150, n=st.integers(1, 4), categories=st.integers(2, 300),
    length=st.integers(1, 20), loud=st.sampled_from([1e-3, 1, 50]),
    seed=gen.seeds, below=st.booleans())
def categorical_losses(ctx, n, categories, length, loud, seed, below):
    """the loss of predictions of categories of mu-law encoded samples is the
    mean negative logarithm of the probability of the right ones"""
    rng = gen.rng(seed)
    # samples in the middle of a category, but for the loudest
    right = rng.randint(0, categories, (n, 2 * length))
    mu = categories
    y = (right + .5) / mu * 2 - 1
    at = rng.randint(0, n), rng.randint(0, 2 * length)
    right[at], y[at] = (0, -1) if below else (mu, 1)
    x = np.sign(y) * ((1 + mu) ** np.abs(y) - 1) / mu
    target = torch.from_numpy((x * loud).astype(np.float32))[:, None]
    # (the loudest sample is exactly one)
    close(target.abs().max() / loud, np.float32(1))
    predicted = F.log_softmax(
        tensor(seed + 1, n, categories + 1, 2 * length), dim=1)
    p = array(predicted).astype(np.float64)
    cost = [-p[i, right[i, j], j] for i in range(n) for j in range(2 * length)]
    with contextlib.redirect_stderr(io.StringIO()):
        got = float(CategoricalLoss(categories)(predicted, target))
    # (the loudest may be rounded to just below one)
    i, j = at
    other = (cost[i * 2 * length + j] + p[
        i, right[at] if below else mu - 1, j]) / len(cost)
    mean = np.mean(cost)
    assert min(abs(got - mean), abs(got - mean + other)) < 1e-4 * (1 + mean)
    ctx.nontrivial(n > 1 and length > 1)


# -- training -----------------------------------------------------------------

class Line(nn.Module):
    def __init__(self, size):
        super(Line, self).__init__()
        self.size = size
        self.l = nn.Linear(size, 1)

    def forward(self, x):
        return self.l(x)


@suite.part(
    quick=150, thorough=2000, n=st.one_of(
        st.integers(1, 20), st.integers(1, 20), st.integers(50, 300)),
    size=st.integers(1, 3), batch=st.one_of(
        st.integers(1, 8), st.integers(1, 8), st.integers(20, 120)), epochs=st.integers(0, 4),
    checkpoint=st.integers(1, 3), calls=st.integers(1, 5),
    holdout=st.sampled_from([0, 0, .1, .25, .5]), double=st.booleans(),
    seed=gen.seeds)
def supervised_training(ctx, n, size, batch, epochs, checkpoint, calls,
                        holdout, double, seed):
    """every example that isn't held out takes part once in each epoch, in
    order, in batches; the errors reported are those on the batch and on
    examples held out; no more epochs than asked for, and no more at a time
    than up to the next checkpoint"""
    x = gen.rng(seed).normal(0, 1, (n, size))
    y = gen.rng(seed + 1).normal(0, 1, (n, 1))
    lr = .05
    net = seeded(Line(size), seed)
    w = array(net.l.weight)[0].astype(np.float64)
    b = float(net.l.bias.detach())
    kwargs = dict(data_preprocessor=lambda d: d.astype(np.float32),
                  label_preprocessor=lambda d: d.astype(np.float32))
    dx, dy = x.astype(np.float32), y.astype(np.float32)
    if double:
        kwargs = dict(
            data_preprocessor=lambda d: 2 * d.astype(np.float32),
            label_preprocessor=lambda d: d.astype(np.float32) - 1)
        dx, dy = 2 * dx, dy - 1
    trainer = SupervisedTrainer(
        model=net, loss=nn.MSELoss(),
        optimizer=lambda model: torch.optim.SGD(model.parameters(), lr=lr),
        epochs=epochs, batch_size=batch, **gen.unless(0, holdout_percent=holdout),
        **gen.unless(1, checkpoint_epochs=checkpoint), **kwargs)
    seen = []
    trainer.register_batch_complete_callback(
        lambda **kw: seen.append(dict(kw)))
    held = int(holdout * n)
    tx, ty = dx[:held], dy[:held, 0]
    dx, dy = dx[held:], dy[held:, 0]
    done = 0
    try:
        trainer.random_sample()
        early = False
    except RuntimeError:
        early = True
    assert early
    for call in range(calls):
        del seen[:]
        with quiet():
            trained = trainer.train(dict(data=x, labels=y))
        assert trained is net
        expected = []
        for epoch in range(done, min(epochs, done + checkpoint)):
            for i in range(0, len(dx), batch):
                bx, by = dx[i: i + batch], dy[i: i + batch]
                e = bx @ w + b - by
                train_error = np.mean(e ** 2)
                w = w - lr * 2 * (e[:, None] * bx).mean(0)
                b = b - lr * 2 * e.mean()
                test = (tx @ w + b - ty) ** 2
                expected.append((epoch, i, train_error, test, bx))
        done = min(epochs, done + checkpoint) if done < epochs else done
        assert len(seen) == len(expected)
        for got, (epoch, i, train_error, test, bx) in zip(seen, expected):
            assert (got['epoch'], got['batch']) == (epoch, i)
            tol = 1e-3 * max(1, train_error)
            assert abs(got['train_error'] - train_error) < tol
            if held:
                tol = 1e-3 * max(1, test.max())
                assert test.min() - tol <= got['test_error'] \
                    <= test.max() + tol
                assert len(got['samples']) == batch
                bx = tx
            else:
                assert got['test_error'] == 'n/a'
                assert len(got['samples']) == len(bx)
            # each sample is an input, together with what came of it
            inputs = np.stack([array(a) for a, _ in got['samples']])
            outputs = np.stack([array(o) for _, o in got['samples']])
            if held:
                apart = np.abs(inputs[:, None] - bx[None]).max(axis=-1)
                assert apart.min(axis=-1).max() < 1e-6
            else:
                close(inputs, bx, 1e-6)
                e = outputs[:, 0] - dy[i: i + batch]
                assert abs(np.mean(e ** 2) - train_error) < tol
        close(net.l.weight[0], w, 1e-3)
        assert abs(float(net.l.bias.detach()) - b) < 1e-3
    if seen:
        inp, out = trainer.random_sample()
        close(net(inp), out, 10)
    ctx.nontrivial(done > 1 and n - held > batch)


class Steps(Trainer):
    def __init__(self, *args, **kwargs):
        super(Steps, self).__init__(*args, **kwargs)
        self.network = 'network'

    def _training_step(self, epoch, batch, data):
        return dict(data=data)


@suite.part(
    quick=300, n=st.integers(1, 12), batch=st.integers(1, 6),
    epochs=st.integers(0, 5), checkpoint=st.integers(1, 3),
    events=st.lists(st.sampled_from(
        ['train', 'train', 'add', 'remove', 'again']), min_size=3,
        max_size=10),
    method=st.booleans())
def training_in_steps(ctx, n, batch, epochs, checkpoint, events, method):
    """a step for each batch of each epoch, up to the number of epochs, and
    those who registered, and are still registered, are told of each once"""
    t = Steps(epochs, batch, **gen.unless(1, checkpoint_epochs=checkpoint))
    logs, active, callbacks, done = [], [], [], 0

    class Listener(object):
        def __init__(self, log):
            self.log = log

        def listen(self, **kw):
            self.log.append((kw['epoch'], kw['batch']))

    def make(log):
        listener = Listener(log)
        if method:
            # a method is another object each time
            return lambda: listener.listen
        func = lambda **kw: listener.listen(**kw)
        return lambda: func

    for event in events:
        if event == 'add':
            logs.append([])
            callbacks.append(make(logs[-1]))
            t.register_batch_complete_callback(callbacks[-1]())
            active.append(True)
        elif event == 'again' and callbacks:
            t.register_batch_complete_callback(callbacks[-1]())
            active[-1] = True
        elif event == 'remove' and callbacks:
            t.unregister_batch_complete_callback(callbacks[0]())
            t.unregister_batch_complete_callback(callbacks[0]())
            active[0] = False
        elif event == 'train':
            for log in logs:
                del log[:]
            assert t.train(list(range(n))) == 'network'
            stop = max(done, min(epochs, done + checkpoint))
            expected = [(e, i) for e in range(done, stop)
                        for i in range(0, n, batch)]
            done = stop
            for log, on in zip(logs, active):
                assert log == (expected if on else [])
            ctx.nontrivial(len(expected) > 1 and any(active))


@suite.part(
    quick=100, thorough=1000, n=st.integers(1, 20), batch=st.integers(1, 4),
    epochs=st.integers(1, 3), stays=st.lists(
        st.one_of(st.none(), st.integers(1, 6)), min_size=1, max_size=5),
    joins=st.one_of(st.none(), st.integers(1, 6)),
    removes=st.lists(st.integers(0, 4), max_size=2))
def leaving_and_joining_while_told(
        ctx, n, batch, epochs, stays, joins, removes):
    """those who are told of a batch may leave, or bring others, or send those
    away that were told before, without anybody else missing a batch"""
    t = Steps(epochs, batch, checkpoint_epochs=epochs)
    logs = [[] for _ in stays]
    late, listeners = [], []

    def make(i, stay):
        def listen(**kw):
            logs[i].append((kw['epoch'], kw['batch']))
            if stay is not None and len(logs[i]) == stay:
                t.unregister_batch_complete_callback(listen)
            if i == len(stays) - 1:
                if joins is not None and len(logs[i]) == joins:
                    t.register_batch_complete_callback(
                        lambda **kw: late.append((kw['epoch'], kw['batch'])))
                if len(logs[i]) == 1:
                    for k in removes:
                        if k < i:
                            t.unregister_batch_complete_callback(listeners[k])
        return listen

    for i, stay in enumerate(stays):
        listeners.append(make(i, stay))
        t.register_batch_complete_callback(listeners[-1])
    t.train(list(range(n)))
    steps = [(e, i) for e in range(epochs) for i in range(0, n, batch)]
    for i, (stay, log) in enumerate(zip(stays, logs)):
        if i < len(stays) - 1 and i in removes:
            stay = 1
        assert log == steps[:stay], (i, stay, log, steps)
    last = stays[-1]
    if joins is not None and joins <= len(steps) \
            and (last is None or joins <= last):
        # whether it hears of the batch it came with is open
        assert late in (steps[joins:], steps[joins - 1:])
    else:
        assert late == []
    ctx.nontrivial(len(steps) > 2 and any(
        s is not None and s < len(steps) for s in stays))


class Pair(nn.Module):
    def __init__(self, latent, size):
        super(Pair, self).__init__()
        self.latent, self.size = latent, size
        self.generator = Counted(latent, size)
        self.discriminator = Counted(size, 1)

    def forward(self, x):
        raise NotImplementedError()


class Counted(nn.Module):
    def __init__(self, a, b):
        super(Counted, self).__init__()
        self.l = nn.Linear(a, b)
        self.log = []
        self.modes = []

    def forward(self, x, **kwargs):
        self.modes.append(self.training)
        self.log.append((array(x).copy(), array(self.l.weight).copy(),
                         kwargs, array(self.l.bias).copy()))
        return self.l(x)


class Shadow(object):
    """weights that take the steps of Adam that others should take"""

    def __init__(self, weight):
        self.weight = nn.Parameter(weight.detach().clone().double())
        self.adam = torch.optim.Adam(
            [self.weight], lr=.0001, betas=(0, .9))

    def step(self, gradient, after):
        gradient = np.broadcast_to(gradient, self.weight.shape)
        self.weight.grad = torch.from_numpy(np.array(gradient, np.float64))
        self.adam.step()
        # the direction of a step that is hardly one is a matter of rounding
        wrong = np.abs(array(self.weight) - after) > 1e-5
        assert not np.any(wrong & (np.abs(gradient) > 1e-3))
        with torch.no_grad():
            self.weight.copy_(torch.from_numpy(after))


def output(entry):
    return entry[0] @ entry[1].T + entry[3]


@suite.part(
    quick=60, thorough=600, n=st.integers(1, 10), batch=st.integers(1, 4),
    epochs=st.integers(0, 3), checkpoint=st.integers(1, 2),
    critics=st.integers(1, 3), calls=st.integers(1, 3), args=st.booleans(),
    double=st.booleans(), seed=gen.seeds)
def adversarial_training(ctx, n, batch, epochs, checkpoint, critics, calls,
                         args, double, seed):
    """for each batch, the critic takes so many steps, seeing real and fake
    examples, and then the generator takes one; neither changes during the
    other's steps"""
    data = normal(seed, n, 4).astype(np.float64)
    torch.manual_seed(seed % 10007)
    np.random.seed(seed % 10007)
    pair = seeded(Pair(2, 4), seed)
    kwargs = dict()
    if args:
        kwargs['kwargs_factory'] = lambda epoch: dict(epoch=epoch)
    if double:
        kwargs['preprocess_minibatch'] = lambda epoch, x: x * (epoch + 2)
    trainer = WassersteinGanTrainer(
        pair, (2,), critics, epochs, batch,
        **gen.unless(1, checkpoint_epochs=checkpoint),
        **kwargs)
    seen = []
    trainer.register_batch_complete_callback(
        lambda **kw: seen.append(dict(kw)))
    g, d = pair.generator, pair.discriminator
    done, changed = 0, False
    between, apart_ = [], []
    shadows = [Shadow(m.l.weight) for m in (g, d)]
    for call in range(calls):
        del seen[:], g.log[:], d.log[:]
        first = array(g.l.weight).copy(), array(d.l.weight).copy()
        with quiet():
            assert trainer.train(data) is pair
        stop = max(done, min(epochs, done + checkpoint))
        expected = [(e, i) for e in range(done, stop)
                    for i in range(0, n, batch)]
        done = stop
        assert [(s['epoch'], s['batch']) for s in seen] == expected
        assert len(g.log) == len(expected) * (critics + 1)
        # all noise is new
        assert len({x[0].tobytes() for x in g.log}) == len(g.log)
        # real, fake and penalty for each step, and one for the generator
        assert len(d.log) == len(expected) * (3 * critics + 1)
        for k, (epoch, _) in enumerate(expected):
            gs = g.log[k * (critics + 1): (k + 1) * (critics + 1)]
            ds = d.log[k * (3 * critics + 1): (k + 1) * (3 * critics + 1)]
            factor = epoch + 2 if double else 1
            for noise, weight, kw, _ in gs:
                assert noise.shape == (batch, 2)
                assert np.array_equal(weight, gs[0][1])
                assert kw == (dict(epoch=epoch) if args else dict())
            for j in range(critics):
                real, fake, mixed = ds[3 * j: 3 * j + 3]
                assert real[0].shape == (batch, 4)
                apart = np.abs((real[0] / factor)[:, None] - data[None])
                assert apart.max(axis=-1).min(axis=-1).max() < 1e-5
                assert fake[0].shape == (batch, 4)
                close(fake[0], output(gs[j]) * factor)
                assert np.array_equal(real[1], fake[1])
                assert np.array_equal(real[1], mixed[1])
                lo = np.minimum(real[0], fake[0]) - 1e-4
                hi = np.maximum(real[0], fake[0]) + 1e-4
                assert np.all((mixed[0] >= lo) & (mixed[0] <= hi))
                # somewhere between a real and a fake one, for each example
                way = (real[0] - fake[0]).astype(np.float64)
                far = (way ** 2).sum(axis=-1)
                alpha = ((mixed[0] - fake[0]) * way).sum(axis=-1) / (
                    far + 1e-12)
                assert np.abs(
                    fake[0] + alpha[:, None] * way - mixed[0]).max() < 1e-3
                between.extend(alpha[far > .1])
                if np.sum(far > .1) > 1:
                    apart_.append(np.ptp(alpha[far > .1]))
                for one in (real, fake, mixed):
                    assert one[2] == (dict(epoch=epoch) if args else dict())
                after = ds[3 * j + 3][1]
                assert not np.array_equal(real[1], after)
                w = real[1].astype(np.float64)
                size = np.sqrt((w ** 2).sum())
                shadows[1].step(
                    fake[0].mean(0) - real[0].mean(0)
                    + 20 * (size - 1) * w / size, after)
            after = g.log[(k + 1) * (critics + 1)][1] \
                if k + 1 < len(expected) else array(g.l.weight)
            assert not np.array_equal(gs[0][1], after)
            shadows[0].step(
                -factor * ds[-1][1].T * gs[-1][0].mean(0)[None], after)
            after = d.log[(k + 1) * (3 * critics + 1)][1] \
                if k + 1 < len(expected) else array(d.l.weight)
            assert np.array_equal(ds[-1][1], after)
            assert np.isfinite([seen[k]['generator_score'],
                                seen[k]['real_score'],
                                seen[k]['critic_loss']]).all()
            close(ds[-1][0], output(gs[-1]) * factor)
            close(seen[k]['generator_score'], -output(ds[-1]).mean())
            close(seen[k]['real_score'], output(ds[-4]).mean())
            close(seen[k]['critic_loss'],
                  output(ds[-3]).mean() - output(ds[-4]).mean()
                  + 10 * (size - 1) ** 2, 1e-3)
            close(seen[k]['samples'], ds[-1][0])
            assert seen[k]['network'] is pair
        if not expected:
            assert np.array_equal(first[0], array(g.l.weight))
            assert np.array_equal(first[1], array(d.l.weight))
        changed = changed or bool(expected)
    if len(between) > 20:
        assert np.ptp(between) > .3, between
    if len(apart_) > 5:
        assert max(apart_) > 1e-3, apart_
    ctx.nontrivial(changed and critics > 1)


@suite.part(
    quick=25, thorough=150, n=st.integers(100, 3000), batch=st.integers(8, 64),
    seed=gen.seeds, doubles=st.booleans())
def minibatches_are_drawn_from_everything(ctx, n, batch, seed, doubles):
    """the minibatches of a trainer are examples as they are, as many as asked
    for, from all of the data alike"""
    data = normal(seed, n, 4)
    if doubles:
        data = data.astype(np.float64)
    where = {row.astype(np.float32).tobytes(): i
             for i, row in enumerate(data)}
    torch.manual_seed(seed % 10007)
    np.random.seed(seed % 10007)
    pair = seeded(Pair(2, 4), seed)
    drawn = []

    def listen(epoch, x):
        rows = array(x).astype(np.float32)
        # what the generator made is prepared likewise
        if rows[0].tobytes() in where:
            assert rows.shape == (batch, 4)
            drawn.extend(where[row.tobytes()] for row in rows)
        return x

    epochs = 1 + 1500 // n
    trainer = WassersteinGanTrainer(
        pair, (2,), 1, epochs, batch, preprocess_minibatch=listen,
        checkpoint_epochs=epochs)
    with quiet():
        trainer.train(data)
    assert len(drawn) == epochs * batch * -(-n // batch)
    # those of trainers that leave it to the base class
    other = Drawing(epochs, batch, checkpoint_epochs=epochs)
    other.train(data)
    others = []
    for rows in other.drawn:
        assert rows.shape == (batch, 4)
        others.extend(
            where[row.tobytes()] for row in array(rows).astype(np.float32))
    assert len(others) == len(drawn)
    for d in (drawn, others):
        at = np.sort((np.array(d) + .5) / n)
        gap = np.abs(at - (np.arange(len(at)) + .5) / len(at)).max()
        assert gap < .075 + 1. / n, gap
    ctx.nontrivial(n > 512)


class Drawing(Trainer):
    def __init__(self, *args, **kwargs):
        super(Drawing, self).__init__(*args, **kwargs)
        self.network, self.drawn = None, []

    def _training_step(self, epoch, batch, data):
        self.drawn.append(self._minibatch(data))
        return dict()


@suite.part(
    quick=60, thorough=600, n=st.integers(1, 10), batch=st.integers(1, 4),
    epochs=st.integers(0, 3), checkpoint=st.integers(1, 2),
    lo=st.integers(0, 3), length=st.integers(1, 3),
    deformations=st.integers(1, 3), calls=st.integers(1, 3), seed=gen.seeds)
def triplet_training(ctx, n, batch, epochs, checkpoint, lo, length,
                     deformations, calls, seed):
    """anchors are the slice of examples that was asked for, positives are
    made from them and the examples they're from"""
    wide = 6
    data = gen.rng(seed).normal(0, 1, (n, wide))
    np.random.seed(seed % 10007)
    net = seeded(Counted(length, 2), seed)
    where = slice(lo, lo + length)
    rows = {tuple(r) for r in data}
    log, made = [], []

    def make(i):
        def deformation(anchor, examples):
            assert anchor.shape == (batch, length)
            assert examples.shape == (batch, wide)
            assert {tuple(r) for r in examples} <= rows
            assert np.allclose(anchor, examples[:, where])
            log.append('d%d' % i)
            made.append((anchor.copy(), anchor + (i + 1) * .5))
            return anchor + (i + 1) * .5
        deformation.__name__ = 'd%d' % i
        return deformation

    trainer = TripletEmbeddingTrainer(
        net, epochs, batch, where, [make(i) for i in range(deformations)],
        **gen.unless(1, checkpoint_epochs=checkpoint))
    seen, done = [], 0
    trainer.register_batch_complete_callback(
        lambda **kw: seen.append(dict(kw)))
    for call in range(calls):
        del seen[:], log[:], made[:], net.log[:], net.modes[:]
        if call % 2:
            # it may have been used in the meantime
            net.eval()
        before = model_hash(net)
        copy = Counted(length, 2)
        copy.load_state_dict(net.state_dict())
        starts = [p.detach().clone() for p in net.parameters()]
        adam = torch.optim.Adam(copy.parameters(), lr=1e-5)
        with quiet():
            assert trainer.train(dict(data=data)) is net
        stop = max(done, min(epochs, done + checkpoint))
        expected = [(e, i) for e in range(done, stop)
                    for i in range(n // batch)]
        done = stop
        assert [(s['epoch'], s['batch']) for s in seen] == expected
        assert [s['deformation'] for s in seen] == log
        for k, s in enumerate(seen):
            a, m, p = (e[0] for e in net.log[3 * k: 3 * k + 3])
            close(a, made[k][0])
            close(p, made[k][1])
            assert m.shape == a.shape
            apart = np.abs(m[:, None] - data[None, :, where]).max(axis=-1)
            assert apart.min(axis=-1).max() < 1e-5
            a, m, p = (of_unit_length(copy.l(torch.from_numpy(e)))
                       for e in (a, m, p))
            loss = F.relu(
                (a - p).norm(dim=1) - (a - m).norm(dim=1) + .1).mean()
            close(s['error'], float(loss.detach()), 1e-3)
            copy.zero_grad()
            loss.backward()
            adam.step()
        assert len(net.log) == 3 * len(seen)
        # as opposed to when it's used
        assert all(net.modes)
        # steps may be all but none, but never in another direction
        for p, q, o in zip(
                net.parameters(), copy.parameters(), starts):
            p, q, o = array(p), array(q), array(o)
            apart = np.abs(p - q).max()
            assert apart < 1e-5 * (.1 + .5 * len(seen)), (apart, len(seen))
            if np.abs(q - o).min() > 5e-6:
                assert np.any(p != o)
        if not expected:
            assert model_hash(net) == before
    ctx.nontrivial(done > 0 and n > batch)


def of_unit_length(x):
    return x / (x.norm(dim=1, keepdim=True) + 1e-8)


# -- learned pipelines with networks ------------------------------------------

class AutoNet(nn.Module):
    def __init__(self, size, inner):
        super(AutoNet, self).__init__()
        self.size, self.inner = size, inner
        self.encoder = nn.Linear(size, inner)
        self.decoder = nn.Linear(inner, size)

    def forward(self, x):
        return self.decoder(torch.tanh(self.encoder(x)))


class Remember(object):
    """a trainer that gives the network it was made with"""

    def __init__(self, network, batch_size):
        self.network = network
        self.batch_size = batch_size
        self.data = None

    def train(self, data):
        self.data = data
        self.network.train()
        return self.network


def pipeline_of(kind, net, batch, prep, chunk=None, labelled=False,
                after=None):
    trainer = Remember(net, batch)
    attrs = dict(samples=ff.PickleFeature(ff.IteratorNode, store=False))
    attrs['first'] = ff.PickleFeature(
        UnitNorm, needs=attrs['samples'], store=False)
    if kind == 'network':
        needs = dict(data=attrs['first'])
        if labelled:
            attrs['labels'] = ff.PickleFeature(
                AbsoluteValue, needs=attrs['samples'], store=False)
            needs['labels'] = attrs['labels']
        attrs['second'] = ff.PickleFeature(
            PyTorchNetwork, trainer=trainer, chunksize=chunk,
            post_training_func=after or (lambda x: x.astype(np.float32)),
            training_set_prep=prep, needs=needs, store=False)
    elif kind == 'autoencoder':
        attrs['second'] = ff.PickleFeature(
            PyTorchAutoEncoder, trainer=trainer, needs=attrs['first'],
            store=False)
    else:
        attrs['second'] = ff.PickleFeature(
            PyTorchGan, trainer=trainer, apply_network=kind,
            needs=attrs['first'], store=False)
    attrs['pipeline'] = ff.PickleFeature(
        PreprocessingPipeline, needs=(attrs['first'], attrs['second']),
        store=True)
    # something that learns from what the network makes of the examples
    attrs['average'] = ff.PickleFeature(
        MeanStdNormalization, needs=attrs['second'], store=True)
    Model = zounds.simple_in_memory_settings(
        type('Model', (ff.BaseModel,), attrs))
    return Model, trainer


def net_of(kind, size, inner, seed):
    if kind == 'network':
        return make_net(size, inner, 2, seed)
    if kind == 'autoencoder':
        return seeded(AutoNet(size, inner), seed)
    return seeded(PlainPair(inner if kind == 'discriminator' else size,
                            size), seed)


class PlainPair(nn.Module):
    def __init__(self, latent, size):
        super(PlainPair, self).__init__()
        self.latent, self.size = latent, size
        self.generator = nn.Linear(latent, size)
        self.discriminator = nn.Linear(size, 1)


@suite.part(
    quick=150, thorough=2000, kind=st.sampled_from(
        ['network', 'autoencoder', 'generator', 'discriminator']),
    n=st.one_of(st.integers(1, 8), st.integers(120, 300)),
    m=st.one_of(st.integers(1, 8), st.integers(120, 300)),
    size=st.integers(2, 4),
    inner=st.integers(1, 4), batch=st.integers(1, 4), units=st.booleans(),
    seed=gen.seeds, prepare=st.sampled_from([None, 'same', 'fewer', 'swap']),
    labelled=st.booleans(), chunk=st.sampled_from([None, None, 1, 3, 200]),
    after=st.booleans(), deep=st.booleans())
def networks_in_pipelines(ctx, kind, n, m, size, inner, batch, units, seed,
                          prepare, labelled, chunk, after, deep):
    """a trained network is kept with its weights, as part of a pipeline that
    gives the same when it's read again, has the same version as long as
    the weights are the same, and another one otherwise"""
    if kind == 'autoencoder' and seed % 3 == 0:
        # codes that look like examples still aren't made of frequencies
        inner = size
    net = net_of(kind, size, inner, seed)
    middle = (2,) if deep and kind != 'network' else ()
    x = normal(seed + 1, n, *(middle + (size,)))
    raw = normal(seed + 2, m, *(middle + (size,)))

    def norms_of(d):
        return np.linalg.norm(d.reshape((len(d), -1)), axis=1).reshape(
            (-1,) + (1,) * (d.ndim - 1))

    unit = lambda d: d / norms_of(d)  # noqa
    prep = {
        None: None,
        'same': lambda d: {k: v * 1 for k, v in d.items()},
        'fewer': lambda d: {k: v[: 1 + n // 2] for k, v in d.items()},
        # what becomes of the data may depend on all there is
        'swap': lambda d: {
            'data': d['data'] * (3 if 'labels' in d else 2),
            'labels': d['data']}}[prepare]
    func = (lambda d: d.astype(np.float32)[::-1] * .5) if after else None
    Model, trainer = pipeline_of(
        kind, net, batch, prep, chunk, labelled, func)
    with warnings.catch_warnings():
        warnings.simplefilter('error')
        _id = Model.process(samples=[x])
    given = trainer.data
    used = unit(x)
    if kind == 'network':
        whole = dict(data=used)
        if labelled:
            whole['labels'] = np.abs(x)
        whole = prep(whole) if prep else whole
        assert set(given) == set(whole)
        for k, v in whole.items():
            close(given[k], v)
        used = whole['data']
        used = func(used) if after else used
        assert max(net.sizes_seen) <= (chunk or batch)
        assert sum(net.sizes_seen) == len(used)
    elif kind == 'autoencoder':
        close(given['data'], used)
        close(given['labels'], used)
    else:
        close(given, used)
    u = unit(raw).astype(np.float64)
    line = lambda l, d: d @ array(l.weight).T + array(l.bias)  # noqa
    used = np.asarray(used, dtype=np.float64)
    if kind == 'network':
        net.eval()
        expected, passed = by_hand(net, u), by_hand(net, used)
    elif kind == 'autoencoder':
        expected, passed = line(net.encoder, u), line(net.encoder, used)
    else:
        # what's passed on are the judgements of the critic
        expected = line(getattr(net, kind), u)
        passed = line(net.discriminator, used) \
            if size == used.shape[-1] else None
    if passed is not None:
        average = Model(_id).average
        close(average.op.mean, passed.mean(axis=0), 1e-3)
        close(average.op.std, passed.std(axis=0), 1e-3)
    example = ArrayWithUnits(raw, [TimeDimension(Seconds(1))] + [
        TimeDimension(Seconds(2)) for _ in middle] + [
        FrequencyDimension(LinearScale(
            zounds.FrequencyBand(10, 1000), size))]) if units else raw
    pipeline = Model(_id).pipeline
    again = pickle.loads(pickle.dumps(pipeline))
    for p in (pipeline, again, Model(_id).pipeline):
        t = p.transform(example)
        close(t.data, expected)
        if units:
            kinds = [type(d) for d in t.data.dimensions]
            assert t.data.dimensions[0] == example.dimensions[0]
            assert kinds[-1] is IdentityDimension and len(kinds) == raw.ndim
            if deep and kind in ('generator', 'discriminator'):
                assert t.data.dimensions[1] == example.dimensions[1]
        if kind == 'autoencoder':
            back = line(net.decoder, expected)
            close(t.inverse_transform(), back * norms_of(raw), 1e-3)
        kept = p[1].network
        if kind == 'network':
            # in as few batches as there can be
            sizes = [batch] * (m // batch) + [m % batch] * (m % batch > 0)
            assert kept.sizes_seen[-len(sizes):] == sizes
        assert model_hash(kept) == model_hash(net)
        assert kept is not net and not kept.training
        assert p.version == pipeline.version
    # the same network, and one with other weights
    for other_seed in (seed, seed + 50):
        other, _ = pipeline_of(
            kind, net_of(kind, size, inner, other_seed), batch, prep, chunk,
            labelled, func)
        version = other(other.process(samples=[x])).pipeline.version
        assert (version == pipeline.version) == (other_seed == seed)
    learned = Learned(learned=Model(_id), dtype=np.float32)
    close(list(learned._process(raw))[0], expected)
    ctx.nontrivial(m > 128 or n > 1)
    ctx.label(kind)


class Failing(nn.Module):
    def __init__(self, limit):
        super(Failing, self).__init__()
        self.limit = limit
        self.w = nn.Parameter(torch.ones(1))

    @property
    def encoder(self):
        return self

    def forward(self, x):
        if len(x) > self.limit:
            raise RuntimeError('out of memory')
        return x * self.w


@suite.part(quick=60, n=st.integers(1, 12), batch=st.integers(1, 12),
            limit=st.integers(0, 12), seed=gen.seeds)
def networks_too_large_to_apply(ctx, n, batch, limit, seed):
    """a network that can't be applied to all the training examples at once is
    still kept"""
    import warnings
    net = Failing(limit)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        node = PyTorchNetwork(trainer=Remember(net, batch))
        x = normal(seed, n, 3)
        result, = node._process(dict(data=x))
    fits = min(batch, n) <= limit
    assert result.op.network is net
    assert (result.data is not None) == fits
    if fits:
        close(result.data, x)
    assert fits or any('out of memory' in str(w.message) for w in caught)
    ctx.nontrivial(not fits)


class Stop(Exception):
    pass


class Passes(object):
    """a trainer that changes the network a little each time"""

    def __init__(self, network, batch_size, passes, rows, nsamples):
        self.network = network
        self.batch_size = batch_size
        self.passes = passes
        self.rows = rows
        self.nsamples = nsamples
        self.seen = set()
        self.hashes = []

    def train(self, data):
        data = data['data']
        assert 0 < len(data) <= self.nsamples
        assert np.asarray(data).dtype == np.float32
        got = {tuple(r) for r in np.asarray(data)}
        assert got <= self.rows
        self.seen |= got
        if len(self.hashes) == self.passes:
            raise Stop()
        with torch.no_grad():
            self.network.encoder.weight += 1
        self.hashes.append(model_hash(self.network))
        return self.network


@suite.part(
    quick=15, thorough=150, docs=st.integers(1, 4), size=st.integers(1, 3),
    passes=st.integers(1, 3), nsamples=st.integers(5, 40),
    batch=st.integers(1, 8), parallel=st.booleans(), half=st.booleans(),
    seed=gen.seeds)
def training_on_a_stream(ctx, docs, size, passes, nsamples, batch, parallel,
                         half, seed):
    """a pipeline that learns from samples of the documents, again and again,
    keeps the network as it was after the last pass that was finished"""
    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        start = ff.PickleFeature(ff.Node, store=False)
        feature = zounds.ArrayWithUnitsFeature(
            ff.Node, needs=start, store=True)

    rows = set()
    for i in range(docs):
        x = normal(seed + i, 10 + i, size)
        rows |= {tuple(r) for r in (x[::2] if half else x)}
        Document.process(start=ArrayWithUnits(
            x.astype(np.float64 if i % 2 == seed % 2 else np.float32),
            [TimeDimension(Seconds(1)), IdentityDimension()]))

    net = seeded(AutoNet(size, 2), seed)
    first = model_hash(net)
    folder = env.scratch_dir()
    trainer = Passes(
        net, batch, passes, {tuple(2 * v for v in r) for r in rows},
        nsamples)

    class Settings(ff.PersistenceSettings):
        _id = 'learned'
        id_provider = ff.StaticIdProvider(_id)
        key_builder = ff.StringDelimitedKeyBuilder()
        database = ff.FileSystemDatabase(
            path=folder, key_builder=key_builder, createdirs=True)

    @zounds.infinite_streaming_learning_pipeline
    class Passing(ff.BaseModel):
        louder = ff.PickleFeature(Multiply, factor=2)
        network = ff.PickleFeature(
            PyTorchAutoEncoder, trainer=ff.Var('trainer'), needs=louder)

    class Learning(Passing, Settings):
        pass

    def refused():
        try:
            Learning.load_network()
        except RuntimeError:
            return True
        return False

    assert refused()

    class Ambiguous(ff.BaseModel):
        louder = ff.PickleFeature(Multiply, factor=2)
        quieter = ff.PickleFeature(Multiply, factor=.5)

    class Nothing(ff.BaseModel):
        pass

    for kind in (Ambiguous, Nothing):
        try:
            zounds.infinite_streaming_learning_pipeline(kind)
        except ValueError:
            continue
        raise AssertionError('which one gets the samples?')

    try:
        with quiet():
            Learning.process(
                dataset=(Document, Document.feature), trainer=trainer,
                nsamples=nsamples, dtype=np.float32, parallel=parallel,
                feature_filter=(lambda x: x[::2]) if half else (lambda x: x))
        stopped = False
    except Stop:
        stopped = True
    assert stopped
    assert len(trainer.hashes) == passes
    assert len(set(trainer.hashes) | {first}) == passes + 1
    assert model_hash(Learning.load_network()) == trainer.hashes[-1]
    x = normal(seed + 99, 7, size)
    encoded = Learning().pipeline.transform(x)
    close(encoded.data, by_layers(net.encoder, x * 2))
    close(encoded.inverse_transform(),
          by_layers(net.decoder, array(encoded.data)) / 2)
    env.remove_scratch(folder)
    ctx.nontrivial(docs > 1 and passes > 1)


class Corpus(object):
    """documents, each with rows of its own"""

    def __init__(self, docs):
        self.docs = docs
        self.database = self

    def iter_ids(self):
        return iter(self.docs)

    def __call__(self, _id, persistence):
        assert persistence is self
        return self.docs[_id]


@suite.part(
    quick=100, thorough=1500,
    sizes=st.lists(st.one_of(st.integers(1, 40), st.integers(1, 40), st.just(0)),
                   min_size=1, max_size=12).filter(any),
    width=st.integers(1, 3), nsamples=st.integers(1, 120),
    passes=st.integers(1, 5), parallel=st.booleans(), half=st.booleans(),
    seed=gen.seeds)
def samples_without_end(ctx, sizes, width, nsamples, passes, parallel, half,
                        seed):
    """samples drawn from the documents again and again, from many threads at
    once if so asked, are only ever rows of the documents that the filter
    keeps, and never get fewer"""
    np.random.seed(seed % 10007)
    rows, docs = set(), dict()
    for i, n in enumerate(sizes):
        x = 1 + np.arange(n * width).reshape(n, width) + i * 1000.
        docs[str(i)] = x
        rows |= {tuple(r) for r in (x[::2] if half else x)}
    corpus = Corpus(docs)
    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        for _ in range(10 if parallel else 1):
            sampler = InfiniteSampler(
                nsamples=nsamples, dtype=np.float32, parallel=parallel,
                feature_filter=(lambda x: x[::2]) if half else (lambda x: x))
            before = 0
            with quiet():
                drawn = sampler._process((corpus, corpus))
                for _ in range(passes):
                    x = next(drawn)
                    assert x.dtype == np.float32
                    assert x.shape[1:] == (width,)
                    assert max(1, before) <= len(x) <= nsamples
                    got = {tuple(r) for r in x}
                    assert got <= rows, got - rows
                    before = len(x)
            drawn.close()
    finally:
        sys.setswitchinterval(interval)
    ctx.nontrivial(parallel and len(sizes) > 1 and nsamples > 1)


def by_layers(layer, x):
    return x @ array(layer.weight).T + array(layer.bias)
