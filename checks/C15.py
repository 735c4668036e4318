"""C15: loudness scaling, companding and categorical samples"""
import numpy as np
from hypothesis import strategies as st

from vlib.runner import Suite
from vlib import gen
from checks.C12 import close, samplerate
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import (
    AudioSamples, TimeDimension, Seconds, categorical, inverse_categorical)
from zounds.loudness import (
    log_modulus, inverse_log_modulus, decibel, mu_law, inverse_mu_law,
    inverse_one_hot, instance_scale, unit_scale, MuLaw, LogModulus)

suite = Suite(
    'C15',
    'random signals of either sign, with zeros, constant parts and extreme '
    'values, scaled and scaled back; non-trivial = values of both signs or '
    'more than one distinct value',
    ['values that are companded are between -1 and 1'])

SHAPES = st.lists(st.integers(1, 7), min_size=1, max_size=3).map(tuple)
KINDS = st.sampled_from([
    'normal', 'uniform', 'ones', 'zeros', 'sparse', 'positive', 'negative'])


def values(kind, shape, seed, dtype='f8'):
    rng = gen.rng(seed)
    x = {'normal': lambda: rng.normal(0, .3, shape),
         'uniform': lambda: rng.uniform(-1, 1, shape),
         'ones': lambda: np.sign(rng.normal(0, 1, shape)),
         'zeros': lambda: np.zeros(shape),
         'sparse': lambda: rng.uniform(-1, 1, shape) * (
             rng.uniform(0, 1, shape) > .7),
         'positive': lambda: rng.uniform(.2, 1, shape),
         'negative': lambda: rng.uniform(-1, -.2, shape)}[kind]()
    return np.clip(x, -1, 1).astype(dtype)


def laid_out(raw, seed):
    """the same array, in any order in memory"""
    kind = seed % 3
    if kind == 1:
        return np.asfortranarray(raw)
    if kind == 2:
        doubled = np.zeros(raw.shape[:-1] + (raw.shape[-1] * 2,), raw.dtype)
        doubled[..., ::2] = raw
        return doubled[..., ::2]
    return raw.copy()


def with_units(raw):
    return ArrayWithUnits(
        raw.copy(), [TimeDimension(Seconds(1))] +
        [IdentityDimension()] * (raw.ndim - 1))


@suite.part(
    quick=500, shape=SHAPES, kind=KINDS, seed=gen.seeds, units=st.booleans(),
    mu=st.sampled_from([1, 15, 100, 255, 1023]), dtype=st.sampled_from(
        ['f8', 'f4']), node=st.booleans())
def mu_law_is_a_monotonic_bijection(
        ctx, shape, kind, seed, units, mu, dtype, node):
    """mu-law maps [-1, 1] onto itself as its definition says, keeps order
    and sign, and is inverted"""
    raw = values(kind, shape, seed, dtype)
    x = with_units(raw) if units else raw.copy()
    ctx.nontrivial(len(np.unique(raw)) > 1)
    # what's usual needs not be said
    mus = {} if mu == 255 and seed % 2 else dict(mu=mu)
    y = list(MuLaw(**mus)._process(x))[0] if node else mu_law(x, **mus)
    tol = 1e-9 if dtype == 'f8' else 1e-5
    r = raw.astype('f8')
    close(y, np.sign(r) * np.log1p(mu * np.abs(r)) / np.log1p(mu), tol)
    flat, order = np.asarray(y).reshape(-1), np.argsort(raw.reshape(-1))
    assert (np.diff(flat[order]) >= -tol).all()
    kept = np.asarray(y).copy()
    back = inverse_mu_law(y, **mus)
    close(back, raw, tol * 10)
    if units:
        assert y.dimensions == x.dimensions == back.dimensions
    assert np.array_equal(np.asarray(x), raw)
    assert np.array_equal(np.asarray(y), kept)


@suite.part(
    quick=400, shape=SHAPES, kind=KINDS, seed=gen.seeds, units=st.booleans(),
    gain=st.sampled_from([1e-6, .1, 1., 50., 1e4]), node=st.booleans(),
    factor=st.sampled_from([1, 10, .5]))
def log_modulus_is_inverted(
        ctx, shape, kind, seed, units, gain, node, factor):
    """sign-keeping logarithm of one plus the magnitude, and its inverse"""
    raw = values(kind, shape, seed) * gain
    x = with_units(raw) if units else raw.copy()
    ctx.nontrivial(len(np.unique(raw)) > 1)
    if not node:
        factor = 1
    factors = {} if factor == 1 and seed % 2 else dict(factor=factor)
    y = list(LogModulus(**factors)._process(x))[0] if node \
        else log_modulus(x)
    close(y, np.sign(raw) * np.log1p(np.abs(raw * factor)), 1e-9)
    close(inverse_log_modulus(y), raw * factor, 1e-9)
    if units:
        assert y.dimensions == x.dimensions
    assert np.array_equal(np.asarray(x), raw)


@suite.part(
    quick=400, shape=SHAPES, kind=KINDS, seed=gen.seeds, units=st.booleans(),
    gain=st.one_of(st.floats(.01, 100), st.sampled_from([1e-9, 1e-6, 1e8])),
    offset=st.one_of(st.just(0.), st.floats(-10, 10)), data=gen.picks)
def unit_scale_spans_the_unit_interval(
        ctx, shape, kind, seed, units, gain, offset, data):
    """the smallest value becomes zero, the largest one, the others in
    proportion, per slice along the axis; constant values become zero"""
    raw = values(kind, shape, seed) * gain + offset
    axis = data.integer(-len(shape), len(shape))
    axis = None if axis == len(shape) else axis
    x = with_units(raw) if units and axis is not None \
        else laid_out(raw, seed)
    got = unit_scale(x, axis=axis)
    lo = raw.min(axis=axis, keepdims=True)
    span = raw.max(axis=axis, keepdims=True) - lo
    ctx.nontrivial(raw.size > 1)
    ctx.label('constant' if (span == 0).any() else 'varied')
    expected = (raw - lo) / np.where(span == 0, 1, span)
    close(got, expected)
    assert np.asarray(got).min() >= 0 and np.asarray(got).max() <= 1 + 1e-9
    assert np.array_equal(np.asarray(x), raw)


@suite.part(
    quick=400, shape=SHAPES, kind=KINDS, seed=gen.seeds,
    gain=st.floats(.01, 100), maxes=st.booleans(), data=gen.picks)
def instance_scale_peaks_at_one(ctx, shape, kind, seed, gain, maxes, data):
    """every slice along the axis peaks at one in magnitude, silent slices
    stay silent, and the peaks are returned when asked for"""
    raw = values(kind, shape, seed) * gain
    axis = data.integer(-len(shape), len(shape) - 1)
    x = laid_out(raw, seed)
    got = instance_scale(x, axis=axis, return_maxes=maxes)
    peaks = np.abs(raw).max(axis=axis, keepdims=True)
    ctx.nontrivial(raw.size > 1)
    if maxes:
        mx, got = got
        close(mx, peaks)
    # a small constant keeps the division safe
    assert (np.abs(got) <= 1 + 1e-9).all()
    assert (np.abs(got - raw / np.where(peaks == 0, 1, peaks))
            <= 1e-12 + 1e-6 / np.where(peaks == 0, 1, peaks)).all()
    assert np.array_equal(x, raw)


@suite.part(
    quick=300, shape=SHAPES, n=st.integers(1, 300), axis=st.integers(0, 3),
    negative=st.booleans(), soft=st.booleans(), seed=gen.seeds)
def inverse_one_hot_centers_categories(
        ctx, shape, n, axis, negative, soft, seed):
    """category k of n becomes 2k/n - 1, wherever the axis is; of a
    distribution that's the most probable category"""
    k = gen.rng(seed).randint(0, n, shape)
    axis = min(axis, len(shape))
    hot = np.eye(n)[k]
    if soft:
        hot = hot * .1 + gen.rng(seed + 1).uniform(0, .09, hot.shape)
        hot = hot / hot.sum(axis=-1, keepdims=True)
    hot = laid_out(np.moveaxis(hot, -1, axis), seed)
    got = inverse_one_hot(hot, axis=axis - hot.ndim if negative else axis)
    ctx.nontrivial(n > 1)
    close(got, k * 2. / n - 1, 1e-6)


@suite.part(quick=200, a=st.floats(1e-6, 1e6), b=st.floats(1e-6, 1e6))
def decibels_add(ctx, a, b):
    """ten times the amplitude is twenty decibels more; products add"""
    ctx.nontrivial(a != b)
    close(decibel(np.array([a * 10])), decibel(np.array([a])) + 20)
    close(decibel(np.array([a * b])), decibel(np.array([a])) + decibel(
        np.array([b])))
    assert abs(decibel(np.array([1.]))[0]) < 1e-12


@suite.part(
    quick=300, windows=st.integers(0, 4), n=st.integers(1, 40), kind=KINDS,
    mu=st.sampled_from([15, 63, 255, 1000]), gain=st.one_of(
        st.floats(.05, 20), st.sampled_from([1e-12, 1e-8, 1e-6, 1e5])),
    normalize=st.booleans(), soft=st.booleans(), seed=gen.seeds)
def categorical_samples_are_inverted(
        ctx, windows, n, kind, mu, gain, normalize, soft, seed):
    """every sample is in exactly one category; inverting gives the signal,
    normalized if asked, to within a quantization step"""
    sr = samplerate(11025)
    shape = (windows, n) if windows else (n,)
    raw = values(kind, shape, seed)
    if normalize:
        raw = raw * gain
    dims = [TimeDimension(*sr)]
    if windows:
        dims.insert(0, TimeDimension(sr.frequency * n))
    x = ArrayWithUnits(laid_out(raw, seed), dims)
    ctx.nontrivial(len(np.unique(raw)) > 1)
    ctx.label(kind)
    got = categorical(x, mu=mu, normalize=normalize)
    assert got.shape == shape + (mu + 1,)
    assert got.dimensions[:-1] == x.dimensions
    assert isinstance(got.dimensions[-1], IdentityDimension)
    c = np.asarray(got)
    assert ((c == 0) | (c == 1)).all() and (c.sum(axis=-1) == 1).all()
    if soft:
        # networks are less certain
        p = c * .1 + gen.rng(seed + 1).uniform(0, .09, c.shape)
        got = ArrayWithUnits(p, got.dimensions)
    back = inverse_categorical(got, mu=mu)
    assert back.shape == shape
    assert back.dimensions == x.dimensions
    peak = np.abs(raw).max()
    expected = raw / peak if normalize and peak else raw
    # quantization is uniform after mu-law companding
    err = np.abs(mu_law(np.asarray(back, dtype='f8'), mu)
                 - mu_law(expected.copy(), mu))
    assert err.max() <= 2. / mu + 1e-4, err.max()
    assert np.array_equal(np.asarray(x), raw)
