import numpy as np
import zounds
from hypothesis import strategies as st

from vlib.runner import Suite
from vlib import gen
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, Seconds
from zounds.spectral import (
    FrequencyBand, FrequencyDimension, LinearScale, GeometricScale,
    BarkScale, MelScale, ChromaScale, AWeighting, FrequencyAdaptive,
    HanningWindowingFunc, OggVorbisWindowingFunc, WindowingFunc)
from zounds.spectral.weighting import FrequencyWeighting as Flat

suite = Suite(
    'C05',
    'random spectra, target scales and windows, against an explicit sum over '
    'the coefficients of each band; random weighted arrays with the frequency '
    'axis in any position; non-trivial = more than one band and a spectrum '
    'that is not constant',
    ['spectra are 1- or 2-dimensional, weighted arrays up to 3-dimensional'])


def ramp(size):
    return np.arange(1., size + 1)


def window_of(name):
    return {'scalar': 0.5, 'hanning': gen.shared(HanningWindowingFunc),
            'ones': gen.shared(WindowingFunc, np.ones),
            'ramp': gen.shared(WindowingFunc, ramp),
            }[name]


def window_values(name, size):
    return {'scalar': np.full(size, 0.5), 'hanning': np.hanning(size),
            'ones': np.ones(size), 'ramp': np.arange(1., size + 1)}[name]


WINDOWS = ['scalar', 'hanning', 'ones', 'ramp']
spectra = st.tuples(
    st.sampled_from(gen.RATES), st.integers(16, 300), st.integers(1, 4),
    gen.seeds)


def build_spectrum(spec):
    rate, n, frames, seed = spec
    scale = LinearScale.from_sample_rate(gen.SAMPLERATES[rate](), n)
    raw = gen.rng(seed).normal(0, 1, (frames, n))
    return raw, ArrayWithUnits(
        raw.copy(), [TimeDimension(Seconds(1)), FrequencyDimension(scale)])


@suite.part(
    quick=800, spec=spectra, n_bands=st.integers(1, 30),
    kind=st.sampled_from(['geometric', 'bark', 'mel', 'linear']),
    lo=st.integers(20, 500),
    window=st.sampled_from(WINDOWS), more=st.lists(st.tuples(
        spectra, st.sampled_from(WINDOWS), st.booleans()), max_size=2),
    dtype=st.sampled_from(['float64', 'float64', 'float32', 'int16',
                           'complex128']))
def applying_a_scale_sums_windowed_bands(
        ctx, spec, n_bands, kind, lo, window, more, dtype):
    """scale.apply(spectrum, window)[t, b] is the windowed sum of the
    coefficients of frame t that lie in band b, whatever other spectra the
    scale was applied to before"""
    hi = lo + (spec[0] // 2 - lo) * 0.9
    scale = gen.build_scale(kind, lo, hi, n_bands)
    sizes = []
    todo = [(spec, window)]
    for other, win, same_size in more:
        if same_size:
            other = (other[0], spec[1]) + other[2:]
        todo.append((other, win))
    for one, win in todo + todo[:1]:
        raw, arr = build_spectrum(one)
        if dtype == 'complex128':
            raw = raw + 1j * raw[::-1, ::-1] ** 2
        else:
            raw = (raw * 100).astype(dtype)
        arr = ArrayWithUnits(raw.copy(), arr.dimensions)
        raw = raw.astype(np.complex128)
        source = gen.band_pairs(arr.dimensions[1].scale)
        got = np.asarray(scale.apply(arr, window_of(win)))
        want = np.zeros((raw.shape[0], n_bands), dtype=np.complex128)
        for b, (start, stop) in enumerate(gen.band_pairs(scale)):
            inside = [i for i, (p, q) in enumerate(source)
                      if q >= start and p < stop]
            sizes.append(len(inside))
            want[:, b] = (
                raw[:, inside] * window_values(win, len(inside))).sum(axis=1)
        assert got.shape == want.shape
        assert np.allclose(got, want, rtol=1e-6, atol=1e-8)
    ctx.nontrivial(n_bands > 1 and max(sizes) > 1)
    ctx.label(kind, window)


@suite.part(
    quick=300, spec=spectra, c=st.floats(-4, 4), lo=st.integers(30, 300))
def chroma_is_linear_and_counts_octaves(ctx, spec, c, lo):
    """a chromagram has twelve bins, is linear in the spectrum, adds up what
    the semitones of the range add up to, and only looks inside its range"""
    raw, arr = build_spectrum(spec)
    hi = min(spec[0] // 2 * 0.8, 5000)
    scale = ChromaScale(FrequencyBand(lo, hi))
    got = np.asarray(scale.apply(arr, 1.0))
    assert got.shape == (raw.shape[0], 12)
    other = ArrayWithUnits(np.abs(raw), arr.dimensions)
    mixed = ArrayWithUnits(raw * c + np.abs(raw), arr.dimensions)
    assert np.allclose(
        np.asarray(scale.apply(mixed, 1.0)),
        got * c + np.asarray(scale.apply(other, 1.0)), atol=1e-6)
    # energy two semitones outside of the range isn't seen
    source = np.array(gen.band_pairs(arr.dimensions[1].scale))
    outside = (source[:, 0] > hi * 2 ** (3 / 12.)) \
        | (source[:, 1] < lo * 2 ** (-3 / 12.))
    quiet = raw.copy()
    quiet[:, ~outside] = 0
    silent = scale.apply(ArrayWithUnits(quiet, arr.dimensions), 1.0)
    assert np.allclose(np.asarray(silent), 0)
    # a tone an octave up lands in the same bin
    ctx.nontrivial(np.abs(got).max() > 0)


def tone(k):
    return 440. * 2 ** (k / 12.)


A440 = []


def bin_of_a440():
    """chroma bins are numbered from anywhere, but always the same"""
    if not A440:
        scale = LinearScale(FrequencyBand(0, 8000), 8000)
        raw = np.zeros((1, 8000))
        raw[0, 440] = 1
        arr = ArrayWithUnits(
            raw, [TimeDimension(Seconds(1)), FrequencyDimension(scale)])
        chroma = ChromaScale(FrequencyBand(60, 7500)).apply(
            arr, HanningWindowingFunc())
        A440.append(int(np.argmax(np.asarray(chroma)[0])))
    return A440[0]


@suite.part(
    quick=300, rate=st.sampled_from(gen.RATES), n=st.one_of(
        st.integers(16, 300), st.integers(300, 5000)), frames=st.integers(1, 3),
    lo=st.one_of(st.integers(2, 20), st.integers(20, 2000)),
    hi=st.floats(.1, 1), window=st.sampled_from(WINDOWS), seed=gen.seeds,
    dtype=st.sampled_from(['float64', 'float64', 'float32', 'complex128']))
def chroma_sums_the_octaves_of_each_tone(
        ctx, rate, n, frames, lo, hi, window, seed, dtype):
    """each of the twelve bins is the sum of what lies within a semitone of
    any tone of that name, as weighted by the window"""
    sr = gen.SAMPLERATES[rate]()
    hi = lo * 2 + (rate // 2 - lo * 2) * hi
    source = LinearScale.from_sample_rate(sr, n)
    first = int(np.ceil(12 * np.log2(lo / 440.))) + 2
    last = int(np.floor(12 * np.log2(hi / 440.))) - 3
    starts, stops = np.array(gen.band_pairs(source)).T
    raw = gen.rng(seed).normal(0, 1, (frames, n))
    if dtype == 'complex128':
        raw = raw + 1j * raw[::-1, ::-1]
    raw = raw.astype(dtype)
    near = {}
    # where an edge coincides with a tone, rounding decides
    tones = np.array([tone(k) for k in range(-160, 90)])
    for edge in (starts, stops):
        tie = np.abs(edge[:, None] - tones[None]) < 1e-6 * tones[None]
        if tie.any():
            ctx.label('tie')
            return
    for k in range(-160, 90):
        inside = np.flatnonzero(
            (stops >= tone(k - 1)) & (starts < tone(k + 1)))
        if first <= k <= last:
            near[k] = inside
        else:
            # only what is clearly within the range is heard
            raw[:, inside] = 0
    want = np.zeros((frames, 12), dtype=np.complex128)
    heard = 0
    for k, inside in near.items():
        heard += bool(np.abs(raw[:, inside]).max(initial=0))
        want[:, (k + bin_of_a440()) % 12] += (
            raw[:, inside] * window_values(window, len(inside))).sum(axis=1)
    arr = ArrayWithUnits(
        raw.copy(), [TimeDimension(Seconds(1)), FrequencyDimension(source)])
    got = np.asarray(ChromaScale(FrequencyBand(lo, hi)).apply(
        arr, window_of(window)))
    assert got.shape == want.shape
    tol = 1e-3 if dtype == 'float32' else 1e-8
    assert np.allclose(got, want, rtol=tol, atol=tol * 10), (
        np.abs(got - want).max(axis=0))
    ctx.nontrivial(heard > 12)
    ctx.label('many' if heard > 36 else 'some' if heard else 'none')


@suite.part(quick=200, semitone=st.integers(-24, 14), extra=st.integers(0, 2))
def octaves_share_a_chroma_bin(ctx, semitone, extra):
    """a pure tone, and the same tone octaves up, are strongest in the same
    chroma bin; neighbouring semitones are in neighbouring bins"""
    scale = LinearScale(FrequencyBand(0, 8000), 8000)
    chroma = ChromaScale(FrequencyBand(60, 7500))

    def strongest(hz):
        raw = np.zeros((1, 8000))
        raw[0, int(hz)] = 1
        arr = ArrayWithUnits(
            raw, [TimeDimension(Seconds(1)), FrequencyDimension(scale)])
        got = np.asarray(chroma.apply(arr, HanningWindowingFunc()))[0]
        assert got.max() > 0
        return int(np.argmax(got))

    hz = 440. * 2 ** (semitone / 12.)
    base = strongest(hz)
    octaves = [hz * 2 ** k for k in range(1, 2 + extra) if hz * 2 ** k < 7000]
    for o in octaves:
        assert strongest(o) == base
    if hz > 200:
        assert strongest(hz * 2 ** (1 / 12.)) == (base + 1) % 12
    ctx.nontrivial(octaves)


def a_weights(scale):
    """A-weighting in decibels at each center, shifted so the least is 1"""
    c = np.array([(a + b) / 2. for a, b in gen.band_pairs(scale)])
    c2 = c ** 2
    r = (12200. ** 2 * c2 ** 2) / (
        (c2 + 20.6 ** 2)
        * np.sqrt((c2 + 107.7 ** 2) * (c2 + 737.9 ** 2))
        * (c2 + 12200. ** 2))
    db = 20 * np.log10(r)
    return db - db.min() + 1


class Ramp(Flat):
    """a weighting of one's own"""

    def __init__(self, slope):
        super(Ramp, self).__init__()
        self.slope = slope

    def _wdata(self, scale):
        return 1. + self.slope * np.arange(len(scale))


@st.composite
def weighted(draw):
    kind = draw(st.sampled_from(['linear', 'geometric', 'bark', 'mel']))
    n = draw(st.integers(1 if kind == 'linear' else 2, 20))
    lo = draw(st.one_of(st.integers(20, 500), st.integers(1, 30)))
    others = draw(st.lists(st.integers(1, 4), min_size=0, max_size=2))
    axis = draw(st.integers(0, len(others)))
    return kind, lo, lo + draw(st.integers(200, 30000)), n, others, axis, \
        draw(gen.seeds)


@suite.part(quick=1000, case=weighted())
def weighting_acts_along_the_frequency_axis(ctx, case):
    """array * weighting scales every coefficient by its own band's weight,
    from either side and on any axis, and division undoes it"""
    kind, lo, hi, n, others, axis, seed = case
    scale = gen.build_scale(kind, lo, hi, n)
    shape = list(others)
    shape.insert(axis, n)
    raw = gen.rng(seed).normal(0, 1, shape)
    dims = [IdentityDimension() for _ in shape]
    dims[axis] = FrequencyDimension(scale)
    arr = ArrayWithUnits(raw.copy(), dims)
    w = gen.shared(AWeighting)
    expanded = [1] * len(shape)
    expanded[axis] = n
    want = raw * a_weights(scale).reshape(expanded)
    for got in (arr * w, w * arr):
        assert got.shape == raw.shape
        assert np.allclose(np.asarray(got), want, rtol=1e-9, atol=1e-9)
        assert isinstance(got, ArrayWithUnits)
        assert got.dimensions == arr.dimensions
    back = (arr * w) / w
    assert np.allclose(np.asarray(back), raw, rtol=1e-9, atol=1e-12)
    assert np.allclose(
        np.asarray(arr / w), raw / a_weights(scale).reshape(expanded),
        rtol=1e-9, atol=1e-9)
    assert np.allclose(w.weights(scale), a_weights(scale), rtol=1e-9)
    assert np.array_equal(np.asarray(arr), raw)
    # the node does the same to whatever passes through it
    through, = zounds.FrequencyWeighting(weighting=w)._process(arr)
    assert np.allclose(np.asarray(through), want, rtol=1e-9, atol=1e-9)
    assert through.dimensions == arr.dimensions
    if axis == len(others):
        assert np.allclose(w.weights(arr), a_weights(scale), rtol=1e-9)
    # so do other weightings, also in place
    r = Ramp(seed % 7)
    factors = r._wdata(scale).reshape(expanded)
    assert np.allclose(np.asarray(arr * r), raw * factors)
    assert np.allclose(np.asarray(arr / r), raw / factors)
    assert np.allclose(np.asarray(r / (arr * arr + 1)),
                       factors / (raw * raw + 1))
    assert np.allclose(np.asarray(arr * gen.shared(Flat)), raw)
    arr *= r
    assert arr.dimensions == tuple(dims)
    assert np.allclose(np.asarray(arr), raw * factors)
    ctx.nontrivial(n > 1 and len(shape) > 1)


@suite.part(
    quick=500, sizes=st.lists(st.integers(1, 8), min_size=1, max_size=8),
    frames=st.integers(1, 4), seed=gen.seeds, pick=st.tuples(
        st.integers(0, 7), st.integers(0, 7)),
    order=st.permutations([0, 1, 2]), square=st.booleans())
def weighting_of_adaptive_representations(
        ctx, sizes, frames, seed, pick, order, square):
    """all the coefficients of a band get that band's weight, for whole
    frequency-adaptive arrays and for ranges of their bands"""
    n = len(sizes)
    scale = GeometricScale(50, 5000, 0.1, n) if n > 1 else \
        LinearScale(FrequencyBand(50, 5000), 1)
    r = gen.rng(seed)
    arrs = [r.normal(0, 1, (frames, s)) for s in sizes]
    fa = FrequencyAdaptive(arrs, TimeDimension(Seconds(1)), scale)
    w = a_weights(scale)
    want = np.concatenate([a * x for a, x in zip(arrs, w)], axis=1)
    got = fa * gen.shared(AWeighting)
    assert np.allclose(np.asarray(got), want, rtol=1e-9)
    assert np.allclose(np.asarray(got / gen.shared(AWeighting)), np.asarray(fa))
    # a contiguous range of bands is weighted on its own terms
    i, j = sorted((pick[0] % n, pick[1] % n))
    pairs = gen.band_pairs(scale)
    inner = FrequencyBand(
        pairs[i][0] * 0.5 + pairs[i][1] * 0.5 - 1e-6,
        pairs[j][0] * 0.5 + pairs[j][1] * 0.5 + 1e-6)
    chosen = [k for k, (a, b) in enumerate(pairs)
              if b >= inner.start_hz and a < inner.stop_hz]
    part = fa[:, inner]
    sub = np.concatenate([arrs[k] for k in chosen], axis=1)
    assert np.array_equal(np.asarray(part), sub)
    sub_scale = part.dimensions[1].scale
    ww = a_weights(sub_scale)
    want = np.concatenate(
        [arrs[k] * x for k, x in zip(chosen, ww)], axis=1)
    assert np.allclose(np.asarray(part * gen.shared(AWeighting)), want, rtol=1e-9)
    # whatever axis the bands are on, and however many others there are
    total = sum(sizes)
    several = r.normal(0, 1, (2, total if square else frames, total))
    factors = np.concatenate([np.full(s, x) for x, s in zip(w, sizes)])
    dims = (IdentityDimension(), fa.dimensions[0], fa.dimensions[1])
    weighted = ArrayWithUnits(
        several.transpose(order), [dims[k] for k in order]) \
        * gen.shared(AWeighting)
    assert weighted.dimensions == tuple(dims[k] for k in order)
    assert np.allclose(
        np.asarray(weighted), (several * factors).transpose(order), rtol=1e-9)
    ctx.nontrivial(n > 1 and 0 < i)
