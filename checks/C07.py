"""C07: sliding windows"""
import itertools

import featureflow as ff
import numpy as np
from hypothesis import strategies as st

import zounds
from vlib.runner import Suite
from vlib import gen
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.nputil import windowed, sliding_window
from zounds.spectral import (
    SlidingWindow, WindowingFunc, IdentityWindowingFunc,
    OggVorbisWindowingFunc, HanningWindowingFunc)
from zounds.timeseries import TimeDimension, TimeSlice, SampleRate

suite = Suite(
    'C07',
    'random series, windows and steps, padded or not, contiguous or not, in '
    'one piece or as a stream cut at random places, against windows cut out '
    'one by one; non-trivial = at least two windows, or samples left over',
    ['streamed windows overlap or abut: step <= window'])

DTYPES = st.sampled_from(['f4', 'f8', 'i2', 'i4', 'u1', 'c8'])


def values(n, dtype, tail=()):
    shape = (n,) + tuple(tail)
    # no zeros, so that padding shows
    return (1 + np.arange(int(np.prod(shape))) % 120).reshape(shape) \
        .astype(dtype)


def cut(a, start, size):
    """one window, with zeros where the array has ended"""
    w = a[start: start + size]
    if len(w) < size:
        w = np.concatenate(
            [w, np.zeros((size - len(w),) + a.shape[1:], a.dtype)])
    return w


def check_windows(got, a, ws, ss):
    got = np.asarray(got)
    assert got.dtype == a.dtype, (got.dtype, a.dtype)
    assert got.shape[1:] == (ws,) + a.shape[1:], (got.shape, ws)
    for k, w in enumerate(got):
        assert np.array_equal(w, cut(a, k * ss, ws)), (k, w)


def complete(n, ws, ss):
    return 0 if n < ws else 1 + (n - ws) // ss


@st.composite
def layouts(draw, gaps=False, min_window=2, max_n=60):
    ws = draw(st.integers(min_window, 12))
    ss = draw(st.integers(1, 2 * ws if gaps else ws))
    if draw(st.integers(0, 2)) == 0:
        # lengths at and next to the places where windows end
        n = ws + ss * draw(st.integers(0, 4)) + draw(st.integers(-1, 1))
    else:
        n = draw(st.integers(1, max_n))
    return max(1, n), ws, ss


tails = st.lists(st.integers(1, 3), max_size=2)


@suite.part(
    quick=1500, layout=layouts(gaps=True, min_window=1), tail=tails,
    dtype=DTYPES, dopad=st.booleans(), default_step=st.booleans(),
    order=st.sampled_from(['C', 'strided', 'reversed']))
def flat_windows(ctx, layout, tail, dtype, dopad, default_step, order):
    """windowed(): every window and the leftovers, or every sample when
    padding"""
    n, ws, ss = layout
    if default_step:
        ss = ws
    a = values(n, dtype, tail)
    if order == 'strided':
        base = np.zeros((2 * n,) + a.shape[1:], a.dtype)
        base[::2] = a
        a = base[::2]
    elif order == 'reversed':
        a = a[::-1].copy()[::-1]
    before = a.copy()
    left, got = windowed(a, ws, None if default_step else ss, dopad)
    assert np.array_equal(a, before)
    if ws == 1:
        assert np.array_equal(got, a[::ss]) and got.dtype == a.dtype
        assert len(left) == 0
        return
    m = complete(n, ws, ss)
    if dopad:
        assert len(left) == 0
        check_windows(got, a, ws, ss)
        # all samples that a window can reach are in one
        assert len(got) >= m and (len(got) - 1) * ss < n
        if ss <= ws:
            assert (len(got) - 1) * ss + ws >= n, (len(got), n)
    else:
        assert len(got) == m
        if m:
            check_windows(got, a, ws, ss)
        assert np.array_equal(left, a[m * ss:])
        assert left.dtype == a.dtype
    ctx.nontrivial(m > 1 or n % ss != 0)
    ctx.label('pad' if dopad else 'cut', 'overlap' if ss < ws else
              'abut' if ss == ws else 'gaps')


@suite.part(
    quick=800, spec=st.lists(st.tuples(
        st.integers(1, 12), st.integers(1, 6), st.integers(1, 7)),
        min_size=1, max_size=3),
    default_step=st.booleans(), flatten=st.booleans(),
    scalars=st.booleans(), transposed=st.booleans())
def n_dimensional_windows(
        ctx, spec, default_step, flatten, scalars, transposed):
    """sliding_window() in any number of dimensions"""
    shape = tuple(max(n, w) for n, w, s in spec)
    ws = tuple(w for n, w, s in spec)
    ss = ws if default_step else tuple(s for n, w, s in spec)
    a = np.arange(int(np.prod(shape))).reshape(shape)
    if transposed:
        a = np.asfortranarray(a)
    if scalars and len(shape) == 1:
        got = sliding_window(
            a, ws[0], None if default_step else ss[0], flatten)
    else:
        got = sliding_window(a, ws, None if default_step else ss, flatten)
    counts = [complete(n, w, s) for n, w, s in zip(shape, ws, ss)]
    want = [
        a[tuple(slice(i * s, i * s + w) for i, s, w in zip(pos, ss, ws))]
        for pos in itertools.product(*[range(c) for c in counts])]
    want = np.array(want)
    if not flatten:
        want = want.reshape(tuple(counts) + ws)
    assert got.shape == want.shape, (got.shape, want.shape)
    assert np.array_equal(got, want)
    bigger = tuple(n + 1 for n in shape)
    for args in [(a, bigger), (a, ws + (1,)), (a, ws, ss + (1,))]:
        try:
            sliding_window(*args)
        except ValueError:
            continue
        raise AssertionError('%r was not refused' % (args[1:],))
    ctx.nontrivial(len(want) > 1)
    ctx.label('%dd' % len(shape))


@st.composite
def unit_windows(draw):
    """a time axis with windows which are whole numbers of samples, and maybe
    another axis"""
    n, ws, ss = draw(layouts(gaps=True))
    time = draw(gen.time_dims())
    others = draw(st.lists(st.integers(1, 3), max_size=1))
    return n, ws, ss, time, tuple((m, draw(gen.dims(m))) for m in others)


def check_window_dims(got, spec, ws, ss, others):
    f, d = gen.ps(gen.td(*spec[1])), gen.ps(gen.td(*spec[2]))
    t0, t1 = got.dimensions[:2]
    assert isinstance(t0, TimeDimension) and isinstance(t1, TimeDimension)
    assert gen.ps(t0.frequency) == f * ss
    # the last sample of a window may reach beyond the next
    assert gen.ps(t0.duration) == f * ws + (d - f)
    assert gen.dim_matches(t1, spec)
    assert t0.size == got.shape[0] and t1.size == got.shape[1]
    assert len(got.dimensions) == 2 + len(others)
    for dim, (m, s) in zip(got.dimensions[2:], others):
        assert gen.dim_matches(dim, s), (dim, s)


@suite.part(
    quick=1200, spec=unit_windows(), dopad=st.booleans(),
    by_time=st.booleans(), default_step=st.booleans(),
    nd=st.booleans())
def windows_with_units(ctx, spec, dopad, by_time, default_step, nd):
    """windows of unit-aware arrays: the same values, and dimensions that say
    how long and how far apart the windows are"""
    n, ws, ss, time, others = spec
    if default_step:
        ss = ws
    raw = values(n, 'i4', [m for m, _ in others])
    arr = ArrayWithUnits(raw.copy(), [gen.build_dim(time)] + [
        gen.build_dim(s) for _, s in others])
    w, s = ws, ss
    if by_time:
        # as many samples as begin within the duration
        f = gen.td(*time[1])
        w, s = TimeSlice(f * ws), TimeSlice(f * ss)
    if nd:
        if n < ws:
            return
        rest = tuple(m for m, _ in others)
        got = arr.sliding_window(
            (w,) + rest, None if default_step else (s,) + rest)
        m = complete(n, ws, ss)
        assert len(got) == m
        check_windows(got, raw, ws, ss)
        if others and others[0][1][0] == 'time':
            # a second time axis can't be kept
            assert len(got.dimensions) == got.ndim
        else:
            check_window_dims(got, time, ws, ss, others)
        ctx.nontrivial(m > 1)
        ctx.label('n-d')
        return
    left, got = arr.sliding_window_with_leftovers(
        w, None if default_step else s, dopad=dopad)
    want_left, want = windowed(raw, ws, ss, dopad)
    assert np.array_equal(got, want)
    assert np.array_equal(left, want_left)
    if len(want):
        check_windows(got, raw, ws, ss)
        check_window_dims(got, time, ws, ss, others)
    if not dopad:
        assert isinstance(left, ArrayWithUnits)
        assert gen.dim_matches(left.dimensions[0], time)
        assert len(left.dimensions) == raw.ndim
    assert np.array_equal(arr, raw)
    ctx.nontrivial(len(want) > 1)
    ctx.label('time' if by_time else 'integer')


# -- windowing functions ------------------------------------------------------

WFUNCS = dict(
    none=lambda: None, identity=IdentityWindowingFunc,
    ogg=OggVorbisWindowingFunc, hanning=HanningWindowingFunc,
    custom=lambda: WindowingFunc(lambda size: np.arange(size) + 0.5),
    falling=lambda: WindowingFunc(lambda size: size - np.arange(size) * 0.5))


def window_values(name, size):
    if name in ('none', 'identity'):
        return np.ones(size)
    if name == 'hanning':
        return np.hanning(size)
    if name == 'custom':
        return np.arange(size) + 0.5
    if name == 'falling':
        return size - np.arange(size) * 0.5
    # the vorbis specification's window, scaled to reach one
    w = np.array([
        np.sin(np.pi / 2 * np.sin((i + 0.5) / size * np.pi) ** 2)
        for i in range(size)])
    return w / w.max()


@suite.part(
    quick=600, names=st.lists(st.sampled_from(
        ['identity', 'ogg', 'hanning', 'custom', 'falling']),
        min_size=1, max_size=2),
    shapes=st.lists(st.lists(st.integers(1, 12), min_size=1, max_size=3),
                    min_size=1, max_size=4),
    dtypes=st.lists(st.sampled_from(['i2', 'f4', 'f8', 'c8', 'c16']),
                    min_size=4, max_size=4), units=st.booleans(),
    same=st.booleans(), left=st.booleans(), seed=gen.seeds)
def windowing_functions(ctx, names, shapes, dtypes, units, same, left, seed):
    """multiplying by a windowing function, from either side, multiplies the
    last axis by the window of its size; whatever it, and others, were used for
    before"""
    wfuncs = [WFUNCS[name]() for name in names]
    for i, (shape, dtype) in enumerate(zip(shapes, dtypes)):
        name, wf = names[i % len(names)], wfuncs[i % len(names)]
        if same:
            shape = shape[:-1] + shapes[0][-1:]
        raw = (10 * gen.rng(seed).normal(0, 1, shape)).astype(dtype)
        x = raw.copy()
        if units:
            dims = [gen.build_dim(('time', (k + 1, 's'), (k + 1, 's')))
                    for k in range(raw.ndim)]
            x = ArrayWithUnits(x, dims)
        got = wf * x if left else x * wf
        want = raw * window_values(name, raw.shape[-1]).astype(dtype)
        assert got.shape == want.shape and got.dtype == raw.dtype
        if dtype != 'i2':
            # (windows are fractions, so what they do to integers isn't said)
            tolerance = 1e-4 if dtype in ('f4', 'c8') else 1e-12
            assert np.allclose(got, want, rtol=tolerance, atol=tolerance)
        assert np.array_equal(x, raw)
        if units:
            assert isinstance(got, ArrayWithUnits)
            assert list(got.dimensions) == dims
    ctx.nontrivial(len(shapes) > 1)
    for name in set(names):
        ctx.label(name)


# -- streams ------------------------------------------------------------------

class Chunks(ff.Node):
    def __init__(self, needs=None):
        super(Chunks, self).__init__(needs=needs)

    def _process(self, data):
        for d in data:
            yield d


def stream(chunks, wscheme, wfunc, padwith):
    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        chunks_ = ff.PickleFeature(Chunks, store=False)

        windowed = zounds.ArrayWithUnitsFeature(
            SlidingWindow, needs=chunks_, wscheme=wscheme, wfunc=wfunc,
            padwith=padwith, store=True)

    return Document(Document.process(chunks_=chunks)).windowed


def split(arr, cuts):
    edges = [0] + sorted(set(1 + c % max(1, len(arr) - 1) for c in cuts
                             if len(arr) > 1)) + [len(arr)]
    return [arr[a:b] for a, b in zip(edges[:-1], edges[1:])]


@suite.part(
    quick=400, layout=layouts(max_n=50),
    rate=st.one_of(
        st.sampled_from([('audio', r) for r in gen.RATES]),
        st.tuples(st.integers(1, 100), st.sampled_from(['s', 'ms', 'ps']))),
    tail=st.lists(st.integers(1, 3), max_size=1),
    wname=st.sampled_from(sorted(WFUNCS)),
    cuts=st.lists(st.integers(0, 1000), max_size=12),
    padwith=st.sampled_from([0, 0, 0, 1, 5, 17]),
    dtype=st.sampled_from(['f8', 'f8', 'f4', 'c8', 'i2']))
def streamed_windows(ctx, layout, rate, tail, wname, cuts, padwith, dtype):
    """a SlidingWindow node gives the same windows however its input was cut
    into chunks, and they hold every sample"""
    n, ws, ss = layout
    if rate[0] == 'audio':
        f = gen.td(10 ** 12 // rate[1], 'ps')
    else:
        f = gen.td(*rate)
    raw = values(n, dtype, tail)
    if dtype == 'i2':
        # what a window does to whole numbers isn't promised
        wname = 'identity'
    time = ('time', (gen.ps(f), 'ps'), (gen.ps(f), 'ps'))
    tail_dims = [gen.build_dim(('time', (7, 's'), (7, 's'))) for _ in tail]

    def series():
        return ArrayWithUnits(raw.copy(), [TimeDimension(f)] + tail_dims)

    scheme = SampleRate(f * ss, f * ws)
    whole = stream([series()], scheme, WFUNCS[wname](), padwith)
    parts = split(series(), cuts)
    got = stream(parts, scheme, WFUNCS[wname](), padwith)

    assert isinstance(got, ArrayWithUnits)
    assert got.shape[1:] == (ws,) + raw.shape[1:], got.shape
    assert got.shape == whole.shape, (got.shape, whole.shape)
    assert np.array_equal(got, whole)
    assert got.dtype == raw.dtype, got.dtype
    assert list(got.dimensions) == list(whole.dimensions)
    # the stream can be made to begin with empty windows
    assert not np.asarray(got[:padwith]).any()
    got = got[padwith:]
    win = window_values(wname, got.shape[-1])
    for k, w in enumerate(np.asarray(got)):
        assert np.allclose(w, cut(raw, k * ss, ws) * win, rtol=1e-5,
                           atol=1e-12 if dtype == 'f8' else 1e-4), k
    total = n
    m = complete(total, ws, ss)
    assert len(got) >= m
    assert (len(got) - 1) * ss + ws >= total, 'samples were lost'
    assert (len(got) - 1) * ss < total, 'a window with no samples'
    assert gen.ps(got.dimensions[0].frequency) == gen.ps(f) * ss
    assert gen.ps(got.dimensions[0].duration) == gen.ps(f) * ws
    assert gen.dim_matches(got.dimensions[1], time)
    ctx.nontrivial(len(parts) > 1 and len(got) > 1)
    ctx.label(wname, 'padded' if padwith else 'not padded')


@suite.part(
    quick=40, thorough=400, n=st.integers(20000, 120000),
    ws=st.integers(200, 9000), lap=st.sampled_from([1, 2, 4, 1.5]),
    cuts=st.lists(st.integers(0, 10 ** 6), max_size=8), seed=gen.seeds,
    stereo=st.booleans(), dtype=st.sampled_from(['f4', 'f8']))
def long_streams(ctx, n, ws, lap, cuts, seed, stereo, dtype):
    """... nor does it matter how long the input, its chunks and the windows
    are"""
    ss = int(ws / lap)
    sr = zounds.SR44100()
    raw = gen.rng(seed).uniform(
        -1, 1, (n, 2) if stereo else (n,)).astype(dtype)
    dims = [TimeDimension(*sr)] + ([IdentityDimension()] if stereo else [])
    scheme = SampleRate(sr.frequency * ss, sr.frequency * ws)
    parts = split(ArrayWithUnits(raw.copy(), dims), cuts)
    got = np.asarray(stream(parts, scheme, IdentityWindowingFunc(), 0))
    assert got.shape[1:] == (ws,) + raw.shape[1:] and got.dtype == raw.dtype
    assert len(got) >= complete(n, ws, ss)
    assert (len(got) - 1) * ss + ws >= n
    assert (len(got) - 1) * ss < n
    for k, w in enumerate(got):
        assert np.array_equal(w, cut(raw, k * ss, ws)), k
    ctx.nontrivial(len(parts) > 1 and len(got) > 1)


@suite.part(
    quick=150, rate=st.sampled_from(gen.RATES),
    millis=st.integers(20, 400), window=st.sampled_from(
        ['half lapped', 'suggested', 'millis', 'samples']),
    step=st.integers(5, 60), seed=gen.seeds, padding=st.booleans())
def audio_windows(ctx, rate, millis, window, step, seed, padding):
    """audio.sliding_window(samplerate): windows of the scheme's duration, cut
    at the scheme's frequency, to the nearest sample"""
    sr = gen.SAMPLERATES[rate]()
    n = max(1, millis * rate // 1000)
    raw = gen.rng(seed).uniform(-1, 1, n)
    audio = zounds.AudioSamples(raw.copy(), sr)
    if window == 'half lapped':
        scheme = zounds.HalfLapped()
    elif window == 'suggested':
        scheme = sr.half_lapped()
    elif window == 'millis':
        scheme = SampleRate(
            zounds.Milliseconds(step), zounds.Milliseconds(2 * step))
    else:
        scheme = sr.windowing_scheme(step * 10, step * 7)
    one = 10 ** 12 // rate
    # a sample that is overlapped by less than a hundredth doesn't count
    ws = int(np.ceil(np.round(gen.ps(scheme.duration) / one, 2)))
    ss = int(np.ceil(np.round(gen.ps(scheme.frequency) / one, 2)))
    if not padding and n < ws:
        return
    got = audio.sliding_window(scheme, padding=padding)
    check_windows(got, raw, ws, ss)
    if padding:
        assert (len(got) - 1) * ss + ws >= n
    else:
        assert len(got) == complete(n, ws, ss)
    assert got.dimensions[1] == TimeDimension(*sr)
    ratio = got.dimensions[0].frequency / scheme.frequency
    assert abs(ratio - 1) * ss <= 1.01, ratio
    assert abs(got.dimensions[0].duration / scheme.duration - 1) * ws <= 1.01
    if window in ('suggested', 'samples'):
        assert got.dimensions[0].samplerate == scheme
    ctx.nontrivial(len(got) > 1)
    ctx.label(window)
