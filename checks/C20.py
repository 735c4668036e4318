"""C20: processing nodes and graphs compute what they say, however the data is
cut into chunks; and the array helpers beneath them"""
from collections import deque

import featureflow as ff
import numpy as np
import scipy.fftpack
from hypothesis import strategies as st

import zounds
from vlib import gen
from vlib.runner import Suite
from checks.C10 import is_audio
from checks.C11 import audio_of, tones
from zounds.basic.basic import Merge, Pooled, Slice, Sum, Max, Binarize
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.nputil import (
    Growable, norm_shape, pad, safe_log, safe_unit_norm)
from zounds.soundfile import ChunkSizeBytes
from zounds.spectral import BFCC, BarkBands, Chroma, SpectralCentroid
from zounds.timeseries import (
    TimeDimension, TimeSlice, Milliseconds, Picoseconds, VariableRateTimeSeries)

suite = Suite(
    'C20',
    'random chunks pushed through nodes and graphs against numpy on the whole; '
    'random arrays through the helpers; non-trivial = more than one chunk or '
    'more than one dimension',
    ['graphs that resample between different rates are the subject of C11'])

# -- helpers for arrays -------------------------------------------------------


def values(seed, shape, kind):
    r = gen.rng(seed)
    x = r.normal(0, 3, shape)
    if kind == 'sparse':
        x = x * (r.uniform(0, 1, shape) < 0.4)
    if kind == 'rows of zeros' and len(shape):
        x[r.uniform(0, 1, shape[:-1]) < 0.4] = 0
    if kind == 'int':
        x = np.round(x).astype(int)
    if kind == 'complex':
        x = x + 1j * r.normal(0, 1, shape)
    if kind == 'float32':
        x = x.astype(np.float32)
    if kind == 'tiny':
        x = x * 1e-9
    return x


shapes = st.lists(st.integers(1, 6), min_size=1, max_size=4).map(tuple)
kinds = st.sampled_from(['sparse', 'rows of zeros', 'int', 'complex',
                         'float32', 'tiny', 'plain'])


@suite.part(quick=800, shape=shapes, seed=gen.seeds, kind=kinds,
            strided=st.booleans())
def unit_norm(ctx, shape, seed, kind, strided):
    """every vector along the last axis is divided by its length; vectors of
    zeros stay zeros; the input isn't changed"""
    x = values(seed, shape, kind)
    if strided:
        x = np.asfortranarray(x)
    before = x.copy()
    got = safe_unit_norm(x)
    assert np.array_equal(x, before)
    assert got.shape == x.shape
    for i in np.ndindex(*shape[:-1]):
        v = before[i].astype(complex)
        n = np.sqrt(np.sum(np.abs(v) ** 2))
        assert np.allclose(got[i], v / n if n else 0, atol=1e-6), (i, n)
    ctx.nontrivial(len(shape) > 1)
    ctx.label(kind, '%dd' % len(shape))


@suite.part(quick=400, shape=shapes, seed=gen.seeds, kind=st.sampled_from(
            ['sparse', 'int', 'float32', 'tiny', 'plain']),
            negative=st.booleans())
def logarithms(ctx, shape, seed, kind, negative):
    """the logarithm of everything that isn't negative, which includes zero;
    anything negative is refused"""
    x = np.abs(values(seed, shape, kind))
    before = x.copy()
    got = safe_log(x)
    assert np.array_equal(x, before) and got.shape == x.shape
    assert np.all(np.isfinite(got))
    big = before > 1e-5
    assert np.allclose(got[big], np.log(before[big].astype(float)), atol=1e-4)
    zeros = before == 0
    assert np.all(got[zeros] < -20)
    a, b = before.ravel().argsort(), got.ravel()
    assert np.all(np.diff(b[a]) >= 0)
    if negative:
        bad = before.astype(float)
        i = tuple(seed % s for s in shape)
        bad[i] = -0.5
        try:
            safe_log(bad)
            refused = False
        except ValueError:
            refused = True
        assert refused
    ctx.nontrivial(zeros.any() or negative)
    ctx.label(kind)


@suite.part(quick=400, shape=shapes, length=st.integers(0, 12),
            seed=gen.seeds, kind=kinds, aslist=st.booleans())
def padding(ctx, shape, length, seed, kind, aslist):
    """zeros are added to the end of the first axis; nothing is cut"""
    x = values(seed, shape, kind)
    arg = x.tolist() if aslist else x
    got = pad(arg, length)
    assert isinstance(got, list) == aslist
    if not aslist:
        assert got.dtype == x.dtype
    got = np.array(got)
    assert got.shape == (max(shape[0], length),) + shape[1:]
    assert np.array_equal(got[:shape[0]], x)
    assert not got[shape[0]:].any()
    ctx.nontrivial(length > shape[0])


@suite.part(quick=200, shape=st.lists(st.integers(0, 9), min_size=1,
                                      max_size=4),
            form=st.sampled_from(['tuple', 'list', 'array', 'int', 'numpy int',
                                  'float', 'none', 'object']))
def shapes_are_tuples(ctx, shape, form):
    """a number or a sequence of numbers becomes a tuple; anything else is
    refused"""
    if form in ('none', 'object'):
        try:
            norm_shape(None if form == 'none' else object())
            refused = False
        except TypeError:
            refused = True
        assert refused
        return
    if form in ('int', 'numpy int', 'float'):
        shape = shape[:1]
    arg = {
        'tuple': tuple, 'list': list, 'array': lambda x: np.array(x),
        'int': lambda x: x[0], 'numpy int': lambda x: np.int32(x[0]),
        'float': lambda x: float(x[0])}[form](shape)
    if form == 'array' and len(shape) == 1:
        arg = shape
    got = norm_shape(arg)
    assert isinstance(got, tuple) and got == tuple(shape)
    ctx.nontrivial()


@suite.part(
    quick=500, initial=st.integers(0, 6), filled=st.integers(0, 9),
    row=st.lists(st.integers(1, 3), max_size=2).map(tuple),
    growth=st.sampled_from([0.01, 0.5, 1, 3]),
    dtype=st.sampled_from(['i4', 'f8', 'u8']),
    ops=st.lists(st.one_of(
        st.just(1), st.tuples(st.integers(1, 20))), max_size=25))
def growable_arrays(ctx, initial, filled, row, growth, dtype, ops):
    """a history of appends and extensions of a growable array, against a
    list"""
    data = np.arange(1, 1 + initial * int(np.prod(row))).reshape(
        (initial,) + row).astype(dtype)
    model = [d.copy() for d in data[:filled]]
    g = Growable(data.copy(), position=filled, growth_rate=growth)
    # a position beyond the data: what's between has no defined value
    undefined = max(0, filled - initial)
    model += [None] * undefined
    count = 1000
    for op in ops:
        k = 1 if op == 1 else op[0]
        new = (np.arange(count, count + k * int(np.prod(row))).reshape(
            (k,) + row)).astype(dtype)
        count += new.size
        if op == 1:
            out = g.append(new[0])
        else:
            out = g.extend(new)
        assert out is g
        model.extend(new)
        assert g.logical_size == len(model)
        assert g.physical_size >= g.logical_size
        assert g.data.shape == (g.physical_size,) + row
        got = g.logical_data
        assert got.shape == (len(model),) + row and got.dtype == dtype
        for a, b in zip(got, model):
            assert b is None or np.array_equal(a, b)
    if not undefined and not ops:
        assert np.array_equal(g.logical_data, data[:filled])
    ctx.nontrivial(len(ops) > 2)
    ctx.label('beyond' if undefined else 'within')


# -- nodes --------------------------------------------------------------------

class Driver(object):
    """pushes chunks of named sources through a node"""

    def __init__(self, make, n):
        self.sources = [ff.Node() for _ in range(n)]
        self.node = make(
            self.sources[0] if n == 1 else
            dict(('s%d' % i, s) for i, s in enumerate(self.sources)))
        self.output = []

    def _run(self, data, source):
        queue = deque()
        for _ in self.node.process(data, source, queue):
            pass
        out = [q[2]['data'] for q in queue if 'data' in q[2]]
        self.output.extend(o for o in reversed(out) if o is not None)

    def push(self, i, data):
        self._run(data, self.sources[i])

    def end(self):
        for i, s in enumerate(self.sources):
            self.node._finish(pusher=s)
            self._run(None, s)
        return self.output


def series(seed, n, k, hop, dur, kind='plain'):
    return ArrayWithUnits(values(seed, (n, k), kind), [
        TimeDimension(Milliseconds(hop), Milliseconds(dur)),
        IdentityDimension()])


def cut(total, weights):
    """chunk boundaries of a series of length total"""
    edges = np.round(np.cumsum(weights) / max(sum(weights), 1) * total)
    edges = [0] + [int(e) for e in edges[:-1]] + [total]
    return [(a, b) for a, b in zip(edges[:-1], edges[1:]) if b > a]


weights = st.lists(st.integers(1, 9), min_size=1, max_size=7)


@suite.part(
    quick=300, n=st.lists(st.integers(1, 30), min_size=2, max_size=4),
    cuts=st.lists(weights, min_size=4, max_size=4), seed=gen.seeds,
    hop=st.integers(1, 50), by_order=st.booleans())
def merging(ctx, n, cuts, seed, hop, by_order):
    """features that come in chunks of different sizes are put side by side,
    moment by moment, for as long as all of them last"""
    r = gen.rng(seed)
    parts = [series(seed + i, m, 1 + (seed + i) % 3, hop, hop)
             for i, m in enumerate(n)]
    queues = [[p[a:b] for a, b in cut(len(p), w)]
              for p, w in zip(parts, cuts)]
    d = Driver(lambda needs: Merge(needs=needs), len(n))
    while any(queues):
        i = r.choice([j for j in range(len(n)) if queues[j]]) \
            if not by_order else min(j for j in range(len(n)) if queues[j])
        d.push(i, queues[i].pop(0))
    out = d.end()
    m = min(n)
    want = np.concatenate([np.asarray(p)[:m] for p in parts], axis=1)
    got = np.concatenate([np.asarray(o) for o in out])
    assert np.array_equal(got, want)
    for o in out:
        assert o.dimensions[0].frequency == Milliseconds(hop)
        assert isinstance(o.dimensions[1], IdentityDimension)
    ctx.nontrivial(len(out) > 1)
    ctx.label('unequal' if len(set(n)) > 1 else 'equal')


def features(seed, n, k, extra):
    shape = (n, k) + extra
    td = TimeDimension(Milliseconds(10), Milliseconds(20))
    fd = zounds.FrequencyDimension(zounds.LinearScale(
        zounds.FrequencyBand(100, 4000), k))
    return ArrayWithUnits(
        values(seed, shape, 'plain'),
        [td, fd] + [IdentityDimension()] * len(extra))


@suite.part(
    quick=500, n=st.integers(1, 30), k=st.integers(2, 8),
    extra=st.lists(st.integers(1, 4), max_size=1).map(tuple), w=weights,
    seed=gen.seeds, op=st.sampled_from(['slice', 'sum', 'max', 'binarize']),
    axis=st.sampled_from([0, 1, -1]), lo=st.integers(0, 4),
    hi=st.integers(1, 9), dtype=st.sampled_from(
        ['f8', 'f8', 'f8', 'f4', 'i2', 'u1', 'bool']))
def elementary_nodes(ctx, n, k, extra, w, seed, op, axis, lo, hi, dtype):
    """slicing, summing, taking maxima and predicates: every chunk becomes
    what numpy makes of it, with the dimensions that are left"""
    x = features(seed, n, k, extra)
    if dtype in ('i2', 'u1'):
        # sums that don't fit into the type
        x = ArrayWithUnits(np.asarray(x * 9000).astype(dtype), x.dimensions)
    else:
        x = ArrayWithUnits(np.asarray(x).astype(dtype), x.dimensions)
    before = np.array(x)
    hi = max(hi, lo % k + 1)
    sl = slice(lo % k, hi)
    make = {
        'slice': lambda needs: Slice(sl=sl, needs=needs),
        'sum': lambda needs: Sum(axis=axis, needs=needs),
        'max': lambda needs: Max(axis=axis, needs=needs),
        'binarize': lambda needs: Binarize(
            predicate=lambda z: z > 0.2, needs=needs)}[op]
    d = Driver(make, 1)
    chunks = cut(n, w)
    for a, b in chunks:
        d.push(0, x[a:b])
    out = d.end()
    assert np.array_equal(before, np.asarray(x))
    assert len(out) == len(chunks)
    for (a, b), got in zip(chunks, out):
        raw = before[a:b]
        want = {
            'slice': lambda: raw[:, sl], 'sum': lambda: raw.sum(axis=axis),
            'max': lambda: raw.max(axis=axis),
            'binarize': lambda: raw > 0.2}[op]()
        assert got.shape == want.shape and np.allclose(
            got, want, atol=1e-4 if dtype == 'f4' else 1e-8)
        if op in ('sum', 'max'):
            left = list(x.dimensions)
            del left[axis]
            kinds = [type(l) for l in left]
        else:
            kinds = [type(l) for l in x.dimensions]
        assert [type(l) for l in got.dimensions] == kinds
        if isinstance(got.dimensions[0], TimeDimension):
            assert got.dimensions[0].frequency == Milliseconds(10)
            assert got.dimensions[0].duration == Milliseconds(20)
        for dim in got.dimensions:
            if isinstance(dim, zounds.FrequencyDimension) and op == 'slice':
                want = gen.band_pairs(x.dimensions[1].scale)[sl]
                assert np.shape(want) == (len(dim.scale), 2)
                assert np.allclose(gen.band_pairs(dim.scale), want)
    ctx.nontrivial(len(chunks) > 1)
    ctx.label(op)


@suite.part(
    quick=300, n=st.integers(4, 40), k=st.integers(1, 4), w=weights,
    w2=weights, cuts=st.lists(st.integers(0, 39), max_size=8, unique=True),
    seed=gen.seeds, op=st.sampled_from(['max', 'mean', 'sum', 'min']),
    slices_first=st.booleans(), hop=st.sampled_from([1, 7, 10, 250]),
    axis=st.sampled_from([0, 0, 1, -1]),
    times=st.sampled_from([1, 1, 1, 1, 1, 200]), dtype=st.sampled_from(
        ['f8', 'f4', 'i2']))
def pooling(ctx, n, k, w, w2, cuts, seed, op, slices_first, hop, axis, times,
            dtype):
    """a feature is pooled over each of the slices of time it is given"""
    edges = sorted(set([c * times for c in cuts if c < n] + [0, n * times]))
    n *= times
    if isinstance(axis, int) and axis != 0:
        # what is pooled from every slice has as many values
        edges = list(range(0, n + 1, max(1, n // (len(cuts) + 1))))
    x = series(seed, n, k, hop, hop)
    if dtype == 'i2':
        x = x * 1000
    x = ArrayWithUnits(np.asarray(x).astype(dtype), x.dimensions)
    spans = list(zip(edges[:-1], edges[1:]))
    slices = [(TimeSlice(Milliseconds((b - a) * hop),
                         start=Milliseconds(a * hop)), np.zeros(0))
              for a, b in spans]
    todo = [(0, x[a:b]) for a, b in cut(n, w)]
    other = [(1, VariableRateTimeSeries(slices[a:b]))
             for a, b in cut(len(slices), w2)]
    d = Driver(lambda needs: Pooled(
        op=getattr(np, op), axis=axis, needs=needs), 2)
    for i, data in (other + todo if slices_first else todo + other):
        d.push(i, data)
    out, = d.end()
    assert isinstance(out, VariableRateTimeSeries) and len(out) == len(spans)
    raw = np.asarray(x)
    for (a, b), (ts, got), (want_ts, _) in zip(
            spans, out.iter_slices(), slices):
        assert ts == want_ts
        want = getattr(np, op)(raw[a:b], axis=axis)
        assert np.shape(got) == want.shape
        assert np.allclose(got, want, rtol=1e-3 if dtype == 'f4' else 1e-8,
                           atol=1e-2 if dtype == 'f4' else 1e-8)
    ctx.nontrivial(len(spans) > 1 and len(todo) > 1)
    ctx.label(op, 'axis %s' % (axis,), 'long' if times > 1 else 'short')


# -- graphs -------------------------------------------------------------------

def process(Base, flo, names):
    @zounds.simple_in_memory_settings
    class Document(Base):
        pass

    doc = Document(Document.process(meta=flo))
    return doc, dict((n, getattr(doc, n)) for n in names)


def same(a, b, atol=1e-6):
    assert type(a) is type(b) and a.shape == b.shape, (a.shape, b.shape)
    x, y = np.asarray(a), np.asarray(b)
    assert np.array_equal(np.isnan(x), np.isnan(y))
    assert np.allclose(x, y, atol=atol, equal_nan=True)
    for p, q in zip(a.dimensions, b.dimensions):
        assert type(p) is type(q)
        if isinstance(p, TimeDimension):
            assert (p.frequency, p.duration) == (q.frequency, q.duration)
        if isinstance(p, zounds.FrequencyDimension):
            assert p.scale == q.scale


@suite.part(
    quick=25, thorough=300, rate=st.sampled_from([11025, 22050]),
    millis=st.integers(400, 2500), chans=st.sampled_from([1, 2]),
    seed=gen.seeds, chunk=st.integers(3000, 60000),
    padding=st.sampled_from([0, 100, 2000]))
def spectrograms_of_a_stream(ctx, rate, millis, chans, seed, chunk, padding):
    """zounds.stft() and zounds.windowed(): the stored windows and their
    spectra are those of the whole sound, whatever the chunks"""
    n = rate * millis // 1000
    raw = tones(rate, n, chans, seed)
    sr = gen.SAMPLERATES[rate]()
    Base = zounds.stft(
        chunksize_bytes=chunk, resample_to=sr, wscheme=sr.half_lapped(),
        store_fft=True, fft_padding_samples=padding, store_windowed=True,
        store_resampled=True)
    doc, got = process(
        Base, audio_of(raw, rate).encode(subtype='FLOAT'),
        ['fft', 'windowed', 'resampled'])
    mono = raw.mean(axis=1) if chans == 2 else raw
    assert np.allclose(is_audio(got['resampled'], rate, 1, n), mono, atol=1e-6)
    win = sr.half_lapped()
    size = int(round(win.duration / sr.frequency))
    hop = int(round(win.frequency / sr.frequency))
    w = np.asarray(zounds.OggVorbisWindowingFunc() * np.ones(size))
    x = got['windowed']
    assert x.shape[1] == size
    assert x.dimensions[0].frequency == win.frequency
    padded = np.concatenate([mono, np.zeros(size)])
    assert n - size < (len(x) - 1) * hop + 1 and (len(x) - 1) * hop < n
    want = np.stack([
        padded[i * hop: i * hop + size] for i in range(len(x))]) * w
    assert np.allclose(x, want, atol=1e-5)
    spectrum = np.fft.rfft(
        np.pad(want, ((0, 0), (0, padding))), norm='ortho')
    assert got['fft'].shape == spectrum.shape
    assert np.allclose(got['fft'], spectrum, atol=1e-4)
    assert got['fft'].dimensions[0].frequency == win.frequency

    Windowed = zounds.windowed(
        sr.half_lapped(), chunksize_bytes=1 << 22, resample_to=sr,
        store_windowed=True, wfunc=zounds.OggVorbisWindowingFunc())
    _, again = process(
        Windowed, audio_of(raw, rate).encode(subtype='FLOAT'), ['windowed'])
    same(x, again['windowed'])
    ctx.nontrivial(n * 4 * chans > 2 * chunk)


def by_hand(mono, sr, rate, frames):
    """windows of a sound, cut out one by one"""
    size = int(round(sr.duration / Picoseconds(1) * rate / 1e12))
    hop = int(round(sr.frequency / Picoseconds(1) * rate / 1e12))
    w = np.asarray(zounds.OggVorbisWindowingFunc() * np.ones(size))
    padded = np.concatenate([mono, np.zeros(2 * size)])
    return np.stack([
        padded[i * hop: i * hop + size] for i in range(frames)]) * w


def on(**flags):
    return gen.unless(False, **flags)


STORED = {
    'resampled': lambda a, b, c, r: (
        zounds.resampled(resample_to=r, **on(store_resampled=a)),
        ['resampled'] * a),
    'windowed': lambda a, b, c, r: (
        zounds.windowed(r.half_lapped(), resample_to=r,
                        **gen.unless(True, store_resampled=a),
                        **on(store_windowed=b)),
        ['resampled'] * a + ['windowed'] * b),
    'stft': lambda a, b, c, r: (
        zounds.stft(wscheme=r.half_lapped(), resample_to=r, **on(
            store_resampled=a, store_windowed=b, store_fft=c)),
        ['resampled'] * a + ['windowed'] * b + ['fft'] * c),
    'audio_graph': lambda a, b, c, r: (
        zounds.audio_graph(resample_to=r, **on(store_fft=a)),
        ['dct', 'bark', 'centroid', 'chroma', 'bfcc'] + ['fft'] * a),
    'frequency_adaptive': lambda a, b, c, r: (
        zounds.frequency_adaptive(
            zounds.SampleRate(r.frequency * 512, r.frequency * 1024),
            zounds.GeometricScale(100, 5000, 0.2, 20), resample_to=r,
            **on(store_resampled=a, store_freq_adaptive=b)),
        ['resampled'] * a + ['freq_adaptive'] * b)}


@suite.part(
    quick=100, thorough=1000, graph=st.sampled_from(sorted(STORED)),
    flags=st.tuples(st.booleans(), st.booleans(), st.booleans()),
    seed=gen.seeds, rate=st.sampled_from([11025, 22050]),
    onsets=st.booleans())
def only_what_is_asked_for_is_stored(ctx, graph, flags, seed, rate, onsets):
    """a graph stores its metadata, the sound, and the features it's asked to
    store; those that aren't are computed from those that are when they're
    asked for"""
    sr = gen.SAMPLERATES[rate]()
    Base, names = STORED[graph](*(flags + (sr,)))
    if onsets and graph in ('stft', 'audio_graph'):
        class Both(zounds.with_onsets(Base.fft), Base):
            pass
        Base, names = Both, names + ['slices']

    @zounds.simple_in_memory_settings
    class Document(Base):
        pass

    raw = tones(rate, rate // 2, 1, seed)
    _id = Document.process(meta=audio_of(raw, rate).encode(subtype='FLOAT'))
    got = set(name for name, f in Document.features.items()
              if f.feature_key(_id, Document) in Document.database)
    assert got == set(['meta', 'ogg'] + names), (got, names)
    doc = Document(_id)
    if 'resampled' in names:
        assert np.allclose(is_audio(doc.resampled, rate, 1, len(raw)), raw,
                           atol=1e-6)
        if graph in ('windowed', 'stft'):
            # what isn't stored is there nevertheless
            half = sr.half_lapped()
            x = doc.windowed
            size = int(round(half.duration / sr.frequency))
            hop = int(round(half.frequency / sr.frequency))
            assert x.shape[1] == size
            padded = np.concatenate([raw, np.zeros(size)])
            want = np.stack([padded[i * hop: i * hop + size]
                             for i in range(len(x))])
            if graph == 'stft':
                want = want * np.asarray(
                    zounds.OggVorbisWindowingFunc() * np.ones(size))
                assert np.allclose(
                    doc.fft, np.fft.rfft(want, norm='ortho'), atol=1e-4)
            assert np.allclose(x, want, atol=1e-5)
    ctx.nontrivial(len(names) > 0)
    ctx.label(graph)


NAMES = ['dct', 'bark', 'centroid', 'chroma', 'bfcc', 'fft']


@suite.part(
    quick=50, thorough=500, millis=st.integers(500, 2500),
    chans=st.sampled_from([1, 2]), seed=gen.seeds,
    chunk=st.integers(5000, 60000), onsets=st.booleans())
def audio_graph_of_a_stream(ctx, millis, chans, seed, chunk, onsets):
    """zounds.audio_graph() and zounds.with_onsets(): every stored feature is
    the same whatever the chunks"""
    rate = 22050
    n = rate * millis // 1000
    raw = tones(rate, n, chans, seed)
    raw = raw * (0.1 + 0.9 * (np.arange(n) // (rate // 4) % 2)).reshape(
        (-1,) + (1,) * (raw.ndim - 1)).astype(raw.dtype)
    flo = audio_of(raw, rate).encode(subtype='FLOAT')

    def graph(size):
        Base = zounds.audio_graph(
            chunksize_bytes=size, resample_to=zounds.SR22050(),
            store_fft=True)
        if not onsets:
            return Base, NAMES
        flo.seek(0)

        class WithOnsets(zounds.with_onsets(Base.fft), Base):
            pass

        return WithOnsets, NAMES + ['slices']

    Small, names = graph(chunk)
    doc, a = process(Small, flo, names)
    flo.seek(0)
    Big, names = graph(1 << 24)
    _, b = process(Big, flo, names)
    for name in NAMES:
        assert len(a[name]) > 0
        same(a[name], b[name], atol=1e-4)
    if onsets:
        assert list(a['slices'].slices) == list(b['slices'].slices)
        check_partition(a['slices'])
    is_audio(doc.ogg[slice(None)], rate, chans, n)
    assert doc.meta['samplerate'] == rate
    # what each of them is, by hand
    sr = zounds.SR22050().half_lapped()
    mono = raw.mean(axis=1) if chans == 2 else raw
    win = by_hand(mono, sr, rate, len(a['fft']))
    assert np.allclose(
        a['dct'], scipy.fftpack.dct(win, norm='ortho'), atol=1e-4)
    assert np.allclose(a['fft'], np.fft.rfft(win, norm='ortho'), atol=1e-4)
    band = zounds.FrequencyBand(20, zounds.SR22050().nyquist)
    for name, make, need in (
            ('bark', lambda: BarkBands(band), 'fft'),
            ('chroma', lambda: Chroma(band), 'fft'),
            ('centroid', SpectralCentroid, 'bark'),
            ('bfcc', BFCC, 'fft')):
        node = make()
        x = node._first_chunk(a[need])
        want, = node._process(a[need] if x is None else x)
        same(a[name], want, atol=1e-4)
    ctx.nontrivial(n * 4 * chans > 2 * chunk)
    ctx.label('onsets' if onsets else 'plain')


def check_partition(vrts):
    at = Milliseconds(0)
    for ts in vrts.slices:
        assert ts.start == at
        at = ts.end


@suite.part(
    quick=20, thorough=200, millis=st.integers(600, 2500), seed=gen.seeds,
    chunk=st.integers(5000, 60000), bands=st.integers(16, 64),
    size=st.sampled_from([1024, 2048]))
def adaptive_graph_of_a_stream(ctx, millis, seed, chunk, bands, size):
    """zounds.frequency_adaptive(): the stored transform is the same whatever
    the chunks"""
    rate = 11025
    n = rate * millis // 1000
    raw = tones(rate, n, 1, seed)
    sr = zounds.SR11025()
    scale = zounds.GeometricScale(100, 5000, 0.2, bands)
    long_sr = zounds.SampleRate(
        frequency=sr.frequency * (size // 2), duration=sr.frequency * size)
    out = []
    for c in (chunk, 1 << 24):
        Base = zounds.frequency_adaptive(
            long_sr, scale, store_freq_adaptive=True, chunksize_bytes=c,
            resample_to=sr)
        flo = audio_of(raw, rate).encode(subtype='FLOAT')
        _, got = process(Base, flo, ['freq_adaptive'])
        out.append(got['freq_adaptive'])
    a, b = out
    assert len(a) > 0
    assert np.allclose(np.asarray(a), np.asarray(b), atol=1e-5)
    assert a.dimensions[1].scale == scale == b.dimensions[1].scale
    for band in scale:
        assert np.allclose(a[:, band], b[:, band], atol=1e-5)
    ctx.nontrivial(n * 4 > 2 * chunk)
