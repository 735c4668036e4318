"""C19: features survive being stored"""
import io
import json
import os

import featureflow as ff
import numpy as np
from hypothesis import strategies as st

import zounds
from vlib.runner import Suite
from vlib import gen, env
from checks.C10 import is_audio
from checks.C13 import adaptives, build_adaptive
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import (
    AudioSamples, TimeDimension, TimeSlice, VariableRateTimeSeries,
    VariableRateTimeSeriesFeature)
from zounds.spectral import (
    FrequencyBand, FrequencyDimension, LinearScale, GeometricScale,
    BarkScale, MelScale, ChromaScale, ExplicitScale, FrequencyAdaptive,
    ExplicitFrequencyDimension)
from zounds.persistence import (
    ArrayWithUnitsFeature, AudioSamplesFeature, FrequencyAdaptiveFeature,
    DimensionEncoder, DimensionDecoder, TimeSliceEncoder, TimeSliceDecoder,
    PackedArrayWithUnitsEncoder, PackedArrayWithUnitsFeature)

suite = Suite(
    'C19',
    'arrays of all kinds of dimensions, dtypes and layouts in memory, '
    'written in one or several chunks to memory or disk and read back; '
    'non-trivial = several axes, chunks or documents',
    ['values that are numbers of time or frequency come from python or '
     'numpy floating point and timedelta64'])


class Chunks(ff.Node):
    """gives the chunks of a list one by one"""

    def _process(self, data):
        for chunk in data:
            yield chunk


class Store(object):
    """a model with a single feature, in memory or on disk"""

    def __init__(self, feature, on_disk, own_ids=False, **kwargs):
        self.own_ids = own_ids
        self.path = os.path.join(env.scratch_dir(), 'db') if on_disk else None
        self.make = lambda: feature(Chunks, store=True, **kwargs)
        self.model = self.define()

    def define(self):
        class Document(ff.BaseModel):
            start = ff.PickleFeature(ff.Node, store=False)
            stored = self.make()

        Document.stored.needs = Document.start
        if self.path:
            return zounds.simple_lmdb_settings(
                self.path, map_size=1 << 24,
                user_supplied_id=self.own_ids)(Document)
        return zounds.simple_in_memory_settings(Document)

    def write(self, chunks, _id=None):
        if _id is not None:
            assert self.model.process(start=chunks, _id=_id) == _id
            return _id
        return self.model.process(start=chunks)

    def read(self, _id):
        return self.model(_id).stored

    def reopen(self):
        if self.path:
            try:
                self.model.database.env.close()
            except AttributeError:
                pass
            self.model = self.define()


SCALES = st.tuples(
    st.sampled_from(
        ['linear', 'even', 'geometric', 'bark', 'mel', 'explicit',
         'even geometric', 'numpy',
         'numpy geometric', 'single precision']),
    st.integers(1, 500), st.integers(50, 20000))
# a chroma scale has a size, but no bands
CHROMA = st.tuples(
    st.just('chroma'), st.integers(1, 500), st.integers(50, 20000))
SHUFFLED = st.tuples(
    st.just('shuffled'), st.integers(1, 500), st.integers(50, 20000))


def scale_of(spec, n):
    kind, lo, width = spec
    if kind == 'chroma':
        return ChromaScale(FrequencyBand(lo, lo + width))
    if kind == 'even':
        return LinearScale(
            FrequencyBand(lo / 3., lo + width), n, always_even=True)
    if kind == 'even geometric':
        return GeometricScale(
            lo / 3., lo + width, (lo + width) / 30011., n, always_even=True)
    if kind == 'numpy':
        return LinearScale(
            FrequencyBand(np.float32(lo / 3.), np.int64(lo + width)),
            np.int64(n))
    if kind == 'numpy geometric':
        return GeometricScale(
            np.float64(lo / 3.), np.float32(lo + width), np.float32(.1), n)
    if kind in ('shuffled', 'single precision'):
        s = gen.build_scale('explicit', lo / 3., lo + width, n)
        pairs = gen.band_pairs(s)
        if kind == 'shuffled':
            # (from the first to the last, which give the scale its range)
            order = gen.rng(lo + width).permutation(max(0, n - 2)) + 1
            pairs[1:-1] = [pairs[i] for i in order]
        else:
            pairs = [(np.float32(a), np.float32(b)) for a, b in pairs]
        return ExplicitScale([FrequencyBand(*p) for p in pairs])
    return gen.build_scale(kind, lo, lo + width, n)


DIM = st.one_of(
    st.just(('id',)), gen.time_dims(), gen.time_dims(),
    st.tuples(st.just('freq'), st.one_of(SCALES, SCALES, CHROMA, SHUFFLED)),
    st.tuples(st.just('sliced'), SCALES, st.integers(0, 5),
              st.sampled_from(['range', 'step', 'tail'])),
    st.tuples(st.just('explicit'), SCALES, st.sampled_from(
        ['in order', 'in order', 'reversed', 'lapped'])))


def dim_of(spec, n):
    """a dimension for an axis of n elements, and its size"""
    if spec[0] == 'freq':
        s = scale_of(spec[1], n)
        return FrequencyDimension(s), len(s)
    if spec[0] == 'sliced':
        s = scale_of(spec[1], n + 4)
        at = spec[2]
        s = {'range': lambda: s[at % 4: at % 4 + n],
             'step': lambda: s[at % 2: at % 2 + 2 * n: 2],
             'tail': lambda: s[-n:]}[spec[3]]()
        return FrequencyDimension(s), len(s)
    if spec[0] == 'explicit':
        s = scale_of(spec[1], n)
        sizes = [1 + (i * 7 + n) % 3 for i in range(len(s))]
        edges = np.cumsum([0] + sizes)
        slices = [slice(a, b) for a, b in zip(edges[:-1], edges[1:])]
        if spec[2:] == ('reversed',):
            slices = slices[::-1]
        if spec[2:] == ('lapped',):
            slices = [slice(max(0, s.start - 1), s.stop) for s in slices]
        return ExplicitFrequencyDimension(s, slices), edges[-1]
    return gen.build_dim(spec), n


def same_dim(a, b):
    assert type(a) is type(b), (a, b)
    assert a == b
    if isinstance(a, TimeDimension):
        assert gen.ps(a.frequency) == gen.ps(b.frequency)
        assert gen.ps(a.duration) == gen.ps(b.duration)
        assert a.size == b.size
    elif not isinstance(a, IdentityDimension):
        assert type(a.scale) is type(b.scale)
        assert len(a.scale) == len(b.scale)
        assert a.scale.always_even == b.scale.always_even
        assert a.scale.start_hz == b.scale.start_hz
        assert a.scale.stop_hz == b.scale.stop_hz
        if not isinstance(a.scale, ChromaScale):
            assert gen.band_pairs(a.scale) == gen.band_pairs(b.scale)
        if isinstance(a, ExplicitFrequencyDimension):
            assert list(a.slices) == list(b.slices)


def same(got, expected):
    assert isinstance(got, ArrayWithUnits)
    assert got.shape == expected.shape, (got.shape, expected.shape)
    assert got.dtype == expected.dtype, (got.dtype, expected.dtype)
    assert np.array_equal(np.asarray(got), np.asarray(expected))
    assert len(got.dimensions) == len(expected.dimensions)
    for a, b in zip(got.dimensions, expected.dimensions):
        same_dim(a, b)


DTYPES = ('f8', 'f4', 'f2', 'c16', 'c8', 'i8', 'i2', 'u1', 'u8', '?', '>i2')


def fill(shape, dtype, seed):
    rng = gen.rng(seed)
    x = rng.normal(0, 100, shape)
    if dtype[0] == 'c':
        x = x + 1j * rng.normal(0, 1, shape)
    if dtype == '?':
        return x > 0
    if dtype[0] == 'u':
        x = np.abs(x)
    return x.astype(dtype)


ARRAYS = st.tuples(
    st.lists(st.tuples(st.integers(1, 6), DIM), min_size=1, max_size=4),
    st.sampled_from(DTYPES), gen.seeds)


def array_of(spec):
    axes, dtype, seed = spec
    dims, shape = zip(*[dim_of(d, n) for n, d in axes])
    return ArrayWithUnits(fill(shape, dtype, seed), dims)


def cut(x, cuts):
    """chunks along the first axis, where its dimension allows"""
    if not isinstance(x.dimensions[0], (TimeDimension, IdentityDimension)):
        return [x]
    edges = sorted(set([0, len(x)] + [c % len(x) for c in cuts]))
    return [x[a:b] for a, b in zip(edges[:-1], edges[1:])]


@suite.part(
    quick=300, thorough=5000, docs=st.lists(
        ARRAYS, min_size=1, max_size=3), cuts=st.lists(
        st.integers(0, 5), max_size=3), on_disk=st.sampled_from(
        [False, False, True, 'own ids']), layout=st.sampled_from(
        ['plain', 'fortran', 'view']))
def arrays_survive_storage(ctx, docs, cuts, on_disk, layout):
    """values, dtype, shape and dimensions come back, whatever the layout in
    memory and the chunks they are written in, and also after reopening"""
    own = on_disk == 'own ids'
    store = Store(ArrayWithUnitsFeature, on_disk, own_ids=own)
    written = []
    for k, spec in enumerate(docs):
        x = array_of(spec)
        if layout == 'fortran':
            x = ArrayWithUnits(np.asfortranarray(x), x.dimensions)
        elif layout == 'view':
            big = np.zeros(tuple(2 * s for s in x.shape), dtype=x.dtype)
            view = big[tuple(slice(None, None, 2) for _ in x.shape)]
            view[...] = x
            x = ArrayWithUnits(view, x.dimensions)
        written.append((store.write(
            cut(x, cuts), 'document %d' % k if own else None), x))
    ctx.nontrivial(len(docs) > 1 or written[0][1].ndim > 1)
    ctx.label('disk' if on_disk else 'memory', layout)
    for _id, x in written:
        same(store.read(_id), x)
    store.reopen()
    for _id, x in written[::-1]:
        same(store.read(_id), x)
    assert set(d._id for d in store.model) == set(i for i, _ in written)


@suite.part(
    quick=80, thorough=1000, rows=st.one_of(
        st.integers(1, 50), st.integers(50, 4000), st.integers(4000, 90000)),
    n=st.integers(1, 2000), spec=DIM, t=gen.time_dims(),
    dtype=st.sampled_from(DTYPES), cuts=st.lists(
        st.integers(0, 10 ** 6), max_size=3), on_disk=st.booleans(),
    seed=gen.seeds)
def large_arrays_survive_storage(
        ctx, rows, n, spec, t, dtype, cuts, on_disk, seed):
    """long arrays, and arrays of many bands, in chunks of any size"""
    n = min(n, 500000 // rows)
    dim, size = dim_of(spec, n)
    # whatever it's cut into has the dimensions of the first chunk
    x = ArrayWithUnits(
        fill((rows, size), dtype, seed), [gen.build_dim(t), dim])
    store = Store(zounds.ArrayWithUnitsFeature, on_disk)
    got = store.read(store.write(cut(x, cuts)))
    assert got.shape == x.shape and got.dtype == x.dtype
    assert np.array_equal(np.asarray(got), np.asarray(x))
    assert got.dimensions[0].frequency == x.dimensions[0].frequency
    assert got.dimensions[0].duration == x.dimensions[0].duration
    same_dim(got.dimensions[1], x.dimensions[1])
    ctx.nontrivial(rows > 1000 or size > 300)
    ctx.label(spec[0])


@suite.part(
    quick=400, n=st.integers(1, 8), dims=st.lists(
        DIM, min_size=1, max_size=4))
def dimensions_survive_json(ctx, n, dims):
    """dimensions of every kind come back from text"""
    dims = [dim_of(d, n) for d in dims]
    # the sizes are known once there is an array
    x = ArrayWithUnits(np.zeros([s for _, s in dims]), [d for d, _ in dims])
    encoded = json.loads(json.dumps(
        list(DimensionEncoder().encode(x.dimensions))))
    decoded = list(DimensionDecoder().decode(encoded))
    ctx.nontrivial(len(dims) > 1)
    assert len(decoded) == len(dims)
    for a, b in zip(decoded, x.dimensions):
        same_dim(a, b)


@suite.part(
    quick=200, n=st.integers(2, 8), kind=SCALES, rows=st.integers(1, 4),
    at=st.floats(0, 1), width=st.floats(.01, 1), t=gen.time_dims(),
    explicit=st.booleans(), seed=gen.seeds)
def stored_arrays_answer_queries_alike(
        ctx, n, kind, rows, at, width, t, explicit, seed):
    """selecting by time and frequency gives the same from the stored array
    and from the original"""
    d, size = dim_of(('explicit' if explicit else 'freq', kind), n)
    x = ArrayWithUnits(
        fill((rows, size), 'f8', seed), [gen.build_dim(t), d])
    store = Store(ArrayWithUnitsFeature, False)
    got = store.read(store.write([x]))
    bands = list(d.scale)
    lo, hi = bands[0].start_hz, bands[-1].stop_hz
    start = lo + at * (hi - lo) * .9
    queries = [bands[int(at * (len(bands) - 1))]]
    if not explicit:
        queries.append(FrequencyBand(start, start + width * (hi - lo)))
    f = x.dimensions[0].frequency
    ts = TimeSlice(duration=f * max(1, int(rows * width)), start=f * int(
        at * (rows - 1)))
    ctx.nontrivial(rows > 1)

    def query(arr, index):
        try:
            return arr[index]
        except (ValueError, IndexError) as e:
            return type(e)

    for q in queries:
        for index in ((slice(None), q), (ts, q), (ts,)):
            a, b = query(got, index), query(x, index)
            if isinstance(b, type):
                assert a is b
            else:
                same(a, b)


@suite.part(
    quick=200, rows=st.lists(st.integers(1, 4), min_size=1, max_size=3),
    n=st.integers(1, 40), inner=st.integers(0, 3), t=gen.time_dims(),
    dtype=st.sampled_from(['u1', '?', 'i8', 'f8']), on_disk=st.booleans(),
    as_encoder=st.booleans(), seed=gen.seeds)
def packed_bits_survive_storage(
        ctx, rows, n, inner, t, dtype, on_disk, as_encoder, seed):
    """bits are stored eight to a byte, in order"""
    total = sum(rows)
    shape = (total,) + ((inner,) if inner else ()) + (n,)
    bits = gen.rng(seed).randint(0, 2, shape).astype(dtype)
    dims = [gen.build_dim(t)] + [IdentityDimension()] * (len(shape) - 1)
    x = ArrayWithUnits(bits, dims)
    if as_encoder:
        store = Store(ArrayWithUnitsFeature, on_disk,
                      encoder=PackedArrayWithUnitsEncoder)
    else:
        store = Store(PackedArrayWithUnitsFeature, on_disk)
    edges = np.cumsum([0] + rows)
    _id = store.write([x[a:b] for a, b in zip(edges[:-1], edges[1:])])
    store.reopen()
    got = store.read(_id)
    ctx.nontrivial(len(rows) > 1 and n > 8)
    assert got.dtype == np.uint8
    assert got.shape == shape[:-1] + (-(-n // 8),)
    back = np.unpackbits(np.asarray(got), axis=-1)
    assert np.array_equal(back[..., :n], bits.astype(np.uint8))
    assert not back[..., n:].any()
    same_dim(got.dimensions[0], x.dimensions[0])


@suite.part(
    quick=200, rate=st.sampled_from(sorted(gen.SAMPLERATES)),
    chunks=st.lists(st.integers(1, 300), min_size=1, max_size=4),
    channels=st.integers(1, 3), on_disk=st.booleans(),
    dtype=st.sampled_from(['f8', 'f4', 'i2']), seed=gen.seeds)
def audio_survives_storage(
        ctx, rate, chunks, channels, on_disk, dtype, seed):
    """stored audio is audio, at its sample rate"""
    n = sum(chunks)
    raw = fill((n, channels) if channels > 1 else (n,), dtype, seed)
    x = AudioSamples(raw.copy(), gen.SAMPLERATES[rate]())
    store = Store(AudioSamplesFeature, on_disk)
    edges = np.cumsum([0] + chunks)
    _id = store.write([x[a:b] for a, b in zip(edges[:-1], edges[1:])])
    store.reopen()
    got = store.read(_id)
    ctx.nontrivial(len(chunks) > 1 or channels > 1)
    is_audio(got, rate, channels, n)
    assert got.samplerate == x.samplerate
    assert got.dtype == raw.dtype
    assert np.array_equal(np.asarray(got), raw)
    assert gen.ps(got.end) == gen.ps(x.end)


@suite.part(
    quick=200, specs=st.lists(adaptives(), min_size=1, max_size=3),
    on_disk=st.booleans(), pick=gen.picks)
def adaptive_arrays_survive_storage(ctx, specs, on_disk, pick):
    """every band of a stored frequency-adaptive array comes back"""
    store = Store(FrequencyAdaptiveFeature, on_disk)
    ids = []
    for spec in specs:
        arrs, td, scale, fa = build_adaptive(spec)
        k = pick.integer(0, len(fa) - 1)
        ids.append(store.write([fa[:k], fa[k:]] if k else [fa]))
    store.reopen()
    for _id, spec in zip(ids, specs):
        arrs, td, scale, fa = build_adaptive(spec)
        got = store.read(_id)
        ctx.nontrivial(len(specs) > 1)
        assert isinstance(got, FrequencyAdaptive)
        assert got.shape == fa.shape and got.scale == fa.scale
        assert type(got.scale) is type(fa.scale)
        same_dim(got.time_dimension, fa.time_dimension)
        assert got.n_bands == len(arrs)
        for a, b in zip(got.iter_bands(), arrs):
            assert np.array_equal(np.asarray(a), b)


SPANS = st.one_of(
    st.tuples(
        st.integers(0, 4 * 10 ** 6), st.sampled_from(gen.UNITS),
        st.integers(0, 4 * 10 ** 6), st.sampled_from(gen.UNITS)),
    # to the picosecond, after some hours
    st.tuples(st.integers(0, 10 ** 17), st.just('ps'),
              st.integers(0, 10 ** 17), st.just('ps')))


@suite.part(
    quick=200, spans=st.lists(SPANS, min_size=1, max_size=6),
    shape=st.lists(st.integers(0, 3), min_size=1, max_size=2).map(tuple),
    dtype=st.sampled_from(['f8', 'f4', 'u1', 'c16', '?']), cuts=st.lists(
        st.integers(0, 5), max_size=2), on_disk=st.booleans(),
    cls=st.sampled_from([VariableRateTimeSeriesFeature,
                         zounds.TimeSliceFeature]), seed=gen.seeds)
def variable_rates_survive_storage(
        ctx, spans, shape, dtype, cuts, on_disk, cls, seed):
    """the slices of a variable rate series and what belongs to each"""
    spans = sorted(spans, key=lambda s: gen.ps(gen.td(s[0], s[1])))
    slices = [TimeSlice(duration=gen.td(d, v), start=gen.td(a, u))
              for a, u, d, v in spans]
    x = fill((len(spans),) + shape, dtype, seed)
    edges = sorted(set([0, len(spans)] + [c % len(spans) for c in cuts]))
    store = Store(cls, on_disk)
    _id = store.write([
        VariableRateTimeSeries(list(zip(slices[a:b], x[a:b])))
        for a, b in zip(edges[:-1], edges[1:])])
    store.reopen()
    got = store.read(_id)
    ctx.nontrivial(len(spans) > 1)
    assert isinstance(got, VariableRateTimeSeries)
    assert len(got) == len(spans)
    back = list(got.iter_slices())
    expected = sorted(
        (gen.ps(ts.start), gen.ps(ts.duration), v.tobytes())
        for ts, v in zip(slices, x))
    assert sorted(
        (gen.ps(ts.start), gen.ps(ts.duration),
         np.ascontiguousarray(v).tobytes()) for ts, v in back) == expected
    assert got.slicedata.dtype == x.dtype
    assert got.slicedata.shape == x.shape
    starts = [gen.ps(ts.start) for ts, _ in back]
    assert starts == sorted(starts)


@suite.part(
    quick=300, start=st.tuples(
        st.integers(-10 ** 15, 10 ** 15), st.sampled_from(gen.UNITS)),
    duration=st.one_of(st.none(), st.tuples(
        st.integers(0, 10 ** 15), st.sampled_from(gen.UNITS))))
def time_slices_survive_json(ctx, start, duration):
    """time slices, also open-ended and relative to the end, in any unit"""
    ts = TimeSlice(
        start=gen.td(*start),
        duration=None if duration is None else gen.td(*duration))
    encoded = json.loads(json.dumps(TimeSliceEncoder().dict(ts)))
    got = TimeSlice(**TimeSliceDecoder().kwargs(encoded))
    ctx.nontrivial(start[0] != 0)
    assert got == ts
    assert got.start == ts.start and got.start.dtype == ts.start.dtype
    if duration is None:
        assert got.duration is None
    else:
        assert got.duration == ts.duration
        assert got.duration.dtype == ts.duration.dtype


@suite.part(
    quick=60, docs=st.lists(st.tuples(
        st.integers(1, 9), st.integers(1, 4)), min_size=1, max_size=3),
    shift=st.integers(1, 9))
def what_is_not_to_be_stored_is_not(ctx, docs, shift):
    """features are stored when they're asked to be; those that aren't are
    computed anew from those that are"""
    class Source(ff.Node):
        def _process(self, data):
            yield data

    class Shift(ff.Node):
        def __init__(self, by, needs=None):
            super(Shift, self).__init__(needs=needs)
            self.by = by

        def _process(self, data):
            yield ArrayWithUnits(np.asarray(data) + self.by, data.dimensions)

    class Audio(Shift):
        def _process(self, data):
            yield AudioSamples(np.asarray(data)[:, 0] + self.by,
                               zounds.SR11025())

    class Slices(Shift):
        def _process(self, data):
            yield VariableRateTimeSeries([
                (TimeSlice(zounds.Seconds(1), start=zounds.Seconds(i)), v)
                for i, v in enumerate(np.asarray(data) + self.by)])

    class Bits(Shift):
        def _process(self, data):
            yield ArrayWithUnits(
                (np.asarray(data) + self.by) % 2 == 0, data.dimensions)

    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        source = ArrayWithUnitsFeature(Source, store=True)
        plain = ArrayWithUnitsFeature(Shift, by=shift, needs=source)
        audio = AudioSamplesFeature(Audio, by=shift, needs=source)
        vrts = VariableRateTimeSeriesFeature(Slices, by=shift, needs=source)
        slices = zounds.TimeSliceFeature(Slices, by=shift, needs=source)
        packed = PackedArrayWithUnitsFeature(Bits, by=shift, needs=source)
        kept = ArrayWithUnitsFeature(Shift, by=-shift, needs=source,
                                     store=True)

    for n, width in docs:
        raw = np.arange(n * width, dtype=np.float64).reshape((n, width))
        x = ArrayWithUnits(raw, [TimeDimension(zounds.Seconds(1)),
                                 IdentityDimension()])
        _id = Document.process(source=x)
        assert set(
            name for name, f in Document.features.items()
            if f.feature_key(_id, Document) in Document.database) == {
                'source', 'kept'}
        doc = Document(_id)
        assert np.array_equal(doc.plain, raw + shift)
        assert np.array_equal(doc.kept, raw - shift)
        assert np.array_equal(is_audio(doc.audio, 11025, 1, n),
                              raw[:, 0] + shift)
        for got in (doc.vrts, doc.slices):
            assert np.array_equal(got.slicedata, raw + shift)
        assert np.array_equal(doc.plain, raw + shift)
    ctx.nontrivial(len(docs) > 1)
