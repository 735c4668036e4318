"""C17: reservoirs and samplers"""
from collections import deque

import featureflow as ff
import numpy as np
from hypothesis import strategies as st

import zounds
from vlib.runner import Suite
from vlib import gen
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, Seconds
from zounds.learn import Reservoir, ReservoirSampler, ShuffledSamples
from zounds.learn.random_samples import MultiplexedReservoir, InfiniteSampler

suite = Suite(
    'C17',
    'streams of numbered samples in random chunks, sampled by reservoirs of '
    'random size; non-trivial = more than one chunk, or a stream longer than '
    'the reservoir',
    ['uniformity is tested on thousands of draws, at odds of a false alarm '
     'below one in a billion'])



class Stream(object):
    """feeds a sampler and ends its stream"""

    def __init__(self, cls, **kwargs):
        self.source = ff.Node()
        self.sampler = cls(needs=self.source, **kwargs)

    def push(self, x):
        assert self.run(x) == []

    def run(self, x=None):
        queue = deque()
        for _ in self.sampler.process(x, self.source, queue):
            pass
        return [q[2]['data'] for q in queue if 'data' in q[2]
                and q[2]['data'] is not None]

    def end(self):
        self.sampler._finish(pusher=self.source)
        out, = self.run()
        return out


CHUNKS = st.one_of(
    st.lists(st.integers(1, 12), min_size=1, max_size=8),
    st.lists(st.integers(1, 12), min_size=1, max_size=8),
    st.lists(st.integers(1, 400), min_size=1, max_size=8))
SIZES = st.one_of(st.integers(1, 30), st.integers(1, 30), st.integers(
    30, 600))
ROWS = st.lists(st.integers(1, 3), max_size=2).map(tuple)


PLACE = 10 ** 5


def rows(ids, shape, dtype='f8'):
    """the sample with number k is full of k + 1, each in its place"""
    ids = np.asarray(ids)
    places = PLACE * np.arange(int(np.prod(shape))).reshape(shape)
    return (np.zeros((len(ids),) + shape) + places + (ids + 1).reshape(
        (-1,) + (1,) * len(shape))).astype(dtype)


def numbers(arr):
    """the numbers of intact samples"""
    arr = np.asarray(arr)
    flat = arr.reshape((len(arr), int(np.prod(arr.shape[1:]))))
    assert flat.any(axis=1).all(), 'an empty slot was given as a sample'
    flat = flat - PLACE * np.arange(flat.shape[1])
    assert (flat == flat[:, :1]).all(), 'a sample was mixed with another'
    got = flat[:, 0].astype('i8') - 1
    assert (got >= 0).all(), 'an empty slot was given as a sample'
    return got


def split(chunks):
    at = 0
    for c in chunks:
        yield np.arange(at, at + c)
        at += c


def units(x):
    return ArrayWithUnits(x, [IdentityDimension()] + [
        TimeDimension(Seconds(i + 1)) for i in range(x.ndim - 1)])


@suite.part(
    quick=500, n=SIZES, chunks=CHUNKS, shape=ROWS,
    with_units=st.booleans(), dtype=st.sampled_from([None, 'f4', 'i4']),
    given=st.sampled_from(['f8', 'f4', 'i4', 'i8']),
    batch=st.one_of(st.integers(0, 40), st.integers(0, 700)), node=st.booleans(), seed=gen.seeds)
def reservoirs_hold_samples_of_the_stream(
        ctx, n, chunks, shape, with_units, dtype, given, batch, node, seed):
    """only whole samples of the stream are held, each at most where it was
    put; nothing is lost but what was written over"""
    np.random.seed(seed % 2 ** 31)
    stream = Stream(ShuffledSamples, nsamples=n, dtype=dtype)
    r = stream.sampler.reservoir if node else Reservoir(n, dtype=dtype)
    seen = 0
    ctx.nontrivial(len(chunks) > 1)
    for ids in split(chunks):
        x = rows(ids, shape, given)
        x = units(x) if with_units else x
        before = len(r)
        if node:
            stream.push(x)
        else:
            r.add(x)
        seen += len(ids)
        assert before <= len(r) <= min(n, seen)
        assert len(r) >= 1
        assert r.percent_full() == len(r) / float(n)
        got = r.get()
        held = numbers(got)
        assert len(held) == len(r) and len(set(held)) == len(held)
        assert held.max() < seen
        # at least one of the latest chunk is there
        assert (held >= ids[0]).any()
        assert got.shape[1:] == shape
        assert got.dtype == np.dtype(dtype or given)
        if with_units:
            assert isinstance(got, ArrayWithUnits)
            assert tuple(got.dimensions) == (
                (IdentityDimension(),) + x.dimensions[1:])
        if batch <= len(r):
            b = r.get_batch(batch)
            assert len(b) == batch
            assert set(numbers(b)) <= set(held)
        else:
            try:
                r.get_batch(batch)
                assert False, 'gave more than it holds'
            except ValueError:
                pass
    if node:
        assert np.array_equal(np.asarray(stream.end()), np.asarray(r.get()))


@suite.part(
    quick=400, n=st.integers(1, 20), chunks=CHUNKS, shape=ROWS,
    indices=st.lists(st.integers(0, 999), min_size=12, max_size=12),
    seed=gen.seeds)
def reservoirs_put_samples_where_told(ctx, n, chunks, shape, indices, seed):
    """with given indices, a reservoir is an array of slots"""
    r = Reservoir(n)
    slots = {}
    ctx.nontrivial(len(chunks) > 1)
    for turn, ids in enumerate(split(chunks)):
        where = [(i + turn) % n for i in (indices * 40)[:len(ids)]]
        r.add(rows(ids, shape), indices=where)
        slots.update(zip(where, ids))
        expected = [slots[k] for k in sorted(slots)]
        assert list(numbers(r.get())) == expected
        assert len(r) == len(slots)
        try:
            r.add(rows(ids, shape), indices=where + [0])
            assert False
        except ValueError:
            assert list(numbers(r.get())) == expected


@suite.part(
    quick=400, n=SIZES, chunks=CHUNKS, keys=st.integers(1, 3),
    node=st.booleans(), broken=st.lists(st.integers(0, 7), max_size=2),
    seed=gen.seeds)
def multiplexed_samples_stay_together(
        ctx, n, chunks, keys, node, broken, seed):
    """the samples of all keys at a position come from the same moment of the
    stream, also after samples that were refused"""
    np.random.seed(seed % 2 ** 31)
    stream = Stream(ShuffledSamples, nsamples=n, multiplexed=True)
    r = stream.sampler.reservoir if node else MultiplexedReservoir(n)
    names = 'abc'[:keys]
    ctx.nontrivial(keys > 1)
    seen = 0
    for turn, ids in enumerate(split(chunks)):
        x = dict((k, rows(ids, (i + 1,), 'f%d' % (4 + 4 * (i % 2))))
                 for i, k in enumerate(names))
        if node:
            stream.push(x)
        else:
            r.add(x)
        seen += len(ids)
        if turn in broken:
            ctx.label('refused')
            bad = dict((k, rows(ids + 1000, (i + 1,)))
                       for i, k in enumerate(names))
            if keys > 1 and turn % 2:
                bad[names[-1]] = bad[names[-1]][:-1]
            else:
                bad['z'] = bad.pop(names[-1])
            try:
                r.add(bad)
                assert False, 'accepted'
            except ValueError:
                pass
        got = r.get()
        assert set(got) == set(names)
        held = numbers(got['a'])
        assert len(set(held)) == len(held) and len(held) <= min(n, seen)
        assert held.max() < seen
        for i, k in enumerate(names):
            assert list(numbers(got[k])) == list(held)
            assert got[k].shape == (len(held), i + 1)


@suite.part(
    quick=400, n=SIZES, chunks=CHUNKS, shape=ROWS,
    with_units=st.booleans(), dtype=st.sampled_from(['f8', 'i4', 'c16']),
    seed=gen.seeds)
def reservoir_sampling_draws_without_replacement(
        ctx, n, chunks, shape, with_units, dtype, seed):
    """n distinct samples of the stream, or all of them if there are fewer"""
    np.random.seed(seed % 2 ** 31)
    stream = Stream(ReservoirSampler, nsamples=n)
    total = sum(chunks)
    ctx.nontrivial(total > n and len(chunks) > 1)
    ctx.label('longer' if total > n else 'shorter')
    for ids in split(chunks):
        x = rows(ids, shape, dtype)
        x = units(x) if with_units else x
        # nothing is given before the end
        stream.push(x)
    got = stream.end()
    assert got.dtype == np.dtype(dtype)
    held = numbers(got.real)
    assert len(held) == min(n, total)
    assert len(set(held)) == len(held) and held.max() < total
    if with_units:
        assert tuple(got.dimensions) == (
            (IdentityDimension(),) + x.dimensions[1:])


def bound(odds, trials):
    """seven deviations of a binomial count, and a bit for rare ones"""
    return 7 * np.sqrt(trials * odds * (1 - odds)) + 8


@suite.part(
    quick=40, n=st.integers(1, 8), chunks=st.lists(
        st.integers(1, 8), min_size=1, max_size=5), seed=gen.seeds)
def reservoir_sampling_is_uniform(ctx, n, chunks, seed):
    """every sample of the stream, and every pair, is as likely to be drawn
    as any other, however it is chunked"""
    np.random.seed(seed % 2 ** 31)
    total = sum(chunks)
    ctx.nontrivial(total > n)
    trials = 1500
    counts = np.zeros(total)
    pairs = np.zeros((total, total))
    for _ in range(trials):
        stream = Stream(ReservoirSampler, nsamples=n)
        for ids in split(chunks):
            stream.push(rows(ids, ()))
        held = numbers(stream.end())
        counts[held] += 1
        pairs[np.ix_(held, held)] += 1
    k = min(n, total)
    odds = k / float(total)
    assert (np.abs(counts - trials * odds) <= bound(odds, trials)).all(), \
        counts
    if total > 1:
        both = odds * (k - 1) / (total - 1)
        off = pairs[~np.eye(total, dtype=bool)]
        assert (np.abs(off - trials * both) <= bound(both, trials)).all()


@suite.part(
    quick=40, n=st.integers(1, 8), size=st.integers(1, 8),
    multiplexed=st.booleans(), seed=gen.seeds)
def reservoirs_are_shuffled(ctx, n, size, multiplexed, seed):
    """every slot is as likely to be written by any sample as another; the
    last sample of a chunk is always held"""
    np.random.seed(seed % 2 ** 31)
    trials = 2000
    counts = np.zeros(n)
    ctx.nontrivial(n > 1)
    batches = np.zeros(n)
    r = MultiplexedReservoir(n) if multiplexed else Reservoir(n)

    def add(k):
        x = rows(np.arange(size) + k * size, ())
        r.add(dict(a=x, b=x) if multiplexed else x)
        return numbers(r.get()['a'] if multiplexed else r.get())

    # fill every slot
    k = 0
    while len(add(k)) < n:
        k += 1
        assert k < 20000, 'some slots are never filled'
    for _ in range(trials):
        k += 1
        held = add(k)
        assert len(held) == n
        counts[held >= k * size] += 1
        assert (k + 1) * size - 1 in held
    odds = 1 - (1 - 1. / n) ** size
    assert (np.abs(counts - trials * odds) <= bound(odds, trials)).all()
    full = Reservoir(n)
    full.add(rows(np.arange(n), ()), indices=np.arange(n))
    for _ in range(trials):
        batches[numbers(full.get_batch(1))] += 1
    assert (np.abs(batches - trials / float(n)) <= bound(
        1. / n, trials)).all()


@suite.part(
    quick=60, sizes=st.lists(st.integers(1, 30), min_size=1, max_size=4),
    n=st.integers(1, 40), parallel=st.booleans(), turns=st.integers(1, 3),
    skip=st.booleans(), seed=gen.seeds)
def infinite_samplers_draw_from_the_whole_database(
        ctx, sizes, n, parallel, turns, skip, seed):
    """every batch holds only samples of stored documents, and the latest
    batch always holds some, in the dimensions of the feature"""
    np.random.seed(seed % 2 ** 31)

    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        start = ff.PickleFeature(ff.IteratorNode, store=False)
        feat = zounds.ArrayWithUnitsFeature(
            Merge, needs=start, store=True)

    at = 0
    for s in sizes:
        Document.process(start=[units(rows(np.arange(at, at + s), (2,)))])
        at += s
    ctx.nontrivial(len(sizes) > 1)
    drop = 1 if skip and min(sizes) > 1 else 0
    sampler = InfiniteSampler(
        nsamples=n, parallel=parallel, dtype=np.float32,
        feature_filter=lambda x: x[drop:])
    stream = sampler._process((Document, Document.feat))
    allowed = set()
    first = 0
    for s in sizes:
        allowed |= set(range(first + drop, first + s))
        first += s
    for _ in range(turns):
        got = next(stream)
        held = numbers(got)
        assert 1 <= len(held) <= n
        assert set(held) <= allowed
        assert got.dtype == np.float32 and got.shape[1:] == (2,)
        assert tuple(got.dimensions) == (
            IdentityDimension(), TimeDimension(Seconds(1)))


@suite.part(
    quick=12, thorough=100, sizes=st.lists(
        st.integers(2, 400), min_size=1, max_size=3), n=st.integers(200, 500),
    parallel=st.booleans(), every=st.sampled_from([1, 2, 5]), seed=gen.seeds)
def infinite_samplers_draw_evenly(ctx, sizes, n, parallel, every, seed):
    """a turn draws about as many samples as there is room for, from every
    document as its length deserves, and from all of the document"""
    np.random.seed(seed % 2 ** 31)

    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        start = ff.PickleFeature(ff.IteratorNode, store=False)
        feat = zounds.ArrayWithUnitsFeature(
            Merge, needs=start, store=True)

    at, kept, owner = 0, set(), {}
    for d, s in enumerate(sizes):
        ids = np.arange(at, at + s)
        Document.process(start=[units(rows(ids, (2,)))])
        kept |= set(ids[::every])
        owner.update((i, d) for i in ids)
        at += s
    ctx.nontrivial(len(sizes) > 1 and max(sizes) > 256)
    stream = InfiniteSampler(
        nsamples=n, parallel=parallel, feature_filter=lambda x: x[::every]
    )._process((Document, Document.feat))
    first = numbers(next(stream))
    # the slots that were written at least once
    odds = 1 - (1 - 1. / n) ** n
    assert abs(len(first) - n * odds) <= bound(odds, n) + len(sizes), (
        len(first), n * odds)
    seen, turns = set(first), 1
    # the odds of one sample not being drawn by then are below 1e-13
    enough = int(np.ceil(30. * len(kept) / n)) + 30
    shares = np.zeros(len(sizes))
    while turns < enough:
        held = numbers(next(stream))
        seen |= set(held)
        for i in held:
            shares[owner[i]] += 1
        turns += 1
    assert seen == kept, len(kept - seen)
    if parallel:
        # documents come in no particular order
        return
    lengths = [len(range(0, s, every)) for s in sizes]
    # the last of those that wrote to a slot is held
    hit = [1 - (1 - 1. / n) ** max(1, int(n * k / float(len(kept))))
           for k in lengths]
    order = [owner[numbers(Document.feat(
        _id=_id, persistence=Document))[0]]
        for _id in Document.database.iter_ids()]
    expected, left = np.zeros(len(sizes)), 1.
    for d in order[::-1]:
        expected[d] = left * hit[d]
        left *= 1 - hit[d]
    expected /= expected.sum()
    assert np.allclose(shares / shares.sum(), expected, atol=.1), (
        shares / shares.sum(), expected)


class Merge(ff.Node):
    def _process(self, data):
        yield data


@suite.part(
    quick=100, thorough=1000, chunks=CHUNKS, n=SIZES, shape=ROWS,
    dtype=st.sampled_from([None, 'f4', 'f8', 'i4']),
    given=st.sampled_from(['f8', 'f4']), with_units=st.booleans(),
    lazily=st.booleans(), seed=gen.seeds)
def learning_pipelines_sample_their_input(
        ctx, chunks, n, shape, dtype, given, with_units, lazily, seed):
    """what a learning pipeline learns from is a shuffled sample of all that
    it was given, as many as asked for, of the type that was asked for"""
    base = zounds.learning_pipeline()

    @zounds.simple_in_memory_settings
    class Learned(base):
        through = ff.PickleFeature(ff.Node, needs=base.shuffled)
        kept = ff.PickleFeature(ff.Node, needs=through, store=True)

    np.random.seed(seed % 2 ** 31)
    total = sum(chunks)
    parts = [rows(ids, shape, given) for ids in split(chunks)]
    if with_units:
        parts = [units(p) for p in parts]
    _id = Learned.process(
        samples=iter(parts) if lazily else parts, nsamples=n, dtype=dtype)
    kept = Learned(_id).kept
    assert kept.shape == (len(kept),) + shape
    assert kept.dtype == np.dtype(dtype or given)
    held = numbers(kept)
    assert len(held) <= min(n, total) and len(set(held)) == len(held)
    assert held.min() >= 0 and held.max() < total
    # some of everything that came last stays
    assert (held >= total - chunks[-1]).any()
    if total <= n and len(chunks) == 1:
        assert len(held) >= 1
    ctx.nontrivial(len(chunks) > 1 and total > n)
