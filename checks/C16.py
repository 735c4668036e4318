"""C16: preprocessing operations and learning pipelines"""
import pickle

import featureflow as ff
import numpy as np
from hypothesis import strategies as st

import zounds
from vlib.runner import Suite
from vlib import gen
from checks.C12 import close
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, Seconds, TimeSlice
from zounds.spectral import (
    FrequencyDimension, FrequencyBand, LinearScale, GeometricScale,
    AWeighting)
from zounds.learn import (
    MeanStdNormalization, UnitNorm, Log, PreprocessingPipeline, Multiply,
    Slicer, InstanceScaling, Reshape, Weighted, MuLawCompressed, SimHash,
    AbsoluteValue, Binarize, Sharpen, Pipeline, KMeans, Learned,
    SklearnModel, WithComponents, example_wise_unit_norm, hyperplanes)

suite = Suite(
    'C16',
    'preprocessing operations and chains of them, learned from random '
    'training data and applied to other data; non-trivial = data whose '
    'values differ, or a chain of at least two operations',
    ['an operation with a trained or given scale is only inverted where '
     'that scale isn\'t vanishingly small'])

KINDS = ('normal', 'positive', 'constant', 'some constant', 'zeros', 'sparse')


def data(kind, shape, seed):
    rng = gen.rng(seed)
    x = rng.normal(0, 2, shape)
    if kind == 'positive':
        x = np.abs(x) + .1
    elif kind == 'constant':
        x[...] = 1.5
    elif kind == 'some constant':
        x[..., 0] = -.75
    elif kind == 'zeros':
        x[...] = 0
    elif kind == 'sparse':
        x[rng.uniform(0, 1, shape) < .5] = 0
        x[0] = 0
    return x


def train(node, x):
    result, = list(node._process(x))
    return result


def dimensions(ndim, n):
    if ndim == 1:
        return [IdentityDimension()]
    middle = [TimeDimension(Seconds(1))] * (ndim - 2)
    return [IdentityDimension()] + middle + [
        FrequencyDimension(LinearScale(FrequencyBand(0, 1000), n))]


def wrap(x, units):
    return ArrayWithUnits(x.copy(), dimensions(x.ndim, x.shape[-1])) \
        if units else x.copy()


def nz(x):
    return np.where(x != 0, x, 1)


def mulaw(x):
    return np.sign(x) * np.log1p(255 * np.abs(x)) / np.log1p(255)


def build(op, x):
    """(node, its definition) for data like x, learned from x"""
    kind, arg = op
    if kind == 'unitnorm':
        return UnitNorm(), lambda d: d / nz(np.sqrt(
            (d ** 2).reshape((len(d), -1)).sum(axis=1))).reshape(
                (-1,) + (1,) * (d.ndim - 1))
    if kind == 'log':
        return Log(), lambda d: np.sign(d) * np.log1p(np.abs(d))
    if kind == 'mulaw':
        return MuLawCompressed(), mulaw
    if kind == 'reshape':
        shape = x.shape[1:]
        new = (int(np.prod(shape)),) if arg % 2 else shape + (1,)
        return Reshape(new), lambda d: d.reshape((len(d),) + new)
    if kind == 'meanstd':
        mean, std = x.mean(axis=0), x.std(axis=0)
        return MeanStdNormalization(), lambda d: (d - mean) / nz(std)
    if kind == 'scaling':
        mx = (1, .5, 3)[arg % 3]
        return InstanceScaling(max_value=mx), lambda d: mx * d / nz(
            np.abs(d).reshape((len(d), -1)).max(axis=1)).reshape(
                (-1,) + (1,) * (d.ndim - 1))
    if kind == 'multiply':
        factor = (2, -.5, 10.)[arg % 3]
        return Multiply(factor), lambda d: d * factor
    if kind == 'weighted':
        w = gen.rng(arg).uniform(.5, 2, x.shape[-1])
        return Weighted(w), lambda d: d * w
    raise KeyError(kind)


INVERTIBLE = ('unitnorm', 'log', 'mulaw', 'reshape', 'meanstd', 'scaling',
              'multiply', 'weighted')
OPS = st.tuples(st.sampled_from(INVERTIBLE), st.integers(0, 99))
SHAPE = st.lists(st.integers(1, 6), min_size=1, max_size=3).map(tuple)


@suite.part(
    quick=600, op=OPS, shape=SHAPE, n=st.integers(1, 8), m=st.integers(1, 8),
    kind=st.sampled_from(KINDS), other=st.sampled_from(KINDS),
    units=st.booleans(), gain=st.sampled_from([1, 1, 1e-6, 1e-3, 30]),
    seed=gen.seeds)
def operations_match_their_definitions(
        ctx, op, shape, n, m, kind, other, units, gain, seed):
    """a node's operation computes what it is named for with what it learned,
    on the training data and on other data, and is inverted"""
    training = data(kind, (n,) + shape, seed) * gain
    fresh = data(other, (m,) + shape, seed + 1) * gain
    node, reference = build(op, training)
    result = train(node, wrap(training, units))
    pipeline = Pipeline([result])
    ctx.label(op[0])
    ctx.nontrivial(len(np.unique(fresh)) > 1)
    close(result.data, reference(training))
    for raw in (training, fresh):
        x = wrap(raw, units)
        got = pipeline.transform(x)
        close(got.data, reference(raw))
        if units and op[0] not in ('reshape',):
            assert tuple(got.data.dimensions) == tuple(x.dimensions)
        transformed = np.array(got.data)
        back = got.inverse_transform()
        # what was transformed is still there, to be inverted again
        assert np.array_equal(np.asarray(got.data), transformed)
        close(back, raw, 1e-8)
        close(got.inverse_transform(), raw, 1e-8)
        close(back, raw, 1e-8)
        if gain < 1 and len(np.unique(raw)) > 1:
            # small differences aren't lost among larger ones
            assert np.abs(np.asarray(back) - raw).max() <= 1e-6 * max(
                np.abs(raw).max(), np.abs(training).max())
        if units:
            assert isinstance(back, ArrayWithUnits)
            assert tuple(back.dimensions) == tuple(x.dimensions)
        assert np.array_equal(np.asarray(x), raw)


def chain(ops, training):
    """train every operation on the output of the one before it"""
    x, results, references = training, [], []
    for op in ops:
        node, reference = build(op, np.asarray(x))
        result = train(node, x)
        results.append(result)
        references.append(reference)
        x = result.data
    return results, references


@suite.part(
    quick=500, ops=st.lists(OPS, min_size=2, max_size=5), shape=SHAPE,
    n=st.integers(2, 8), m=st.integers(1, 8), units=st.booleans(),
    cut=st.integers(0, 5), pick=st.lists(st.integers(0, 4), max_size=4),
    seed=gen.seeds)
def pipelines_chain_and_invert(
        ctx, ops, shape, n, m, units, cut, pick, seed):
    """a pipeline transforms by every operation in order, is inverted in
    reverse order, and survives pickling; part of a pipeline is the pipeline
    of those operations"""
    training = data('normal', (n,) + shape, seed)
    fresh = data('normal', (m,) + shape, seed + 1)
    if any(k == 'reshape' for k, _ in ops):
        units = False
    results, references = chain(ops, wrap(training, units))
    pipeline = Pipeline([r.for_storage() for r in results])
    stored = pickle.loads(pickle.dumps(Pipeline(
        [r.for_storage() for r in results])))
    assert stored.version == pipeline.version
    ctx.nontrivial(len(set(ops)) > 1)
    stages = [fresh]
    for r in references:
        stages.append(r(stages[-1]))
    # a learned deviation may be all but zero after such a chain
    scale = max(1., max(np.abs(s).max() for s in stages))
    if scale > 1e4:
        ctx.label('extreme')
        return
    for p in (pipeline, stored):
        x = wrap(fresh, units)
        t = p.transform(x)
        close(t.data, stages[-1], 1e-7)
        close(t.inverse_transform(), fresh, 1e-6)
        close(t.inverse_transform(), fresh, 1e-6)
        close(t.data, stages[-1], 1e-7)
        wrapped = p.transform(x, wrapper=lambda d: np.asarray(d) + 1)
        close(wrapped.data, stages[-1] + 1, 1e-7)
    # parts of it
    cut = min(cut, len(ops))
    for p in (pipeline, stored):
        close(p[:cut].transform(wrap(fresh, units)).data, stages[cut], 1e-7)
        rest = p[cut:].transform(
            wrap(stages[cut], units)
            if stages[cut].ndim == fresh.ndim else stages[cut])
        close(rest.data, stages[-1], 1e-7)
        close(rest.inverse_transform(), stages[cut], 1e-6)
    for i in range(len(ops)):
        assert pipeline[i] is pipeline.processors[i]
    assert len(list(pipeline)) == len(ops)
    pick = [i % len(ops) for i in pick]
    picked = pipeline[pick]
    assert [p is pipeline[i] for p, i in zip(picked, pick)] == \
        [True] * len(pick)
    if 'reshape' not in [ops[i][0] for i in pick]:
        if not any(k == 'reshape' for k, _ in ops):
            expected = fresh
            for i in pick:
                expected = references[i](expected)
            close(picked.transform(fresh.copy()).data, expected, 1e-7)
    assert pipeline[list(range(len(ops)))].version == pipeline.version
    assert pipeline[:].version == pipeline.version


@suite.part(
    quick=300, a=OPS, b=OPS, shape=SHAPE, n=st.integers(3, 8),
    seed=gen.seeds, change=st.floats(.01, 2), where=st.integers(0, 999))
def versions_tell_pipelines_apart(ctx, a, b, shape, n, seed, change, where):
    """pipelines with the same operations and parameters have the same
    version, and any difference in what was learned or in order changes it"""
    training = data('normal', (n,) + shape, seed)

    def version(ops, x):
        return Pipeline(chain(ops, x)[0]).version

    v = version([a, b], training)
    assert v == version([a, b], training.copy())
    ctx.nontrivial(a != b)
    ctx.label(a[0], b[0])
    one = version([a], training)
    assert one != v
    if a != b:
        assert version([b, a], training) != v or a[0] == b[0]
    other = training.copy()
    other.ravel()[where % other.size] += change
    if a[0] == 'meanstd':
        assert version([a], other) != one
    else:
        assert version([a], other) == one
    assert Pipeline([train(Multiply(change), training)]).version != \
        Pipeline([train(Multiply(change + 1), training)]).version
    w = gen.rng(seed).uniform(1, 2, shape[-1])
    u = w.copy()
    u[where % len(u)] += change
    assert Pipeline([train(Weighted(w), training)]).version != \
        Pipeline([train(Weighted(u), training)]).version
    square = gen.rng(seed).uniform(1, 2, (3, 3))
    assert Weighted(square).transform(weighting=square).version == \
        Weighted(square).transform(
            weighting=np.asarray(square, order='F')).version
    long = gen.rng(seed).uniform(1, 2, 3000)
    other = long.copy()
    other[where * 3] += change
    assert Weighted(long).transform(weighting=long).version != \
        Weighted(other).transform(weighting=other).version
    assert Pipeline([train(Binarize(change), training)]).version != \
        Pipeline([train(Binarize(change + 1), training)]).version


@suite.part(
    quick=400, m=st.integers(1, 6), times=st.integers(2, 6),
    bands=st.integers(2, 9), how=st.sampled_from(
        ['slice', 'step', 'band', 'list', 'integer']), a=st.integers(0, 8),
    b=st.integers(1, 9), dtype=st.sampled_from(['f8', 'f4', 'c16']),
    kept=st.integers(0, 5), three=st.booleans(), seed=gen.seeds)
def slicer_keeps_only_its_slice(
        ctx, m, times, bands, how, a, b, dtype, kept, three, seed):
    """slicing gives the slice of the last axis, and inverting puts it back
    in its place among zeros; examples may be left out in between"""
    shape = (m, times, bands) if three else (m, bands)
    raw = data('normal', shape, seed).astype(dtype)
    x = wrap(raw, True)
    a, b = sorted((a % bands, b % bands))
    b += 1
    width = 1000. / bands
    index = {
        'slice': slice(a, b), 'step': slice(a, None, 2),
        'list': [a, b - 1] if a != b - 1 else [a],
        'integer': slice(-1, None),
        'band': FrequencyBand(width * (a + .1), width * (b - .1))}[how]
    raw_index = slice(a, b) if how == 'band' else index
    if how in ('slice', 'step', 'list', 'integer'):
        x = raw.copy()
    result = train(Slicer(slicex=index), x)
    pipeline = Pipeline([result.for_storage()])
    if how != 'band':
        pipeline = pickle.loads(pickle.dumps(pipeline))
    t = pipeline.transform(x)
    assert np.array_equal(np.asarray(t.data), raw[..., raw_index])
    assert t.data.dtype == raw.dtype
    ctx.nontrivial(b - a < bands)
    expected = np.zeros_like(raw)
    expected[..., raw_index] = raw[..., raw_index]
    back = t.inverse_transform()
    assert back.dtype == raw.dtype
    assert np.array_equal(np.asarray(back), expected)
    if isinstance(x, ArrayWithUnits):
        assert tuple(back.dimensions) == tuple(x.dimensions)
    kept = min(kept, m)
    t.data = t.data[:kept]
    assert np.array_equal(
        np.asarray(t.inverse_transform()), expected[:kept])


@suite.part(
    quick=300, centers=st.one_of(
        st.integers(1, 5), st.integers(1, 5), st.integers(60, 90)),
    per=st.integers(1, 6),
    features=st.integers(1, 4), units=st.booleans(), m=st.integers(1, 9),
    seed=gen.seeds)
def kmeans_assigns_the_nearest_center(
        ctx, centers, per, features, units, m, seed):
    """every example is assigned to the nearest centroid and only to it;
    inverting gives that centroid; distinct clusters are all found"""
    rng = gen.rng(seed)
    middle = rng.permutation(centers)[:, None] * 100. + rng.uniform(
        0, 1, (centers, features))
    training = np.repeat(middle, per, axis=0) + rng.uniform(
        -.1, .1, (centers * per, features))
    training = training[rng.permutation(len(training))]
    result = train(KMeans(centroids=centers), wrap(training, units))
    codebook = np.asarray(result.op.codebook)
    assert codebook.shape[1] == features and 1 <= len(codebook) <= centers
    pipeline = pickle.loads(pickle.dumps(Pipeline([result.for_storage()])))
    raw = rng.uniform(-50, 100 * centers, (m, features))
    x = wrap(raw, units)
    t = pipeline.transform(x)
    ctx.nontrivial(len(codebook) > 1)
    hot = np.asarray(t.data)
    assert hot.shape == (m, len(codebook))
    dist = ((raw[:, None] - codebook[None]) ** 2).sum(axis=-1)
    assert (hot.sum(axis=1) == 1).all() and set(np.unique(hot)) <= {0, 1}
    best = hot.argmax(axis=1)
    assert np.allclose(dist[np.arange(m), best], dist.min(axis=1))
    if units:
        assert tuple(t.data.dimensions) == (
            x.dimensions[0], IdentityDimension())
    back = t.inverse_transform()
    assert np.array_equal(np.asarray(back), codebook[best])


@suite.part(
    quick=300, words=st.integers(1, 3), shape=SHAPE, n=st.integers(2, 9),
    m=st.integers(1, 6), units=st.booleans(), packed=st.booleans(),
    gain=st.floats(.01, 100), seed=gen.seeds)
def simhash_bits_are_sides_of_planes(
        ctx, words, shape, n, m, units, packed, gain, seed):
    """every bit says on which side of its plane an example lies, so that
    loudness doesn't matter and opposites have opposite bits"""
    bits = 64 * words
    training = data('normal', (n,) + shape, seed)
    raw = data('normal', (m,) + shape, seed + 1)
    result = train(SimHash(bits=bits, packbits=packed), wrap(training, units))
    pipeline = pickle.loads(pickle.dumps(Pipeline([result.for_storage()])))
    # planes go through the origin in all directions, whatever the mean is
    many = hyperplanes(np.full(3, 5.), np.array([1., 2., 0.]), 2000)
    assert many.shape == (2000, 3)
    spread = np.asarray(many).std(axis=0)
    assert np.all(np.abs(many.mean(axis=0)) <= spread * 7 / np.sqrt(2000.))
    assert 1.6 < spread[1] / spread[0] < 2.4 and spread[2] == 0

    def hashed(d):
        x = wrap(d, units)
        got = pipeline.transform(x).data
        if units:
            assert tuple(got.dimensions) == (
                x.dimensions[0], IdentityDimension())
        got = np.asarray(got)
        if packed:
            assert got.dtype == np.uint64 and got.shape == (m, words)
            got = np.unpackbits(np.ascontiguousarray(got).view(
                np.uint8), axis=-1)
        assert got.shape == (m, bits)
        return got

    planes = np.asarray(result.op.plane_vectors)
    assert planes.shape == (bits, int(np.prod(shape)))
    ctx.nontrivial(m > 1)
    side = np.dot(raw.reshape((m, -1)), planes.T)
    clear = np.abs(side) > 1e-9
    got = hashed(raw)
    assert np.array_equal(got[clear], (side > 0)[clear])
    assert np.array_equal(hashed(raw * gain)[clear], got[clear])
    assert np.array_equal(hashed(-raw)[clear], 1 - got[clear])
    try:
        pipeline.transform(raw).inverse_transform()
        assert False, 'a hash was inverted'
    except NotImplementedError:
        pass


@suite.part(
    quick=300, shape=SHAPE, m=st.integers(1, 6), threshold=st.floats(-2, 2),
    kind=st.sampled_from(KINDS), units=st.booleans(), seed=gen.seeds,
    taps=st.integers(1, 3), whole=st.booleans())
def one_way_operations_match_their_definitions(
        ctx, shape, m, threshold, kind, units, seed, taps, whole):
    """thresholds, magnitudes and sharpening; they keep dimensions, and say
    that they can't be inverted"""
    raw = data(kind, (m,) + shape, seed)
    if whole:
        # some are equal to the threshold
        raw, threshold = np.round(raw), round(threshold)
    ctx.nontrivial(len(np.unique(raw)) > 1)
    kernel = gen.rng(seed).normal(0, 1, (taps,) * len(shape))
    kernel = kernel[tuple(slice(0, s) for s in shape)]
    nodes = [
        (Binarize(threshold=threshold), (raw > threshold).astype(np.uint8)),
        (AbsoluteValue(), np.abs(raw)),
        (Sharpen(kernel=kernel), None)]
    for node, expected in nodes:
        x = wrap(raw, units)
        result = train(node, x)
        pipeline = pickle.loads(pickle.dumps(
            Pipeline([result.for_storage()])))
        t = pipeline.transform(x)
        if expected is None:
            expected = sharpened(raw, kernel)
            close(t.data, expected, 1e-7)
        else:
            assert np.array_equal(np.asarray(t.data), expected)
            assert t.data.dtype == expected.dtype
        assert np.array_equal(np.asarray(result.data), np.asarray(t.data))
        if units:
            assert tuple(t.data.dimensions) == tuple(x.dimensions)
        assert np.array_equal(np.asarray(x), raw)
        try:
            t.inverse_transform()
            assert False, 'inverted'
        except NotImplementedError:
            pass


def sharpened(raw, kernel):
    """the positive part of every example's centered convolution"""
    out = np.zeros(raw.shape)
    for e in range(len(raw)):
        for pos in np.ndindex(*kernel.shape):
            off = [p - (k - 1) // 2 for p, k in zip(pos, kernel.shape)]
            for at in np.ndindex(*raw.shape[1:]):
                src = tuple(i - o for i, o in zip(at, off))
                if all(0 <= s < n for s, n in zip(src, raw.shape[1:])):
                    out[(e,) + at] += kernel[pos] * raw[(e,) + src]
    return np.maximum(out, 0)


class Rotation(object):
    """a stand-in for a model of scikit-learn"""

    def fit(self, x):
        assert x.ndim == 2
        self.mean_ = np.asarray(x).mean(axis=0)
        q, _ = np.linalg.qr(gen.rng(3).normal(0, 1, (x.shape[1],) * 2))
        self.components_ = q
        return self

    def transform(self, x):
        assert x.ndim == 2
        return np.dot(np.asarray(x) - self.mean_, self.components_.T)

    def inverse_transform(self, x):
        return np.dot(np.asarray(x), self.components_) + self.mean_


@suite.part(
    quick=200, shape=SHAPE, n=st.integers(2, 8), m=st.integers(1, 6),
    units=st.booleans(), components=st.booleans(), seed=gen.seeds)
def models_see_flat_examples(
        ctx, shape, n, m, units, components, seed):
    """a model is trained on and applied to flattened examples, and inverted
    to their shape"""
    training = data('normal', (n,) + shape, seed)
    raw = data('normal', (m,) + shape, seed + 1)
    cls = WithComponents if components else SklearnModel
    result = train(cls(model=Rotation()), wrap(training, units))
    pipeline = pickle.loads(pickle.dumps(Pipeline([result.for_storage()])))
    model = Rotation().fit(training.reshape((n, -1)))
    x = wrap(raw, units)
    t = pipeline.transform(x)
    ctx.nontrivial(len(shape) > 1)
    flat = raw.reshape((m, -1))
    close(t.data, model.transform(flat))
    back = t.inverse_transform()
    expected = np.dot(model.transform(flat), model.components_) \
        if components else flat
    close(back, expected.reshape(raw.shape), 1e-7)
    if units:
        assert tuple(back.dimensions) == tuple(x.dimensions)


GRAPH_NODES = {
    'meanstd': lambda needs: ff.PickleFeature(
        MeanStdNormalization, needs=needs, store=False),
    'unitnorm': lambda needs: ff.PickleFeature(
        UnitNorm, needs=needs, store=False),
    'log': lambda needs: ff.PickleFeature(Log, needs=needs, store=False),
    'multiply': lambda needs: ff.PickleFeature(
        Multiply, factor=3, needs=needs, store=False),
    'scaling': lambda needs: ff.PickleFeature(
        InstanceScaling, needs=needs, store=False)}
GRAPH_REFS = {
    'meanstd': ('meanstd', 0), 'unitnorm': ('unitnorm', 0),
    'log': ('log', 0), 'multiply': None, 'scaling': ('scaling', 0)}


@suite.part(
    quick=150, names=st.lists(
        st.sampled_from(sorted(GRAPH_NODES)), min_size=1, max_size=4),
    features=st.integers(1, 5), n=st.integers(2, 7), m=st.integers(1, 5),
    wrapper=st.booleans(), dtype=st.sampled_from([None, np.float32]),
    seed=gen.seeds)
def a_trained_graph_gives_a_reusable_pipeline(
        ctx, names, features, n, m, wrapper, dtype, seed):
    """a graph of operations learns from its input and stores a pipeline
    with them in order; a Learned node applies it within another graph"""
    training = data('normal', (n, features), seed)
    raw = data('normal', (m, features), seed + 1)
    attrs = dict(samples=ff.PickleFeature(ff.IteratorNode, store=False))
    needs, nodes = attrs['samples'], []
    for i, name in enumerate(names):
        needs = attrs['op%d' % i] = GRAPH_NODES[name](needs)
        nodes.append(needs)
    attrs['pipeline'] = ff.PickleFeature(
        PreprocessingPipeline, needs=tuple(nodes), store=True)
    Model = zounds.simple_in_memory_settings(
        type('Model', (ff.BaseModel,), attrs))
    _id = Model.process(samples=[training])
    model = Model(_id)
    ctx.nontrivial(len(names) > 1)
    x, stages = training, [raw]
    for name in names:
        ref = (lambda d: d * 3) if GRAPH_REFS[name] is None else build(
            GRAPH_REFS[name], x)[1]
        stages.append(ref(stages[-1]))
        x = ref(x)
    if max(np.abs(s).max() for s in stages) > 1e4:
        ctx.label('extreme')
        return
    t = model.pipeline.transform(raw)
    close(t.data, stages[-1], 1e-7)
    close(t.inverse_transform(), raw, 1e-6)
    assert len(list(model.pipeline)) == len(names)

    @zounds.simple_in_memory_settings
    class Other(ff.BaseModel):
        start = ff.PickleFeature(ff.IteratorNode, store=False)
        learned = ff.PickleFeature(
            Learned, learned=model, dtype=dtype,
            wrapper=(lambda d: d + 1) if wrapper else None,
            needs=start, store=True)

    _id = Other.process(start=[raw])
    close(Other(_id).learned, stages[-1] + (1 if wrapper else 0),
          1e-7 if dtype is None else 1e-2)
    for d in ('f4', 'f8'):
        node = Learned(learned=model, **gen.unless(None, dtype=dtype))
        got = list(node._process(raw.astype(d)))[0]
        want = model.pipeline.transform(raw.astype(dtype or d)).data
        assert got.dtype == want.dtype
        close(got, want, 1e-5)
    node = Learned(learned=model)
    assert node.version == model.pipeline.version
    assert Learned(learned=model, version='x').version == 'x'
    part = Learned(learned=model, pipeline_func=lambda m: m.pipeline[:1])
    close(list(part._process(raw))[0], stages[1])
    assert part.version == model.pipeline[:1].version


@suite.part(
    quick=150, bands=st.integers(2, 8), m=st.integers(1, 6), seed=gen.seeds)
def perceptual_weights_are_inverted(ctx, bands, m, seed):
    """weighting by a perceptual weighting of the frequency axis"""
    scale = GeometricScale(50, 5000, .2, bands)
    raw = data('normal', (m, bands), seed)
    x = ArrayWithUnits(
        raw.copy(), [TimeDimension(Seconds(1)), FrequencyDimension(scale)])
    pipeline = Pipeline([train(Weighted(AWeighting()), x)])
    t = pipeline.transform(x)
    close(t.data, raw * AWeighting().weights(scale))
    back = t.inverse_transform()
    close(back, raw)
    ctx.nontrivial(m > 1)
    assert tuple(back.dimensions) == tuple(x.dimensions)
