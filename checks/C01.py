import numpy as np
from hypothesis import strategies as st

from vlib.runner import Suite
from vlib import gen
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, TimeSlice
from zounds.spectral import (
    FrequencyDimension, FrequencyBand, ExplicitScale,
    ExplicitFrequencyDimension)

suite = Suite(
    'C01',
    'random arrays of 1-4 axes with random identity/time/frequency dimensions '
    'and random indices over them, against numpy indexing of the raw array; '
    'non-trivial = the index has at least two elements, or a numpy integer, '
    'None, Ellipsis, list, index array, mask, negative bound or step',
    ['no zero-dimensional booleans in an index',
     'an axis of frequencies of which nothing, or something in descending '
     'order is selected has no units (there is no such scale)'])


def slices_of(n, freq):
    """(start, stop, step) with bounds in every spelling"""
    def anything():
        bound = st.one_of(st.none(), st.integers(-n - 2, n + 2))
        step = st.sampled_from([None, None, None, 1, 2, 3, -1, -2])
        return st.tuples(bound, bound, step)

    if not freq:
        return anything()

    @st.composite
    def inner(draw):
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(a + 1, n))
        if a == 0 and draw(st.booleans()):
            start = None
        else:
            start = draw(st.sampled_from([a, a - n]))
        if b == n:
            stop = draw(st.sampled_from([None, n, n + 3]))
        else:
            stop = draw(st.sampled_from([b, b - n]))
        return start, stop, draw(st.sampled_from([None, None, 1, 2]))
    return st.one_of(inner(), inner(), anything())


@st.composite
def positional(draw, shape, dim_specs, advanced=True):
    """a tuple of plain index elements valid for the shape"""
    k = draw(st.integers(0, len(shape)))
    # which axes are addressed: a prefix, or around an ellipsis
    ellipsis = draw(st.booleans())
    n_front = draw(st.integers(0, k)) if ellipsis else k
    axes = list(range(n_front)) + \
        list(range(len(shape) - (k - n_front), len(shape)))
    listed = draw(st.sampled_from(axes)) \
        if advanced and axes and draw(st.integers(0, 3)) == 0 else None
    out = []
    for pos, ax in enumerate(axes):
        n = shape[ax]
        if ellipsis and pos == n_front:
            out.append(('...',))
        if draw(st.integers(0, 7)) == 0:
            out.append(('None',))
        freq = dim_specs[ax][0] == 'freq'
        if ax == listed:
            out.append(draw(st.one_of(
                st.tuples(st.just('list'), st.lists(
                    st.integers(-n, n - 1), max_size=4)),
                st.tuples(st.just('array'), st.lists(
                    st.integers(-n, n - 1), min_size=1, max_size=4)),
                st.tuples(st.just('boollist'), st.lists(
                    st.booleans(), min_size=n, max_size=n)))))
        elif listed is None and draw(st.integers(0, 2)) == 0:
            out.append((draw(st.sampled_from(['int', 'np.int64', 'np.int32'])),
                        draw(st.integers(-n, n - 1))))
        else:
            sl = draw(slices_of(n, freq))
            out.append((draw(st.sampled_from(['slice', 'slice', 'npslice'])),)
                       + sl)
    if ellipsis and n_front == len(axes):
        out.append(('...',))
    if draw(st.integers(0, 7)) == 0:
        out.append(('None',))
    return tuple(out)


def build(e):
    if e[0] == '...':
        return Ellipsis
    if e[0] == 'None':
        return None
    if e[0] == 'int':
        return e[1]
    if e[0] == 'np.int64':
        return np.int64(e[1])
    if e[0] == 'np.int32':
        return np.int32(e[1])
    if e[0] == 'slice':
        return slice(*e[1:])
    if e[0] == 'npslice':
        return slice(*[
            None if x is None else np.int64(x) for x in e[1:3]], e[3])
    if e[0] == 'array':
        return np.array(e[1], dtype=np.int64)
    if e[0] == 'list':
        return list(e[1])
    if e[0] == 'boollist':
        return list(e[1])
    raise AssertionError(e)


def expected_dims(shape, dim_specs, index):
    """[(dimension spec, slice or None)] per axis of the result; a spec of
    None stands for an axis which carries no units"""
    used = sum(1 for e in index if e[0] not in ('...', 'None'))
    out = []
    ax = 0
    for e in index:
        if e[0] == 'None':
            out.append((None, None))
        elif e[0] == '...':
            for _ in range(len(shape) - used):
                out.append((dim_specs[ax], slice(None)))
                ax += 1
        elif e[0] in ('int', 'np.int64', 'np.int32'):
            ax += 1
        elif e[0] in ('list', 'array', 'boollist'):
            out.append((None, None))
            ax += 1
        else:
            out.append((dim_specs[ax], slice(*e[1:])))
            ax += 1
    out.extend((d, slice(None)) for d in dim_specs[ax:])
    return out


def check_dims(result, expected):
    assert len(result.dimensions) == result.ndim == len(expected)
    for dim, size, (spec, sl) in zip(
            result.dimensions, result.shape, expected):
        if spec is None:
            assert isinstance(dim, IdentityDimension), dim
        elif spec[0] == 'id':
            assert isinstance(dim, IdentityDimension), dim
        elif spec[0] == 'time':
            assert isinstance(dim, TimeDimension), dim
            assert dim.size == size
            # nothing is said of the times of every other sample
            if sl.step in (None, 1):
                assert gen.dim_matches(dim, spec), (dim, spec)
        elif not size or (size > 1 and (sl.step or 1) < 0):
            assert isinstance(dim, IdentityDimension), dim
        else:
            assert isinstance(dim, FrequencyDimension), dim
            want = gen.band_pairs(gen.build_scale(*spec[1:]))[sl]
            got = gen.band_pairs(dim.scale)
            assert len(got) == size == len(want)
            assert np.allclose(got, want, rtol=1e-6, atol=1e-6), (got, want)


def interesting(index):
    return len(index) > 1 or any(
        e[0] not in ('slice', 'int') for e in index) or any(
        x is not None and x < 0 for e in index for x in e[1:])


@st.composite
def cases(draw, advanced=True):
    spec = draw(gen.arrays())
    index = draw(positional(spec[0], spec[1], advanced))
    bare = len(index) == 1 and draw(st.booleans())
    return spec, index, bare


@suite.part(quick=2500, case=cases())
def getitem_agrees_with_numpy(ctx, case):
    """values, shape and dimensions of array[index]"""
    spec, index, bare = case
    raw, arr = gen.build_array(spec)
    idx = build(index[0]) if bare else tuple(build(e) for e in index)
    want = raw[idx]
    got = arr[idx]
    assert np.shape(got) == np.shape(want), (np.shape(got), np.shape(want))
    assert np.array_equal(np.asarray(got), want)
    for e in index:
        ctx.label(e[0])
    ctx.nontrivial(interesting(index))
    if np.ndim(want):
        assert isinstance(got, ArrayWithUnits)
        check_dims(got, expected_dims(spec[0], spec[1], index))
    # the array that was indexed is untouched
    assert np.array_equal(np.asarray(arr), raw)
    assert all(
        gen.dim_matches(d, s) for d, s in zip(arr.dimensions, spec[1]))


@suite.part(quick=2000, case=cases())
def setitem_agrees_with_numpy(ctx, case):
    """array[index] = value changes exactly the elements numpy would"""
    spec, index, bare = case
    raw, arr = gen.build_array(spec)
    idx = build(index[0]) if bare else tuple(build(e) for e in index)
    raw[idx] = -7
    arr[idx] = -7
    assert np.array_equal(np.asarray(arr), raw)
    value = np.arange(np.asarray(raw[idx]).size).reshape(
        np.shape(raw[idx])) + 1000
    if np.asarray(raw[idx]).size and not any(
            e[0] in ('list', 'array') for e in index):
        raw[idx] = value
        arr[idx] = value
        assert np.array_equal(np.asarray(arr), raw)
        ctx.nontrivial(interesting(index))
    assert all(
        gen.dim_matches(d, s) for d, s in zip(arr.dimensions, spec[1]))


# -- several arrays in one index --------------------------------------------

@st.composite
def patterns(draw):
    """(array spec, [(kind, axes used, details)]): masks over one or more axes,
    index arrays of one or two dimensions, integers, slices, None, Ellipsis"""
    shape, dims = draw(gen.arrays(min_dims=2, max_dims=4, max_side=5))
    n = len(shape)
    seed = draw(gen.seeds)
    length = draw(st.integers(0, 4))
    out = []
    ax = 0
    ellipsis = False
    while ax < n:
        kind = draw(st.sampled_from([
            'slice', 'slice', 'array', 'array', 'list', 'table', 'cube', 'int',
            'single', 'mask', 'mask', 'None', '...', 'rest']))
        if kind == 'rest':
            break
        if kind == 'None':
            if out.count(('None', 0)) < 2:
                out.append(('None', 0))
            continue
        if kind == '...':
            if ellipsis:
                continue
            ellipsis = True
            size = draw(st.integers(0, n - ax))
            out.append(('...', size))
            ax += size
            continue
        size = min(n - ax, draw(st.integers(1, 3))) if kind == 'mask' else 1
        out.append((kind, size))
        ax += size
    # (what an ellipsis stands for is what the others leave)
    if ellipsis:
        used = sum(s for k, s in out if k != '...')
        out = [(k, n - used if k == '...' else s) for k, s in out]
    return (shape, dims), tuple(out), length, seed


def build_pattern(shape, pattern, length, seed):
    """an index for an array of a shape, and one which selects from axes of
    distinct sizes in the same way, whose result's sizes tell the axes"""
    r = gen.rng(seed)
    tell = (11, 13, 17, 19)
    marked = 7
    if any(k == 'mask' for k, _ in pattern):
        # as many as the smallest mask can select
        ax, least = 0, length
        for kind, size in pattern:
            if kind == 'mask':
                least = min(least, int(np.prod(shape[ax: ax + size])))
            ax += size
        length = least
    index, probe, slices = [], [], {}
    ax = 0
    for kind, size in pattern:
        if kind == 'None':
            index.append(None)
            probe.append(None)
        elif kind == '...':
            index.append(Ellipsis)
            probe.append(Ellipsis)
        elif kind == 'slice':
            a = int(r.randint(0, shape[ax]))
            b = int(r.randint(a + 1, shape[ax] + 1))
            slices[ax] = slice(a, b)
            index.append(slices[ax])
            probe.append(slice(None))
        elif kind == 'int':
            x = int(r.randint(-shape[ax], shape[ax]))
            index.append(x if r.randint(2) else np.int64(x))
            probe.append(0)
        elif kind == 'mask':
            part = shape[ax: ax + size]
            mask = np.zeros(int(np.prod(part)), dtype=bool)
            mask[r.permutation(mask.size)[:length]] = True
            index.append(mask.reshape(part))
            other = np.zeros(int(np.prod(tell[ax: ax + size])), dtype=bool)
            other[:marked] = True
            probe.append(other.reshape(tell[ax: ax + size]))
        else:
            dims = {'array': (length,), 'list': (length,),
                    'table': (2, length), 'cube': (2, 2, length),
                    'single': (1,)}[kind]
            x = r.randint(-shape[ax], shape[ax], dims)
            index.append(x.tolist() if kind == 'list' and length else x)
            probe.append(np.zeros(
                {'table': (3, marked), 'cube': (2, 3, marked),
                 'single': (1,)}.get(kind, (marked,)),
                dtype=int))
        ax += size
    told = np.zeros(tell[:len(shape)], dtype=np.int8)[tuple(probe)].shape
    return tuple(index), [
        tell.index(n) if n in tell else None for n in told], slices


@suite.part(quick=2000, case=patterns())
def several_arrays_in_an_index(ctx, case):
    """masks, index arrays, and integers, however many there are, next to each
    other or apart: numpy's elements in numpy's order; other axes keep their
    dimensions wherever numpy puts them"""
    spec, pattern, length, seed = case
    shape, dims = spec
    raw, arr = gen.build_array(spec)
    index, axes, slices = build_pattern(shape, pattern, length, seed)
    if not index:
        return
    try:
        want = raw[index]
    except IndexError:
        return
    arrays = [k for k, _ in pattern
              if k in ('array', 'list', 'table', 'cube', 'single', 'mask')]
    ctx.nontrivial(len(arrays) > 1)
    ctx.label('%d arrays' % len(arrays))
    got = arr[index]
    assert np.shape(got) == np.shape(want), (np.shape(got), np.shape(want))
    assert np.array_equal(np.asarray(got), want)
    if np.ndim(want):
        check_dims(got, [
            (None, None) if ax is None
            else (dims[ax], slices.get(ax, slice(None))) for ax in axes])
    raw[index] = -5
    arr[index] = -5
    assert np.array_equal(np.asarray(arr), raw)
    assert all(gen.dim_matches(d, s) for d, s in zip(arr.dimensions, dims))


@suite.part(
    quick=600, spec=gen.arrays(max_dims=3), seed=gen.seeds,
    threshold=st.integers(0, 10))
def masks_agree_with_numpy(ctx, spec, seed, threshold):
    """boolean masks of the array's own shape, read and assigned"""
    raw, arr = gen.build_array(spec)
    mask = gen.rng(seed).randint(0, 11, spec[0]) > threshold
    ctx.nontrivial(mask.any() and not mask.all())
    for m in (mask, ArrayWithUnits(mask, arr.dimensions)):
        assert np.array_equal(np.asarray(arr[m]), raw[mask])
    raw[mask] = -1
    arr[mask] = -1
    assert np.array_equal(np.asarray(arr), raw)


@st.composite
def custom_cases(draw):
    """an index in which one or two elements are time slices or bands"""
    shape = tuple(draw(st.lists(
        st.integers(1, 6), min_size=2, max_size=4)))
    dim_specs = []
    for n in shape:
        f = draw(st.integers(1, 1000)), draw(st.sampled_from(gen.UNITS))
        dim_specs.append(draw(st.sampled_from([
            ('id',), ('time', f, f), ('time', f, f),
            ('freq', 'linear', 0, 1000 + f[0], n)])))
    index = []
    left = len(shape)
    seen_ellipsis = False
    while left and draw(st.integers(0, 5)):
        what = draw(st.integers(0, 9))
        if what == 0:
            index.append(('None',))
        elif what in (1, 2) and not seen_ellipsis:
            seen_ellipsis = True
            index.append(('...',))
        else:
            index.append(('axis',))
            left -= 1
    used = sum(1 for e in index if e[0] == 'axis')
    ax = 0
    for i, e in enumerate(index):
        if e[0] == '...':
            ax += len(shape) - used
        elif e[0] == 'axis':
            freq = dim_specs[ax][0] == 'freq'
            if draw(st.integers(0, 4)) == 0:
                index[i] = ('int', draw(st.integers(0, shape[ax] - 1)))
            else:
                index[i] = ('slice',) + draw(slices_of(shape[ax], True))
            ax += 1
    return (shape, tuple(dim_specs)), tuple(index), draw(st.lists(
        st.sampled_from([True, True, True, False]),
        min_size=len(index), max_size=len(index)))


@suite.part(quick=1500, case=custom_cases())
def custom_slices_act_on_their_own_axis(ctx, case):
    """a positional slice replaced by the time slice or frequency band that
    covers the same elements selects the same data, whatever surrounds it"""
    spec, index, replace = case
    shape, dim_specs = spec
    raw, arr = gen.build_array(spec)
    used = sum(1 for e in index if e[0] not in ('...', 'None'))
    ax = 0
    plain, custom = [], []
    n_custom = 0
    for e, r in zip(index, replace):
        p = c = build(e)
        if e[0] == '...':
            ax += len(shape) - used
        elif e[0] != 'None':
            d = dim_specs[ax]
            if r and e[0] in ('slice', 'npslice') and d[0] != 'id':
                start, stop, _ = slice(*e[1:3]).indices(shape[ax])
                if stop > start:
                    c = p = slice(start, stop)
                    if d[0] == 'time' and d[1] == d[2]:
                        f = gen.td(*d[1])
                        c = TimeSlice(
                            start=f * start, duration=f * (stop - start))
                        n_custom += 1
                    elif d[0] == 'freq' and d[1] == 'linear':
                        bands = list(gen.build_scale(*d[1:]))[start: stop]
                        quarter = bands[0].bandwidth / 4
                        c = FrequencyBand(
                            bands[0].start_hz + quarter,
                            bands[-1].stop_hz - quarter)
                        n_custom += 1
            ax += 1
        plain.append(p)
        custom.append(c)
    want = raw[tuple(plain)]
    got = arr[tuple(custom)]
    ctx.nontrivial(n_custom)
    ctx.label('custom=%d' % n_custom)
    assert np.shape(got) == np.shape(want), (np.shape(got), np.shape(want))
    assert np.array_equal(np.asarray(got), want)
    same = arr[tuple(plain)]
    if np.ndim(want):
        assert len(got.dimensions) == len(same.dimensions) == got.ndim
        for a, b in zip(got.dimensions, same.dimensions):
            assert type(a) is type(b)
            if isinstance(a, FrequencyDimension):
                assert gen.same_bands(a.scale, b.scale)
            else:
                assert a == b
    arr2 = ArrayWithUnits(raw.copy(), arr.dimensions)
    arr2[tuple(custom)] = -3
    raw[tuple(plain)] = -3
    assert np.array_equal(np.asarray(arr2), raw)


@st.composite
def banded(draw):
    """sizes of bands, the position of their axis, the other axes, and an
    index for each axis"""
    sizes = draw(st.lists(st.integers(1, 4), min_size=1, max_size=5))
    others = draw(st.lists(st.tuples(
        st.integers(1, 4), st.sampled_from(['id', 'time'])), max_size=2))
    where = draw(st.integers(0, len(others)))
    index = []
    for n, _ in others:
        index.append(draw(st.sampled_from([
            slice(None), slice(None), 0, slice(0, n), slice(n // 2, None),
            slice(None, None, -1), [0, n - 1]])))
    n = len(sizes)
    first = draw(st.integers(0, n - 1))
    last = draw(st.integers(first, n - 1))
    mine = draw(st.sampled_from([
        'all', 'all', 'band', 'bands', 'left out', 'ellipsis', 'number',
        'slice']))
    return sizes, others, where, index, (first, last), mine, \
        draw(st.booleans())


@suite.part(quick=800, case=banded())
def axes_of_explicit_bands(ctx, case):
    """an axis with a range of coefficients for each band keeps them as long as
    whole bands are picked, and picking from the others leaves it alone"""
    sizes, others, where, index, (first, last), mine, new = case
    edges = np.cumsum([0] + sizes)
    bands = [FrequencyBand(100. * i, 100. * (i + 1))
             for i in range(len(sizes))]
    slices = [slice(int(a), int(b)) for a, b in zip(edges[:-1], edges[1:])]
    dims = [TimeDimension(gen.td(k + 1, 's')) if kind == 'time'
            else IdentityDimension() for k, (_, kind) in enumerate(others)]
    dims.insert(
        where, ExplicitFrequencyDimension(ExplicitScale(bands), slices))
    shape = [n for n, _ in others]
    shape.insert(where, int(edges[-1]))
    raw = np.arange(int(np.prod(shape))).reshape(shape)
    arr = ArrayWithUnits(raw.copy(), dims)
    if not new or any(isinstance(i, list) for i in index):
        # (an index array at a distance from an integer moves its axis)
        index = [slice(i, i + 1) if isinstance(i, int) else i for i in index]
    if len([i for i in index if isinstance(i, list)]) > 1:
        index[0] = slice(None)
    kept = (0, len(sizes))
    plain = custom = slice(None)
    if mine == 'band':
        plain, custom, kept = slices[first], bands[first], (first, first + 1)
    elif mine == 'bands':
        plain = slice(slices[first].start, slices[last].stop)
        custom = FrequencyBand(100. * first + 20, 100. * last + 80)
        kept = first, last + 1
    elif mine == 'number':
        plain = custom = int(edges[first])
    elif mine == 'slice':
        plain = custom = slice(int(edges[first]) + 1, int(edges[last + 1]))
    elif mine == 'ellipsis':
        plain = custom = Ellipsis
    plain = tuple(index[:where] + [plain] + index[where:])
    custom = tuple(index[:where] + [custom] + index[where:])
    if mine == 'left out':
        # the axis, and the ones after it, aren't mentioned
        plain, custom = plain[:where], custom[:where]
    want, got = raw[plain], arr[custom]
    ctx.label(mine)
    ctx.nontrivial(len(sizes) > 1 and len(others) > 0)
    assert np.array_equal(np.asarray(got), want)
    arr2 = ArrayWithUnits(raw.copy(), dims)
    arr2[custom] = -1
    raw2 = raw.copy()
    raw2[plain] = -1
    assert np.array_equal(np.asarray(arr2), raw2)
    assert np.array_equal(np.asarray(arr), raw)
    if not np.ndim(want):
        return
    assert len(got.dimensions) == got.ndim
    explicit = [
        (k, d) for k, d in enumerate(got.dimensions)
        if isinstance(d, ExplicitFrequencyDimension)]
    if mine in ('number', 'slice'):
        assert not explicit
        return
    (k, d), = explicit
    assert k == len([
        i for i in custom[:where] if not isinstance(i, int)])
    assert gen.band_pairs(d.scale) == [
        (b.start_hz, b.stop_hz) for b in bands[kept[0]: kept[1]]]
    offset = slices[kept[0]].start
    assert [(s.start, s.stop) for s in d.slices] == [
        (s.start - offset, s.stop - offset)
        for s in slices[kept[0]: kept[1]]]
    for a, b in enumerate(range(*kept)):
        at = (slice(None),) * k
        assert np.array_equal(
            np.asarray(got[at + (bands[b],)]),
            want[at + (slice(slices[b].start - offset,
                             slices[b].stop - offset),)])


@suite.part(quick=400, spec=gen.arrays(min_dims=1, max_dims=3))
def iteration_and_length(ctx, spec):
    """iterating and len() agree with the raw array, items keep the
    remaining dimensions"""
    raw, arr = gen.build_array(spec)
    assert len(arr) == len(raw)
    items = list(arr)
    assert len(items) == len(raw)
    ctx.nontrivial(raw.ndim > 1 and len(raw) > 1)
    for got, want in zip(items, raw):
        assert np.array_equal(np.asarray(got), want)
        if raw.ndim > 1:
            check_dims(got, [(d, slice(None)) for d in spec[1][1:]])
