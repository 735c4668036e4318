import numpy as np
from hypothesis import strategies as st

from vlib.runner import Suite
from vlib import gen
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension
from zounds.spectral import (
    FrequencyBand, FrequencyDimension, LinearScale, GeometricScale, Hertz,
    ExplicitScale)

suite = Suite(
    'C03',
    'random scales (linear, geometric, bark, mel, explicit) and random '
    'frequency bands / Hertz slices, against a linear scan over the bands; '
    'non-trivial = some but not all bands are selected',
    ['bands of a scale have increasing starts and stops',
     'a band that only touches the lower edge of the queried band counts as '
     'selected (pinned by the existing tests); one that only touches the '
     'upper edge does not',
     'queries of an array select at least one band (a scale cannot be empty)'])

scales = st.tuples(
    st.sampled_from(['linear', 'linear', 'geometric', 'gaps', 'bark', 'mel',
                     'explicit']),
    st.integers(0, 2000), st.integers(60, 20000), st.integers(1, 40))


def build_scale(spec):
    kind, lo, width, n = spec
    if kind == 'linear':
        return LinearScale(FrequencyBand(lo, lo + width), n)
    if kind == 'gaps':
        return GeometricScale(lo + 1, lo + 1 + width, 0.01, n)
    return gen.build_scale(kind, lo + 1, lo + 1 + width, n)


def select(pairs, lo, hi):
    """indices of the bands which intersect [lo, hi), by inspection"""
    return [i for i, (a, b) in enumerate(pairs) if b >= lo and a < hi]


@st.composite
def queries(draw):
    """a scale and two positions given relative to its bands"""
    spec = draw(scales)
    n = spec[3]

    def position():
        return (draw(st.integers(0, n - 1)), draw(st.sampled_from(
            ['start', 'stop', 'center', 'below', 'above', 'inside'])),
                draw(st.integers(1, 99)))
    return spec, position(), position()


def resolve(pairs, position):
    i, where, percent = position
    a, b = pairs[i]
    return {
        'start': a, 'stop': b, 'center': (a + b) / 2.,
        'below': a - percent * 0.37, 'above': b + percent * 0.37,
        'inside': a + (b - a) * percent / 100.}[where]


def bounds(pairs, case):
    lo, hi = sorted((resolve(pairs, case[1]), resolve(pairs, case[2])))
    if hi <= lo:
        hi = lo + 1.
    return lo, hi


@suite.part(quick=3000, case=queries())
def scale_slices_are_the_intersecting_bands(ctx, case):
    """scale.get_slice(band) and scale[band]"""
    scale = build_scale(case[0])
    pairs = gen.band_pairs(scale)
    assert len(pairs) == len(scale) == case[0][3]
    lo, hi = bounds(pairs, case)
    want = select(pairs, lo, hi)
    sl = scale.get_slice(FrequencyBand(lo, hi))
    got = list(range(len(pairs)))[sl]
    assert got == want, (got, want)
    ctx.label(case[0][0], 'none' if not want else 'some')
    ctx.nontrivial(0 < len(want) < len(pairs))
    if want:
        sub = scale[FrequencyBand(lo, hi)]
        assert len(sub) == len(want)
        got = gen.band_pairs(sub)
        assert np.allclose(got, [pairs[i] for i in want], rtol=1e-7, atol=1e-6)
        assert np.isclose(sub.start_hz, pairs[want[0]][0], atol=1e-6)
        assert np.isclose(sub.stop_hz, pairs[want[-1]][1], rtol=1e-6)


@suite.part(
    quick=2000, case=queries(), n_frames=st.integers(1, 4),
    form=st.sampled_from([
        'band', 'a:b', 'a:', ':b', '-a:', ':-b', 'a:-b', '-a:b', '-a:-b']))
def frequency_axes_are_sliced_by_frequency(ctx, case, n_frames, form):
    """array[..., band] and array[..., Hz(a):Hz(b)] return the coefficients of
    exactly the intersecting bands; the new scale describes those bands"""
    scale = build_scale(case[0])
    pairs = gen.band_pairs(scale)
    lo, hi = bounds(pairs, case)
    top = float(scale.stop_hz)
    raw = np.arange(n_frames * len(pairs)).reshape((n_frames, len(pairs)))
    arr = ArrayWithUnits(
        raw.copy(), [IdentityDimension(), FrequencyDimension(scale)])
    index = FrequencyBand(lo, hi)
    if form != 'band':
        if lo < 1 or hi > top - 1 or hi < lo + 1e-3:
            form = 'band'
        elif form == 'a:b':
            index = slice(Hertz(lo), Hertz(hi))
        elif form == 'a:':
            index, hi = slice(Hertz(lo), None), top
        elif form == ':b':
            index, lo = slice(None, Hertz(hi)), 0.
        elif form == '-a:':
            index = slice(Hertz(lo - top), None)
            lo, hi = top + (lo - top), top
        elif form == ':-b':
            index = slice(None, Hertz(hi - top))
            lo, hi = 0., top + (hi - top)
        elif form == 'a:-b':
            index = slice(Hertz(lo), Hertz(hi - top))
            hi = top + (hi - top)
        elif form == '-a:b':
            index = slice(Hertz(lo - top), Hertz(hi))
            lo = top + (lo - top)
        elif form == '-a:-b':
            index = slice(Hertz(lo - top), Hertz(hi - top))
            lo, hi = top + (lo - top), top + (hi - top)
    ctx.label(form)
    want = select(pairs, lo, hi)
    if not want:
        # nothing intersects: ask for the band in question instead
        want = [case[1][0]]
        a, b = pairs[want[0]]
        index = FrequencyBand((a + b) / 2., (a + b) / 2. + 1e-3)
        want = select(pairs, index.start_hz, index.stop_hz)
    for got in (arr[:, index], arr[..., index]):
        assert np.array_equal(np.asarray(got), raw[:, want])
        dim = got.dimensions[1]
        assert isinstance(dim, FrequencyDimension)
        assert np.allclose(
            gen.band_pairs(dim.scale), [pairs[i] for i in want],
            rtol=1e-7, atol=1e-6)
    ctx.nontrivial(len(want) < len(pairs))
    # one dimensional arrays, and assignment
    row = ArrayWithUnits(raw[0].copy(), [FrequencyDimension(scale)])
    assert np.array_equal(np.asarray(row[index]), raw[0, want])
    arr[:, index] = -1
    raw[:, want] = -1
    assert np.array_equal(np.asarray(arr), raw)


@suite.part(quick=1500, first=queries(), pick=st.tuples(
    st.integers(0, 39), st.integers(0, 39)))
def slicing_again_finds_the_same_bands(ctx, first, pick):
    """a sub-array answers frequency queries like the whole, for the bands it
    still has"""
    scale = build_scale(first[0])
    pairs = gen.band_pairs(scale)
    lo, hi = bounds(pairs, first)
    want = select(pairs, lo, hi)
    if not want:
        return
    raw = np.arange(len(pairs))
    arr = ArrayWithUnits(raw, [FrequencyDimension(scale)])
    sub = arr[FrequencyBand(lo, hi)]
    # the interior of a band of the sub-array
    i = want[pick[0] % len(want)]
    j = want[pick[1] % len(want)]
    i, j = min(i, j), max(i, j)
    a = pairs[i][0] + (pairs[i][1] - pairs[i][0]) * 0.49
    b = pairs[j][0] + (pairs[j][1] - pairs[j][0]) * 0.51
    again = sub[FrequencyBand(a, b)]
    expect = [k for k in select(pairs, a, b) if k in want]
    assert np.asarray(again).tolist() == expect
    assert np.allclose(
        gen.band_pairs(again.dimensions[0].scale),
        [pairs[k] for k in expect], rtol=1e-6, atol=1e-6)
    ctx.nontrivial(1 < len(want) < len(pairs))


@suite.part(
    quick=800, spec=scales, start=st.integers(-45, 45),
    stop=st.integers(-45, 45), step=st.sampled_from([None, None, 1, 2, 3]))
def integer_slices_of_scales(ctx, spec, start, stop, step):
    """scale[i] is a band; scale[i:j:k] holds exactly the sliced bands"""
    scale = build_scale(spec)
    pairs = gen.band_pairs(scale)
    sl = slice(start, stop, step)
    want = pairs[sl]
    for i in range(len(pairs)):
        b = scale[i]
        assert (b.start_hz, b.stop_hz) == pairs[i]
    if want:
        sub = scale[sl]
        assert len(sub) == len(want)
        assert np.allclose(gen.band_pairs(sub), want, rtol=1e-7, atol=1e-6)
    ctx.nontrivial(0 < len(want) < len(pairs))


@suite.part(
    quick=400, n=st.integers(1, 6), several=st.integers(2, 4),
    kind=st.sampled_from(['explicit', 'linear', 'geometric']),
    asked=st.lists(st.tuples(st.integers(0, 59), st.integers(1, 30)),
                   min_size=1, max_size=4), seed=gen.seeds)
def scales_are_independent(ctx, n, several, kind, asked, seed):
    """scales that are much alike each have their own bands"""
    r = gen.rng(seed)
    scales = []
    for k in range(several):
        if kind == 'explicit':
            edges = [0] + sorted(
                r.permutation(np.arange(1, 60))[:n - 1].tolist()) + [60]
            scales.append(ExplicitScale([
                FrequencyBand(a, b) for a, b in zip(edges[:-1], edges[1:])]))
        elif kind == 'linear':
            scales.append(LinearScale(
                FrequencyBand(0, 60), n, always_even=bool(k % 2)))
        else:
            scales.append(GeometricScale(5, 50, 0.1 * (k + 1), n + 1))
    different = set()
    for start, width in asked:
        for scale in scales:
            pairs = gen.band_pairs(scale)
            want = select(pairs, start, start + width)
            sl = scale.get_slice(FrequencyBand(start, start + width))
            got = list(range(len(pairs)))[sl]
            if scale.always_even and len(want) % 2:
                assert len(got) % 2 == 0 or sl.stop > len(pairs)
                assert got[:len(want)] == want
            else:
                assert got == want
            if want:
                sub = gen.band_pairs(scale[FrequencyBand(start, start + width)])
                assert np.allclose(
                    sub[:len(want)], [pairs[i] for i in want])
            different.add(tuple(got))
    ctx.nontrivial(len(different) > 1)


@suite.part(quick=800, case=queries())
def even_slices_on_demand(ctx, case):
    """scales that promise even-sized slices extend a slice by at most one"""
    kind, lo, width, n = case[0]
    plain = LinearScale(FrequencyBand(lo, lo + width), n)
    even = LinearScale(FrequencyBand(lo, lo + width), n, always_even=True)
    pairs = gen.band_pairs(plain)
    a, b = bounds(pairs, case)
    p = plain.get_slice(FrequencyBand(a, b))
    q = even.get_slice(FrequencyBand(a, b))
    size = p.stop - p.start
    assert q.start == p.start and (q.stop - q.start) % 2 == 0
    assert q.stop == p.stop + (size % 2)
    ctx.nontrivial(size % 2 == 1)
