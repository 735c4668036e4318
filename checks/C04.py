import numpy as np
from hypothesis import strategies as st

from vlib.runner import Suite
from vlib import gen
from zounds.timeseries import SampleRate
from zounds.spectral import (
    FrequencyBand, LinearScale, GeometricScale, BarkScale, MelScale,
    ExplicitScale, Hertz)

suite = Suite(
    'C04',
    'random scale parameters of every scale class and random pairs of bands, '
    'against the defining formula of each scale; non-trivial = more than one '
    'band / the bands overlap partially',
    ['1 <= bands of a scale <= 400, frequencies between 0 and 40 kHz'])

spans = st.tuples(st.integers(0, 3000), st.integers(50, 30000))


def asinh_bark(hz):
    return 6. * np.arcsinh(np.asarray(hz) / 600.)


def mel(hz):
    return 1127. * np.log1p(np.asarray(hz) / 700.)


def common(scale, n):
    pairs = np.array(gen.band_pairs(scale))
    assert len(scale) == scale.n_bands == n == len(pairs)
    starts, stops = pairs.T
    assert (np.diff(starts) > 0).all() and (np.diff(stops) > 0).all()
    centers = np.array(list(scale.center_frequencies), dtype=float)
    widths = np.array(list(scale.bandwidths), dtype=float)
    assert np.allclose(centers, (starts + stops) / 2, rtol=1e-9)
    assert np.allclose(widths, stops - starts, rtol=1e-9, atol=1e-9)
    assert np.allclose(scale.Q, centers / widths, rtol=1e-9)
    # bands is what iteration yields
    assert gen.band_pairs(scale.bands) == gen.band_pairs(scale)
    return starts, stops, centers, widths


COUNTS = st.one_of(st.integers(2, 60), st.integers(2, 60), st.integers(60, 400))


@suite.part(quick=800, span=spans, n=st.one_of(st.just(1), COUNTS))
def linear_scales_tile_their_span(ctx, span, n):
    """equal, adjacent bands that cover the span exactly"""
    lo, width = span
    scale = LinearScale(FrequencyBand(lo, lo + width), n)
    starts, stops, centers, widths = common(scale, n)
    assert np.isclose(starts[0], lo) and np.isclose(stops[-1], lo + width)
    assert np.allclose(starts[1:], stops[:-1], rtol=1e-9)
    assert np.allclose(widths, width / float(n), rtol=1e-8)
    assert scale.start_hz == lo and scale.stop_hz == lo + width
    ctx.nontrivial(n > 1)


@suite.part(quick=300, rate=st.sampled_from(gen.RATES), n=st.integers(2, 512))
def scales_from_sample_rates_end_at_nyquist(ctx, rate, n):
    """LinearScale.from_sample_rate spans 0 to the nyquist frequency, and the
    audible range ends there"""
    sr = gen.SAMPLERATES[rate]()
    scale = LinearScale.from_sample_rate(sr, n)
    starts, stops, _, _ = common(scale, n)
    assert starts[0] == 0 and np.isclose(stops[-1], rate // 2, rtol=1e-9)
    band = FrequencyBand.audible_range(sr)
    assert float(band.start_hz) == 20 and float(band.stop_hz) == rate // 2
    ctx.nontrivial()


@suite.part(quick=800, span=spans, n=COUNTS,
            ratio=st.floats(0.005, 1.5))
def geometric_scales_have_constant_q(ctx, span, n, ratio):
    """centers progress geometrically from the first to the last, the ratio of
    bandwidth to center is constant"""
    lo, width = span
    lo += 1
    scale = GeometricScale(lo, lo + width, ratio, n)
    starts, stops, centers, widths = common(scale, n)
    assert np.isclose(centers[0], lo) and np.isclose(centers[-1], lo + width)
    steps = centers[1:] / centers[:-1]
    assert np.allclose(steps, steps[0], rtol=1e-9)
    assert np.allclose(widths / centers, ratio, rtol=1e-9)
    assert np.isclose(scale.start_hz, starts[0], atol=1e-9)
    assert np.isclose(scale.stop_hz, stops[-1])
    ctx.nontrivial()


@suite.part(quick=800, span=spans, n=st.one_of(st.just(1), COUNTS),
            kind=st.sampled_from(['bark', 'mel']))
def perceptual_scales_are_evenly_spaced(ctx, span, n, kind):
    """bark and mel scales: centers equally spaced on the perceptual axis from
    one end of the span to the other, equivalent rectangular bandwidths"""
    lo, width = span
    cls, warp = {'bark': (BarkScale, asinh_bark), 'mel': (MelScale, mel)}[kind]
    scale = cls(FrequencyBand(lo, lo + width), n)
    starts, stops, centers, widths = common(scale, n)
    assert np.isclose(centers[0], lo, atol=1e-5)
    if n > 1:
        assert np.isclose(centers[-1], lo + width, rtol=1e-6)
    steps = np.diff(warp(centers))
    assert np.allclose(steps, steps.mean(), rtol=1e-4)
    assert np.allclose(widths, 0.108 * centers + 24.7, rtol=1e-6)
    ctx.nontrivial(n > 1)
    ctx.label(kind)


@suite.part(
    quick=1500, a=spans, b=spans, relation=st.sampled_from(
        ['any', 'inside', 'overlap', 'touch', 'disjoint', 'same', 'almost',
         'narrow']),
    percent=st.integers(1, 99))
def bands_intersect_like_intervals(ctx, a, b, relation, percent):
    """intersection, intersection ratio, equality and hash of bands"""
    a0, a1 = a[0], a[0] + a[1]
    b0, b1 = b[0], b[0] + b[1]
    w = a[1]
    if relation == 'inside':
        b0 = a0 + w * percent / 200.
        b1 = a1 - w * percent / 300.
    elif relation == 'overlap':
        b0 = a0 + w * percent / 100.
        b1 = b0 + w
    elif relation == 'touch':
        b0, b1 = a1, a1 + b[1]
    elif relation == 'disjoint':
        b0, b1 = a1 + percent, a1 + percent + b[1]
    elif relation == 'same':
        b0, b1 = a0, a1
    elif relation == 'almost':
        b0, b1 = a0 + w * 1e-8 * (percent % 2), a1 + w * 1e-8 * (percent % 3)
    elif relation == 'narrow':
        # less than a hertz wide
        a1 = a0 + percent / 100.
        b0 = a0 + percent / 300.
        b1 = a1 + percent / 200.
    x, y = FrequencyBand(a0, a1), FrequencyBand(b0, b1)
    ctx.label(relation)
    assert (x == y) == ((a0, a1) == (b0, b1))
    if x == y:
        assert hash(x) == hash(y)
    assert len({x, y}) == (1 if x == y else 2)
    lo, hi = max(a0, b0), min(a1, b1)
    if hi > lo:
        for i in (x.intersect(y), y.intersect(x)):
            assert (i.start_hz, i.stop_hz) == (lo, hi)
        assert np.isclose(x.intersection_ratio(y), (hi - lo) / (a1 - a0))
        assert np.isclose(y.intersection_ratio(x), (hi - lo) / (b1 - b0))
        ctx.nontrivial(x != y)
    else:
        for p, q in ((x, y), (y, x)):
            try:
                p.intersect(q)
            except ValueError:
                pass
            else:
                raise AssertionError('disjoint bands intersect')
    c = FrequencyBand.from_center(
        float(x.center_frequency), float(x.bandwidth))
    assert np.isclose(c.start_hz, a0) and np.isclose(c.stop_hz, a1)
    s = FrequencyBand.from_start(a0, x.bandwidth)
    assert (s.start_hz, s.stop_hz) == (a0, a1)
    assert np.isclose(x.bandwidth_ratio(y), (b1 - b0) / float(a1 - a0))


@suite.part(
    quick=800, span=spans, n=st.one_of(
        st.integers(2, 20), st.integers(2, 20), st.integers(100, 300)),
    ratio=st.floats(0.01, 1.2),
    required=st.sampled_from([0.1, 0.25, 0.5, 0.75]),
    spoil=st.one_of(st.none(), st.integers(0, 18), st.integers(0, 299)))
def overlap_requirement_is_checked_for_every_pair(
        ctx, span, n, ratio, required, spoil):
    """ensure_overlap_ratio raises if and only if some adjacent pair of bands
    falls short"""
    lo, width = span
    bands = gen.band_pairs(GeometricScale(lo + 20, lo + 20 + width, ratio, n))
    if spoil is not None:
        # pull one band's lower edge up, to break a single pair
        i = 1 + spoil % (n - 1)
        a, b = bands[i]
        bands[i] = (a + (b - a) * 0.9, b)
    scale = ExplicitScale([FrequencyBand(a, b) for a, b in bands])
    ratios = [
        max(0., min(b1, d1) - max(a1, c1)) / (b1 - a1)
        for (a1, b1), (c1, d1) in zip(bands[:-1], bands[1:])]
    if any(abs(r - required) < 1e-9 for r in ratios):
        return
    ok = min(ratios) > required
    try:
        scale.ensure_overlap_ratio(required)
        raised = False
    except AssertionError:
        raised = True
    assert raised == (not ok), (ratios, required)
    ctx.label('ok' if ok else 'too little')
    ctx.nontrivial(not ok and max(ratios) > required or ok)


@suite.part(quick=800, a=spans, b=spans, n=st.integers(2, 12),
            m=st.integers(2, 12), kinds=st.tuples(*[st.sampled_from(
                ['linear', 'geometric', 'bark', 'mel', 'explicit'])] * 2),
            same=st.sampled_from(
                ['all', 'span', 'none', 'prefix', 'edge', 'almost']),
            at=st.integers(0, 30), by=st.sampled_from([1e-3, .01, 1, -.01]))
def scale_equality_means_equal_bands(
        ctx, a, b, n, m, kinds, same, at, by):
    """two scales of one class are equal exactly when their bands are"""
    if same == 'all':
        b, m = a, n
    elif same == 'span':
        b = a
    x = gen.build_scale(kinds[0], a[0] + 1, a[0] + 1 + a[1], n)
    if same == 'almost':
        b, m = (a[0] + by * (at % 2), a[1] + by), n
    y = gen.build_scale(kinds[0], b[0] + 1, b[0] + 1 + b[1], m)
    if same == 'prefix':
        x = ExplicitScale(list(x))
        y = ExplicitScale(list(x)[:max(1, n - 1)])
        assert not (x == y) and not (y == x)
        assert x == ExplicitScale(list(x))
        ctx.nontrivial()
        return
    if same == 'edge':
        # but for a single edge of a single band
        bands = [list(p) for p in gen.band_pairs(x)]
        x = ExplicitScale([FrequencyBand(*p) for p in bands])
        bands[at // 2 % n][at % 2] += by
        if bands[at // 2 % n][0] < bands[at // 2 % n][1]:
            y = ExplicitScale([FrequencyBand(*p) for p in bands])
            assert not (x == y) and not (y == x)
            i = at // 2 % n
            assert x[i] != y[i] and not (x[i] == y[i])
            ctx.nontrivial()
        return
    equal = gen.band_pairs(x) == gen.band_pairs(y)
    assert (x == y) == equal and (y == x) == equal
    ctx.nontrivial(same != 'none')
    if kinds[0] != kinds[1] and 'explicit' not in kinds:
        z = gen.build_scale(kinds[1], a[0] + 1, a[0] + 1 + a[1], n)
        assert not (x == z)


@suite.part(quick=400, hz=st.floats(0.5, 40000), other=st.floats(0.5, 40000))
def hertz_behaves_like_a_number(ctx, hz, other):
    """Hertz values add, negate and compare like the numbers they hold"""
    x = Hertz(hz)
    assert float(x) == hz and float(-x) == -hz
    assert float(x + other) == hz + other
    assert float(x + Hertz(other)) == hz + other
    assert (x < Hertz(other)) == (hz < other)
    assert (x == Hertz(other)) == (hz == other)
    assert float(Hertz(x)) == hz and float(Hertz(int(hz) + 1)) == int(hz) + 1
    ctx.nontrivial()
