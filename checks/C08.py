"""C08: sample rates and durations"""
import numpy as np
from fractions import Fraction
from hypothesis import strategies as st

import zounds
from vlib.runner import Suite
from vlib import gen
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import (
    TimeDimension, SampleRate, HalfLapped, Stride, audio_sample_rate,
    nearest_audio_sample_rate)
from zounds.timeseries.duration import Nanoseconds

suite = Suite(
    'C08',
    'random frequencies and durations in every unit, window and step sizes, '
    'against exact arithmetic on picoseconds; non-trivial = samples overlap, '
    'or units differ, or sizes above one',
    ['frequencies and durations stay within a few days'])

UNIT_CLASSES = dict(
    h=zounds.Hours, m=zounds.Minutes, s=zounds.Seconds,
    ms=zounds.Milliseconds, us=zounds.Microseconds, ns=Nanoseconds,
    ps=zounds.Picoseconds)


@suite.part(
    quick=600, n=st.integers(0, 40), unit=st.sampled_from(list(UNIT_CLASSES)),
    other=st.sampled_from(list(UNIT_CLASSES)), m=st.integers(0, 40),
    of=st.sampled_from([int, float, np.int64, np.float64, np.int32]))
def durations(ctx, n, unit, other, m, of):
    """durations in any two units add, compare and divide as their exact
    lengths do"""
    a, b = UNIT_CLASSES[unit](of(n)), UNIT_CLASSES[other](m)
    pa, pb = n * gen.PS_PER[unit], m * gen.PS_PER[other]
    assert isinstance(a, np.timedelta64)
    assert gen.ps(a) == pa and gen.ps(b) == pb
    assert (a == b) == (pa == pb) and (a < b) == (pa < pb)
    assert gen.ps(a + b) == pa + pb
    if m:
        assert np.isclose(a / b, pa / pb, rtol=1e-12)
    ctx.nontrivial(unit != other and n and m)


@st.composite
def rates(draw):
    """((f, unit), (d, unit)): d of at least f, perhaps in a smaller unit"""
    unit = draw(st.sampled_from(['s', 'ms', 'us', 'ns', 'ps']))
    f = draw(st.integers(1, 5000))
    kind = draw(st.sampled_from(['same', 'over', 'mixed', 'gap']))
    if kind == 'same':
        return ((f, unit), (f, unit))
    if kind == 'over':
        return ((f, unit), (f + draw(st.integers(1, 5000)), unit))
    if kind == 'gap':
        return ((f, unit), (draw(st.integers(1, f)), unit))
    return ((f, 's'), (f * 1000 + draw(st.integers(0, 5000)), 'ms'))


def build(rate):
    return SampleRate(gen.td(*rate[0]), gen.td(*rate[1]))


def lengths(rate):
    return gen.ps(gen.td(*rate[0])), gen.ps(gen.td(*rate[1]))


@suite.part(quick=1000, a=rates(), b=rates(), same=st.booleans(),
            size=st.integers(1, 1000))
def attributes(ctx, a, b, same, size):
    """overlap, samples per second, equality and unpacking, and the same from
    a time dimension"""
    if same:
        b = a
    sr, other = build(a), build(b)
    f, d = lengths(a)
    assert gen.ps(sr.frequency) == f and gen.ps(sr.duration) == d
    x, y = sr
    assert gen.ps(x) == f and gen.ps(y) == d and len(sr) == 2
    assert (sr == other) == (lengths(a) == lengths(b))
    td = TimeDimension(*sr, size=size)
    for z in (sr, td):
        assert gen.ps(z.overlap) == d - f
        assert np.isclose(z.overlap_ratio, (d - f) / d, rtol=1e-9, atol=1e-12)
        assert abs(z.samples_per_second - 10 ** 12 / f) < 1
        assert isinstance(z.samples_per_second, int)
    assert int(sr) == sr.samples_per_second
    assert sr.nyquist == sr.samples_per_second // 2
    assert td.samplerate == sr
    assert np.isclose(td.duration_in_seconds, d / 1e12)
    assert np.isclose(td.end_seconds, (size * f + d - f) / 1e12)
    assert (td == TimeDimension(*other)) == (lengths(a) == lengths(b))
    plain = TimeDimension(sr.frequency)
    assert gen.ps(plain.duration) == f
    ctx.nontrivial(f != d)


@suite.part(quick=300, f=st.integers(-3, 3), d=st.integers(-3, 3),
            unit=st.sampled_from(list(gen.UNITS)))
def invalid_rates_are_refused(ctx, f, d, unit):
    """frequencies and durations must be positive, and a time dimension must
    be given durations"""
    try:
        SampleRate(gen.td(f, unit), gen.td(d, unit))
        assert f > 0 and d > 0
    except ValueError:
        assert f <= 0 or d <= 0
    for args in [(f,), (gen.td(1, unit), d), (None,), (1.5, gen.td(1, unit))]:
        try:
            TimeDimension(*args)
        except ValueError:
            continue
        if args == (gen.td(1, unit), None):
            continue
        raise AssertionError(args)
    ctx.nontrivial(f <= 0 or d <= 0)


@suite.part(
    quick=1000, rate=rates(), window=st.integers(1, 4096),
    step=st.integers(1, 4096), how=st.sampled_from(
        ['pair', 'stride', 'one', 'number']), lead=st.integers(0, 3),
    trail=st.integers(0, 2))
def windows_of_samples(ctx, rate, window, step, how, lead, trail):
    """samplerate * (step, window) is the rate of windows of that many
    samples, and discrete_samples finds the numbers again"""
    sr = build(rate)
    f, d = lengths(rate)
    if how == 'number':
        step = window
        got = sr * window
    elif how == 'one':
        step = window
        got = sr * (window,)
    elif how == 'pair':
        got = sr * (step, window)
    else:
        got = sr * Stride(frequency=step, duration=window)
    assert gen.ps(got.frequency) == f * step
    assert gen.ps(got.duration) == f * window + (d - f)
    td = TimeDimension(*sr)
    # the dimensions of windowed data agree
    w, s = list(td.modified_dimension(10000, window, step))
    assert w.samplerate == got and s.samplerate == sr
    w, s = list(td.modified_dimension(10000, window))
    assert gen.ps(w.frequency) == f * window
    assert gen.ps(w.duration) == f * window + (d - f)
    if d >= f:
        arr = ArrayWithUnits(
            np.zeros((2,) * (lead + 1 + trail)),
            [IdentityDimension()] * lead + [td]
            + [IdentityDimension()] * trail)
        assert got.discrete_samples(arr) == (step, window)
        assert all(isinstance(x, int) for x in got.discrete_samples(arr))
    ctx.nontrivial(window > 1 and step != window)
    ctx.label(how)


@suite.part(quick=500, rate=rates(), num=st.integers(1, 400),
            den=st.integers(1, 400))
def resampled_rates(ctx, rate, num, den):
    """resample(ratio) multiplies frequency and duration, to the picosecond"""
    sr = build(rate)
    f, d = lengths(rate)
    ratio = num / den
    td = TimeDimension(*sr)
    if int(f * ratio) < 1 or int(d * ratio) < 1:
        return
    for got in (sr.resample(ratio), td.resample(ratio)):
        assert abs(gen.ps(got.frequency) - f * ratio) <= 1 + f * ratio * 1e-14
        assert abs(gen.ps(got.duration) - d * ratio) <= 1 + d * ratio * 1e-14
    ctx.nontrivial(num != den)


@suite.part(
    quick=600, rate=st.sampled_from(gen.RATES), query=st.integers(1, 200000),
    near=st.integers(-3, 3), window=st.integers(1, 5000),
    step=st.integers(1, 5000))
def audio_sample_rates(ctx, rate, query, near, window, step):
    """the audio sample rates, finding them, and their windowing schemes"""
    sr = gen.SAMPLERATES[rate]()
    one = gen.ps(sr.frequency)
    assert sr.samples_per_second == int(sr) == rate
    assert sr.nyquist == rate // 2
    assert one == 10 ** 12 // rate == gen.ps(sr.duration)
    assert audio_sample_rate(rate) == sr
    assert type(audio_sample_rate(rate)) is type(sr)
    for q in (query, rate + near):
        try:
            found = audio_sample_rate(q)
            assert q in gen.RATES and found.samples_per_second == q
        except ValueError:
            assert q not in gen.RATES, q
        best = min(abs(r - q) for r in gen.RATES)
        assert abs(int(nearest_audio_sample_rate(q)) - q) == best
    scheme = sr.windowing_scheme(window, step)
    assert (gen.ps(scheme.frequency), gen.ps(scheme.duration)) == \
        (one * step, one * window)
    scheme = sr.windowing_scheme(window)
    assert (gen.ps(scheme.frequency), gen.ps(scheme.duration)) == \
        (one * window, one * window)
    hl = sr.half_lapped()
    assert gen.ps(hl.duration) == 2 * gen.ps(hl.frequency)
    assert hl.overlap_ratio == 0.5
    assert hl.discrete_samples(ArrayWithUnits(
        np.zeros(3), [TimeDimension(*sr)]))[1] % 256 == 0
    # half lapped windows are the same length of time at every rate
    got = HalfLapped(window, step)
    assert abs(gen.ps(got.duration) - Fraction(window * 10 ** 12, 44100)) \
        <= window
    assert abs(gen.ps(got.frequency) - Fraction(step * 10 ** 12, 44100)) \
        <= step
    ctx.nontrivial(window != step)
