import numpy as np
from hypothesis import strategies as st

from vlib.runner import Suite
from vlib import gen
from vlib.gen import ps, td
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import (
    TimeDimension, TimeSlice, AudioSamples, ConstantRateTimeSeries)

suite = Suite(
    'C02',
    'random time dimensions (overlapping samples or gaps, any unit, '
    'audio rates) and random time slices in any unit, against exact integer '
    'arithmetic on sample spans; non-trivial = the slice neither selects '
    'everything nor nothing, or a bound falls strictly inside a sample',
    ['time slices start at or after zero; total spans stay below 2**62 '
     'picoseconds (53 days)', 'a slice whose end reaches into a sample by 0.4-0.6% of '
     'the sampling period may or may not include it (documented rounding)'])


def expected(n, f, d, s, e):
    """(start, {allowed stops}) in exact integers; None as e: to the end"""
    # first i with i * f + d > s
    start = max(0, (s - d) // f + 1)
    if e is None:
        return start, {n}
    whole, rest = divmod(e, f)
    if rest == 0:
        stops = {whole}
    elif rest * 1000 < f * 4:
        # the documented tolerance: too small an overlap to be intended
        stops = {whole}
    elif rest * 1000 > f * 6:
        stops = {whole + 1}
    else:
        stops = {whole, whole + 1}
    return start, {max(0, x) for x in stops}


def check_selection(raw, got, n, f, d, s, e):
    start, stops = expected(n, f, d, s, e)
    allowed = [list(raw[start: stop]) for stop in stops]
    assert list(np.asarray(got)) in allowed, (
        'selected', list(np.asarray(got))[:5], len(got),
        'expected', start, stops)
    return start, stops


@st.composite
def dims_and_slices(draw):
    spec = draw(gen.time_dims())
    n = draw(st.one_of(st.integers(0, 60), st.integers(0, 3000)))
    f, d = ps(td(*spec[1])), ps(td(*spec[2]))
    if draw(st.integers(0, 4)) == 0 and f > 9:
        # samples with gaps between them
        d = f * draw(st.integers(1, 9)) // 10
        spec = 'time', (f, 'ps'), (d, 'ps')

    def moment():
        """a position in ps together with the unit to express it in"""
        kind = draw(st.integers(0, 4))
        if kind == 0:
            return f * draw(st.integers(0, n + 3)), 'ps'
        if kind == 1:
            return d * draw(st.integers(0, n + 3)), 'ps'
        if kind == 2:
            m = f * draw(st.integers(0, n + 3)) + draw(
                st.sampled_from([-1, 1, f // 3, f // 2, f - 1]))
            return max(0, m), 'ps'
        if kind == 3:
            unit = draw(st.sampled_from([spec[1][1], spec[1][1], 'ns', 'us']))
            per = gen.PS_PER[unit]
            top = max(1, ((n + 3) * f + d) // per)
            return draw(st.integers(0, top)) * per, unit
        return draw(st.integers(0, (n + 3) * f + d)), 'ps'

    a, au = moment()
    b, bu = moment()
    return spec, n, (a, au), (b, bu)


def as_td(m):
    return td(m[0] // gen.PS_PER[m[1]], m[1])


def build(spec, n):
    raw = np.arange(n)
    arr = ArrayWithUnits(
        raw.copy(), [TimeDimension(td(*spec[1]), td(*spec[2]))])
    return raw, arr


@suite.part(
    quick=3000, case=dims_and_slices(),
    open_ended=st.sampled_from([False, False, False, True]))
def time_slice_selects_overlapping_samples(ctx, case, open_ended):
    """array[TimeSlice(start, duration)] returns exactly the samples whose
    spans overlap the slice"""
    spec, n, a, b = case
    f, d = ps(td(*spec[1])), ps(td(*spec[2]))
    raw, arr = build(spec, n)
    duration = None if open_ended else as_td(b)
    ts = TimeSlice(start=as_td(a), duration=duration)
    got = arr[ts]
    e = None if open_ended else a[0] + b[0]
    check_selection(raw, got, n, f, d, a[0], e)
    ctx.nontrivial(0 < len(got) < n or a[0] % f or (e and e % f))
    ctx.label('empty' if not len(got) else 'all' if len(got) == n else 'some')
    # the result still describes the same sampling scheme
    dim = got.dimensions[0]
    assert ps(dim.frequency) == f and ps(dim.duration) == d
    assert dim.size == len(got)
    # ... and so does the original
    assert np.array_equal(np.asarray(arr), raw)


@suite.part(
    quick=2000, case=dims_and_slices(),
    form=st.sampled_from(['a:b', 'a:', ':b', '-a:', ':-b', '-a:-b', ':']))
def timedelta_slices_count_from_the_end(ctx, case, form):
    """array[t1:t2] with open and negative bounds"""
    spec, n, a, b = case
    f, d = ps(td(*spec[1])), ps(td(*spec[2]))
    raw, arr = build(spec, n)
    end = n * f + (d - f)
    lo, hi = form.split(':')
    start = {'': None, 'a': as_td(a), '-a': -as_td(a)}[lo]
    stop = {'': None, 'b': as_td(b), '-b': -as_td(b)}[hi]
    if (lo == '-a' and a[0] == 0) or (hi == '-b' and b[0] == 0):
        # there is no negative zero
        start, stop, form = None, None, ':'
    s = 0 if start is None else (a[0] if lo == 'a' else end - a[0])
    e = None if stop is None else (b[0] if hi == 'b' else end - b[0])
    if form == ':':
        s, e = 0, None
    got = arr[start: stop]
    ctx.label(form)
    if s < 0:
        s = 0
    ctx.nontrivial(0 < len(got) < n)
    check_selection(raw, got, n, f, d, s, e)


LONG = []


def long_series(n):
    if not LONG:
        LONG.append(np.arange(40 * 10 ** 6, dtype=np.int32))
    return LONG[0][:n]


@suite.part(
    quick=300, n=st.integers(10 ** 5, 40 * 10 ** 6),
    f=st.one_of(st.sampled_from(
        [22675736, 20833333, 10416666, 90702947, 10 ** 6, 1000, 7]),
        st.integers(3, 10 ** 9)),
    overlap=st.sampled_from([1, 1, 2, 3]), at=st.tuples(
        st.floats(0, 1), st.floats(0, 1)),
    off=st.tuples(*[st.sampled_from([0, 0, 1, -1, .3, .5, .9])] * 2),
    form=st.sampled_from(['slice', 'timedelta', 'end']))
def long_series_are_sliced_exactly(ctx, n, f, overlap, at, off, form):
    """the same selection when the series is hours of audio long"""
    d = f * overlap

    def moment(where, by):
        by = by if isinstance(by, int) else int(f * by)
        return max(0, int(where * (n + 1)) * f + by)

    s, e = sorted(map(moment, at, off))
    raw = long_series(n)
    arr = ArrayWithUnits(raw, [TimeDimension(td(f, 'ps'), td(d, 'ps'))])
    if form == 'slice':
        got = arr[TimeSlice(start=td(s, 'ps'), duration=td(e - s, 'ps'))]
    elif form == 'timedelta':
        got = arr[td(s, 'ps'): td(e, 'ps')]
    else:
        got, e = arr[TimeSlice(start=td(s, 'ps'))], None
    start, stops = expected(n, f, d, s, e)
    lengths = {len(raw[start: stop]) for stop in stops}
    assert len(got) in lengths, (len(got), lengths)
    if len(got):
        assert int(got[0]) == start
        assert int(got[-1]) == start + len(got) - 1
    ctx.nontrivial(n > 10 ** 6 and 0 < len(got) < n)
    ctx.label(form)


@suite.part(
    quick=800, spec=gen.time_dims(),
    cuts=st.lists(st.integers(1, 30), min_size=1, max_size=8),
    pad=st.integers(0, 3))
def consecutive_slices_tile_the_series(ctx, spec, cuts, pad):
    """for samples that don't overlap, slices laid end to end on sample
    boundaries partition the samples"""
    f = td(*spec[1])
    n = sum(cuts)
    raw, arr = build(('time', spec[1], spec[1]), n)
    pieces = []
    pos = 0
    for c in cuts:
        ts = TimeSlice(start=f * pos, duration=f * c)
        pieces.extend(np.asarray(arr[ts]))
        pos += c
    assert pieces == list(raw)
    ctx.nontrivial(len(cuts) > 1)
    assert len(arr[TimeSlice(start=f * n, duration=f * (pad + 1))]) == 0
    assert len(arr[TimeSlice(duration=f * (n + pad))]) == n


@suite.part(quick=800, case=dims_and_slices())
def assignment_through_time_slices(ctx, case):
    """assigning through a time slice changes what reading it returns, and
    nothing else"""
    spec, n, a, b = case
    raw, arr = build(spec, n)
    ts = TimeSlice(start=as_td(a), duration=as_td(b))
    selected = set(np.asarray(arr[ts]).tolist())
    arr[ts] = -1
    want = [-1 if x in selected else x for x in raw.tolist()]
    assert np.asarray(arr).tolist() == want
    ctx.nontrivial(0 < len(selected) < n)


@suite.part(quick=500, spec=gen.time_dims(), n=st.integers(1, 40))
def span_end_and_iteration(ctx, spec, n):
    """the span of a dimension ends where its last sample does, and iterating
    a constant-rate series yields every sample with its own time slice"""
    f, d = ps(td(*spec[1])), ps(td(*spec[2]))
    raw, arr = build(spec, n)
    dim = arr.dimensions[0]
    assert ps(dim.span.start) == 0
    assert ps(dim.span.duration) == (n - 1) * f + d == ps(dim.end)
    assert np.isclose(dim.end_seconds, ((n - 1) * f + d) / 1e12, rtol=1e-12)
    ctx.nontrivial(d > f and n > 1)
    for series in (ConstantRateTimeSeries(arr), ConstantRateTimeSeries(
            ArrayWithUnits(
                np.zeros((n, 2)), [dim, IdentityDimension()]))):
        own = series.time_dimension
        assert (ps(own.frequency), ps(own.duration)) == (f, d)
    items = list(ConstantRateTimeSeries(arr).iter_slices())
    assert len(items) == n
    for i, (ts, x) in enumerate(items):
        assert x == raw[i]
        assert ps(ts.start) == i * f and ps(ts.duration) == d
        if d == f:
            assert list(np.asarray(arr[ts])) == [raw[i]]
        else:
            assert raw[i] in np.asarray(arr[ts])


@suite.part(
    quick=500, rate=st.sampled_from(gen.RATES), n=st.integers(300, 9000),
    channels=st.sampled_from([1, 2]), start_ms=st.integers(0, 200),
    length_ms=st.integers(1, 200))
def audio_is_sliced_by_time(ctx, rate, n, channels, start_ms, length_ms):
    """time slices of audio are audio at the same rate, holding the samples
    which overlap the slice"""
    sr = gen.SAMPLERATES[rate]()
    raw = np.arange(n * channels).reshape((n, channels)).astype(np.float32)
    if channels == 1:
        raw = raw[:, 0]
    audio = AudioSamples(raw.copy(), sr)
    ts = TimeSlice(start=td(start_ms, 'ms'), duration=td(length_ms, 'ms'))
    got = audio[ts]
    assert isinstance(got, AudioSamples)
    assert int(got.samplerate) == rate and got.channels == channels
    f = 10 ** 12 // rate
    start, stops = expected(
        n, f, f, start_ms * 10 ** 9, (start_ms + length_ms) * 10 ** 9)
    assert any(
        np.array_equal(np.asarray(got), raw[start: stop]) for stop in stops)
    ctx.nontrivial(0 < len(got) < n)
    assert ps(audio.end) == n * f
