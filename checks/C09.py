"""C09: time slices, and series with samples of varying duration"""
import featureflow as ff
import numpy as np
from hypothesis import strategies as st

import zounds
from vlib.runner import Suite
from vlib import gen
from zounds.timeseries import (
    TimeSlice, Picoseconds, VariableRateTimeSeries,
    VariableRateTimeSeriesFeature)

suite = Suite(
    'C09',
    'random slices in every unit and random series of them, against interval '
    'arithmetic on picoseconds and lists; non-trivial = the slices overlap, '
    'or the series has at least two samples and the query selects some',
    ['slices of series have a duration; only queries may be open-ended'])


@st.composite
def slices(draw, open_ended=False, small=True):
    """((start, unit), (duration, unit) or None)"""
    hi = 12 if small else 10 ** 6
    units = ['ms', 'ms', 'us'] if small else list(gen.UNITS)
    start = (draw(st.integers(0, hi)), draw(st.sampled_from(units)))
    if open_ended and draw(st.integers(0, 3)) == 0:
        return (start, None)
    return (start, (draw(st.integers(0, hi)), draw(st.sampled_from(units))))


def build(spec):
    start, dur = spec
    return TimeSlice(
        None if dur is None else gen.td(*dur), start=gen.td(*start))


def interval(spec):
    start, dur = spec
    a = gen.ps(gen.td(*start))
    return a, (None if dur is None else a + gen.ps(gen.td(*dur)))


both = st.one_of(
    st.tuples(slices(), slices()),
    st.tuples(slices(small=False), slices(small=False)),
    slices().map(lambda s: (s, s)),
    # the same slice in a smaller unit
    st.tuples(st.integers(0, 5), st.integers(0, 5)).map(lambda t: (
        ((t[0], 'ms'), (t[1], 'ms')),
        ((t[0] * 1000, 'us'), (t[1] * 1000, 'us')))))


@suite.part(quick=1500, pair=both, shift=st.integers(-20, 20),
            point=st.integers(0, 24))
def algebra(ctx, pair, shift, point):
    """intersection, containment, order, equality, hashing and moving of time
    slices"""
    a, b = build(pair[0]), build(pair[1])
    (s1, e1), (s2, e2) = interval(pair[0]), interval(pair[1])
    assert gen.ps(a.start) == s1 and gen.ps(a.end) == e1
    assert gen.ps(a.duration) == e1 - s1
    # the part they share
    for x in (a & b, b & a):
        assert isinstance(x, TimeSlice)
        lo, hi = max(s1, s2), min(e1, e2)
        assert gen.ps(x.duration) == max(0, hi - lo), x
        if hi > lo:
            assert gen.ps(x.start) == lo and gen.ps(x.end) == hi
    # containment excludes the ends, as for points in time
    assert (b in a) == (s1 < s2 and e2 < e1)
    t = gen.td(point, 'ms')
    assert (t in a) == (s1 < gen.ps(t) < e1)
    assert (a < b) == (s1 < s2) and (a > b) == (s1 > s2)
    assert (a <= b) == (s1 <= s2) and (a >= b) == (s1 >= s2)
    assert (a < t) == (s1 < gen.ps(t)) and (a >= t) == (s1 >= gen.ps(t))
    same = (s1, e1) == (s2, e2)
    assert (a == b) == same and (a != b) == (not same)
    if same:
        assert hash(a) == hash(b) and len({a, b}) == 1
    endless, other = TimeSlice(start=a.start), TimeSlice(start=b.start)
    assert endless != a and a != endless and not endless == a
    assert (endless == other) == (s1 == s2)
    if s1 == s2:
        assert len({endless, other}) == 1
    moved = a + gen.td(shift, 'us')
    assert gen.ps(moved.start) == s1 + shift * 10 ** 6
    assert gen.ps(moved.duration) == e1 - s1
    assert gen.ps(a.start) == s1
    ctx.nontrivial(min(e1, e2) > max(s1, s2) and not same)
    ctx.label('same' if same else 'different')


@suite.part(quick=400, times=st.lists(st.tuples(
    st.integers(0, 50), st.just('ms')), max_size=12))
def slices_between_timestamps(ctx, times):
    """TimeSlice.slices: the slices from each timestamp to the next"""
    stamps = np.array([gen.td(*t) for t in times], dtype='m8[ms]')
    got = TimeSlice.slices(stamps)
    srt = sorted(gen.ps(gen.td(*t)) for t in times)
    assert [(gen.ps(s.start), gen.ps(s.end)) for s in got] == \
        list(zip(srt[:-1], srt[1:]))
    ctx.nontrivial(len(set(srt)) > 2)


@suite.part(quick=200, args=st.sampled_from(
    [(1, None), (1.5, None), ('1', None), (None, 1), (None, 2.5)]))
def slices_are_made_of_durations(ctx, args):
    """numbers that aren't durations are refused"""
    try:
        TimeSlice(args[0], start=args[1])
    except ValueError:
        ctx.nontrivial()
        return
    raise AssertionError(args)


# -- variable rate series -----------------------------------------------------

series = st.lists(slices(), max_size=10)


def make(specs, width, first=1):
    """a series whose k-th sample (in the order given) is full of k"""
    return [(build(s), np.full(width, first + k, dtype='f4'))
            for k, s in enumerate(specs)]


def model(specs, first=1):
    return sorted(
        [(interval(s), first + k) for k, s in enumerate(specs)],
        key=lambda x: x[0][0])


def contents(ts):
    out = []
    for s, d in ts.iter_slices():
        d = np.asarray(d)
        assert len(np.unique(d)) == 1
        out.append(((gen.ps(s.start), gen.ps(s.end)), int(d.flat[0])))
    return out


def same_contents(ts, want, width):
    assert isinstance(ts, VariableRateTimeSeries)
    assert len(ts) == len(want), (len(ts), len(want))
    assert contents(ts) == want, (contents(ts), want)
    if want:
        assert ts.slicedata.shape == (len(want),) + tuple(width)
        assert ts.slicedata.dtype == np.float32
        lo = min(a for (a, _), _ in want)
        hi = max(b for (_, b), _ in want)
        assert gen.ps(ts.span.start) == lo
        assert gen.ps(ts.span.end) == hi and gen.ps(ts.end) == hi
    else:
        assert gen.ps(ts.end) == 0 and gen.ps(ts.span.duration) == 0


widths = st.lists(st.integers(1, 3), max_size=2).map(tuple)


@suite.part(
    quick=1000, specs=series, width=widths, query=slices(open_ended=True),
    lo=st.one_of(st.none(), st.integers(-12, 12)),
    hi=st.one_of(st.none(), st.integers(-12, 12)),
    index=st.integers(-12, 12))
def variable_rate_queries(ctx, specs, width, query, lo, hi, index):
    """a variable rate series is in order of time; a time slice selects the
    samples that overlap it, and integers what they do for a list"""
    ts = VariableRateTimeSeries(make(specs, width))
    want = model(specs)
    same_contents(ts, want, width)
    q0, q1 = interval(query)
    selected = [
        x for x in want if x[0][1] > q0 and (q1 is None or x[0][0] < q1)]
    same_contents(ts[build(query)], selected, width)
    same_contents(ts[lo:hi], want[lo:hi], width)
    try:
        item = want[index]
    except IndexError:
        try:
            ts[index]
        except IndexError:
            return
        raise AssertionError('no IndexError')
    got = ts[index]
    assert (gen.ps(got.timeslice.start), gen.ps(got.timeslice.end)) == item[0]
    assert np.array_equal(got.slicedata, np.full(width, item[1]))
    same_contents(ts, want, width)
    ctx.nontrivial(len(want) > 1 and 0 < len(selected) < len(want))


@suite.part(quick=600, a=series, b=series, width=widths)
def variable_rate_concatenation(ctx, a, b, width):
    """two series put together are one series in order of time"""
    x = VariableRateTimeSeries(make(a, width))
    y = VariableRateTimeSeries(make(b, width, 100))
    same_contents(x.concat(y), sorted(
        model(a) + model(b, 100), key=lambda t: t[0][0]), width)
    same_contents(x, model(a), width)
    same_contents(y, model(b, 100), width)
    ctx.nontrivial(a and b)


class Passthrough(ff.Node):
    def __init__(self, needs=None):
        super(Passthrough, self).__init__(needs=needs)


@zounds.simple_in_memory_settings
class Stored(ff.BaseModel):
    series = VariableRateTimeSeriesFeature(Passthrough, store=True)


@suite.part(quick=500, specs=st.lists(slices(), min_size=1, max_size=8),
            width=widths, hours=st.sampled_from([0, 1, 2, 50, 2000]),
            fine=st.booleans(), long=st.sampled_from([0, 0, 3, 400]))
def variable_rate_persistence(ctx, specs, width, hours, fine, long):
    """a stored series comes back as it was, to the picosecond"""
    specs = [((s[0] + hours * 3600 * 10 ** 6, 'us') if s[1] == 'us' else
              (s[0] + hours * 3600 * 1000, 'ms'), d) for s, d in specs]
    if fine:
        specs = [
            ((gen.ps(gen.td(*s)) + 7 * k + 1, 'ps'),
             (gen.ps(gen.td(*d)) + long * 3600 * 10 ** 12 + 3 * k + 1, 'ps'))
            for k, (s, d) in enumerate(specs)]
    ts = VariableRateTimeSeries(make(specs, width))
    got = Stored(Stored.process(series=ts)).series
    same_contents(got, model(specs), width)
    ctx.nontrivial(len(specs) > 1)


@suite.part(
    quick=300, n=st.integers(0, 12), f=st.integers(1, 100),
    unit=st.sampled_from(['s', 'ms', 'ps']), extra=st.integers(0, 100),
    pick=st.lists(st.integers(0, 11), max_size=6))
def slices_of_constant_rate_series(ctx, n, f, unit, extra, pick):
    """a constant rate series is iterated as consecutive time slices, which
    make up a variable rate series holding the same samples"""
    raw = np.arange(1, n + 1, dtype='f4')
    crts = zounds.ConstantRateTimeSeries(zounds.ArrayWithUnits(
        raw, [zounds.TimeDimension(gen.td(f, unit), gen.td(f + extra, unit))]))
    one = f * gen.PS_PER[unit]
    want = [((i * one, (i + 1) * one + extra * gen.PS_PER[unit]), i + 1)
            for i in range(n)]
    got = VariableRateTimeSeries(
        (s, np.asarray(d)) for s, d in crts.iter_slices())
    same_contents(got, want, ())
    for i in pick:
        if i < n:
            # asking for just after a sample began until just before its end
            q = TimeSlice(gen.td(want[i][0][1] - want[i][0][0], 'ps'),
                          start=gen.td(want[i][0][0], 'ps'))
            a, b = want[i][0]
            same_contents(
                got[q], [x for x in want if x[0][1] > a and x[0][0] < b], ())
    ctx.nontrivial(n > 1)
