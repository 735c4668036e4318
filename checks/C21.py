"""C21: onset detection and segmentation"""
import featureflow as ff
import numpy as np
from hypothesis import strategies as st

import zounds
from vlib import gen
from vlib.runner import Suite
from checks.C11 import audio_of
from checks.C20 import Driver, cut, weights
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.segment import (
    MeasureOfTransience, MovingAveragePeakPicker, ComplexDomain,
    TimeSliceFeature)
from zounds.segment.onset import Flux, BasePeakPicker
from zounds.basic import Pooled
from zounds.spectral import SlidingWindow
from zounds.timeseries import (
    TimeDimension, TimeSlice, Milliseconds, Picoseconds, Stride)

suite = Suite(
    'C21',
    'random spectra in random chunks, against the published formulas in one '
    'piece; clicks at random times, whose segments are compared with where '
    'the clicks are; non-trivial = more than one chunk, or more than one onset',
    ['no onsets are promised for sounds without sudden changes of spectrum'])


def time_dim(hop, overlap):
    return TimeDimension(Milliseconds(hop), Milliseconds(hop * overlap))


def freq_dim(k):
    return zounds.FrequencyDimension(zounds.LinearScale(
        zounds.FrequencyBand(10, 5000), k))


def run(make, x, w):
    d = Driver(make, 1)
    chunks = cut(len(x), w)
    for a, b in chunks:
        d.push(0, x[a:b])
    out = [o for o in d.end() if len(o)]
    for o in out:
        assert len(o.dimensions) == 1
        assert o.dimensions[0].frequency == x.dimensions[0].frequency
    return np.concatenate([np.asarray(o) for o in out]), chunks, out


def spectra(seed, n, k, kind):
    r = gen.rng(seed)
    x = r.normal(0, 1, (n, k)) + 1j * r.normal(0, 1, (n, k))
    if kind == 'sparse':
        x = x * (r.uniform(0, 1, (n, 1)) < 0.5)
    if kind == 'decaying':
        x = x * np.exp(-np.arange(n) / 3.)[:, None]
    if kind == 'repeated':
        x[n // 2:] = x[n // 2]
    if kind == 'quiet':
        x = x * 10. ** -r.randint(5, 10)
    return x


kinds = st.sampled_from(['plain', 'sparse', 'decaying', 'repeated', 'quiet'])


@suite.part(quick=600, n=st.integers(1, 30), k=st.integers(3, 12), w=weights,
            seed=gen.seeds, kind=kinds, hop=st.integers(1, 30),
            overlap=st.integers(1, 2))
def measure_of_transience(ctx, n, k, w, seed, kind, hop, overlap):
    """the high frequency content of each frame relative to that of the frame
    before it, times its share of the energy; the first is compared to
    itself"""
    raw = spectra(seed, n, k, kind)
    x = ArrayWithUnits(raw.copy(), [time_dim(hop, overlap), freq_dim(k)])
    got, chunks, out = run(lambda needs: MeasureOfTransience(needs=needs),
                           x, w)
    assert np.array_equal(raw, x)
    power = np.abs(raw[:, 2:]) ** 2
    bins = np.arange(3, k + 1)
    floor = 1e-12
    energy = power.sum(axis=1)
    hfc = (power * bins).sum(axis=1)
    energy[energy == 0] = floor
    hfc[hfc == 0] = floor
    prev = np.concatenate([hfc[:1], hfc[:-1]])
    assert got.shape == (n,)
    assert np.allclose(got, hfc / prev * hfc / energy, rtol=1e-6)
    assert out[0].dimensions[0].duration == x.dimensions[0].duration
    ctx.nontrivial(len(chunks) > 1)
    ctx.label(kind)


@suite.part(quick=600, n=st.integers(1, 30), k=st.integers(1, 12), w=weights,
            seed=gen.seeds, kind=kinds, unit=st.booleans(),
            hop=st.integers(1, 30))
def spectral_flux(ctx, n, k, w, seed, kind, unit, hop):
    """the distance between each spectrum and the one before it, zero for the
    first"""
    raw = np.abs(spectra(seed, n, k, kind))
    x = ArrayWithUnits(raw.copy(), [time_dim(hop, 2), freq_dim(k)])
    got, chunks, _ = run(
        lambda needs: Flux(unit_norm=unit, needs=needs), x, w)
    assert np.array_equal(raw, x)
    if unit:
        norm = np.sqrt((raw ** 2).sum(axis=1, keepdims=True))
        raw = raw / np.where(norm == 0, 1, norm)
    want = [0] + [np.sqrt(np.sum((b - a) ** 2))
                  for a, b in zip(raw[:-1], raw[1:])]
    assert got.shape == (n,)
    assert np.allclose(got, want, atol=1e-9)
    ctx.nontrivial(len(chunks) > 1)
    ctx.label(kind)


@suite.part(quick=600, n=st.integers(1, 20), k=st.integers(1, 12), w=weights,
            seed=gen.seeds, kind=st.sampled_from(
                ['random', 'steady', 'attack', 'silent', 'half']),
            hop=st.integers(1, 30))
def complex_domain(ctx, n, k, w, seed, kind, hop):
    """the distance between each spectrum and the one that a steady tone would
    have, going by the two before it: zero for steady tones, the difference of
    level when only the level changes"""
    r = gen.rng(seed)
    mag = r.uniform(0.1, 2, (n, k))
    phase = r.uniform(-np.pi, np.pi, (n, k))
    advance = r.uniform(-np.pi, np.pi, (n, k))
    frames = mag[:, None] * np.exp(
        1j * (phase[:, None] + advance[:, None] * np.arange(3)[:, None]))
    assert frames.shape == (n, 3, k)
    gain = r.uniform(0, 3, (n, 1))
    if kind == 'attack':
        frames[:, 2] *= gain
    if kind == 'silent':
        frames[:, 2] = 0
    if kind == 'half':
        frames[:, 2, k // 2:] *= 1j
    if kind == 'random':
        frames = r.normal(0, 1, (n, 3, k)) + 1j * r.normal(0, 1, (n, 3, k))
    hops = Milliseconds(hop)
    x = ArrayWithUnits(frames.copy(), [
        TimeDimension(hops, hops * 3), IdentityDimension(), freq_dim(k)])
    got, chunks, out = run(lambda needs: ComplexDomain(needs=needs), x, w)
    assert out[0].dimensions[0].duration == hops
    a, b, c = frames[:, 0], frames[:, 1], frames[:, 2]
    with np.errstate(all='ignore'):
        expected = np.abs(b) * (b / np.abs(b)) ** 2 / (a / np.abs(a))
    want = np.abs(c - expected).sum(axis=1)
    assert got.shape == (n,)
    assert np.allclose(got, want, atol=1e-8)
    if kind == 'steady':
        assert np.allclose(got, 0, atol=1e-8)
    if kind == 'attack':
        assert np.allclose(got, (np.abs(gain - 1) * mag).sum(axis=1))
    ctx.nontrivial(len(chunks) > 1)
    ctx.label(kind)


# -- segments -----------------------------------------------------------------

class Marked(BasePeakPicker):
    """onsets are where the data says so"""

    def _onset_indices(self, data):
        return np.where(np.asarray(data)[:, 0] > 0.5)[0]


def slices_of(make, x, w):
    d = Driver(make, 1)
    chunks = cut(len(x), w)
    for a, b in chunks:
        d.push(0, x[a:b])
    return [ts for v in d.end() for ts in v.slices], chunks


def starts(slices, end):
    """they're laid end to end from zero until the end"""
    at = Picoseconds(0)
    for ts in slices:
        assert ts.start == at
        at = ts.end
    assert at == end
    return [ts.start for ts in slices]


@suite.part(quick=800, marks=st.lists(st.booleans(), min_size=1, max_size=40),
            k=st.integers(1, 3), w=weights, hop=st.integers(1, 30),
            overlap=st.integers(1, 3),
            times=st.sampled_from([1, 1, 1, 1, 10, 40]))
def segments(ctx, marks, k, w, hop, overlap, times):
    """segments are laid end to end from the beginning to the end, and there
    is a segment that starts at each onset and nowhere else"""
    marks = marks * times
    n = len(marks)
    x = ArrayWithUnits(
        np.tile(np.array(marks, dtype=float)[:, None], (1, k)),
        [time_dim(hop, overlap), IdentityDimension()])
    got, chunks = slices_of(lambda needs: Marked(needs=needs), x, w)
    s = starts(got, Milliseconds(hop) * n)
    want = [Milliseconds(hop) * 0] + [
        Milliseconds(hop) * i for i, m in enumerate(marks) if m]
    assert s == want
    ctx.nontrivial(len(chunks) > 1 and sum(marks) > 1)


@suite.part(quick=800, n=st.integers(1, 40), size=st.integers(4, 13),
            w=weights, seed=gen.seeds, hop=st.integers(1, 30),
            agg=st.sampled_from(['mean', 'median', 'max']),
            gain=st.sampled_from(
                [2. ** -60, 2. ** -30, 1e-3, 0.5, 7, 1e4, 2. ** 40]))
def moving_average_peaks(ctx, n, size, w, seed, hop, agg, gain):
    """whether there's an onset depends on nothing but the window around it,
    so chunks, later windows and the level make no difference; there are
    onsets only next to a peak, and above the average"""
    r = gen.rng(seed)
    raw = r.uniform(0, 1, (n, size)) ** 4
    dims = [time_dim(hop, size), IdentityDimension()]
    x = ArrayWithUnits(raw.copy(), dims)
    make = lambda needs: MovingAveragePeakPicker(  # noqa
        aggregate=getattr(np, agg), needs=needs)
    got, chunks = slices_of(make, x, w)
    s = starts(got, Milliseconds(hop) * n)[1:]
    whole, _ = slices_of(make, ArrayWithUnits(raw, dims), [1])
    assert [t.start for t in whole] == [t.start for t in got]
    louder, _ = slices_of(make, ArrayWithUnits(raw * gain, dims), w)
    assert louder == got
    m = 1 + seed % n
    first, _ = slices_of(make, ArrayWithUnits(raw[:m], dims), w)
    assert [t.start for t in first][1:] == \
        [t for t in s if t < Milliseconds(hop) * m]
    average = getattr(np, agg)(raw, axis=1)
    for t in s:
        row = raw[int(t / Milliseconds(hop))]
        i = size // 2
        assert row[i] > average[int(t / Milliseconds(hop))]
        assert row.argmax() != 0 or row[1:].max() > row[1:].min()
        assert row[i - 1] > row[i] or row[i] > row[min(i + 1, size - 1)]
    ctx.nontrivial(len(s) > 1 and len(chunks) > 1)
    ctx.label('onsets' if s else 'none')


@suite.part(quick=400, n=st.integers(14, 90), size=st.integers(9, 13),
            w=weights, at=st.lists(st.integers(0, 89), min_size=1, max_size=5),
            decay=st.floats(0.5, 0.8), hop=st.integers(1, 30))
def sudden_rises_are_found(ctx, n, size, w, at, decay, hop):
    """a sudden rise that dies down slowly is an onset within a frame of where
    it is, and nothing else is; what only rises or falls has none"""
    at = sorted(set(a % (n - 4) + 2 for a in at))
    at = [a for i, a in enumerate(at) if i == 0 or a - at[i - 1] > size]
    env = np.zeros(n)
    for a in at:
        env[a:] = decay ** np.arange(n - a)
    center = size // 2
    padded = np.concatenate([np.zeros(center), env, np.zeros(size)])

    def windows(y):
        return ArrayWithUnits(np.stack(
            [y[i: i + size] for i in range(n)]),
            [time_dim(hop, size), IdentityDimension()])

    make = lambda needs: MovingAveragePeakPicker(  # noqa
        aggregate=np.median, needs=needs)
    got, _ = slices_of(make, windows(padded), w)
    s = starts(got, Milliseconds(hop) * n)[1:]
    frames = [int(round(t / Milliseconds(hop))) for t in s]
    assert len(frames) == len(at), (frames, at)
    assert all(a <= f <= a + 1 for a, f in zip(at, frames)), (frames, at)
    for y in (np.linspace(0, 1, n + size), np.linspace(1, 0.1, n + size),
              np.zeros(n + size), np.ones(n + size)):
        got, _ = slices_of(make, windows(y), w)
        assert len(got) == 1
    ctx.nontrivial(len(at) > 1)


# -- the whole graph ----------------------------------------------------------

@suite.part(
    quick=30, thorough=300, gaps=st.lists(
        st.integers(150, 900), min_size=1, max_size=5),
    seed=gen.seeds, rate=st.sampled_from([11025, 22050]),
    chunk=st.integers(10000, 100000), method=st.sampled_from(
        ['transience', 'complex']), db=st.integers(-30, 0))
def graphs_segment_sounds(ctx, gaps, seed, rate, chunk, method, db):
    """the segments of a sound that is processed in chunks are those found by
    the same nodes in one piece; they're stored, partition the sound, and
    features pooled over them have a value for each"""
    r = gen.rng(seed)
    at = np.cumsum(gaps)
    n = int((at[-1] + 500) * rate / 1000)
    raw = r.normal(0, 1e-4, n)
    for a in at:
        i = int(a * rate / 1000)
        m = n - i
        raw[i:] += 0.3 * r.normal(0, 1, m) * np.exp(
            -np.arange(m) / (0.03 * rate))
    raw = np.clip(raw, -1, 1) * 10 ** (db / 20.)
    sr = gen.SAMPLERATES[rate]()
    wscheme = sr.half_lapped()
    Base = zounds.stft(chunksize_bytes=chunk, resample_to=sr, store_fft=True,
                       wscheme=wscheme)
    if method == 'complex':
        stride = 3

        class Prep(Base):
            prep = zounds.ArrayWithUnitsFeature(
                SlidingWindow, needs=Base.fft,
                wscheme=wscheme * Stride(frequency=1, duration=stride),
                store=False)

        class Detect(Prep):
            detection = zounds.ArrayWithUnitsFeature(
                ComplexDomain, needs=Prep.prep, store=False)
    else:
        class Detect(Base):
            detection = zounds.ArrayWithUnitsFeature(
                MeasureOfTransience, needs=Base.fft, store=False)

    class Sliding(Detect):
        sliding = zounds.ArrayWithUnitsFeature(
            SlidingWindow, needs=Detect.detection, padwith=5,
            wscheme=wscheme * Stride(frequency=1, duration=11), store=False)

    class Slices(Sliding):
        slices = TimeSliceFeature(
            MovingAveragePeakPicker, needs=Sliding.sliding,
            aggregate=np.median, store=True)

    @zounds.simple_in_memory_settings
    class Document(Slices):
        pooled = zounds.VariableRateTimeSeriesFeature(
            Pooled, needs=(Base.fft, Slices.slices), op=np.max, axis=0,
            store=True)

    doc = Document(Document.process(
        meta=audio_of(raw.astype('f4'), rate).encode(subtype='FLOAT')))
    slices = list(doc.slices.slices)
    starts(slices, slices[-1].end)
    fft = doc.fft

    def piece(make, x):
        d = Driver(make, 1)
        d.push(0, x)
        out = [o for o in d.end() if len(o)]
        return out[0] if len(out) == 1 else out[0].concatenate(
            ArrayWithUnits.concat(out[1:]))

    if method == 'complex':
        x = piece(lambda needs: SlidingWindow(
            needs=needs, wscheme=wscheme * Stride(frequency=1, duration=3)),
            fft)
        x = piece(lambda needs: ComplexDomain(needs=needs), x)
    else:
        x = piece(lambda needs: MeasureOfTransience(needs=needs), fft)
    windows = piece(lambda needs: SlidingWindow(
        needs=needs, padwith=5,
        wscheme=wscheme * Stride(frequency=1, duration=11)), x)
    want, _ = slices_of(lambda needs: MovingAveragePeakPicker(
        aggregate=np.median, needs=needs), windows, [1])
    assert len(x) <= len(fft)
    assert want == slices
    assert len(doc.pooled) == len(slices)
    for ts, value in doc.pooled.iter_slices():
        assert np.allclose(value, np.asarray(fft[ts]).max(axis=0))
    ctx.nontrivial(len(slices) > 1)
    ctx.label(method)
