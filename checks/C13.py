"""C13: synthesis inverts analysis; frequency-adaptive representations"""
import itertools

import numpy as np
import scipy.fftpack
from hypothesis import strategies as st
from scipy.signal import resample

import zounds
from vlib.runner import Suite
from vlib import gen
from checks.C12 import close, frames, samplerate, RATE
from checks import C10
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import (
    AudioSamples, TimeDimension, SampleRate, Seconds, TimeSlice, Milliseconds)
from zounds.spectral import (
    fft, frequency_decomposition, FFT, DCT, DCTIV, MDCT,
    FrequencyAdaptive, FrequencyAdaptiveTransform,
    FrequencyBand, FrequencyDimension, LinearScale, GeometricScale,
    ExplicitScale, ExplicitFrequencyDimension,
    IdentityWindowingFunc, OggVorbisWindowingFunc, HanningWindowingFunc,
    WindowingFunc)
from zounds.synthesize import (
    FFTSynthesizer, DCTSynthesizer, DCTIVSynthesizer, MDCTSynthesizer,
    FrequencyAdaptiveDCTSynthesizer, FrequencyAdaptiveFFTSynthesizer,
    FrequencyDecompositionSynthesizer, SineSynthesizer, TickSynthesizer,
    NoiseSynthesizer, SilenceSynthesizer)

suite = Suite(
    'C13',
    'random signals cut into frames, transformed and synthesized, against '
    'the signal itself or an explicit overlap-add; random frequency-adaptive '
    'arrays against their bands; non-trivial = at least two frames, or two '
    'bands',
    ['windows have an even number of samples'])


def is_audio(x, sr):
    C10.is_audio(x, int(sr), 1, len(x))


def vorbis(n):
    w = np.sin((np.arange(n) + .5) / n * np.pi) ** 2
    return np.sin(np.pi / 2 * w)


# (analysis node, synthesizer for windowed frames, for bare frames)
KINDS = {
    'fft': (FFT, FFTSynthesizer, None),
    'dct': (DCT, lambda: DCTSynthesizer(OggVorbisWindowingFunc()),
            DCTSynthesizer),
    'dct4': (DCTIV, lambda: DCTIVSynthesizer(OggVorbisWindowingFunc()),
             DCTIVSynthesizer),
    'mdct': (MDCT, MDCTSynthesizer, None),
}


@suite.part(
    quick=400, rate=RATE, half=st.integers(16, 64), blocks=st.integers(2, 8),
    kind=st.sampled_from(sorted(KINDS)), seed=gen.seeds)
def half_lapped_analysis_is_inverted(ctx, rate, half, blocks, kind, seed):
    """frames lapped by half and windowed with the vorbis window come back
    as the signal, but for the ends that only one window covers"""
    sr = samplerate(rate)
    size = 2 * half
    signal = gen.rng(seed).normal(0, 1, half * (blocks + 1))
    window = SampleRate(sr.frequency * half, sr.frequency * size)
    samples = AudioSamples(signal, sr)
    _, cut = samples.sliding_window_with_leftovers(
        TimeSlice(window.duration), TimeSlice(window.frequency), dopad=False)
    assert cut.shape == (blocks, size), cut.shape
    windowed = cut * OggVorbisWindowingFunc()
    analysis, synth, _ = KINDS[kind]
    coeffs, = analysis()._process(windowed)
    before = np.asarray(coeffs).copy()
    recon = gen.shared(synth).synthesize(coeffs)
    is_audio(recon, sr)
    ctx.nontrivial(blocks > 2)
    ctx.label(kind)
    assert abs(len(recon) - len(signal)) <= 1, (len(recon), len(signal))
    # the vorbis window is scaled to peak at one
    close(np.asarray(recon)[half: half * blocks],
          signal[half: half * blocks], 1e-4)
    assert np.array_equal(np.asarray(coeffs), before)


@suite.part(
    quick=300, rate=RATE, size=st.integers(2, 60), n_frames=st.integers(1, 6),
    kind=st.sampled_from(['dct', 'dct4']), seed=gen.seeds)
def abutting_frames_are_inverted_exactly(
        ctx, rate, size, n_frames, kind, seed):
    """frames that don't overlap, without a window, come back as the signal"""
    sr = samplerate(rate)
    raw, arr = frames(rate, n_frames, size, size, seed)
    analysis, _, synth = KINDS[kind]
    coeffs, = analysis()._process(arr)
    recon = gen.shared(synth).synthesize(coeffs)
    is_audio(recon, sr)
    ctx.nontrivial(n_frames > 1)
    assert len(recon) == raw.size, (len(recon), raw.size)
    close(recon, raw.reshape(-1))


@suite.part(
    quick=400, rate=RATE, half=st.integers(2, 40), data=gen.picks,
    n_frames=st.integers(1, 6), kind=st.sampled_from(sorted(KINDS)),
    window=st.sampled_from(['none', 'ramp']), seed=gen.seeds)
def synthesis_overlaps_and_adds_every_frame(
        ctx, rate, half, data, n_frames, kind, window, seed):
    """for any step between frames, every inverted and windowed frame is
    added at its own time"""
    sr = samplerate(rate)
    size = 2 * half
    hop = data.integer(1, size)
    raw, arr = frames(rate, n_frames, size, hop, seed)
    analysis, synth, _ = KINDS[kind]
    coeffs, = analysis()._process(arr)
    inverted = raw
    if kind in ('dct', 'dct4') and window == 'ramp':
        synth = {'dct': DCTSynthesizer, 'dct4': DCTIVSynthesizer}[kind](
            WindowingFunc(lambda n: np.arange(1., n + 1)))
        w = np.arange(1., size + 1)
    elif kind in ('dct', 'dct4'):
        synth = {'dct': DCTSynthesizer, 'dct4': DCTIVSynthesizer}[kind]()
        w = np.ones(size)
    else:
        synth = gen.shared(synth)
        w = vorbis(size)
        w = w / w.max()
    if kind == 'mdct':
        # what mdct leaves of a frame: it and its mirrored halves
        a, b = raw[:, :half], raw[:, half:]
        inverted = np.concatenate(
            [a - a[:, ::-1], b + b[:, ::-1]], axis=1)
    recon = synth.synthesize(coeffs)
    is_audio(recon, sr)
    n = hop * (n_frames - 1) + size
    ctx.nontrivial(n_frames > 1)
    ctx.label(kind, 'lapped' if hop < size else 'abutting')
    assert n - 1 <= len(recon) <= n + 1, (len(recon), n)
    expected = np.zeros(n)
    for i, f in enumerate(inverted):
        expected[i * hop: i * hop + size] += f * w
    m = min(n, len(recon))
    close(np.asarray(recon)[:m], expected[:m], 1e-8)


@suite.part(
    quick=40, thorough=300, rate=RATE, size=st.integers(2, 12),
    data=gen.picks, n_frames=st.integers(1000, 20000), seed=gen.seeds,
    dtype=st.sampled_from(['f8', 'f4', 'i2']))
def many_frames_are_added(ctx, rate, size, data, n_frames, seed, dtype):
    """... however many there are, whatever they're made of"""
    sr = samplerate(rate)
    hop = data.integer(1, size)
    r = gen.rng(seed)
    if dtype == 'i2':
        raw = r.randint(-2 ** 15, 2 ** 15, (n_frames, size))
    else:
        raw = r.normal(0, 1, (n_frames, size))
    arr = ArrayWithUnits(raw.astype(dtype), [
        TimeDimension(sr.frequency * hop, sr.frequency * size),
        TimeDimension(*sr)])
    recon = zounds.WindowedAudioSynthesizer().synthesize(arr)
    is_audio(recon, sr)
    n = hop * (n_frames - 1) + size
    assert n - 1 <= len(recon) <= n + 1, (len(recon), n)
    expected = np.zeros(n)
    at = hop * np.arange(n_frames)
    for k in range(size):
        expected[at + k] += raw[:, k]
    m = min(n, len(recon))
    close(np.asarray(recon)[:m], expected[:m], 1e-5 if dtype == 'f4' else 1e-8)
    ctx.nontrivial(hop < size)
    ctx.label(dtype)


@suite.part(
    quick=25, thorough=150, rate=st.sampled_from([44100, 22050, 11025]),
    n=st.integers(9000, 30000), kind=st.sampled_from(sorted(KINDS)),
    chunk=st.integers(5, 40), seed=gen.seeds)
def a_processing_graph_is_inverted(ctx, rate, n, kind, chunk, seed):
    """a sound processed by a graph of nodes with half-lapped windows can be
    synthesized from its stored coefficients"""
    sr = samplerate(rate)
    analysis, synth, _ = KINDS[kind]
    base = zounds.resampled(
        resample_to=sr, chunksize_bytes=chunk * 1024)

    @zounds.simple_in_memory_settings
    class Sound(base):
        windowed = zounds.ArrayWithUnitsFeature(
            zounds.SlidingWindow, wscheme=zounds.HalfLapped(),
            wfunc=OggVorbisWindowingFunc(), needs=base.resampled)
        coeffs = zounds.ArrayWithUnitsFeature(
            analysis, needs=windowed, store=True)

    rng = gen.rng(seed)
    signal = (rng.uniform(-.5, .5, n) * 2 ** 15).astype(np.int16) / 2. ** 15
    _id = Sound.process(meta=AudioSamples(signal, sr).encode())
    recon = gen.shared(synth).synthesize(Sound(_id).coeffs)
    is_audio(recon, sr)
    size = int(round(
        Sound(_id).coeffs.dimensions[0].duration_in_seconds * rate))
    hop = size // 2
    stop = min(n, len(recon)) - size
    ctx.nontrivial(stop > size)
    ctx.label(kind)
    assert len(recon) >= n - size
    err = np.abs(np.asarray(recon)[hop: stop] - signal[hop: stop]).max()
    assert err < 1e-3, err


@suite.part(
    quick=150, n_bands=st.integers(2, 8), shared=st.floats(0, .99),
    which=st.integers(0, 6), other=st.floats(.5, .99))
def transforms_for_synthesis_have_overlapping_scales(
        ctx, n_bands, shared, which, other):
    """a transform that's asked to check its scale takes those whose bands
    overlap by half or more, and no others"""
    edges, start = [], 100.
    which %= n_bands - 1
    for i in range(n_bands):
        edges.append(FrequencyBand(start, start + 1000))
        # the share of a band that it has in common with the next
        start += 1000 * (1 - (shared if i == which else other))
    scale = ExplicitScale(edges)
    ratios = [a.intersection_ratio(b) if b.start_hz < a.stop_hz else 0
              for a, b in zip(edges[:-1], edges[1:])]
    if any(abs(r - .5) < 1e-6 for r in ratios):
        ctx.label('borderline')
        return
    ctx.nontrivial(n_bands > 2)
    try:
        FrequencyAdaptiveTransform(
            transform=scipy.fftpack.idct, scale=scale,
            check_scale_overlap_ratio=True)
        accepted = True
    except ValueError:
        accepted = False
    ctx.label('accepted' if accepted else 'rejected')
    assert accepted == (min(ratios) >= .5), (accepted, ratios)
    FrequencyAdaptiveTransform(transform=scipy.fftpack.idct, scale=scale)


# -- frequency-adaptive -----------------------------------------------------

@st.composite
def adaptives(draw):
    """(frames, sizes of bands, overlap of frames)"""
    return (draw(st.integers(1, 5)),
            draw(st.lists(st.integers(1, 9), min_size=2, max_size=6)),
            draw(st.sampled_from([
                'abutting', 'half', 'quarter', 'third', 'fifth'])),
            draw(st.sampled_from(['geometric', 'explicit'])),
            draw(gen.seeds))


LAPS = {'abutting': 1, 'half': 2, 'quarter': 4, 'third': 3, 'fifth': 5}


def build_adaptive(spec):
    n, sizes, lap, kind, seed = spec
    f = 60000 // LAPS[lap]
    td = TimeDimension(Milliseconds(f), Milliseconds(60000))
    if kind == 'geometric':
        scale = GeometricScale(50, 5000, .1, len(sizes))
    else:
        edges = np.cumsum([20] + [100 * (i + 1) for i in range(len(sizes))])
        scale = ExplicitScale([
            FrequencyBand(a, b) for a, b in zip(edges[:-1], edges[1:])])
    rng = gen.rng(seed)
    arrs = [rng.uniform(.5, 1.5, (n, s)) for s in sizes]
    return arrs, td, scale, FrequencyAdaptive(arrs, td, scale)


@suite.part(quick=400, spec=adaptives(), data=gen.picks)
def frequency_adaptive_arrays_keep_their_bands(ctx, spec, data):
    """every band of an adaptive array is the array it was made of, by
    iteration, by indexing and after conversion"""
    arrs, td, scale, fa = build_adaptive(spec)
    sizes = spec[1]
    ctx.nontrivial(len(set(sizes)) > 1)
    assert fa.shape == (spec[0], sum(sizes))
    assert fa.n_bands == len(sizes)
    assert fa.scale == scale and fa.time_dimension == td
    bands = list(fa.iter_bands())
    assert len(bands) == len(arrs)
    for a, b in zip(arrs, bands):
        assert np.array_equal(np.asarray(b), a)
    i = data.integer(0, len(sizes) - 1)
    j = data.integer(0, spec[0] - 1)
    bands = list(scale)
    assert np.array_equal(np.asarray(fa[:, bands[i]]), arrs[i])
    assert np.array_equal(np.asarray(fa[j][bands[i]]), arrs[i][j])
    again = FrequencyAdaptive(np.asarray(fa), **fa.kwargs())
    for a, b in zip(arrs, again.iter_bands()):
        assert np.array_equal(np.asarray(b), a)
    other = fa.like_dims(np.asarray(fa) * 2)
    assert isinstance(other, FrequencyAdaptive)
    assert other.dimensions == fa.dimensions
    for a, b in zip(arrs, other.iter_bands()):
        assert np.array_equal(np.asarray(b), a * 2)
    # a part of the bands is as adaptive as the whole
    i, k = sorted((i, data.integer(0, len(sizes) - 1)))
    inner = FrequencyBand(
        bands[i].start_hz + .6 * bands[i].bandwidth,
        bands[k].stop_hz - .2 * bands[k].bandwidth)
    part = fa[:, inner]
    chosen = [m for m, b in enumerate(bands)
              if b.stop_hz >= inner.start_hz and b.start_hz < inner.stop_hz]
    assert i in chosen and k in chosen
    assert np.array_equal(
        np.asarray(part), np.concatenate([arrs[m] for m in chosen], axis=1))
    for m in chosen:
        assert np.array_equal(np.asarray(part[:, bands[m]]), arrs[m])
        alone = fa[:, bands[m]]
        assert np.array_equal(np.asarray(alone[:, bands[m]]), arrs[m])
    # coefficients that are picked by number aren't bands
    count = data.integer(1, sum(sizes))
    few = fa[:, :count]
    assert np.array_equal(
        np.asarray(few), np.concatenate(arrs, axis=1)[:, :count])
    if count < sum(sizes):
        assert not isinstance(few.dimensions[1], ExplicitFrequencyDimension)
    # picking frames leaves the bands alone
    start, stop = sorted(
        (data.integer(0, spec[0]), data.integer(0, spec[0])))
    for frames in (
            fa[start:stop], fa[start:stop, :], fa[start:stop, ...],
            fa[..., :][start:stop], fa[:, :][start:stop], fa[:][start:stop, :],
            fa[list(range(start, stop)), :], fa[None, start:stop, :][0]):
        assert frames.shape == (stop - start, sum(sizes))
        assert frames.dimensions[1] == fa.dimensions[1]
        for a, b in zip(arrs, bands):
            assert np.array_equal(np.asarray(frames[:, b]), a[start:stop])
    # the same bands of other sizes are another axis
    if sizes != sizes[::-1]:
        other = FrequencyAdaptive(arrs[::-1], td, scale)
        assert other.shape == fa.shape
        assert other.dimensions[1] != fa.dimensions[1]
    assert FrequencyAdaptive(arrs, td, scale).dimensions == fa.dimensions
    # bands of several types keep their values
    j = data.integer(0, len(sizes) - 1)
    for mixed in (
            [a.astype(np.float32) if m == 0 else a
             for m, a in enumerate(arrs)],
            [a * 1j if m == j else a for m, a in enumerate(arrs)]):
        for a, b in zip(
                mixed, FrequencyAdaptive(mixed, td, scale).iter_bands()):
            assert np.array_equal(np.asarray(b), a)
    plain = ArrayWithUnits(np.asarray(fa), fa.dimensions)
    made = FrequencyAdaptive.from_array_with_units(plain)
    assert isinstance(made, FrequencyAdaptive)
    assert made.dimensions == fa.dimensions
    assert np.array_equal(np.asarray(made), np.asarray(fa))


@suite.part(
    quick=20, size=st.integers(9000, 20000), n=st.integers(1, 3),
    n_bands=st.integers(3, 5), seed=gen.seeds)
def adaptive_arrays_of_long_windows(ctx, size, n, n_bands, seed):
    """bands of many coefficients, whole and in parts"""
    rng = gen.rng(seed)
    sizes = rng.randint(size // 2, size, n_bands)
    scale = GeometricScale(50, 5000, .1, n_bands)
    arrs = [rng.normal(0, 1, (n, s)) for s in sizes]
    fa = FrequencyAdaptive(
        arrs, TimeDimension(Milliseconds(500), Milliseconds(1000)), scale)
    ctx.nontrivial(sum(sizes) > 2 ** 15)
    assert fa.shape == (n, sum(sizes))
    for a, b in zip(arrs, fa.iter_bands()):
        assert np.array_equal(np.asarray(b), a)


@suite.part(quick=300, spec=adaptives(), n_coeffs=st.integers(1, 24),
             rasterize=st.booleans())
def squares_of_adaptive_arrays(ctx, spec, n_coeffs, rasterize):
    """the square view has every band at the same resolution, with its own
    frames, peaks and frequency axis; overlap-adding it puts every frame at
    its own time"""
    arrs, td, scale, fa = build_adaptive(spec)
    n = spec[0]
    n_coeffs = -(-n_coeffs // LAPS[spec[2]]) * LAPS[spec[2]]
    ctx.nontrivial(n > 1)
    ctx.label(spec[2])
    square = fa.rasterize(n_coeffs) if rasterize else fa.square(n_coeffs)
    assert square.shape == (n, n_coeffs, len(arrs))
    assert square.dimensions[0] == td
    assert square.dimensions[2] == FrequencyDimension(scale)
    assert square.dimensions[1].frequency * n_coeffs == td.duration or \
        abs(gen.ps(square.dimensions[1].frequency) * n_coeffs
            - gen.ps(td.duration)) <= n_coeffs
    raw = np.asarray(square)
    for i, a in enumerate(arrs):
        rs = resample(a, n_coeffs, axis=1)
        rs = rs / rs.max(axis=1, keepdims=True) * a.max(
            axis=1, keepdims=True)
        close(raw[:, :, i], rs, 1e-6)
    added = fa.square(n_coeffs, do_overlap_add=True)
    hop = n_coeffs // LAPS[spec[2]]
    total = hop * (n - 1) + n_coeffs
    assert added.shape == (total, len(arrs)), (added.shape, total)
    expected = np.zeros(added.shape)
    for k in range(n):
        expected[k * hop: k * hop + n_coeffs] += raw[k]
    close(added, expected)
    assert added.dimensions[0] == square.dimensions[1]
    assert added.dimensions[1] == FrequencyDimension(scale)


@suite.part(
    quick=200, rate=st.sampled_from([44100, 22050, 11025]),
    half=st.integers(128, 400), n_frames=st.integers(1, 4),
    n_bands=st.integers(2, 12), kind=st.sampled_from(['dct', 'fft']),
    window=st.sampled_from(['hanning', 'ones', 'default']), seed=gen.seeds)
def frequency_adaptive_transforms_are_inverted(
        ctx, rate, half, n_frames, n_bands, kind, window, seed):
    """bands transformed one by one and put back give every coefficient
    weighted by the windows of the bands it lies in, and synthesis of that"""
    sr = samplerate(rate)
    size = 2 * half
    raw, arr = frames(rate, n_frames, size, half, seed)
    coeffs, = (DCT(scale_always_even=True) if kind == 'dct' else
               FFT())._process(arr)
    scale = GeometricScale(rate / 30., rate / 2.5, .3, n_bands)
    fdim = coeffs.dimensions[1]
    slices = [fdim.integer_based_slice(b) for b in scale]
    n = coeffs.shape[1]
    widths = [len(range(n)[s]) for s in slices]
    if min(widths) < 3:
        ctx.label('too narrow')
        return
    wf = {'hanning': np.hanning, 'ones': np.ones, 'default': None}[window]
    ref_wf = wf or np.ones
    transform = scipy.fftpack.idct if kind == 'dct' else np.fft.irfft
    node = FrequencyAdaptiveTransform(
        transform=transform, scale=scale, window_func=wf)
    fa, = node._process(coeffs)
    assert isinstance(fa, FrequencyAdaptive)
    assert fa.scale == scale and fa.time_dimension == arr.dimensions[0]
    ctx.nontrivial(n_bands > 2)
    ctx.label(kind, window)
    bare = np.asarray(coeffs)
    expected = np.zeros(bare.shape, bare.dtype)
    for s, w, band in zip(slices, widths, fa.iter_bands()):
        part = bare[:, s] * ref_wf(w)[None]
        close(band, transform(part, norm='ortho'))
        if kind == 'fft':
            # the ends of a real transform's spectrum are real
            part = np.fft.rfft(np.fft.irfft(part, norm='ortho'), norm='ortho')
        expected[:, s] += part
    if kind == 'dct':
        synth = FrequencyAdaptiveDCTSynthesizer(scale, sr)
        direct = gen.shared(DCTSynthesizer)
    else:
        synth = FrequencyAdaptiveFFTSynthesizer(scale, sr)
        direct = gen.shared(FFTSynthesizer)
    got = synth.synthesize(fa)
    want = direct.synthesize(ArrayWithUnits(expected, coeffs.dimensions))
    is_audio(got, sr)
    close(got, want, 1e-7)
    # and the samples themselves are right too
    frame = scipy.fftpack.idct(expected[0], norm='ortho') if kind == 'dct' \
        else np.fft.irfft(expected[0], norm='ortho') * (
            vorbis(size) / vorbis(size).max())
    close(np.asarray(got)[:half], frame[:half], 1e-7)


@suite.part(
    quick=200, rate=RATE, rows=st.integers(0, 3),
    sizes=st.one_of(
        st.lists(st.integers(4, 60), min_size=1, max_size=4, unique=True),
        st.lists(st.integers(4, 90), min_size=9, max_size=24, unique=True)),
    extra=st.integers(1, 60), shuffle=st.booleans(),
    pick=st.lists(st.integers(0, 24), max_size=20), seed=gen.seeds)
def frequency_decomposition_is_inverted(
        ctx, rate, rows, sizes, extra, shuffle, pick, seed):
    """resampling all the bands of a decomposition to the original size and
    adding them gives the signal; any subset of bands adds up likewise"""
    sr = samplerate(rate)
    n = max(sizes) + extra
    sizes = sorted(sizes) + [n]
    if shuffle:
        sizes = sizes[::-1]
    raw = gen.rng(seed).normal(0, 1, (max(1, rows), n))
    if rows:
        x = ArrayWithUnits(
            raw.copy(), [TimeDimension(Seconds(1)), TimeDimension(*sr)])
    else:
        x = AudioSamples(raw[0].copy(), sr)
    got = frequency_decomposition(x, sizes)
    assert isinstance(got, FrequencyAdaptive)
    ctx.nontrivial(len(sizes) > 2)
    sizes = sorted(sizes)
    assert [b.shape[1] for b in got.iter_bands()] == sizes
    if rows:
        assert got.time_dimension == x.dimensions[0]
    # bands meet at the nyquist frequency of their own size
    edges = [0] + [sr.nyquist * s / float(n) for s in sizes]
    for band, a, b in zip(got.scale, edges[:-1], edges[1:]):
        assert abs(band.start_hz - a) < 1e-6 and abs(band.stop_hz - b) < 1e-6
    synth = FrequencyDecompositionSynthesizer(sr, n)
    recon = synth.synthesize(got)
    close(recon, raw, 1e-8)
    assert recon.dimensions[1] == TimeDimension(*sr)
    assert recon.dimensions[0] == got.time_dimension
    pick = sorted({p % len(sizes) for p in pick})
    if pick:
        bands = list(got.iter_bands())
        part = synth.synthesize(got, bands=pick)
        close(part, sum(
            resample(np.asarray(bands[p]), n, axis=1) for p in pick))
    assert np.array_equal(np.asarray(x).reshape(raw.shape), raw)


@suite.part(
    quick=150, rate=RATE, cycles=st.floats(0.01, .98), power=st.integers(7, 9),
    seed=gen.seeds)
def a_tone_lands_in_its_band_of_a_decomposition(
        ctx, rate, cycles, power, seed):
    """the energy of a tone is in the band of the decomposition that its
    frequency lies in"""
    sr = samplerate(rate)
    n = 2 ** power
    sizes = [n // 8, n // 4, n // 2, n]
    k = max(1, int(cycles * n / 2))
    if k in [s // 2 for s in sizes]:
        k -= 1
    x = AudioSamples(np.sin(2 * np.pi * k * np.arange(n) / n + .3), sr)
    got = frequency_decomposition(x, sizes)
    energy = [
        (np.asarray(b) ** 2).mean() for b in got.iter_bands()]
    expected = [i for i, s in enumerate(sizes) if k < s / 2][0]
    ctx.nontrivial(expected > 0)
    ctx.label('band %d' % expected)
    assert np.argmax(energy) == expected, (energy, expected)
    assert energy[expected] > .99 * sum(energy)


# -- sounds from nothing ----------------------------------------------------

@suite.part(
    quick=600, rate=RATE, ms=st.integers(1, 400),
    freqs=st.lists(st.one_of(
        st.floats(1, 5000), st.floats(1, 60000), st.integers(1, 20000)),
        min_size=1, max_size=4), times=st.sampled_from([1, 1, 1, 20]))
def sines_have_their_frequencies(ctx, rate, ms, freqs, times):
    """the mean of the sines asked for, for as long as asked"""
    freqs = [f + 10 * k for k in range(times) for f in freqs]
    wanted = list(freqs)
    sr = samplerate(rate)
    got = gen.shared(SineSynthesizer, sr).synthesize(Milliseconds(ms), freqs)
    is_audio(got, sr)
    n = ms * rate / 1000.
    ctx.nontrivial(len(freqs) > 1)
    assert abs(len(got) - n) <= 1, (len(got), n)
    t = np.arange(len(got)) / float(rate)
    expected = sum(np.sin(2 * np.pi * f * t) for f in freqs) / len(freqs)
    close(got, expected, 1e-7)
    assert freqs == wanted


@suite.part(
    quick=60, rate=RATE, seconds=st.floats(1, 6), seed=gen.seeds)
def noise_does_not_repeat(ctx, rate, seconds, seed):
    """white noise has no period, and all frequencies are about as strong"""
    sr = samplerate(rate)
    np.random.seed(seed)
    noise = np.asarray(NoiseSynthesizer(sr).synthesize(
        Milliseconds(int(seconds * 1000))))
    n = len(noise)
    ctx.nontrivial(seconds > 2)
    energy = np.abs(np.fft.rfft(noise, 2 * n)) ** 2
    auto = np.fft.irfft(energy)[:n] / n
    assert abs(auto[0] - 1 / 3.) < .03, auto[0]
    assert np.abs(auto[1:]).max() < .05, np.abs(auto[1:]).argmax() + 1
    bands = [b.mean() for b in np.array_split(
        np.abs(np.fft.rfft(noise)) ** 2, 8)]
    assert max(bands) < 2 * min(bands), bands


@suite.part(
    quick=200, rate=RATE, ms=st.integers(1, 2000), tick=st.one_of(
        st.integers(2, 99), st.integers(100, 700)), seed=gen.seeds)
def ticks_add_up(ctx, rate, ms, tick, seed):
    """the same short sound starts at every period, and they add up"""
    sr = samplerate(rate)
    np.random.seed(seed)
    one = np.asarray(TickSynthesizer(sr).synthesize(
        Milliseconds(ms), Milliseconds(10000)))
    np.random.seed(seed)
    many = np.asarray(TickSynthesizer(sr).synthesize(
        Milliseconds(ms), Milliseconds(tick)))
    assert len(one) == len(many)
    exact = tick * rate / 1000.
    ctx.nontrivial(len(one) > exact)
    ctx.label('ticks overlap' if tick < 100 else 'ticks apart')
    # the period is a whole number of samples
    for step in (int(exact), int(exact) + 1, int(exact) - 1):
        if step < 1:
            continue
        expected = np.zeros(len(one))
        for i in range(0, len(one), step):
            expected[i:] += one[:len(one) - i]
        if np.allclose(many, expected, atol=1e-8):
            break
    else:
        assert False, 'ticks do not add up'


@suite.part(
    quick=300, rate=RATE, ms=st.integers(1, 800), tick=st.integers(5, 500),
    seed=gen.seeds)
def noise_ticks_and_silence(ctx, rate, ms, tick, seed):
    """sounds of the length asked for, in range; ticks start at every period
    and silence is silent"""
    sr = samplerate(rate)
    n = ms * rate / 1000.
    d = Milliseconds(ms)
    np.random.seed(seed)
    noise = gen.shared(NoiseSynthesizer, sr).synthesize(d)
    silence = gen.shared(SilenceSynthesizer, sr).synthesize(d)
    ticks = gen.shared(TickSynthesizer, sr).synthesize(d, Milliseconds(tick))
    for s in (noise, silence, ticks):
        is_audio(s, sr)
        assert abs(len(s) - n) <= 1, (len(s), n)
    assert not np.asarray(silence).any()
    noise = np.asarray(noise)
    assert (np.abs(noise) <= 1).all()
    if len(noise) > 1000:
        assert abs(noise.mean()) < .15 and noise.std() > .5
    ticks = np.asarray(ticks)
    step = int(rate // (1000. / tick))
    tail = int(rate * .1)
    ctx.nontrivial(len(ticks) > step)
    ctx.label('ticks overlap' if step < tail else 'ticks apart')
    if len(ticks) > step + 10 and step > 10:
        # the second tick is the first one again, on top of its tail
        first = ticks[:step]
        assert np.abs(first).max() > 0
        second = ticks[step: min(len(ticks), 2 * step)]
        if step >= tail:
            close(second, first[:len(second)])
            assert not first[tail:].any()
