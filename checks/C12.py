"""C12: frequency-domain transforms"""
import contextlib
import io

import numpy as np
from hypothesis import strategies as st
from scipy.fftpack import dct as scipy_dct
from scipy.signal import firwin2

import zounds
from vlib.runner import Suite
from vlib import gen
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import (
    AudioSamples, TimeDimension, SampleRate, Seconds)
from zounds.spectral import (
    fft, stft, phase_shift, apply_scale, fir_filter_bank,
    morlet_filter_bank, rainbowgram,
    FFT, DCT, DCTIV, MDCT, SpectralCentroid, SpectralFlatness, BFCC,
    BarkBands, Chroma, ChromaScale, AWeighting,
    FrequencyBand, FrequencyDimension, LinearScale, GeometricScale,
    ExplicitScale,
    BarkScale, MelScale, IdentityWindowingFunc,
    HanningWindowingFunc, OggVorbisWindowingFunc, WindowingFunc)
from zounds.spectral.functional import auto_correlogram, mdct, imdct
from checks.C05 import build_spectrum, spectra

suite = Suite(
    'C12',
    'random signals, windows and axes transformed, against the defining sums '
    'or numpy\'s transforms on the bare values; tones placed at random '
    'frequencies; non-trivial = the signal is longer than the smallest case '
    'and, for windowed transforms, makes more than one window',
    ['time dimensions that are transformed have a standard audio sample rate'])

RATE = st.sampled_from(gen.RATES)


def samplerate(rate):
    return gen.SAMPLERATES[rate]()


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    assert a.shape == b.shape, (a.shape, b.shape)
    scale = max(1.0, float(np.abs(b).max())) if b.size else 1.0
    err = float(np.abs(a - b).max()) if b.size else 0.0
    assert err <= tol * scale, (err, tol * scale)


def is_linear(dim, rate, n):
    """n linearly spaced bands from zero to nyquist"""
    assert isinstance(dim, FrequencyDimension), dim
    assert len(dim.scale) == n, (len(dim.scale), n)
    expected = LinearScale.from_sample_rate(samplerate(rate), n)
    assert dim.scale == expected, (dim.scale, expected)


def frames(rate, n_frames, size, hop, seed):
    sr = samplerate(rate)
    raw = gen.rng(seed).normal(0, 1, (n_frames, size))
    td = TimeDimension(sr.frequency * hop, sr.frequency * size)
    return raw, ArrayWithUnits(raw.copy(), [td, TimeDimension(*sr)])


# -- fft --------------------------------------------------------------------

@suite.part(
    quick=600, rate=RATE, n=st.integers(2, 70),
    others=st.lists(st.tuples(st.one_of(
        st.integers(1, 5), st.none()), st.booleans()), max_size=2),
    position=st.integers(0, 2), from_end=st.booleans(),
    padding=st.one_of(st.just(0), st.integers(1, 70)),
    dtype=st.sampled_from(['f8', 'f4', 'i2']), as_node=st.booleans(),
    seed=gen.seeds)
def fft_is_the_unitary_real_transform_along_its_axis(
        ctx, rate, n, others, position, from_end, padding, dtype, as_node,
        seed):
    """fft and the FFT node on any axis, with any padding: numpy's values,
    the axis becomes a linear frequency axis, the others keep theirs"""
    sr = samplerate(rate)
    position = min(position, len(others))
    # other axes may be of the same size
    if len(others) > 1:
        n = min(n, 20)
    shape = [s or n for s, _ in others]
    shape.insert(position, n)
    dims = [TimeDimension(Seconds(1)) if t else IdentityDimension()
            for _, t in others]
    dims.insert(position, TimeDimension(*sr))
    raw = (gen.rng(seed).normal(0, 100, shape)).astype(dtype)
    arr = ArrayWithUnits(raw.copy(), dims)
    axis = position - len(shape) if from_end else position
    ctx.nontrivial(len(shape) > 1 or padding > 0)
    ctx.label('axis %d of %d' % (position, len(shape)),
              'padded' if padding else 'not padded')
    if as_node:
        got, = FFT(axis=axis, padding_samples=padding)._process(arr)
    else:
        got = fft(arr, axis=axis, padding_samples=padding)
    expected = np.fft.rfft(
        raw.astype('f8'), n=n + padding, axis=axis, norm='ortho')
    close(got, expected, 1e-5 if dtype == 'f4' else 1e-9)
    assert isinstance(got, ArrayWithUnits)
    for i, d in enumerate(dims):
        if i == position:
            is_linear(got.dimensions[i], rate, (n + padding) // 2 + 1)
        else:
            assert type(got.dimensions[i]) is type(d)
            if isinstance(d, TimeDimension):
                assert got.dimensions[i] == d
    assert np.array_equal(np.asarray(arr), raw)
    assert arr.dimensions[position] == TimeDimension(*sr)


@suite.part(
    quick=300, rate=RATE, half=st.integers(40, 400),
    where=st.floats(0.05, 0.9), phase=st.floats(0, 6.28))
def a_tone_is_found_in_the_band_it_lies_in(ctx, rate, half, where, phase):
    """the band around a tone's frequency has nearly all its energy"""
    sr = samplerate(rate)
    n = 2 * half
    k = max(2, int(where * half))
    hz = k * int(sr) / float(n)
    t = np.arange(n) / float(int(sr))
    x = AudioSamples(np.sin(2 * np.pi * hz * t + phase), sr)
    coeffs = fft(x)
    spacing = int(sr) / float(n)
    ctx.nontrivial(n > 100)
    energy = np.abs(np.asarray(coeffs)) ** 2
    inside = np.asarray(
        coeffs[FrequencyBand(hz - 2.5 * spacing, hz + 2.5 * spacing)])
    inside = (np.abs(inside) ** 2).sum()
    assert inside >= .98 * energy.sum(), (inside, energy.sum())
    assert inside > 0
    # a unitary transform keeps energy; rfft has the positive half of it
    total = 2 * energy.sum() - energy[0] - energy[-1]
    assert np.isclose(total, (np.asarray(x) ** 2).sum())


# -- stft -------------------------------------------------------------------

WINDOWS = {
    'hanning': (HanningWindowingFunc, np.hanning),
    'ramp': (lambda: WindowingFunc(lambda size: np.arange(1., size + 1)),
             lambda size: np.arange(1., size + 1)),
    'none': (lambda: None, np.ones),
    'identity': (IdentityWindowingFunc, np.ones),
}


@suite.part(
    quick=400, rate=RATE, ws=st.integers(4, 40), data=gen.picks,
    window=st.sampled_from(sorted(WINDOWS)), batch=st.integers(0, 3),
    seed=gen.seeds)
def stft_transforms_every_window(ctx, rate, ws, data, window, batch, seed):
    """each row is the transform of its own windowed samples; a batch gives
    each signal's own transform"""
    sr = samplerate(rate)
    hop = data.integer(1, ws)
    # a single signal may be shorter than a window
    n = data.integer(ws if batch or seed % 4 else 1, ws * 6)
    make, ref = WINDOWS[window]
    wsr = SampleRate(frequency=sr.frequency * hop, duration=sr.frequency * ws)
    rng = gen.rng(seed)
    raw = rng.normal(0, 1, (max(1, batch), n))
    if seed % 3 == 0:
        # samples as they're found in files
        raw = (raw * 3000).astype(np.int16)
        ctx.label('integers')
    if batch:
        x = ArrayWithUnits(
            raw.copy(), [IdentityDimension(), TimeDimension(*sr)])
    else:
        x = AudioSamples(raw[0].copy(), sr)
    got = stft(x, wsr, make())
    full = max(0, 1 + (n - ws) // hop)
    ctx.nontrivial(full > 1 or n < ws)
    ctx.label('batch' if batch else 'single', window,
              'short' if n < ws else 'long')
    rows = np.asarray(got) if batch else np.asarray(got)[None]
    assert rows.shape[0] == raw.shape[0]
    assert rows.shape[2] == ws // 2 + 1
    assert full <= rows.shape[1] <= -(-n // hop), (rows.shape, full)
    for b in range(raw.shape[0]):
        for k in range(rows.shape[1]):
            w = np.zeros(ws)
            piece = raw[b, k * hop: k * hop + ws]
            w[:len(piece)] = piece
            close(rows[b, k], np.fft.rfft(w * ref(ws), norm='ortho'), 1e-8)
    if not batch:
        # nothing of the signal is left out
        assert (rows.shape[1] - 1) * hop + ws >= n
    dims = got.dimensions[-2:]
    assert isinstance(dims[0], TimeDimension)
    assert dims[0].frequency == wsr.frequency
    assert dims[0].duration == wsr.duration
    is_linear(dims[1], rate, ws // 2 + 1)
    if batch:
        assert isinstance(got.dimensions[0], IdentityDimension)
    assert np.array_equal(np.asarray(x).reshape(raw.shape), raw)


# -- cosine transforms ------------------------------------------------------

def dct2_reference(x):
    n = x.shape[-1]
    k = np.arange(n)
    basis = np.cos(np.pi / n * np.outer(k + .5, k)) * np.sqrt(2. / n)
    basis[:, 0] /= np.sqrt(2)
    return x @ basis


def dct4_reference(x):
    n = x.shape[-1]
    k = np.arange(n)
    return x @ np.cos(np.pi / n * np.outer(k + .5, k + .5)) * np.sqrt(2. / n)


def mdct_reference(x):
    n = x.shape[-1] // 2
    basis = np.cos(np.pi / n * np.outer(
        np.arange(2 * n) + .5 + n / 2., np.arange(n) + .5))
    return x @ basis * np.sqrt(2. / n)


COSINE = {'dct': (DCT, dct2_reference, 1), 'dct4': (DCTIV, dct4_reference, 1),
          'mdct': (MDCT, mdct_reference, 2)}


@suite.part(
    quick=500, rate=RATE, n_frames=st.integers(1, 5),
    half=st.integers(2, 40), odd=st.booleans(),
    kind=st.sampled_from(sorted(COSINE)), lapped=st.booleans(),
    seed=gen.seeds)
def cosine_transforms_match_their_definitions(
        ctx, rate, n_frames, half, odd, kind, lapped, seed):
    """DCT, DCT-IV and MDCT nodes against the defining sums"""
    node, reference, ratio = COSINE[kind]
    size = 2 * half + (1 if odd and kind != 'mdct' else 0)
    raw, arr = frames(rate, n_frames, size, half if lapped else size, seed)
    even = kind != 'mdct' and seed % 2 == 0
    got, = node(**(dict(scale_always_even=True) if even else {}))._process(
        arr)
    ctx.nontrivial(n_frames > 1)
    ctx.label(kind)
    # slices by frequency have an even size where that's asked for
    at = seed % max(1, size // ratio - 2)
    scale = got.dimensions[1].scale
    for width in (1, 2):
        found = scale.get_slice(FrequencyBand(
            scale[at].center_frequency,
            scale[at + width - 1].center_frequency))\
            if width > 1 else scale.get_slice(FrequencyBand(
                scale[at].start_hz + .3 * scale[at].bandwidth,
                scale[at].start_hz + .6 * scale[at].bandwidth))
        assert (found.start, found.stop) == (
            at, at + (2 if even else width)), (found, at, width)
    close(got, reference(raw))
    assert got.dimensions[0] == arr.dimensions[0]
    is_linear(got.dimensions[1], rate, size // ratio)
    assert np.array_equal(np.asarray(arr), raw)
    if kind == 'mdct':
        close(mdct(raw), reference(raw))
    else:
        # orthonormal: energy is kept
        assert np.allclose(
            (np.asarray(got) ** 2).sum(axis=1), (raw ** 2).sum(axis=1))


@suite.part(
    quick=300, half=st.integers(2, 40), blocks=st.integers(3, 7),
    window=st.sampled_from(['sine', 'vorbis']), seed=gen.seeds)
def mdct_and_imdct_cancel_aliasing(ctx, half, blocks, window, seed):
    """windowed, overlapped and added, the inverse MDCT of the MDCT is the
    signal"""
    size = 2 * half
    t = (np.arange(size) + .5) / size * np.pi
    w = np.sin(t)
    if window == 'vorbis':
        w = np.sin(np.pi / 2 * w ** 2)
    signal = gen.rng(seed).normal(0, 1, half * blocks)
    rows = np.array([
        signal[i * half: i * half + size] for i in range(blocks - 1)])
    back = imdct(mdct(rows * w)) * w
    assert back.shape == rows.shape
    out = np.zeros(len(signal))
    for i, b in enumerate(back):
        out[i * half: i * half + size] += b
    ctx.nontrivial(half > 2)
    close(out[half: -half], signal[half: -half])


# -- phase ------------------------------------------------------------------

@suite.part(
    quick=300, rate=RATE, half=st.integers(4, 60),
    others=st.integers(0, 4), first=st.booleans(),
    shift=st.integers(-200, 200), seed=gen.seeds)
def phase_shift_delays_the_signal(
        ctx, rate, half, others, first, shift, seed):
    """a phase shift of k samples is a circular shift by k samples, on
    whichever axis"""
    sr = samplerate(rate)
    n = 2 * half
    rng = gen.rng(seed)
    dims = [TimeDimension(*sr)]
    shape = [n]
    axis = 0
    if others:
        axis = 0 if first else 1
        dims.insert(1 - axis, TimeDimension(Seconds(1)))
        shape.insert(1 - axis, others)
    raw = rng.normal(0, 1, shape)
    # without energy at nyquist, where a shift isn't defined
    raw -= np.real(np.fft.irfft(
        np.where(np.arange(half + 1).reshape(
            [-1 if i == axis else 1 for i in range(len(shape))]) == half,
            np.fft.rfft(raw, axis=axis), 0), axis=axis, n=n))
    coeffs = fft(ArrayWithUnits(raw, dims), axis=axis)
    before = np.asarray(coeffs).copy()
    got = phase_shift(coeffs, sr, sr.frequency * shift, axis=axis)
    ctx.nontrivial(shift % n != 0)
    assert got.dimensions == coeffs.dimensions
    back = np.fft.irfft(np.asarray(got), n=n, axis=axis, norm='ortho')
    close(back, np.roll(raw, shift, axis=axis), 1e-8)
    assert np.array_equal(np.asarray(coeffs), before)


@suite.part(
    quick=200, rate=RATE, half=st.integers(20, 100),
    a=st.floats(0.02, .9), b=st.floats(0.02, .9), rows=st.integers(0, 3),
    shift=st.integers(1, 50), axis=st.sampled_from([None, 0, -2]),
    by_slice=st.booleans(), seed=gen.seeds)
def phase_shift_of_a_band_leaves_the_others(
        ctx, rate, half, a, b, rows, shift, axis, by_slice, seed):
    """with a frequency band (or range of coefficients), only that band's
    coefficients turn, by the angle they'd turn by in a shift of everything,
    on whichever axis they lie"""
    sr = samplerate(rate)
    n = 2 * half
    shape = (rows, n) if rows else (n,)
    dims = [TimeDimension(*sr)]
    if rows:
        dims.insert(0, TimeDimension(Seconds(1)))
    coeffs = fft(ArrayWithUnits(gen.rng(seed).normal(0, 1, shape), dims))
    lo, hi = sorted((a, b))
    band = FrequencyBand(
        lo * int(sr) / 2., hi * int(sr) / 2. + int(sr) / float(n))
    whole = np.asarray(phase_shift(coeffs, sr, sr.frequency * shift))
    sl = coeffs.dimensions[-1].integer_based_slice(band)
    if by_slice:
        band = sl
    if axis is None or not rows:
        part = np.asarray(phase_shift(
            coeffs, sr, sr.frequency * shift, frequency_band=band))
    else:
        turned = ArrayWithUnits(
            np.asarray(coeffs).T.copy(), coeffs.dimensions[::-1])
        part = phase_shift(turned, sr, sr.frequency * shift, axis=axis,
                           frequency_band=band)
        assert part.dimensions == turned.dimensions
        part = np.asarray(part).T
    expected = np.asarray(coeffs).copy()
    expected[..., sl] = whole[..., sl]
    chosen = np.zeros(half + 1, bool)
    chosen[sl] = True
    ctx.nontrivial(0 < chosen.sum() < half + 1)
    close(part, expected)


# -- filter banks -----------------------------------------------------------

@suite.part(
    quick=150, rate=RATE, taps=st.sampled_from([128, 256, 512]),
    n_bands=st.integers(1, 8), lo=st.floats(.02, .3),
    scaling=st.floats(0.05, 0.5), many=st.booleans(),
    normalize=st.booleans())
def morlet_filters_peak_at_their_bands(
        ctx, rate, taps, n_bands, lo, scaling, many, normalize):
    """every wavelet resonates at the center of its own band"""
    sr = samplerate(rate)
    nyquist = int(sr) / 2.
    scale = GeometricScale(
        lo * nyquist, .8 * nyquist, 0.1, max(2, n_bands))
    factors = [scaling * (1 + .05 * i) for i in range(len(scale))]
    bank = morlet_filter_bank(
        sr, taps, scale, factors if many else scaling, normalize=normalize)
    ctx.nontrivial(len(scale) > 2)
    assert bank.shape == (len(scale), taps)
    assert bank.dimensions[0] == FrequencyDimension(scale)
    assert bank.dimensions[1] == TimeDimension(*sr)
    assert not np.iscomplexobj(np.asarray(bank))
    pad = 4096
    for i, band in enumerate(scale):
        spectrum = np.abs(np.fft.rfft(np.asarray(bank)[i], n=pad))
        peak = np.argmax(spectrum) * int(sr) / float(pad)
        # the lobe of a wavelet is as wide as its envelope is short
        width = 3. * int(sr) / float(taps)
        if band.center_frequency > 2 * width:
            assert abs(peak - band.center_frequency) < width, (
                peak, band.center_frequency)
        if normalize:
            assert abs(np.linalg.norm(np.asarray(bank)[i]) - 1) < 1e-5


@suite.part(
    quick=150, rate=RATE, taps=st.sampled_from([255, 511]),
    n_bands=st.integers(2, 6), per_band=st.booleans(),
    beyond=st.sampled_from([(.1, .9), (.1, .9), (0, .9), (-.05, .9),
                            (-.05, 1.05), (.1, 1.1)]))
def fir_filters_pass_their_bands(ctx, rate, taps, n_bands, per_band, beyond):
    """every filter passes the middle of its band and stops the others, also
    where bands reach below zero or above the nyquist frequency"""
    sr = samplerate(rate)
    nyquist = int(sr) / 2.
    scale = LinearScale(FrequencyBand(
        beyond[0] * nyquist, beyond[1] * nyquist), n_bands)
    window = np.hanning(32)
    if per_band:
        # wide and narrow ones in turns
        window = np.array([
            window ** .2 if i % 2 else window for i in range(n_bands)])
    bank = fir_filter_bank(scale, taps, sr, window)
    assert bank.shape == (n_bands, taps)
    assert bank.dimensions[0] == FrequencyDimension(scale)
    assert bank.dimensions[1] == TimeDimension(*sr)
    ctx.nontrivial(n_bands > 2)
    t = np.arange(taps)
    for i in range(n_bands):
        for j, band in enumerate(scale):
            # (what's outside of zero to nyquist isn't there)
            lo = max(0, band.start_hz)
            hi = min(nyquist, band.stop_hz)
            w = np.pi * (lo + hi) / 2 / nyquist
            gain = abs((np.asarray(bank)[i] * np.exp(-1j * w * t)).sum())
            if i == j:
                assert gain > .6, (i, gain)
                side = np.pi * (lo + (hi - lo) * .8) / nyquist
                beside = abs((np.asarray(bank)[i] * np.exp(
                    -1j * side * t)).sum())
                if per_band and i % 2:
                    assert beside > .65, (i, beside)
                else:
                    assert beside < .6 * gain, (i, beside, gain)
            elif abs(i - j) > 1:
                assert gain < .05, (i, j, gain)


@suite.part(
    quick=150, rate=RATE, taps=st.integers(16, 600),
    n_bands=st.one_of(st.integers(1, 8), st.integers(1, 90)),
    lo=st.floats(.0005, .3), scaling=st.floats(0.05, 0.9),
    many=st.sampled_from(['no', 'list', 'array']), linear=st.booleans(),
    normalize=st.booleans(), seed=gen.seeds)
def morlet_filters_are_wavelets(
        ctx, rate, taps, n_bands, lo, scaling, many, linear, normalize, seed):
    """every row is the real part of a morlet wavelet with the frequency of
    its band's center, and as many deviations wide as its own factor says"""
    sr = samplerate(rate)
    nyquist = int(sr) / 2.
    if linear:
        scale = LinearScale(FrequencyBand(lo * nyquist, .8 * nyquist), n_bands)
    else:
        scale = GeometricScale(
            lo * nyquist, .8 * nyquist, 0.1, max(2, n_bands))
    factors = gen.rng(seed).uniform(.05, .9, len(scale))
    if many == 'no':
        factors[:] = scaling
        given = scaling
    else:
        given = list(factors) if many == 'list' else factors
    bank = np.asarray(morlet_filter_bank(
        sr, taps, scale, given, normalize=normalize))
    ctx.nontrivial(len(scale) > 2)
    ctx.label('over 64 bands' if len(scale) > 64 else 'fewer bands')
    assert bank.shape == (len(scale), taps)
    x = np.linspace(-2 * np.pi, 2 * np.pi, taps)
    for band, s, row in zip(scale, factors, bank):
        w = band.center_frequency * taps / (2. * int(sr) * s)
        expected = (np.cos(w * s * x) - np.exp(-.5 * w ** 2)) \
            * np.exp(-.5 * (s * x) ** 2) * np.pi ** -.25
        if normalize:
            norm = np.linalg.norm(expected)
            if norm < 1e-3:
                continue
            expected = expected / norm
        close(row, expected, 1e-4 if normalize else 1e-7)


@suite.part(
    quick=150, rate=RATE, taps=st.integers(16, 513),
    n_bands=st.one_of(st.integers(1, 8), st.integers(1, 90)),
    lo=st.one_of(st.just(0), st.floats(1e-5, 1e-3), st.floats(.01, .3)),
    hi=st.sampled_from([.4, .8, .99]), size=st.integers(4, 40),
    per_band=st.booleans(), seed=gen.seeds)
def fir_filters_have_the_gains_of_their_windows(
        ctx, rate, taps, n_bands, lo, hi, size, per_band, seed):
    """every filter has the gains of its own window spread over its band and
    none elsewhere, and is the one that its band has in a bank of its own"""
    sr = samplerate(rate)
    nyquist = int(sr) / 2.
    scale = LinearScale(FrequencyBand(lo * nyquist, hi * nyquist), n_bands)
    rng = gen.rng(seed)
    window = rng.uniform(.2, 1, (n_bands, size) if per_band else size)
    bank = np.asarray(fir_filter_bank(scale, taps, sr, window))
    ctx.nontrivial(n_bands > 2)
    ctx.label('over 64 bands' if n_bands > 64 else 'fewer bands')
    assert bank.shape == (n_bands, taps)
    nyq = int(sr) // 2
    for i, band in enumerate(scale):
        w = window[i] if per_band else window
        if i in (0, n_bands // 2, n_bands - 1):
            single = fir_filter_bank(
                ExplicitScale([band]), taps, sr, w if i % 2 else w[None, ...])
            close(single, bank[i][None, ...], 1e-9)
        start = max(0, band.start_hz)
        f = start + (band.stop_hz - start) * np.arange(size) / size
        freqs, gains = list(f / nyq) + [1], list(w) + [0]
        if start > 0:
            freqs, gains = [0] + freqs, [0] + gains
        close(bank[i], firwin2(taps, freqs, gains), 1e-9)


# -- scales and descriptions of spectra -------------------------------------

@suite.part(
    quick=250, spec=spectra, n_bands=st.integers(1, 20),
    window=st.sampled_from(['none', 'hanning']))
def apply_scale_is_the_scale_on_magnitudes(ctx, spec, n_bands, window):
    """apply_scale of a real spectrum: the scale applied to magnitudes, with
    the scale's frequency axis"""
    raw, arr = build_spectrum(spec)
    rate = spec[0]
    scale = GeometricScale(rate / 50., rate / 2.2, .3, max(2, n_bands))
    w = {'none': None, 'hanning': HanningWindowingFunc()}[window]
    got = apply_scale(arr, scale, w)
    ctx.nontrivial(len(raw) > 1)
    assert got.dimensions[:-1] == arr.dimensions[:-1]
    assert got.dimensions[-1] == FrequencyDimension(scale)
    # negating a spectrum keeps its magnitudes
    close(apply_scale(ArrayWithUnits(-raw, arr.dimensions), scale, w), got)
    ref = np.zeros(got.shape)
    for i, band in enumerate(scale):
        part = np.abs(raw)[:, arr.dimensions[1].integer_based_slice(band)]
        wd = np.ones(part.shape[1]) if w is None \
            else np.hanning(part.shape[1])
        ref[:, i] = part @ wd
    close(got, ref)
    assert np.array_equal(np.asarray(arr), raw)


@suite.part(
    quick=300, spec=spectra, data=gen.picks, gain=st.floats(-12, 12).map(
        lambda e: 10. ** e))
def spectral_descriptors_describe_shape(ctx, spec, gain, data):
    """centroid and flatness don't depend on loudness, lie in their range
    and take their defining values on simple spectra; BFCC is the cepstrum"""
    raw, arr = build_spectrum(spec)
    mags = np.abs(raw) + 1e-3
    arr = ArrayWithUnits(mags * np.sign(raw), arr.dimensions)
    loud = ArrayWithUnits(np.asarray(arr) * gain, arr.dimensions)
    n = raw.shape[1]

    def centroid(x):
        node = SpectralCentroid()
        c, = node._process(node._first_chunk(x))
        return c

    def flatness(x):
        f, = SpectralFlatness()._process(x)
        return f

    ctx.nontrivial(len(raw) > 1)
    c = centroid(arr)
    bins = np.arange(1, n + 1)
    close(c, (mags * bins).sum(axis=1) / mags.sum(axis=1))
    close(centroid(loud), np.asarray(c))
    assert c.dimensions == arr.dimensions[:1]
    f = flatness(arr)
    assert f.dimensions == arr.dimensions[:1]
    close(f, np.exp(np.log(mags).mean(axis=1)) / mags.mean(axis=1))
    close(flatness(loud), np.asarray(f))
    # silent frames among the others
    silent = np.asarray(loud).copy()
    k = data.integer(0, len(raw) - 1)
    silent[k] = 0
    silent = ArrayWithUnits(silent, arr.dimensions)
    for fn, values in ((centroid, c), (flatness, f)):
        values = np.array(values)
        values[k] = 0
        close(fn(silent), values)
    assert (np.asarray(f) <= 1 + 1e-9).all() and (np.asarray(f) >= 0).all()
    flat = ArrayWithUnits(np.full(raw.shape, gain), arr.dimensions)
    close(flatness(flat), np.ones(len(raw)))
    # all the energy in one bin
    k = data.integer(0, n - 1)
    one = np.zeros(raw.shape)
    one[:, k] = gain
    close(centroid(ArrayWithUnits(one, arr.dimensions)),
          np.full(len(raw), k + 1.))
    n_coeffs = data.integer(1, 20)
    exclude = data.integer(0, 3)
    b, = BFCC(n_coeffs=n_coeffs, exclude=exclude)._process(arr)
    ref = scipy_dct(np.log(mags), axis=1)[:, exclude: exclude + n_coeffs]
    close(b, ref, 1e-6)
    assert b.dimensions[0] == arr.dimensions[0]


@suite.part(
    quick=150, rate=st.sampled_from([44100, 22050, 11025]),
    n_frames=st.integers(1, 4), n_bands=st.one_of(
        st.integers(2, 40), st.integers(80, 250)), seed=gen.seeds,
    n=st.one_of(st.just(1025), st.sampled_from([513, 2049, 4097])),
    window=st.sampled_from(['hanning', 'ones']))
def bark_bands_and_chroma_are_scales_of_magnitudes(
        ctx, rate, n_frames, n_bands, seed, n, window):
    """the nodes give their scale's bands of the magnitudes, and depend on
    magnitudes only"""
    sr = samplerate(rate)
    rng = gen.rng(seed)
    raw = rng.normal(0, 1, (n_frames, n)) + 1j * rng.normal(
        0, 1, (n_frames, n))
    dims = [TimeDimension(Seconds(1)),
            FrequencyDimension(LinearScale.from_sample_rate(sr, n))]
    arr = ArrayWithUnits(raw.copy(), dims)
    turned = ArrayWithUnits(
        raw * np.exp(1j * rng.uniform(0, 6, raw.shape)), dims)
    band = FrequencyBand(200, int(sr) / 2.5)
    w = {'hanning': HanningWindowingFunc(),
         'ones': WindowingFunc(np.ones)}[window]
    ctx.nontrivial(n_frames > 1)
    bark = BarkBands(band, n_bands, window=w)
    got, = bark._process(arr)
    assert got.shape == (n_frames, n_bands)
    assert got.dimensions[0] == dims[0]
    assert got.dimensions[1] == FrequencyDimension(BarkScale(band, n_bands))
    ref = np.zeros(got.shape)
    for i, b in enumerate(BarkScale(band, n_bands)):
        part = np.abs(raw)[:, dims[1].integer_based_slice(b)]
        ref[:, i] = part @ (np.hanning if window == 'hanning'
                            else np.ones)(part.shape[1])
    close(got, ref)
    close(list(bark._process(turned))[0], ref, 1e-8)
    chroma = Chroma(band, window=w)
    c, = chroma._process(arr)
    assert c.shape == (n_frames, 12)
    assert c.dimensions[0] == dims[0]
    assert isinstance(c.dimensions[1], IdentityDimension)
    close(list(chroma._process(turned))[0], np.asarray(c), 1e-8)
    # the magnitudes are weighted as they're heard
    close(c, np.asarray(ChromaScale(band).apply(
        np.abs(arr) * AWeighting(), w)))
    assert np.array_equal(np.asarray(arr), raw)


@suite.part(
    quick=100, rate=RATE, n_frames=st.integers(3, 8), size=st.integers(4, 40),
    seed=gen.seeds)
def rainbowgrams_are_images_with_the_same_axes(
        ctx, rate, n_frames, size, seed):
    """one rgb color in the unit range per coefficient"""
    raw, arr = frames(rate, n_frames, size, size, seed)
    coeffs = fft(arr)
    got = rainbowgram(coeffs)
    ctx.nontrivial(size > 4)
    assert got.shape == coeffs.shape + (3,)
    assert got.dimensions[:2] == coeffs.dimensions
    assert isinstance(got.dimensions[2], IdentityDimension)
    assert np.isfinite(np.asarray(got)).all()
    assert np.asarray(got).min() >= 0 and np.asarray(got).max() <= 1


@suite.part(
    quick=60, thorough=600, rate=RATE, n_frames=st.integers(4, 30),
    speeds=st.lists(st.integers(-9, 9), min_size=2, max_size=8),
    pauses=st.sampled_from([False, False, True]), seed=gen.seeds)
def rainbowgrams_show_how_fast_phases_turn(
        ctx, rate, n_frames, speeds, pauses, seed):
    """coefficients that turn steadily have one color throughout, which is the
    same for those that turn equally fast, and another for those that
    don't, wherever the turn started; what's silent is black"""
    r = gen.rng(seed)
    sr = samplerate(rate)
    n = len(speeds)
    angles = r.uniform(-np.pi, np.pi, n) + .3 * np.arange(n_frames)[:, None] \
        * np.array(speeds)
    magnitudes = np.ones((n_frames, n))
    quiet = (r.uniform(size=n_frames) < .3) & pauses
    magnitudes[quiet, 0] = 0
    coeffs = ArrayWithUnits(magnitudes * np.exp(1j * angles), [
        TimeDimension(Seconds(1)),
        FrequencyDimension(LinearScale.from_sample_rate(sr, n))])
    # brightness aside
    got = np.asarray(rainbowgram(coeffs, colormap=lambda x: np.stack(
        [x, np.ones_like(x), np.zeros_like(x), np.ones_like(x)], axis=-1)))
    assert got.shape == coeffs.shape + (3,)
    brightness = got[..., 1]
    assert np.array_equal(got[..., 2], np.zeros(coeffs.shape))
    assert not brightness[quiet, 0].any()
    seen = brightness > 1e-3
    seen[quiet, 0] = False
    hue = np.where(seen, got[..., 0] / np.where(seen, brightness, 1), 0)
    lo, hi = min(speeds), max(speeds)
    ctx.nontrivial(lo < hi and not quiet.any())
    if lo == hi or quiet.any():
        # the angle of nothing is none
        return
    for i, speed in enumerate(speeds):
        h = hue[seen[:, i], i]
        assert np.allclose(h, (speed - lo) / float(hi - lo), atol=1e-6), (
            i, h)


@suite.part(
    quick=60, thorough=600, n=st.integers(1, 60), taps=st.integers(1, 20),
    lags=st.integers(1, 24), bands=st.integers(1, 4), rate=RATE,
    seed=gen.seeds, doubles=st.booleans())
def correlograms(ctx, n, taps, lags, bands, rate, seed, doubles):
    """what each filter makes of the signal, compared with itself at all lags
    up to the size of the window, for each position of the window; the
    unshifted one is in the middle"""
    r = gen.rng(seed)
    rate = samplerate(rate)
    raw = r.normal(0, 1, n + taps + lags - 2).astype(
        'f8' if doubles else 'f4')
    x = AudioSamples(raw, rate)
    kernels = r.normal(0, 1, (bands, taps))
    bank = ArrayWithUnits(kernels, [
        FrequencyDimension(LinearScale(FrequencyBand(0, 100), bands)),
        TimeDimension(*rate)])
    with contextlib.redirect_stdout(io.StringIO()):
        got = np.asarray(auto_correlogram(
            x, bank, correlation_window=rate.frequency * lags))
    assert got.shape == (n, 1, 2 * lags, bands)
    assert np.array_equal(np.asarray(x), raw)
    filtered = np.array([[np.dot(raw[i:i + taps].astype('f8'), k)
                          for k in kernels] for i in range(n + lags - 1)])
    for i in {0, n // 2, n - 1}:
        for b in range(bands):
            w = filtered[i:i + lags, b]
            want = np.correlate(w, w, 'full') / np.sqrt(2. * lags)
            close = np.abs(got[i, 0, 1:, b] - want).max()
            assert close <= 1e-4 * (1 + np.abs(want).max()), close
            assert np.abs(got[i, 0, 0, b]) <= 1e-4 * (1 + np.abs(want).max())
    ctx.nontrivial(n > 1 and taps > 1 and lags > 1)
