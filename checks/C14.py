"""C14: time stretching and pitch shifting"""
import numpy as np
import scipy.signal
from hypothesis import strategies as st

from vlib.runner import Suite
from vlib import gen
from checks.C12 import close, samplerate
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import AudioSamples, TimeDimension, SampleRate
from zounds.spectral import time_stretch, pitch_shift

suite = Suite(
    'C14',
    'random tones, events and noise stretched by factors from a half to two '
    'and shifted by up to an octave, against the expected length, frequency, '
    'level and position; non-trivial = a factor other than one',
    ['signals are at least several analysis windows long'])

RATE = st.sampled_from([44100, 22050, 11025])
# log2 of the factor
FACTORS = st.one_of(
    st.floats(-1, 1), st.sampled_from([-1., -.5, 0., .5, 1.]))
SEMITONES = st.one_of(
    st.floats(-12, 12), st.integers(-12, 12), st.floats(-24, 24))


def peak(y, rate):
    y = np.asarray(y) * np.hanning(len(y))
    spectrum = np.abs(np.fft.rfft(y, n=1 << 17))
    return np.argmax(spectrum) * rate / float(1 << 17)


def rms(y):
    return float(np.sqrt((np.asarray(y) ** 2).mean()))


def middle(y):
    return np.asarray(y)[int(.25 * len(y)): int(.75 * len(y))]


def frame_rate(sr, size):
    """windows lapped by three quarters"""
    return None if size is None else SampleRate(
        sr.frequency * (size // 4), sr.frequency * size)


def tone(rate, n, hz, phase=0.):
    return np.sin(2 * np.pi * hz * np.arange(n) / rate + phase)


@suite.part(
    quick=150, rate=RATE, seconds=st.floats(.4, 1.2), hz=st.floats(0, 1),
    phase=st.floats(0, 6.28), factor=FACTORS,
    frame=st.sampled_from([None, None, 512, 1024]))
def stretching_keeps_frequency_and_level(
        ctx, rate, seconds, hz, phase, factor, frame):
    """a stretched tone lasts as long as asked, and sounds the same"""
    sr = samplerate(rate)
    n = int(rate * seconds)
    hz = 150 * rate / 11025. + hz * .15 * rate
    factor = 2. ** factor
    x = AudioSamples(tone(rate, n, hz, phase), sr)
    got = time_stretch(x, factor, frame_sample_rate=frame_rate(sr, frame))
    ctx.nontrivial(abs(factor - 1) > .01)
    ctx.label('longer' if factor < 1 else 'shorter')
    assert got.shape == (1, int(n / factor)), (got.shape, n, factor)
    assert isinstance(got.dimensions[0], IdentityDimension)
    assert got.dimensions[1] == x.dimensions[0]
    assert got.dtype == x.dtype
    y = middle(got[0])
    assert abs(peak(y, rate) - hz) < .7 * rate / len(y) + 1, (
        peak(y, rate), hz)
    same = time_stretch(x, 1., frame_sample_rate=frame_rate(sr, frame))
    assert abs(rms(y) / rms(middle(same[0])) - 1) < .05, (
        rms(y), rms(middle(same[0])))
    # a stretch by one is the signal, up to the gain of the windows
    a, b = middle(same[0]), middle(x)
    gain = (a * b).sum() / (b * b).sum()
    assert gain > 0 and np.abs(a - gain * b).max() < .02 * gain
    assert np.array_equal(np.asarray(x), tone(rate, n, hz, phase))


def vocoder(x, factor, hop, size):
    """the textbook phase vocoder, one output frame at a time"""
    x = np.asarray(x)
    window = scipy.signal.windows.hann(size)
    n_frames = (len(x) - size) // hop + 1
    spectra = [
        np.fft.rfft(x[i * hop: i * hop + size] * window, norm='ortho')
        for i in range(n_frames)]
    spectra += [np.zeros_like(spectra[0])] * 2
    step = np.pi * hop * np.arange(size // 2 + 1) / (size // 2)
    phase = np.angle(spectra[0])
    out = np.zeros(int(len(x) / factor))
    k = 0
    while k * factor < n_frames:
        at = k * factor
        i = int(at)
        a, b = spectra[i], spectra[i + 1]
        mags = np.abs(a) + (at - i) * (np.abs(b) - np.abs(a))
        frame = np.fft.irfft(mags * np.exp(1j * phase), norm='ortho') * window
        dest = out[k * hop: k * hop + size]
        dest += frame[:len(dest)]
        change = np.angle(b) - np.angle(a) - step
        phase = phase + step + change - 2 * np.pi * np.round(
            change / (2 * np.pi))
        k += 1
    return out


@suite.part(
    quick=120, rate=RATE, size=st.sampled_from([64, 256, 512, 1024]),
    lap=st.sampled_from([2, 4, 8]), frames=st.integers(1, 24),
    extra=st.integers(0, 1000), factor=st.one_of(
        st.floats(-2, 2), st.sampled_from([-1.6e-16, -2., -1., -.5, 0., .5, 1., 2.])),
    kind=st.sampled_from(['noise', 'tone', 'ramp']), seed=gen.seeds)
def stretching_is_a_phase_vocoder(
        ctx, rate, size, lap, frames, extra, factor, kind, seed):
    """every output sample is that of the textbook phase vocoder: magnitudes
    are interpolated between the frames, and phases run on"""
    sr = samplerate(rate)
    hop = size // lap
    n = size + hop * frames + extra % hop
    raw = gen.rng(seed).normal(0, 1, n)
    if kind != 'noise':
        raw = .01 * raw + tone(rate, n, .07 * rate)
    if kind == 'ramp':
        raw *= np.linspace(0, 2, n)
    factor = 2. ** factor
    frame = SampleRate(sr.frequency * hop, sr.frequency * size)
    x = AudioSamples(raw.copy(), sr)
    got = time_stretch(x, factor, frame_sample_rate=frame)
    expected = vocoder(raw, factor, hop, size)
    ctx.nontrivial(abs(factor - 1) > .01 and expected.any())
    ctx.label(kind, 'lap %d' % lap)
    assert got.shape == (1,) + expected.shape, (got.shape, expected.shape)
    close(got[0], expected, 1e-6)
    # nothing is shifted by zero semitones
    close(pitch_shift(x, 0, frame_sample_rate=frame)[0],
          vocoder(raw, 1., hop, size), 1e-6)


@suite.part(
    quick=60, rate=RATE, seconds=st.floats(.3, .6), batch=st.integers(1, 4),
    factor=FACTORS, semitones=SEMITONES, gain=st.floats(.1, 5),
    seed=gen.seeds)
def every_signal_of_a_batch_is_its_own(
        ctx, rate, seconds, batch, factor, semitones, gain, seed):
    """stretching and shifting a batch is doing so to each of its signals,
    and scales with the signal's level"""
    sr = samplerate(rate)
    n = int(rate * seconds)
    raw = gen.rng(seed).normal(0, 1, (batch, n))
    x = ArrayWithUnits(raw.copy(), [IdentityDimension(), TimeDimension(*sr)])
    factor = 2. ** factor
    ctx.nontrivial(batch > 1)
    for f in (lambda a: time_stretch(a, factor),
              lambda a: pitch_shift(a, semitones)):
        whole = f(x)
        assert whole.shape[0] == batch
        for i in range(batch):
            one = f(AudioSamples(raw[i].copy(), sr))
            close(one[0], np.asarray(whole)[i])
        loud = f(ArrayWithUnits(raw * gain, x.dimensions))
        close(loud, np.asarray(whole) * gain, 1e-6)
        silent = f(ArrayWithUnits(raw * 0, x.dimensions))
        assert not np.asarray(silent).any()
    assert np.array_equal(np.asarray(x), raw)


@suite.part(
    quick=80, rate=RATE, seconds=st.floats(.6, 1.2), at=st.floats(.3, .7),
    factor=FACTORS, lo=st.floats(.02, .07), hi=st.floats(.1, .2),
    shift=st.one_of(st.none(), SEMITONES))
def events_keep_their_order_and_place(
        ctx, rate, seconds, at, factor, lo, hi, shift):
    """when a sound changes from one tone to another, the stretched or
    shifted sound does too, at the corresponding time"""
    sr = samplerate(rate)
    n = int(rate * seconds)
    k = int(n * at)
    lo, hi = lo * rate, hi * rate
    raw = np.concatenate([tone(rate, k, lo), tone(rate, n - k, hi)])
    x = AudioSamples(raw, sr)
    if shift is None:
        factor = 2. ** factor
        got = np.asarray(time_stretch(x, factor))[0]
        ratio = 1.
    else:
        got = np.asarray(pitch_shift(x, shift))[0]
        ratio = 2. ** (shift / 12.)
    m = len(got)
    ctx.nontrivial(shift is not None or abs(factor - 1) > .01)
    ctx.label('stretched' if shift is None else 'shifted')
    # away from the change by more than a window
    window = 2048 * rate / 44100. * 2
    window = window / (m / float(n)) if shift is None else window
    before = got[:int(max(0, m * at - window))][int(window):]
    after = got[int(m * at + window): int(m - 3 * window)]
    for part, hz in ((before, lo * ratio), (after, hi * ratio)):
        if len(part) > 800 and hz < .48 * rate:
            got_hz = peak(part, rate)
            assert abs(got_hz - hz) < .006 * hz + .7 * rate / len(part), (
                got_hz, hz)


@suite.part(
    quick=150, rate=RATE, seconds=st.floats(.4, 1.2), hz=st.floats(0, 1),
    semitones=SEMITONES, frame=st.sampled_from([None, None, 512, 1024]))
def pitch_shift_moves_tones_by_semitones(
        ctx, rate, seconds, hz, semitones, frame):
    """a tone's frequency is multiplied, its duration and level are kept"""
    sr = samplerate(rate)
    n = int(rate * seconds)
    hz = 150 * rate / 11025. + hz * .15 * rate
    x = AudioSamples(tone(rate, n, hz), sr)
    got = pitch_shift(x, semitones, frame_sample_rate=frame_rate(sr, frame))
    ctx.nontrivial(abs(semitones) > .1)
    ctx.label('up' if semitones > 0 else 'down')
    assert got.shape[0] == 1 and got.ndim == 2
    # blocks are resampled to whole numbers of samples
    assert n * .995 - 2 <= got.shape[1] <= n, (got.shape, n)
    assert got.dimensions[1] == x.dimensions[0]
    # each block is resampled to a whole number of samples
    target = hz * 1024. / int(1024 * 2 ** (-semitones / 12.))
    assert abs(target / hz * 2 ** (-semitones / 12.) - 1) < .005
    y = middle(got[0])
    if target < .48 * rate:
        assert abs(peak(y, rate) - target) < \
            .001 * target + .7 * rate / len(y), (peak(y, rate), target)
        same = time_stretch(x, 1., frame_sample_rate=frame_rate(sr, frame))
        # the fewer the frames, the more their seams count
        assert abs(rms(y) / rms(middle(same[0])) - 1) < (
            .05 if abs(semitones) <= 12 else .25)
    assert np.array_equal(np.asarray(x), tone(rate, n, hz))
