"""C10: audio samples"""
import io
import os

import numpy as np
from hypothesis import strategies as st

import zounds
from vlib import env, gen
from vlib.runner import Suite
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import AudioSamples, TimeDimension

suite = Suite(
    'C10',
    'random mono, stereo and four-channel signals at every sample rate, '
    'against numpy and, for encoding, against the quantisation of each '
    'format; non-trivial = the signal is not silent and has over one sample',
    ['samples to be encoded lie within [-1, 1]'])

rates = st.sampled_from(gen.RATES)
channels = st.sampled_from([1, 1, 2, 2, 4])


def signal(rate, n, chans, seed, dtype='f4', scale=0.95):
    shape = (n,) if chans == 1 else (n, chans)
    raw = gen.rng(seed).uniform(-scale, scale, shape).astype(dtype)
    return raw, AudioSamples(raw.copy(), gen.SAMPLERATES[rate]())


def is_audio(x, rate, chans, n):
    assert type(x) is AudioSamples, type(x)
    assert x.samples_per_second == rate and int(x.samplerate) == rate
    assert type(x.samplerate) is gen.SAMPLERATES[rate]
    assert x.channels == chans, (x.channels, chans)
    assert len(x) == n, (len(x), n)
    assert x.shape == ((n,) if chans == 1 else (n, chans)) \
        or (chans == 1 and x.shape == (n, 1))
    one = 10 ** 12 // rate
    td = x.dimensions[0]
    assert isinstance(td, TimeDimension)
    assert gen.ps(td.frequency) == gen.ps(td.duration) == one
    assert gen.ps(x.frequency) == gen.ps(x.duration) == one
    assert len(x.dimensions) == x.ndim
    if n:
        assert gen.ps(x.end) == gen.ps(x.span.end) == n * one
    return np.asarray(x)


@suite.part(quick=800, rate=rates, n=st.integers(1, 50), chans=channels,
            seed=gen.seeds, dtype=st.sampled_from(['f4', 'f8']),
            own_axis=st.booleans())
def channel_conversion(ctx, rate, n, chans, seed, dtype, own_axis):
    """mono is the average of two channels, stereo has the signal in both,
    and mono(stereo(x)) is x"""
    raw, audio = signal(rate, n, chans, seed, dtype)
    if own_axis and chans == 1:
        # a single channel that has an axis of its own
        single = AudioSamples(raw.reshape((n, 1)), audio.samplerate)
        is_audio(single, rate, 1, n)
        assert np.array_equal(
            is_audio(single.mono, rate, 1, n).ravel(), raw)
        assert np.array_equal(
            is_audio(single.stereo, rate, 2, n), np.stack([raw, raw], 1))
        ctx.label('(n, 1)')
    assert is_audio(audio, rate, chans, n).dtype == raw.dtype
    if chans < 4:
        got = is_audio(audio.mono, rate, 1, n)
        want = raw if chans == 1 else raw.mean(axis=1)
        assert got.shape == (n,) and np.allclose(got, want, atol=1e-6)
        got = is_audio(audio.stereo, rate, 2, n)
        want = raw if chans == 2 else np.stack([raw, raw], axis=1)
        assert np.array_equal(got, want)
        assert np.allclose(
            is_audio(audio.stereo.mono, rate, 1, n), audio.mono, atol=1e-6)
    if chans > 1:
        got = audio.sum(axis=1)
        assert np.allclose(
            is_audio(got, rate, 1, n), raw.sum(axis=1), atol=1e-5)
        got = audio.sum(axis=1, dtype='f8')
        assert got.dtype == np.float64
        assert np.allclose(
            is_audio(got, rate, 1, n), raw.sum(axis=1), atol=1e-5)
    assert np.isclose(audio.sum(), raw.sum(), atol=1e-4)
    assert np.array_equal(audio, raw)
    example = AudioSamples.from_example(raw * 2, audio)
    assert np.array_equal(is_audio(example, rate, chans, n), raw * 2)
    again = AudioSamples(raw, **audio.kwargs())
    assert np.array_equal(is_audio(again, rate, chans, n), raw)
    ctx.nontrivial(n > 1)
    ctx.label('%d channels' % chans)


@suite.part(
    quick=800, rate=rates, n=st.integers(1, 60), chans=channels,
    seed=gen.seeds, dtype=st.sampled_from(['f4', 'f8', 'i2', 'i4']),
    extra=st.integers(0, 80), unit=st.sampled_from(['samples', 'us']))
def silence(ctx, rate, n, chans, seed, dtype, extra, unit):
    """silence is zero and lasts as long as asked; padding appends it and
    keeps the signal"""
    raw, audio = signal(
        rate, n, chans, seed, dtype, .95 if dtype[0] == 'f' else 30000)
    one = 10 ** 12 // rate
    if unit == 'samples':
        duration, k = gen.td(extra * one, 'ps'), extra
    else:
        duration = gen.td(extra * 13, 'us')
        k = extra * 13 * 10 ** 6 // one
    sr = gen.SAMPLERATES[rate]()
    got = is_audio(AudioSamples.silence(
        sr, duration, dtype=np.dtype(dtype), channels=chans), rate, chans, k)
    assert not got.any() and got.dtype == np.dtype(dtype)
    got = is_audio(audio.silence_like(duration), rate, chans, k)
    assert not got.any() and got.dtype == raw.dtype
    got = is_audio(audio.pad_with_silence(duration), rate, chans, n + k)
    assert np.array_equal(got[:n], raw) and not got[n:].any()
    assert got.dtype == raw.dtype
    assert np.array_equal(audio, raw)
    if chans == 1:
        single = AudioSamples(raw.reshape((n, 1)), sr)
        padded = is_audio(single.pad_with_silence(duration), rate, 1, n + k)
        assert padded.shape == (n + k, 1)
        assert np.array_equal(padded, got.reshape((-1, 1)))
    ctx.nontrivial(n > 1 and k > 0)
    ctx.label(unit)


@suite.part(quick=100, rate=rates, chans=channels, n=st.integers(1, 20),
            seconds=st.integers(1, 3), seed=gen.seeds)
def whole_seconds(ctx, rate, chans, n, seconds, seed):
    """a second of audio has as many samples as its rate says"""
    sr = gen.SAMPLERATES[rate]()
    k = rate * seconds
    got = AudioSamples.silence(sr, zounds.Seconds(seconds), channels=chans)
    is_audio(got, rate, chans, k)
    raw, audio = signal(rate, n, chans, seed)
    got = audio.pad_with_silence()
    assert np.array_equal(is_audio(got, rate, chans, n + rate)[:n], raw)
    full = AudioSamples(np.ones(k + n), sr)
    cut = full[zounds.TimeSlice(zounds.Seconds(seconds))]
    # samples are a whole number of picoseconds long, and together may be a
    # little shorter than a second
    assert k <= len(cut) <= k + 1
    is_audio(cut, rate, 1, len(cut))
    ctx.nontrivial()


@suite.part(
    quick=600, rate=rates, other=rates, n=st.integers(1, 40),
    chans=channels, seed=gen.seeds,
    op=st.sampled_from(['add', 'scalar', 'array', 'concat', 'multiply']))
def arithmetic(ctx, rate, other, n, chans, seed, op):
    """mixing and joining audio at one rate gives audio at that rate; audio at
    different rates can't be mixed or joined"""
    raw, audio = signal(rate, n, chans, seed)
    raw2, audio2 = signal(other, n, chans, seed + 1)
    if op in ('add', 'concat') and rate != other:
        try:
            audio + audio2 if op == 'add' else audio.concatenate(audio2)
        except ValueError:
            ctx.nontrivial()
            ctx.label(op + ' refused')
            return
        raise AssertionError('different sample rates were accepted')
    if op == 'add':
        got, want = audio + audio2, raw + raw2
    elif op == 'scalar':
        got, want = audio + 0.25, raw + np.float32(0.25)
    elif op == 'array':
        got, want = audio + raw2, raw + raw2
    elif op == 'multiply':
        got, want = audio * 0.5, raw * np.float32(0.5)
    else:
        got, want = audio.concatenate(audio2), np.concatenate([raw, raw2])
    assert isinstance(got, ArrayWithUnits)
    assert np.allclose(got, want)
    assert got.shape == want.shape
    assert got.dimensions[0] == audio.dimensions[0]
    assert len(got.dimensions) == raw.ndim
    if op != 'concat':
        is_audio(got, rate, chans, len(want))
    assert np.array_equal(audio, raw) and np.array_equal(audio2, raw2)
    ctx.nontrivial(n > 1)
    ctx.label(op)


@suite.part(quick=200, ndim=st.integers(0, 4), side=st.integers(1, 3),
            rate=rates, k=st.integers(1, 3), good=st.booleans())
def construction(ctx, ndim, side, rate, k, good):
    """audio has one or two axes and a common audio sample rate"""
    sr = gen.SAMPLERATES[rate]()
    rate_ok = good or k == 1
    given_rate = sr if rate_ok else sr * (k, k)
    try:
        audio = AudioSamples(np.zeros((side,) * ndim), given_rate)
        assert ndim in (1, 2) and rate_ok
        assert audio.samplerate == sr
        if ndim == 2:
            assert type(audio.dimensions[1]) is IdentityDimension
    except ValueError:
        assert ndim not in (1, 2)
    except TypeError:
        assert not rate_ok and ndim in (1, 2)
    ctx.nontrivial(ndim not in (1, 2) or not rate_ok)


@suite.part(
    quick=800, rate=rates, n=st.integers(2, 60), chans=st.sampled_from([1, 2]),
    seed=gen.seeds,
    lo=st.integers(-30, 30), hi=st.integers(-60, 60), form=st.sampled_from(
        ['slice', 'time', 'times', 'mask', 'item', 'channel']))
def selections(ctx, rate, n, chans, seed, lo, hi, form):
    """ranges of audio are audio; single samples and channels are what numpy
    gives"""
    raw, audio = signal(rate, n, chans, seed)
    one = gen.td(10 ** 12 // rate, 'ps')
    if form == 'slice':
        got, want = audio[lo:hi], raw[lo:hi]
    elif form == 'time':
        lo, hi = abs(lo), abs(hi)
        got = audio[zounds.TimeSlice(one * hi, start=one * lo)]
        want = raw[lo:lo + hi]
    elif form == 'times':
        lo, hi = abs(lo), abs(hi)
        got, want = audio[one * lo:one * hi], raw[lo:hi]
    elif form == 'mask':
        mask = raw > 0
        assert np.array_equal(audio[mask], raw[mask])
        return
    elif form == 'item':
        i = lo % n
        assert np.array_equal(audio[i], raw[i])
        return
    else:
        if chans == 1:
            return
        got, want = audio[:, 1], raw[:, 1]
        assert np.array_equal(got, want)
        assert got.dimensions[0] == audio.dimensions[0]
        return
    assert np.array_equal(is_audio(got, rate, chans, len(want)), want)
    ctx.nontrivial(0 < len(want) < n)
    ctx.label(form)


# -- encoding -----------------------------------------------------------------

# half a quantisation step, with room for the way of rounding
FORMATS = {
    ('WAV', 'PCM_16'): 2. ** -15, ('WAV', 'PCM_24'): 2. ** -23,
    ('WAV', 'PCM_32'): 2. ** -22, ('WAV', 'PCM_U8'): 2. ** -7,
    ('WAV', 'FLOAT'): 0, ('WAV', 'DOUBLE'): 2. ** -24,
    ('AIFF', 'PCM_16'): 2. ** -15, ('AIFF', 'PCM_24'): 2. ** -23,
    ('FLAC', 'PCM_16'): 2. ** -15, ('FLAC', 'PCM_24'): 2. ** -23,
    ('AU', 'PCM_16'): 2. ** -15, ('W64', 'PCM_16'): 2. ** -15}


@suite.part(
    quick=500, rate=rates, n=st.integers(1, 3000), chans=channels,
    seed=gen.seeds, fmt=st.sampled_from(sorted(FORMATS)),
    default=st.booleans(), how=st.sampled_from(['bytes', 'flo', 'file']),
    loud=st.booleans())
def encoding_round_trip(ctx, rate, n, chans, seed, fmt, default, how, loud):
    """encoded audio has the rate, channels and length it was encoded with,
    and the samples up to the format's quantisation"""
    raw, audio = signal(rate, n, chans, seed, scale=0.99 if loud else 0.01)
    if default:
        fmt, kwargs = ('WAV', 'PCM_16'), {}
    else:
        kwargs = dict(fmt=fmt[0], subtype=fmt[1])
    d = None
    if how == 'bytes':
        flo = audio.encode(**kwargs)
    elif how == 'flo':
        flo = io.BytesIO()
        assert audio.encode(flo, **kwargs) is flo
    else:
        d = env.scratch_dir()
        path = os.path.join(d, 'x.' + fmt[0].lower())
        audio.save(path, **kwargs)
        with open(path, 'rb') as f:
            flo = io.BytesIO(f.read())
        env.remove_scratch(d)
    assert flo.tell() == 0
    got = AudioSamples.from_file(flo)
    x = is_audio(got, rate, chans, n)
    assert x.dtype == np.float32
    assert np.abs(x - raw).max() <= FORMATS[fmt] + 1e-7, np.abs(x - raw).max()
    assert np.array_equal(audio, raw)
    ctx.nontrivial(n > 1)
    ctx.label(*fmt)


@suite.part(
    quick=200, thorough=2000, rate=rates, n=st.integers(1, 500),
    chans=st.sampled_from([1, 2, 4]), seed=gen.seeds,
    dtype=st.sampled_from(['f4', 'f8', 'i2', 'i4']),
    layout=st.sampled_from(
        ['plain', 'fortran', 'reversed', 'strided', 'channel', 'both']),
    fmt=st.sampled_from(['WAV', 'AIFF', 'FLAC', 'AU', 'OGG']))
def encoding_of_any_layout(ctx, rate, n, chans, seed, dtype, layout, fmt):
    """samples of any type and layout in memory encode to the same file as
    the same samples in order"""
    sr = gen.SAMPLERATES[rate]()
    scale = {'i2': 30000, 'i4': 2 ** 31 - 10 ** 5}.get(dtype, .95)
    raw, _ = signal(rate, n, chans, seed, dtype, scale)
    if layout == 'fortran':
        other = np.asfortranarray(raw)
    elif layout == 'reversed':
        other = raw[::-1].copy()[::-1]
    elif layout == 'strided':
        other = np.repeat(raw, 3, axis=0)[::3]
    elif layout == 'channel':
        other = np.stack([raw, raw + 1], axis=-1)[..., 0]
    elif layout == 'both':
        raw = raw if raw.ndim == 1 else raw[:, 0].copy()
        other = AudioSamples(raw, sr).stereo
        raw, chans = np.stack([raw, raw], axis=1), 2
    else:
        other = raw.copy()
    audio = AudioSamples(other, sr)
    before = np.array(audio)
    kwargs = dict(fmt=fmt, subtype='VORBIS' if fmt == 'OGG' else 'PCM_16')
    flo = audio.encode(**kwargs)
    assert np.array_equal(audio, before)
    got = is_audio(AudioSamples.from_file(flo), rate, chans, n)
    if fmt == 'OGG':
        again = AudioSamples(np.ascontiguousarray(raw), sr).encode(**kwargs)
        again = AudioSamples.from_file(again)
        assert np.allclose(got, again, atol=1e-5)
    else:
        want = raw / {'i2': 2. ** 15, 'i4': 2. ** 31}.get(dtype, 1.)
        assert np.abs(got - want).max() <= 2. ** -15 + 1e-7
        if dtype == 'i2':
            assert np.array_equal(got, want)
    ctx.nontrivial(n > 1 and layout != 'plain')
    ctx.label(layout, dtype, fmt)


@suite.part(
    quick=12, thorough=120, secs=st.integers(15, 150), edge=st.sampled_from(
        [-1, 0, 1, 2, 5000]), seed=gen.seeds,
    fmt=st.sampled_from([('WAV', 'PCM_16'), ('FLAC', 'PCM_16'),
                         ('OGG', 'VORBIS')]), chans=st.sampled_from([1, 2]))
def encoding_of_long_audio(ctx, secs, edge, seed, fmt, chans):
    """minutes of audio are encoded and read to the last sample"""
    rate = 11025
    if fmt[0] == 'OGG':
        # about the size that is written at once
        secs = 20 * (1 + secs % 4)
    n = secs * rate + edge
    ctx.nontrivial()
    ctx.label(fmt[0])
    raw, audio = signal(rate, n, chans, seed, scale=.3)
    raw = np.repeat(raw[::64], 64, axis=0)[:n]
    audio = AudioSamples(raw.copy(), gen.SAMPLERATES[rate]())
    flo = audio.encode(fmt=fmt[0], subtype=fmt[1])
    got = is_audio(AudioSamples.from_file(flo), rate, chans, n)
    if fmt[0] != 'OGG':
        assert np.abs(got - raw).max() <= 2. ** -15 + 1e-7
    for i in range(0, n - rate, rate):
        a, b = got[i: i + rate], raw[i: i + rate]
        assert np.sqrt(np.mean((a - b) ** 2)) < 0.3 * np.sqrt(
            np.mean(b ** 2)), i


@suite.part(
    quick=25, thorough=200, rate=rates, millis=st.integers(50, 1500),
    chans=st.sampled_from([1, 2]), seed=gen.seeds, hz=st.integers(100, 1000),
    long=st.integers(0, 12).map(lambda x: x == 0))
def vorbis_encoding(ctx, rate, millis, chans, seed, hz, long):
    """audio encoded as ogg vorbis keeps its rate, channels and length, and
    sounds alike, also beyond the size that is written at once"""
    n = rate * millis // 1000 + (rate * 21 if long and rate < 20000 else 0)
    t = np.arange(n) / rate
    raw = 0.5 * np.sin(2 * np.pi * hz * t) + 0.2 * np.sin(
        2 * np.pi * (hz * 2.5) * t)
    raw = raw.astype(np.float32)
    if chans == 2:
        raw = np.stack([raw, 0.5 * raw], axis=1)
    audio = AudioSamples(raw.copy(), gen.SAMPLERATES[rate]())
    flo = audio.encode(fmt='OGG', subtype='VORBIS')
    got = is_audio(AudioSamples.from_file(flo), rate, chans, n)
    err = np.sqrt(np.mean((got - raw) ** 2)) / np.sqrt(np.mean(raw ** 2))
    assert err < 0.2, err
    ctx.nontrivial()
    ctx.label('long' if n > rate * 20 else 'short')
