"""C11: streams of audio: decoding, re-encoding and resampling"""
import io
from math import gcd

import featureflow as ff
import numpy as np
from hypothesis import strategies as st

import zounds
from vlib import gen
from vlib.runner import Suite
from checks.C10 import is_audio
from zounds.soundfile import (
    AudioStream, OggVorbis, OggVorbisFeature, Resampler, ChunkSizeBytes)
from zounds.soundfile.audiostream import MemoryBuffer
from zounds.soundfile.functional import resample
from zounds.timeseries import AudioSamples

suite = Suite(
    'C11',
    'random audio files cut into byte chunks of random sizes, against '
    'decoding the file in one piece; random resampled tones, against the '
    'tone at the new rate; non-trivial = more than one chunk, or rates differ',
    ['the first chunk of bytes holds the file\'s header',
     'flac streams come in chunks of at least 100 kB, as libsndfile needs them',
     'audio is resampled in chunks of at least half a second'])

rates = st.sampled_from(gen.RATES)
slow_rates = st.sampled_from([11025, 16000, 22050])


def tones(rate, n, chans, seed):
    r = gen.rng(seed)
    t = np.arange(n) / rate
    x = sum(a * np.sin(2 * np.pi * f * t + p) for a, f, p in zip(
        r.uniform(.05, .3, 3), r.uniform(80, rate / 6., 3),
        r.uniform(0, 6, 3)))
    if chans > 1:
        x = np.stack([x, -0.5 * x + 0.1, x[::-1], 0.3 * x - 0.2, -x,
                      0.1 - 0.2 * x[::-1]][:chans], axis=1)
    return x.astype(np.float32)


def audio_of(raw, rate):
    return AudioSamples(raw.copy(), gen.SAMPLERATES[rate]())


def decode(flo, chunksize, mono):
    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        raw = ff.ByteStreamFeature(
            ff.ByteStream, chunksize=chunksize, store=False)
        pcm = zounds.AudioSamplesFeature(
            AudioStream, needs=raw, sum_to_mono=mono, store=True)

    return Document(Document.process(raw=flo)).pcm


@suite.part(
    quick=300, rate=slow_rates, n=st.one_of(
        st.integers(1, 40000), st.tuples(
            st.integers(1, 3), st.integers(-2, 2))),
    chans=st.sampled_from([1, 2, 1, 2, 3, 4, 6]), seed=gen.seeds,
    fmt=st.sampled_from([
        ('WAV', 'PCM_16'), ('WAV', 'PCM_24'), ('WAV', 'PCM_U8'),
        ('WAV', 'FLOAT'), ('WAV', 'DOUBLE'), ('AIFF', 'PCM_16'),
        ('AU', 'PCM_16'), ('WAV', 'PCM_32'), ('AIFF', 'PCM_S8'),
        ('AIFF', 'PCM_24'), ('AU', 'DOUBLE'), ('W64', 'PCM_16'),
        ('WAVEX', 'PCM_16'), ('WAV', 'ULAW'), ('AU', 'ALAW')]),
    chunk=st.one_of(st.integers(200, 3000), st.integers(3000, 200000)),
    mono=st.booleans())
def decoding_in_chunks(ctx, rate, n, chans, seed, fmt, chunk, mono):
    """a stream of bytes decodes to exactly the samples of the file, in order,
    whatever the chunks; its channels are averaged if so asked"""
    if isinstance(n, tuple):
        # about whole seconds
        n = n[0] * rate + n[1]
    if fmt[0] == 'AIFF':
        # libsndfile takes the padding of an odd number of bytes for a sample
        n += n % 2
    raw = tones(rate, n, chans, seed)
    flo = audio_of(raw, rate).encode(fmt=fmt[0], subtype=fmt[1])
    size = len(flo.getvalue())
    chunk = max(chunk, size // 200)
    want = np.asarray(AudioSamples.from_file(io.BytesIO(flo.getvalue())))
    assert len(want) == n
    got = is_audio(decode(flo, chunk, mono), rate, 1 if mono else chans, n)
    if mono and chans == 2:
        want = want.mean(axis=1)
    elif mono and chans > 2:
        # half of the sum, or the average
        assert any(np.allclose(got, want.sum(axis=1) * g, atol=1e-5)
                   for g in (0.5, 1. / chans))
        want = got
    assert np.allclose(got, want, atol=1e-6)
    ctx.nontrivial(size > 2 * chunk)
    ctx.label(*fmt)


@suite.part(
    quick=40, thorough=400, rate=st.just(11025), secs=st.integers(1, 70),
    chans=st.sampled_from([1, 2, 4]), seed=gen.seeds,
    fmt=st.sampled_from([('FLAC', 'PCM_16'), ('OGG', 'VORBIS'),
                         ('WAV', 'MS_ADPCM'), ('WAV', 'IMA_ADPCM')]),
    chunk=st.one_of(st.integers(100, 700), st.integers(700, 4000)))
def decoding_compressed_audio(ctx, rate, secs, chans, seed, fmt, chunk):
    """the same for compressed audio in chunks of a realistic size"""
    if 'ADPCM' in fmt[1]:
        chans = min(chans, 2)
    n = secs * rate + seed % 1000
    raw = tones(rate, n, chans, seed)
    noise = 0.1 * gen.rng(seed).normal(0, 1, raw.shape)
    raw = np.clip(raw + noise, -1, 1)
    flo = audio_of(raw, rate).encode(fmt=fmt[0], subtype=fmt[1])
    size = len(flo.getvalue())
    # libsndfile needs to find whole frames of flac in a chunk
    chunk *= 1000 if fmt[0] == 'FLAC' else 100
    want = np.asarray(AudioSamples.from_file(io.BytesIO(flo.getvalue())))
    if fmt[0] == 'WAV':
        # these are padded to whole blocks; a chunk is at least a second
        assert n <= len(want) < n + 5000
        chunk += 12 * 1000 * chans
    else:
        assert len(want) == n
    got = is_audio(decode(flo, chunk, False), rate, chans, len(want))
    assert np.allclose(got, want, atol=1e-5)
    ctx.nontrivial()
    ctx.label(fmt[1], 'chunks' if size > chunk else 'one chunk')


@suite.part(
    quick=6, thorough=60, rate=st.sampled_from([44100, 48000, 96000]),
    fmt=st.sampled_from([('WAV', 'PCM_24'), ('AU', 'DOUBLE'),
                         ('WAV', 'PCM_16')]),
    megabytes=st.integers(11, 20), chunk=st.integers(200, 9000),
    chans=st.sampled_from([1, 2, 4]), seed=gen.seeds)
def decoding_many_megabytes(ctx, rate, fmt, megabytes, chunk, chans, seed):
    """a stream much longer than what is kept of it in memory decodes to
    exactly its samples"""
    width = {'PCM_24': 3, 'DOUBLE': 8, 'PCM_16': 2}[fmt[1]]
    n = (megabytes << 20) // (width * chans)
    raw = tones(rate, n, chans, seed)
    flo = audio_of(raw, rate).encode(fmt=fmt[0], subtype=fmt[1])
    want = np.asarray(AudioSamples.from_file(io.BytesIO(flo.getvalue())))
    chunk = max(width * chans * rate, chunk << 10)
    got = is_audio(decode(flo, chunk, False), rate, chans, n)
    # a little at a time, to save memory
    for i in range(0, n, 1 << 20):
        assert np.allclose(got[i: i + (1 << 20)], want[i: i + (1 << 20)],
                           atol=1e-6), i
    ctx.nontrivial(n * width * chans > 2 * chunk)


@suite.part(
    quick=500, ops=st.lists(st.one_of(
        st.tuples(st.just('write'), st.integers(0, 30)),
        st.tuples(st.just('read'), st.integers(0, 40)),
        st.tuples(st.just('readinto'), st.integers(0, 40)),
        st.tuples(st.just('end'), st.just(0)),
        st.tuples(st.just('rest'), st.just(0))), max_size=40),
    max_size=st.integers(1, 60), total=st.integers(0, 10 ** 9))
def the_buffer_between(ctx, ops, max_size, total):
    """what is written to the buffer is read from it once, in order, while it
    drops what has been read; its end is the length of the whole stream"""
    buf = MemoryBuffer(total, max_size=max_size)
    written, read = b'', 0
    wrapped = False
    for op, k in ops:
        if op == 'write':
            data = bytes((len(written) + i) % 251 for i in range(k))
            wrapped |= read > max_size
            assert buf.write(data) == k
            written += data
        elif op == 'read':
            got = buf.read(k)
            assert got == written[read:read + k]
            read += len(got)
        elif op == 'readinto':
            a = bytearray(k)
            m = buf.readinto(a)
            assert bytes(a[:m]) == written[read:read + k] and m <= k
            assert m == min(k, len(written) - read)
            read += m
        elif op == 'rest':
            assert buf.read(-1) == written[read:]
            read = len(written)
        else:
            # how libsndfile finds out about the length
            at = buf.tell()
            buf.seek(0, io.SEEK_END)
            assert buf.tell() == total
            buf.seek(at, io.SEEK_SET)
            assert buf.tell() == at
            # after every read, it seeks to where it should be by now
            assert at == read
            buf.seek(read, io.SEEK_SET)
    ctx.nontrivial(wrapped or read > 20)
    ctx.label('wrapped' if wrapped else 'short')


@suite.part(quick=300, rate=rates, millis=st.integers(1, 60000),
            chans=st.sampled_from([1, 2]),
            depth=st.sampled_from([8, 16, 24, 32]))
def chunk_sizes(ctx, rate, millis, chans, depth):
    """a chunk size in bytes is the number of bytes the samples of that time
    take"""
    got = int(ChunkSizeBytes(
        gen.SAMPLERATES[rate](), zounds.Milliseconds(millis),
        **gen.unless(2, channels=chans), **gen.unless(16, bit_depth=depth)))
    exact = millis * rate / 1000. * chans * depth / 8
    assert abs(got - exact) <= chans * depth // 8 + 1e-9
    assert got % (chans * depth // 8) == 0
    ctx.nontrivial()


@suite.part(
    quick=40, thorough=500, rate=slow_rates, millis=st.integers(10, 3000),
    long=st.sampled_from([0] * 8 + [22, 40]),
    chans=st.sampled_from([1, 2, 1, 2, 3, 4]), seed=gen.seeds,
    fmt=st.sampled_from([('WAV', 'PCM_16'), ('WAV', 'FLOAT'),
                         ('AIFF', 'PCM_16'), ('OGG', 'VORBIS')]),
    chunk=st.one_of(st.integers(4500, 200000), st.just(1 << 23)),
    lo=st.integers(0, 2000), length=st.one_of(st.none(), st.integers(0, 2000)))
def ogg_vorbis(ctx, rate, millis, long, chans, seed, fmt, chunk, lo, length):
    """re-encoding a stream as ogg vorbis keeps its rate, channels, length and
    sound; ranges of time and chunks of it are those of the whole"""
    rate = 11025 if long else rate
    n = rate * (millis + long * 1000) // 1000
    raw = tones(rate, n, chans, seed)
    flo = audio_of(raw, rate).encode(fmt=fmt[0], subtype=fmt[1])

    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        raw = ff.ByteStreamFeature(
            ff.ByteStream, chunksize=chunk, store=False)
        ogg = OggVorbisFeature(OggVorbis, needs=raw, store=True)

    ogg = Document(Document.process(raw=flo)).ogg
    assert ogg.samplerate == rate and ogg.channels == chans
    assert abs(ogg.duration_seconds - n / rate) < 1e-6
    whole = is_audio(ogg[slice(None)], rate, chans, n)
    err = np.sqrt(np.mean((whole - raw) ** 2))
    assert err < 0.03 + 0.25 * np.sqrt(np.mean(raw ** 2)), err
    if n > 2000:
        assert err < 0.25 * np.sqrt(np.mean(raw ** 2)), err
    chunks = list(ogg.iter_chunks())
    assert all(len(c) == rate for c in chunks[:-1])
    assert np.allclose(np.concatenate(chunks), whole, atol=1e-6)
    start = min(lo * rate // 1000, n)
    ts = zounds.TimeSlice(
        None if length is None else zounds.Milliseconds(length),
        start=zounds.Milliseconds(lo))
    if start < n:
        got = np.asarray(ogg[ts])
        k = n - start if length is None else min(
            n - start, length * rate // 1000)
        assert abs(len(got) - k) <= 1, (len(got), k)
        # to the nearest sample
        ref = [whole[s:s + len(got)] for s in (start, start + 1)]
        assert any(r.shape == got.shape and np.allclose(r, got, atol=1e-5)
                   for r in ref)
    assert np.array_equal(ogg[slice(None)], whole)
    ctx.nontrivial(len(flo.getvalue()) > chunk or long > 0)
    ctx.label(fmt[0])


@suite.part(
    quick=6, thorough=60, secs=st.integers(11, 60), chans=st.just(1),
    seed=gen.seeds)
def ogg_vorbis_of_a_long_chunk(ctx, secs, chans, seed):
    """the same for more than ten seconds in a single chunk, which libsndfile
    has to be given piece by piece"""
    ogg_vorbis_roundtrip(11025, secs * 11025 + seed % 11025, chans, seed)
    ctx.nontrivial()


@suite.part(
    quick=3, thorough=30, megabytes=st.integers(11, 20),
    chunk=st.integers(300, 6000), fmt=st.sampled_from(['PCM_16', 'PCM_24']),
    rate=st.sampled_from([44100, 48000]), seed=gen.seeds)
def ogg_vorbis_of_many_megabytes(ctx, megabytes, chunk, fmt, rate, seed):
    """the same for streams much longer than what is kept of them"""
    n = (megabytes << 20) // (2 * (2 if fmt == 'PCM_16' else 3))
    ogg_vorbis_roundtrip(rate, n, 2, seed, fmt, chunk << 10)
    ctx.nontrivial(megabytes << 20 > 2 * (chunk << 10))


def ogg_vorbis_roundtrip(
        rate, n, chans, seed, subtype='PCM_16', chunk=1 << 25):
    raw = tones(rate, n, chans, seed)
    flo = audio_of(raw, rate).encode(subtype=subtype)

    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        raw = ff.ByteStreamFeature(
            ff.ByteStream, chunksize=chunk, store=False)
        ogg = OggVorbisFeature(OggVorbis, needs=raw, store=True)

    ogg = Document(Document.process(raw=flo)).ogg
    assert abs(ogg.duration_seconds - n / rate) < 1e-6
    whole = is_audio(ogg[slice(None)], rate, chans, n)
    for i in range(0, n - rate, rate):
        a, b = whole[i: i + rate], raw[i: i + rate]
        assert rms(a - b) < 0.3 * rms(b), i


# -- resampling ---------------------------------------------------------------

def rms(x):
    return np.sqrt(np.mean(np.asarray(x, dtype=float) ** 2))


@suite.part(
    quick=250, thorough=2500, a=rates, b=rates, seed=gen.seeds,
    chans=st.sampled_from(['mono', 'stereo', 'doubled', 'strided', 'four']),
    millis=st.integers(300, 1200), relative=st.floats(0.02, 0.6),
    dtype=st.sampled_from(['f4', 'f8']))
def resampling(ctx, a, b, seed, chans, millis, relative, dtype):
    """resampled audio lasts as long as it did, and a tone below both nyquist
    frequencies stays the same tone at the same level in each channel"""
    n = a * millis // 1000
    hz = max(60, relative * min(a, b) / 2)
    t = np.arange(n) / a
    raw = (0.5 * np.sin(2 * np.pi * hz * t + seed % 7)).astype(dtype)
    gains = [1]
    sr, target = gen.SAMPLERATES[a](), gen.SAMPLERATES[b]()
    if chans in ('stereo', 'four'):
        gains = [1, -0.25, .5, -1][:2 if chans == 'stereo' else 4]
        raw = np.stack([raw * g for g in gains], axis=1)
        audio = AudioSamples(raw.copy(), sr)
    elif chans == 'doubled':
        gains = [1, 1]
        audio = AudioSamples(raw.copy(), sr).stereo
        raw = np.stack([raw, raw], axis=1)
    elif chans == 'strided':
        both = np.stack([raw, np.cos(raw)], axis=1)
        audio = AudioSamples(both[:, 0], sr)
    else:
        audio = AudioSamples(raw.copy(), sr)
    before = np.array(audio)
    got = resample(audio, target)
    assert np.array_equal(audio, before)
    m = int(np.round(n * (b / a)))
    assert abs(len(got) - m) <= 1
    x = is_audio(got, b, len(gains), len(got))
    if a == b:
        assert np.array_equal(x, raw)
        return
    x = x.reshape((len(x), -1))
    # the converter has some delay; look at the middle
    mid = slice(len(x) // 4, -len(x) // 4)
    tb = np.arange(len(x)) / b
    basis = np.stack([np.sin(2 * np.pi * hz * tb),
                      np.cos(2 * np.pi * hz * tb)], axis=1)[mid]
    for c, gain in enumerate(gains):
        y = x[mid, c].astype(float)
        coef, _, _, _ = np.linalg.lstsq(basis, y, rcond=None)
        assert abs(np.hypot(*coef) - 0.5 * abs(gain)) < 0.02 * abs(gain), (
            coef, gain)
        assert rms(y - basis.dot(coef)) < 0.02 * abs(gain)
    ctx.nontrivial()
    ctx.label(chans)


@suite.part(
    quick=80, slow=st.integers(1, 400), ratio=st.one_of(
        st.floats(.01, 1), st.floats(200, 300), st.sampled_from([250, 2000])),
    up=st.booleans())
def rates_too_far_apart(ctx, slow, ratio, up):
    """audio can't be had at more than 256 times its rate, or less than a
    256th of it, and that's said before anything is converted"""
    from zounds.soundfile.resample import Resample
    a, b = slow, slow * (1 + ratio)
    if not up:
        a, b = b, a
    try:
        Resample(a, b)
        fine = True
    except ValueError:
        fine = False
    if abs(1 + ratio - 256) > .01:
        assert fine == (1 + ratio < 256)
    ctx.nontrivial(ratio > 1)


class Chunks(ff.Node):
    def __init__(self, needs=None):
        super(Chunks, self).__init__(needs=needs)

    def _process(self, data):
        for d in data:
            yield d


def resample_stream(chunks, samplerate):
    @zounds.simple_in_memory_settings
    class Document(ff.BaseModel):
        chunks_ = ff.PickleFeature(Chunks, store=False)
        resampled = zounds.AudioSamplesFeature(
            Resampler, needs=chunks_, samplerate=samplerate, store=True)

    return Document(Document.process(chunks_=chunks)).resampled


@suite.part(
    quick=60, thorough=800, a=rates, b=rates,
    parts=st.lists(st.floats(0.5, 1.2), min_size=2, max_size=4),
    chans=st.sampled_from([1, 2, 1, 2, 4]), seed=gen.seeds)
def resampling_in_chunks(ctx, a, b, parts, chans, seed):
    """a stream of chunks is resampled as if it had come in one piece"""
    # chunks that make a whole number of samples at the new rate
    step = a // gcd(a, b)
    sizes = [step * int(np.ceil(a * p / step)) for p in parts]
    raw = tones(a, sum(sizes), chans, seed)
    audio = audio_of(raw, a)
    edges = np.concatenate([[0], np.cumsum(sizes)])
    pieces = [audio[int(s):int(e)] for s, e in zip(edges[:-1], edges[1:])]
    target = gen.SAMPLERATES[b]()
    whole = resample_stream([audio], target)
    got = resample_stream(pieces, target)
    m = int(round(len(raw) * b / a))
    assert abs(len(whole) - m) <= 1
    assert np.allclose(
        is_audio(got, b, chans, m), is_audio(whole, b, chans, m), atol=1e-5)
    ctx.nontrivial(a != b)


@suite.probe
def resampler_rounds_every_chunk():
    raw = tones(48000, 96000, 1, 0)
    audio = audio_of(raw, 48000)
    sr = zounds.SR44100()
    whole = resample_stream([audio], sr)
    got = resample_stream(
        [audio[i:i + 5000] for i in range(0, 96000, 5000)], sr)
    return len(got) != len(whole) or not np.allclose(got, whole, atol=1e-4)


# -- the whole graph ----------------------------------------------------------

@suite.part(
    quick=40, thorough=500, a=slow_rates, b=slow_rates,
    millis=st.integers(200, 1500), chans=st.sampled_from([1, 2]),
    seed=gen.seeds, chunk_secs=st.sampled_from([10, 30]),
    store=st.booleans())
def basic_graph(ctx, a, b, millis, chans, seed, chunk_secs, store):
    """zounds.resampled(): metadata of the file, its decoded mono samples at
    the new rate, and an ogg vorbis copy"""
    n = a * millis // 1000
    raw = tones(a, n, chans, seed)
    Base = zounds.resampled(
        chunksize_bytes=ChunkSizeBytes(
            gen.SAMPLERATES[a](), zounds.Seconds(chunk_secs), channels=chans),
        resample_to=gen.SAMPLERATES[b](), store_resampled=store)

    @zounds.simple_in_memory_settings
    class Document(Base):
        pass

    flo = audio_of(raw, a).encode()
    doc = Document(Document.process(meta=flo))
    assert doc.meta['samplerate'] == a and doc.meta['channels'] == chans
    mono = raw.mean(axis=1) if chans == 2 else raw
    want = resample(audio_of(mono.astype('f4'), a), gen.SAMPLERATES[b]())
    if store:
        got = is_audio(doc.resampled, b, 1, len(want))
        assert np.allclose(got, want, atol=1e-3)
    is_audio(doc.ogg[slice(None)], a, chans, n)
    ctx.nontrivial(a != b)
