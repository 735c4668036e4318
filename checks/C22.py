"""C22: the web application: range requests, media, the REPL and its password"""
import argparse
import base64
import contextlib
import http.client
import io
import json
import logging
import os
import random
import re
import socket
import struct
import sys
import threading
import time
import urllib.parse

import featureflow as ff
import numpy as np
from hypothesis import strategies as st

import zounds
from vlib import gen
from vlib.runner import Suite
from checks.C10 import is_audio
from checks.C11 import audio_of, tones, rms
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.index import HammingDistanceBruteForceSearch, SearchResults
from zounds.segment import TimeSliceFeature
from zounds.soundfile import OggVorbis, OggVorbisFeature
from zounds.timeseries import (
    AudioSamples, Milliseconds, Picoseconds, Seconds, TimeDimension, TimeSlice,
    audio_sample_rate)
from zounds.ui import ZoundsApp, ZoundsSearch, TrainingMonitorApp
from zounds.ui.baseapp import RequestContext
from zounds.ui.contentrange import ContentRange, RangeRequest
from zounds.ui.featureparser import FeatureParser

suite = Suite(
    'C22',
    'random requests over the loopback network to the application, against the '
    'stored documents, RFC 7233 and python itself; non-trivial = the request '
    'has a range, changes state, or is refused',
    ['one range per request', 'documents are audio of a few seconds'])

logging.getLogger('tornado').setLevel(100)
logging.getLogger('tornado.access').setLevel(100)
logging.getLogger('tornado.application').setLevel(100)
logging.getLogger('tornado.general').setLevel(100)


# -- a server in a thread -----------------------------------------------------

class Server(object):
    def __init__(self, app):
        import asyncio
        import tornado.httpserver
        import tornado.ioloop
        import tornado.netutil
        ready = threading.Event()

        def run():
            loop = tornado.ioloop.IOLoop()
            loop.make_current()
            sockets = tornado.netutil.bind_sockets(0, '127.0.0.1')
            server = tornado.httpserver.HTTPServer(app._make_app())
            server.add_sockets(sockets)
            self.port = sockets[0].getsockname()[1]
            self.loop = loop
            self.server = server
            ready.set()
            loop.start()
            server.stop()
            loop.close(all_fds=True)

        self.thread = threading.Thread(target=run, daemon=True)
        self.thread.start()
        assert ready.wait(30)

    def __call__(self, method, path, body=None, **headers):
        c = http.client.HTTPConnection('127.0.0.1', self.port, timeout=60)
        try:
            c.request(method, path, body, headers)
            r = c.getresponse()
            return r.status, dict(r.getheaders()), r.read()
        finally:
            c.close()

    def stop(self):
        self.loop.add_callback(self.loop.stop)
        self.thread.join(30)


RATE = 11025
cache = {}


def make_model():
    """a document for every id it's given"""
    sr = zounds.SR11025()
    Base = zounds.stft(resample_to=sr, store_fft=True,
                       wscheme=sr.half_lapped(), store_resampled=True)

    class Settings(ff.PersistenceSettings):
        id_provider = ff.UserSpecifiedIdProvider(key='_id')
        key_builder = ff.StringDelimitedKeyBuilder('|')
        database = ff.InMemoryDatabase(key_builder=key_builder)

    class Document(Base, Settings):
        pass

    return Document


def model(seed=0, millis=2500):
    key = ('model', seed, millis)
    if key not in cache:
        Document = make_model()
        raw = tones(RATE, RATE * millis // 1000, 1, seed)
        _id = Document.process(
            meta=audio_of(raw, RATE).encode(), _id='document')
        cache[key] = Document, _id, raw
    return cache[key]


def server(secret=None):
    key = ('server', secret)
    if key not in cache:
        Document, _id, _ = model()
        app = ZoundsApp(
            model=Document, visualization_feature=Document.fft,
            audio_feature=Document.ogg, globals={}, locals={}, secret=secret)
        cache[key] = app, Server(app)
    return cache[key]


NUMBER = r'([0-9.]+(?:e[-+]?[0-9]+)?)'
RANGE = re.compile('^([a-z]+) %s-%s/%s$' % ((NUMBER,) * 3))


# -- ranges -------------------------------------------------------------------

seconds = st.one_of(
    st.integers(0, 10 ** 4).map(float),
    st.floats(0, 10 ** 4).map(lambda x: round(x, 6)),
    st.floats(0, 2).map(lambda x: round(x, 9)))


@suite.part(quick=600, start=seconds, length=st.one_of(st.none(), seconds),
            unit=st.sampled_from(['bytes', 'seconds', 'hours', 'BYTES ']))
def range_headers_are_parsed(ctx, start, length, unit):
    """ranges of bytes are slices, ranges of seconds are time slices, open
    ends are open"""
    from zounds.ui import RangeUnitUnsupportedException
    if unit == 'bytes':
        start = int(start)
        length = None if length is None else int(length)
    stop = '' if length is None else start + length
    if unit == 'seconds' and stop != '':
        stop = round(stop, 9)
    text = lambda x: '%.9f' % x if isinstance(x, float) else str(x)  # noqa
    r = RangeRequest('%s=%s-%s' % (unit, text(start), text(stop)))
    if unit not in ('bytes', 'seconds'):
        try:
            r.range()
            refused = False
        except RangeUnitUnsupportedException:
            refused = True
        assert refused
        return
    got = r.range()
    if unit == 'bytes':
        assert (got.start, got.stop) == (
            start, None if length is None else stop)
    else:
        assert isinstance(got, TimeSlice)
        # what numbers of that size can tell apart
        tol = Picoseconds(2 + int(max(start, stop or 0) * 1e-3))
        assert abs(got.start - Picoseconds(int(start * 1e12))) <= tol
        assert (got.duration is None) == (length is None)
        if length is not None:
            assert abs(got.end - Picoseconds(int(stop * 1e12))) <= tol
    assert RangeRequest(None).range() == slice(None)
    assert RangeRequest('nonsense').range() == slice(None)
    ctx.nontrivial()
    ctx.label(unit)


@suite.part(quick=600, start=st.integers(0, 10 ** 6),
            length=st.one_of(st.none(), st.integers(1, 10 ** 6)),
            rest=st.integers(0, 10 ** 6), units=st.sampled_from(
                ['ms', 's', 'ps']))
def content_ranges_of_times(ctx, start, length, rest, units):
    """a range of time is described by the seconds at which it starts and
    stops, and the length of the whole"""
    one = gen.td(1, units)
    total = one * (start + (length or 0) + rest)
    ts = TimeSlice(
        None if length is None else one * length, start=one * start)
    got = str(ContentRange.from_timeslice(ts, total))
    m = RANGE.match(got)
    assert m and m.group(1) == 'seconds', got
    per = gen.PS_PER[units] / 1e12
    want = [start * per, (start + length) * per if length else
            (start + rest) * per, (start + (length or 0) + rest) * per]
    assert np.allclose([float(g) for g in m.groups()[1:]], want, atol=1e-11)
    ctx.nontrivial(length is not None)


@suite.part(
    quick=400, thorough=4000, feature=st.sampled_from(['ogg', 'meta']),
    a=st.integers(0, 400), b=st.integers(0, 400), far=st.booleans(),
    form=st.sampled_from(['a-b', 'a-b', 'a-', 'none', '-b', 'first', 'end']))
def ranges_of_bytes(ctx, feature, a, b, far, form):
    """a range of bytes is answered by exactly those bytes, including the
    last, and says which they are; a range beyond the end is refused; no range
    gets everything"""
    app, http_ = server()
    Document, _id, _ = model()
    path = app.feature_path(_id, feature)
    status, headers, whole = http_('GET', path)
    assert status == 200 and 'Content-Range' not in headers
    f = Document.features[feature]
    stored = f(_id=_id, decoder=ff.Decoder(), persistence=Document).read()
    assert whole == stored
    n = len(whole)
    if far:
        a, b = a * n // 300, b * n // 300
    if form == 'first':
        a = b = 0
    if form == 'end':
        a, b = n - 1 - a % n, n - 1
    if form in ('a-b', 'a-', 'first', 'end'):
        header = 'bytes=%d-%s' % (a, '' if form == 'a-' else b)
    elif form == '-b':
        header = 'bytes=-%d' % (1 + b)
    else:
        return
    status, headers, body = http_('GET', path, Range=header)
    if form == '-b' and status == 200:
        # ranges may be ignored
        assert body == whole and 'Content-Range' not in headers
        return
    if form == '-b':
        a, b = max(0, n - 1 - b), n - 1
    last = n - 1 if form == 'a-' else min(b, n - 1)
    if a >= n:
        assert status == 416, (status, header, n)
        return
    if last < a:
        # not a valid range at all
        assert status in (200, 416)
        assert status == 416 or body == whole
        return
    assert status == 206, (status, header, n)
    assert body == whole[a: last + 1], (len(body), header, n)
    assert headers['Content-Range'] == 'bytes %d-%d/%d' % (a, last, n)
    ctx.nontrivial()
    ctx.label(form)


@suite.part(quick=200, cuts=st.lists(st.integers(1, 2000), min_size=1,
                                     max_size=8))
def files_are_reassembled_from_ranges(ctx, cuts):
    """what a player fetches range by range is the file"""
    app, http_ = server()
    _, _id, _ = model()
    path = app.feature_path(_id, 'ogg')
    _, _, whole = http_('GET', path)
    got, i = b'', 0
    while len(got) < len(whole):
        k = cuts[i % len(cuts)] + len(whole) // 30
        i += 1
        status, headers, body = http_(
            'GET', path,
            Range='bytes=%d-%d' % (len(got), len(got) + k - 1))
        assert status == 206
        assert len(body) == min(k, len(whole) - len(got))
        got += body
    assert got == whole
    ctx.nontrivial(i > 1)


@suite.part(quick=100, thorough=1000, start=st.integers(0, 2400),
            length=st.one_of(st.none(), st.integers(50, 2500)))
def ranges_of_audio(ctx, start, length):
    """a range of seconds of the sound is a playable ogg file with that part
    of it"""
    app, http_ = server()
    Document, _id, raw = model()
    stop = '' if length is None else (start + length) / 1000.
    status, headers, body = http_(
        'GET', app.feature_path(_id, 'ogg'),
        Range='seconds=%s-%s' % (start / 1000., stop))
    assert status == (206 if start or length else 200)
    assert headers['Content-Type'] == 'audio/ogg'
    got = AudioSamples.from_file(io.BytesIO(body))
    whole = np.asarray(Document(_id).ogg[slice(None)])
    a = start * RATE // 1000
    b = len(whole) if length is None else min(
        len(whole), (start + length) * RATE // 1000)
    assert abs(len(got) - (b - a)) <= 2
    x = np.asarray(is_audio(got, RATE, 1, len(got)))
    if len(x) > 2000:
        m = min(len(x), b - a - 2)
        best = min(rms(x[:m] - whole[a + d: a + d + m][:m])
                   for d in (0, 1, 2) if a + d + m <= len(whole))
        assert best < 0.3 * rms(whole), (best, rms(whole))
    total = len(raw) / RATE
    m = RANGE.match(headers['Content-Range'])
    first, last, of = [float(g) for g in m.groups()[1:]]
    assert abs(first - start / 1000.) < 1e-6 and abs(of - total) < 1e-4
    assert abs(last - (stop if length else total)) < 1e-4
    ctx.nontrivial()


@suite.part(quick=25, thorough=200, start=st.integers(0, 2000),
            length=st.one_of(st.none(), st.integers(100, 2500)),
            whole=st.integers(0, 4).map(lambda x: x == 0))
def ranges_of_features(ctx, start, length, whole):
    """a range of seconds of a feature is a picture of that part of it, the
    same as the picture of the slice"""
    from zounds.ui.serializer import generate_image
    app, http_ = server()
    Document, _id, _ = model()
    fft = Document(_id).fft
    path = app.feature_path(_id, 'fft')
    if whole:
        status, headers, body = http_('GET', path)
        assert status == 200 and headers['Content-Type'] == 'image/png'
        assert body == generate_image(fft).data
        return
    stop = '' if length is None else (start + length) / 1000.
    status, headers, body = http_(
        'GET', path, Range='seconds=%s-%s' % (start / 1000., stop))
    assert status == 206
    assert headers['Content-Type'] == 'image/png'
    ts = TimeSlice(
        None if length is None else Milliseconds(length),
        start=Milliseconds(start))
    assert body == generate_image(fft[ts]).data
    m = RANGE.match(headers['Content-Range'])
    end = fft.dimensions[0].end / Seconds(1)
    assert m.group(1) == 'seconds' and np.allclose(
        [float(g) for g in m.groups()[1:]],
        [start / 1000., stop if length else end, end])
    ctx.nontrivial()


@suite.part(
    quick=60, thorough=600, ids=st.lists(
        st.text(st.one_of(
            st.sampled_from('/?#&%+ :.;=~"\'\\<>@é日'),
            st.characters(min_codepoint=33, max_codepoint=126)),
            min_size=1, max_size=12).filter(
                lambda s: '|' not in s and s not in ('.', '..') and
                not s.startswith('login')),
        min_size=1, max_size=3, unique=True))
def any_document_has_an_address(ctx, ids):
    """the address that any application builds for any id leads to that
    document"""
    if 'addresses' not in cache:
        class Settings(ff.PersistenceSettings):
            id_provider = ff.UserSpecifiedIdProvider(key='_id')
            key_builder = ff.StringDelimitedKeyBuilder('|')
            database = ff.InMemoryDatabase(key_builder=key_builder)

        class Text(ff.BaseModel, Settings):
            text = ff.JSONFeature(ff.Node, store=True)

        app = ZoundsApp(model=Text, globals={}, locals={})

        def every_kind(**where):
            return [
                ZoundsApp(model=Text, globals={}, locals={}, **where),
                zounds.ZoundsSearch(model=Text, **where)] + [
                make(trainer=Trainer(), model=Text, **kwargs, **where)
                for make, kwargs in (
                    (TrainingMonitorApp, dict(keys_to_graph=['error'])),
                    (zounds.GanTrainingMonitorApp, {}),
                    (zounds.SupervisedTrainingMonitorApp, {}),
                    (zounds.TripletEmbeddingMonitorApp, {}))]

        http_ = Server(app)
        # pages from elsewhere need whole addresses
        here = 'http://localhost:%d' % http_.port
        apps = [('', x) for x in every_kind()] + [
            (here, x) for x in every_kind(base_path=here + '/zounds/')]
        cache['addresses'] = Text, apps, http_
    Text, apps, http_ = cache['addresses']
    for i, _id in enumerate(ids):
        Text.process(text=dict(number=i, of=_id), _id=_id)
    for i, _id in enumerate(ids):
        # whichever application it's from
        here, app = apps[(i + len(_id)) % len(apps)]
        path = app.feature_path(_id, 'text')
        assert path.startswith(here + '/zounds/')
        status, headers, body = http_('GET', path[len(here):])
        assert status == 200, (status, _id)
        assert headers['Content-Type'].startswith('application/json')
        assert json.loads(body.decode()) == dict(number=i, of=_id)
    ctx.nontrivial(any(not c.isalnum() for i in ids for c in i))


# -- the REPL -----------------------------------------------------------------

names = st.sampled_from(['alpha', 'beta', 'gamma'])
statements = st.one_of(
    st.tuples(st.just('assign'), names, st.integers(-9, 9)),
    st.tuples(st.just('eval'), names, st.integers(-9, 9)),
    st.tuples(st.just('print'), names, st.sampled_from([0, 1, 5, 3000])),
    st.tuples(st.just('everywhere'), names, st.integers(0, 9)),
    st.tuples(st.just('long'), names, st.integers(0, 9)),
    st.tuples(st.just('define'), names, st.integers(0, 9)),
    st.tuples(st.just('raise'), names, st.integers(0, 9)),
    st.tuples(st.just('audio'), names, st.integers(1, 3000)),
    st.tuples(st.just('array'), names, st.integers(1, 5)),
    st.tuples(st.just('effect'), names, st.integers(0, 3)),
    st.tuples(st.just('sound'), names, st.integers(1, 5)),
    st.tuples(st.just('feature'), st.sampled_from(['ogg', 'meta']),
              st.integers(0, 1)))


@suite.part(
    quick=60, thorough=600, rate=st.sampled_from([11025, 22050, 44100, 48000]),
    channels=st.integers(1, 2), seconds=st.one_of(
        st.integers(0, 3), st.integers(4, 70).map(
            lambda s: s if s % 4 == 0 else s % 3)),
    more=st.one_of(st.integers(-3, 3), st.integers(10, 8000)),
    seed=gen.seeds)
def audio_can_be_heard(ctx, rate, channels, seconds, more, seed):
    """sounds are sent whole, however long they are"""
    n = max(1, seconds * rate + more)
    r = gen.rng(seed)
    t = np.arange(n) / float(rate)
    x = .4 * np.sin(2 * np.pi * t[:, None] * r.uniform(
        100, 1000, channels)[None])
    x = x[:, 0] if channels == 1 else x
    samples = AudioSamples(x, audio_sample_rate(rate))
    Document, _id, _ = model()
    app = ZoundsApp(
        model=Document, visualization_feature=Document.fft,
        audio_feature=Document.ogg)
    result = app.serialize(RequestContext(
        document=None, feature=None, value=samples, slce=slice(None)))
    assert result.content_type == 'audio/ogg' and not result.is_partial
    heard = AudioSamples.from_file(io.BytesIO(result.data))
    assert int(heard.samplerate) == rate
    assert heard.shape == x.shape
    assert np.sqrt(np.mean((np.asarray(heard) - x) ** 2)) < .1
    ctx.nontrivial(n > rate)


@suite.part(
    quick=60, thorough=600,
    times=st.integers(1, 12), bands=st.integers(1, 12), kind=st.sampled_from(['real', 'complex', 'single', 'whole', 'rgb',
                          'rgba', 'units']),
    scale=st.sampled_from([1e-6, 1, 1e4]), seed=gen.seeds,
    many=st.one_of(st.just(1), st.integers(20, 40)))
def pictures(ctx, times, bands, kind, scale, seed, many):
    """in a picture, time goes from the left to the right and frequency from
    the bottom to the top; the colors go from that of the lowest to that of
    the highest value"""
    import matplotlib.cm
    import matplotlib.image
    from zounds.ui.serializer import NumpySerializer
    rng = gen.rng(seed)
    x = rng.normal(0, scale, (times, bands))
    want = x
    if kind in ('rgb', 'rgba'):
        x = rng.uniform(0, 1, (times, bands, len(kind)))
        if kind == 'rgba':
            x[..., 3] = rng.randint(0, 2, (times, bands))
    elif kind == 'complex':
        x = x + 1j * rng.normal(0, scale, x.shape)
    elif kind == 'single':
        want = x = x.astype(np.float32)
    elif kind == 'whole':
        want = x = rng.randint(-5, 100, x.shape)
    if many > 1:
        # each value fills that many rows and columns
        x = x.repeat(many, axis=0).repeat(many, axis=1)
    if kind == 'units':
        x = ArrayWithUnits(x, [
            TimeDimension(Seconds(1)), IdentityDimension()])
    context = RequestContext(value=x)
    serializer = NumpySerializer()
    assert serializer.matches(context)
    result = serializer.serialize(context)
    assert serializer.content_type == result.content_type == 'image/png'
    assert not result.is_partial
    image = matplotlib.image.imread(io.BytesIO(result.data))
    h, w = image.shape[:2]
    at = image[
        ((bands - .5 - np.arange(bands)) * h / bands).astype(int)][
        :, ((np.arange(times) + .5) * w / times).astype(int)]
    got = np.swapaxes(at, 0, 1)
    if x.ndim == 3:
        x = x[::many, ::many]
        colors = x[..., :3]
        if kind == 'rgba':
            colors = np.where(x[..., 3:] == 1, colors, 1)
    else:
        lo, hi = float(want.min()), float(want.max())
        colors = matplotlib.cm.viridis(
            (want - lo) / (hi - lo) if hi > lo else want * 0.)[..., :3]
    assert np.abs(got[..., :3] - colors).max() <= 3 / 255.
    assert np.all(got[..., 3] == 1)
    # (and as far as whole pixels permit, time and frequency fill the picture)
    assert abs(h / bands - w / times) <= 1.5 / min(bands, times)
    for no in (np.zeros((2, 2, 2)), np.zeros((1, 1, 1, 3)), 'no', [1, 2]):
        assert not serializer.matches(RequestContext(value=no))
    ctx.nontrivial(times > 1 and bands > 1)
    ctx.label(kind)


@suite.part(
    quick=40, thorough=400, n=st.integers(2, 40), kind=st.sampled_from([
        'real', 'single', 'whole', 'audio', 'units']),
    scale=st.sampled_from([1e-6, 1, 1e4]), shift=st.sampled_from([-2, 0, 2]),
    seed=gen.seeds)
def curves(ctx, n, kind, scale, shift, seed):
    """the picture of a single series is its curve, from the left to the
    right, higher for higher values"""
    import matplotlib.image
    from zounds.ui.serializer import NumpySerializer
    rng = gen.rng(seed)
    x = rng.uniform(-1 + shift, 1 + shift, n) * scale
    x[rng.randint(0, n)] += scale
    if kind == 'single':
        x = x.astype(np.float32)
    elif kind == 'whole':
        x = rng.randint(-50, 50, n)
        x[0] = 60
    data = x
    if kind == 'audio':
        data = AudioSamples(x, audio_sample_rate(11025))
    elif kind == 'units':
        data = ArrayWithUnits(x, [TimeDimension(Seconds(1))])
    context = RequestContext(value=data)
    serializer = NumpySerializer()
    assert serializer.matches(context)
    result = serializer.serialize(context)
    assert result.content_type == 'image/png'
    image = matplotlib.image.imread(io.BytesIO(result.data))[..., :3]
    # axes and labels have no color
    line = image.max(axis=-1) - image.min(axis=-1) > .3
    rows, columns = np.nonzero(line)
    left, right = columns.min(), columns.max()
    top, bottom = rows.min(), rows.max()
    assert right - left > 100 and bottom - top > 100
    lo, hi = float(x.min()), float(x.max())
    for i, v in enumerate(x):
        column = int(round(left + (right - left) * i / (n - 1.)))
        row = int(round(bottom + (top - bottom) * (v - lo) / (hi - lo)))
        assert line[max(0, row - 5):row + 6,
                    max(0, column - 3):column + 4].any(), (i, v)
    ctx.nontrivial(n > 5)
    ctx.label(kind)


@suite.part(quick=40, thorough=400, history=st.lists(
    statements, min_size=1, max_size=10))
def a_session(ctx, history):
    """a history of statements gives what python gives: values, output,
    variables that stay, and errors; sounds have an address where they can be
    heard"""
    Document, _id, _ = model()
    app = ZoundsApp(
        model=Document, visualization_feature=Document.fft,
        audio_feature=Document.ogg, globals={'np': np, 'zounds': zounds},
        locals={'doc': Document(_id), 'seen': []})
    http_ = Server(app)
    model_vars = {}
    everywhere = {}
    temps = {}
    seen = []
    ours = sys.stdout
    try:
        sys.stdout = printed = io.StringIO()
        for kind, name, k in [
                step for kind, name, k in history for step in (
                    [(kind, name, k), ('eval', name, k)]
                    if kind == 'everywhere' else [(kind, name, k)])]:
            value = name in model_vars or name in everywhere
            code, want, error, audio = None, None, None, None
            if kind == 'assign':
                code = '%s = %d' % (name, k)
                model_vars[name] = k
                want = ''
            elif kind == 'eval':
                code = '%s + %d' % (name, k)
                is_ = model_vars.get(name, everywhere.get(name))
                if value and isinstance(is_, int):
                    want = str(is_ + k)
                else:
                    error = 'TypeError' if value else 'NameError'
            elif kind == 'print':
                code = 'for i in range(%d): print(i)' % k
                want = ''.join('%d\n' % i for i in range(k))
            elif kind == 'define':
                code = 'def %s(x):\n    return x + %d\n' % (name, k)
                model_vars[name] = 'function'
                want = ''
            elif kind == 'everywhere':
                # a statement that is an expression with an effect
                code = 'globals().update(%s=%d)' % (name, k)
                everywhere[name] = k
                want = 'None'
            elif kind == 'long':
                code = "'%s\\n' * 6000" % name
                want = (name + '\n') * 6000
            elif kind == 'raise':
                code = '[][%d]' % k
                error = 'IndexError'
            elif kind == 'audio':
                code = ('zounds.AudioSamples(0.1 * np.ones(%d), '
                        'zounds.SR11025())' % k)
                audio = k
            elif kind == 'array':
                code = 'np.arange(%d.)' % k if k % 2 else \
                    'np.zeros((2, %d, 7))' % k
                want = str(eval(code, {'np': np}))
            elif kind == 'effect':
                # what is done is done once, even if an error follows
                seen.append(k)
                if k:
                    code = 'seen.append(%d)' % k
                    want = 'None'
                else:
                    code = 'seen.append(0) or missing'
                    error = 'NameError'
            elif kind == 'sound':
                # one statement, other values
                if not seen:
                    assert http_('POST', '/zounds/repl', 'seen.append(1)')[
                        0] == 200
                    seen.append(1)
                code = ('zounds.AudioSamples(0.1 * np.ones(500 * len(seen)), '
                        'zounds.SR11025())')
                audio = 500 * len(seen)
            elif kind == 'feature':
                code = 'doc.%s' % name
            status, headers, body = http_('POST', '/zounds/repl', code)
            out = json.loads(body.decode())
            assert headers['Content-Type'].startswith('application/json')
            # what the application prints afterwards goes where it did before
            assert sys.stdout is printed
            if error:
                assert status == 400 and error in out['error']
                assert 'result' not in out
            else:
                assert status == 200 and 'error' not in out, out
            if want is not None:
                assert out['result'] == want
            if audio:
                assert out['contentType'] == 'audio/ogg'
                temps[out['url']] = audio
            if kind == 'feature' and name == 'ogg':
                status, h, media = http_('GET', out['url'])
                assert status == 200 and h['Content-Type'] == 'audio/ogg'
                assert media == http_(
                    'GET', app.feature_path(_id, 'ogg'))[2]
            if kind == 'array' and k % 2:
                assert out['contentType'] == 'image/png'
                status, _, png = http_('GET', out['url'])
                assert status == 200 and png[:4] == b'\x89PNG'
        for url, k in temps.items():
            status, h, media = http_('GET', url)
            assert status == 200 and h['Content-Type'] == 'audio/ogg'
            assert len(AudioSamples.from_file(io.BytesIO(media))) == k
        assert http_('GET', '/zounds/temp/nothing')[0] == 404
        assert json.loads(http_('POST', '/zounds/repl', 'seen')[2].decode())[
            'result'] == str(seen)
    finally:
        sys.stdout = ours
        http_.stop()
    ctx.nontrivial(len(history) > 2)


@suite.part(quick=3, thorough=30, n=st.integers(40, 70))
def a_long_session(ctx, n):
    """everything a session came up with stays where it was said to be"""
    Document, _id, _ = model()
    app = ZoundsApp(
        model=Document, visualization_feature=Document.fft,
        audio_feature=Document.ogg, globals={'np': np, 'zounds': zounds},
        locals={'doc': Document(_id), 'i': 0})
    http_ = Server(app)
    try:
        urls = []
        for i in range(n):
            http_('POST', '/zounds/repl', 'i += 100')
            status, _, body = http_(
                'POST', '/zounds/repl',
                'zounds.AudioSamples(0.1 * np.ones(i), zounds.SR11025())')
            assert status == 200
            urls.append(json.loads(body.decode())['url'])
        assert len(set(urls)) == n
        for i, url in enumerate(urls):
            media = http_('GET', url)[2]
            assert len(AudioSamples.from_file(io.BytesIO(media))) \
                == 100 * (i + 1)
    finally:
        http_.stop()
    ctx.nontrivial(n > 1)


@suite.part(
    quick=500, which=st.sampled_from(['doc', 'other', 'plain', 'Document',
                                      'missing']),
    feature=st.sampled_from(['ogg', 'fft', 'meta', 'nothing', 'pcm']),
    form=st.sampled_from(['{}.{}', '{}.{}.shape', '{}.{} + 1', 'f({}.{})',
                          ' {}.{}'.strip(), '{}.{}[0]', 'x = {}.{}',
                          '({}.{})', '{}.x.{}']))
def features_in_statements(ctx, which, feature, form):
    """a statement that is a feature of a document, and nothing else, is
    recognized as that"""
    Document, _id, _ = model()
    doc = Document(_id)
    scope = dict(doc=doc, other=Document(_id), Document=Document,
                 plain=type('X', (object,), {feature: 1})())
    parser = FeatureParser(Document, scope)
    got = parser.parse_feature(form.format(which, feature))
    if form in ('{}.{}', '({}.{})') and which in ('doc', 'other') and \
            feature != 'nothing':
        assert got[0] is scope[which]
        assert got[1] is Document.features[feature]
        # the parser doesn't remember
        assert parser.parse_feature('1 + 1') == (None, None)
    else:
        assert got == (None, None)
    ctx.nontrivial()


# -- the password -------------------------------------------------------------

ROUTES = [
    ('GET', '/'), ('GET', '/zounds/document/ogg'),
    ('GET', '/zounds/document/meta/'), ('GET', '/zounds/temp/abc'),
    ('POST', '/zounds/repl'), ('POST', '/zounds/repl/'),
    ('GET', '/zounds/login/x'), ('PUT', '/zounds/repl'),
    ('DELETE', '/zounds/repl'), ('HEAD', '/'), ('OPTIONS', '/'),
    ('GET', '/zounds/graph'), ('GET', '/zounds/training')]


class Trainer(object):
    def __init__(self):
        self.callbacks = []

    def register_batch_complete_callback(self, f):
        self.callbacks.append(f)

    def unregister_batch_complete_callback(self, f):
        self.callbacks.remove(f)


@suite.part(
    quick=150, thorough=1500, route=st.sampled_from(ROUTES),
    cookie=st.sampled_from(['none', 'right', 'right', 'plain', 'forged',
                            'other server', 'tampered', 'wrong login']),
    secret=st.text('abcXYZ019 !', min_size=1, max_size=10).map(
        lambda x: 'p' + x.strip()),
    guess=st.one_of(
        st.text('abcXYZ019 !', max_size=10),
        st.sampled_from([
            lambda s: s.swapcase(), lambda s: s.upper(), lambda s: s[:-1],
            lambda s: s[1:], lambda s: s + s[-1], lambda s: s[::-1],
            lambda s: s + ' x', lambda s: '.*', lambda s: 'None'])),
    seed=gen.seeds, monitor=st.booleans())
def nothing_without_the_password(ctx, route, cookie, secret, guess, seed,
                                 monitor):
    """an application with a password shows nothing and runs nothing for those
    who haven't given it"""
    Document, _id, _ = model()
    witness = []
    if callable(guess):
        guess = guess(secret)

    def make():
        kwargs = dict(
            model=Document, visualization_feature=Document.fft,
            audio_feature=Document.ogg, globals={},
            locals={'witness': witness}, secret=secret)
        return TrainingMonitorApp(Trainer(), ['error'], **kwargs) \
            if monitor else ZoundsApp(**kwargs)

    http_ = Server(make())
    other = None

    def login(where, password):
        status, headers, body = where(
            'POST', '/zounds/login',
            urllib.parse.urlencode(dict(secret=password)),
            **{'Content-Type': 'application/x-www-form-urlencoded'})
        return status, headers.get('Set-Cookie', '').split(';')[0]

    try:
        assert http_('GET', '/zounds/login')[0] == 200
        got = ''
        if cookie == 'right':
            status, got = login(http_, secret)
            assert status == 302 and got
        elif cookie == 'wrong login':
            if guess.strip() != secret:
                status, got = login(http_, guess)
                assert status == 401 and not got
        elif cookie == 'plain':
            got = 'user=' + urllib.parse.quote(secret)
        elif cookie == 'forged':
            import tornado.web
            made = tornado.web.create_signed_value(secret, 'user', secret)
            got = 'user=' + made.decode()
        elif cookie == 'other server':
            other = Server(make())
            status, got = login(other, secret)
            assert got
        elif cookie == 'tampered':
            status, got = login(http_, secret)
            i = got.rindex('|') + 1 + seed % 60
            got = got[:i] + ('1' if got[i] == '0' else '0') + got[i + 1:]
        headers = {'Cookie': got} if got else {}
        method, path = route
        body = 'witness.append(1)' if method in ('POST', 'PUT') else None
        status, h, text = http_(method, path, body, **headers)
        if cookie == 'right':
            assert status != 403 and 'login' not in h.get('Location', '')
            if route == ('GET', '/'):
                assert status == 200 and b'<html' in text.lower()
            if path == '/zounds/document/ogg':
                assert status == 200 and text[:4] == b'OggS'
            if path.startswith('/zounds/repl') and method == 'POST':
                assert witness == [1]
        else:
            assert not witness
            if status == 302:
                assert h['Location'].startswith('/zounds/login')
                assert b'OggS' not in text
            else:
                # there's nothing at this address, or it's forbidden
                assert status in (403, 404, 405), status
                known = monitor or path not in (
                    '/zounds/graph', '/zounds/training')
                assert status != 404 or not known
    finally:
        http_.stop()
        if other:
            other.stop()
    ctx.nontrivial(cookie != 'none')
    ctx.label(cookie)


@suite.part(quick=12, which=st.sampled_from(['plain', 'search', 'monitor']),
            secret=st.booleans())
def pages_are_complete(ctx, which, secret):
    """the page has everything that it needs from the server in it, each script
    once, unchanged and in order"""
    kwargs = dict(model=model()[0], globals={}, locals={},
                  secret='s' if secret else None)
    if which == 'plain':
        app, name = ZoundsApp(**kwargs), 'index.html'
    elif which == 'search':
        secret = False
        app = ZoundsSearch(
            model=model()[0], visualization_feature=None, audio_feature=None,
            search=None)
        name = 'search.html'
    else:
        app = TrainingMonitorApp(Trainer(), ['error'], **kwargs)
        name = 'training_monitor.html'
    ui = os.path.dirname(zounds.ui.__file__)

    def read(name):
        with open(os.path.join(ui, name)) as f:
            return f.read()

    source = read(name)
    local = re.compile(r'<script src="/([^"]*)"></script>')
    want = ''
    for i, piece in enumerate(local.split(source)):
        want += '<script>%s</script>' % read(piece) if i % 2 else piece
    http_ = Server(app)
    try:
        headers = {}
        if secret:
            _, h, _ = http_(
                'POST', '/zounds/login', 'secret=s',
                **{'Content-Type': 'application/x-www-form-urlencoded'})
            headers['Cookie'] = h['Set-Cookie'].split(';')[0]
        status, h, got = http_('GET', '/', **headers)
    finally:
        http_.stop()
    assert status == 200 and h['Content-Type'].startswith('text/html')
    assert got.decode() == want
    ctx.nontrivial()
    ctx.label(which)


# -- search -------------------------------------------------------------------

class Search(object):
    """keeps what it was asked"""

    def __init__(self, bits, results):
        self.bits = bits
        self.results = results
        self.asked = []

    def decode_query(self, binary):
        return np.unpackbits(np.frombuffer(binary, dtype=np.uint8))

    def _answer(self, query, n_results):
        code = np.packbits(query).tobytes()
        return SearchResults(code, iter(self.results[:n_results]))

    def random_search(self, n_results):
        self.asked.append(None)
        return self._answer(self.bits, n_results)

    def search(self, query, n_results):
        self.asked.append(query)
        return self._answer(query, n_results)


@suite.part(
    quick=60, thorough=500, code=st.binary(min_size=1, max_size=16),
    other=st.binary(min_size=1, max_size=16), n=st.integers(1, 25),
    slices=st.lists(st.tuples(
        st.text('abc/ é?', min_size=1, max_size=5),
    st.integers(0, 10 ** 13), st.integers(1, 10 ** 13)), max_size=8),
    copies=st.integers(1, 5))
def searching(ctx, code, other, n, slices, copies):
    """a search shows the best results with the addresses of their sounds; the
    query it reports repeats the search"""
    Document, _, _ = model()
    slices = [(i, s + k, d) for k in range(copies) for i, s, d in slices]
    results = [(i, TimeSlice(Picoseconds(d), start=Picoseconds(s)))
               for i, s, d in slices]
    bits = np.unpackbits(np.frombuffer(code, dtype=np.uint8))
    search = Search(bits, results)
    app = ZoundsSearch(
        model=Document, visualization_feature=Document.fft,
        audio_feature=Document.ogg, search=search,
        **gen.unless(10, n_results=n))
    http_ = Server(app)
    try:
        answers = []
        for query in (None, code, other):
            path = '/zounds/search'
            if query is not None:
                path += '?' + urllib.parse.urlencode(
                    dict(query=base64.b64encode(query).decode()))
            status, headers, body = http_('GET', path)
            assert status == 200, status
            assert headers['Content-Type'] == \
                'application/vnd.zounds.searchresults+json'
            answers.append(json.loads(body.decode()))
    finally:
        http_.stop()
    first, again, last = answers
    assert base64.b64decode(first['query']) == code
    assert again == first
    assert base64.b64decode(last['query']) == other
    assert search.asked[0] is None
    assert np.array_equal(search.asked[1], bits)
    assert len(first['results']) == min(n, len(slices))
    for got, (_id, start, duration) in zip(first['results'], slices):
        for key, feature in (('audio', 'ogg'), ('visualization', 'fft')):
            assert got[key] == app.feature_path(_id, feature)
            quoted, name = got[key][len('/zounds/'):].split('/')
            assert urllib.parse.unquote(quoted) == _id and name == feature
        assert abs(got['slice']['start'] - start / 1e12) < 1e-11
        assert abs(got['slice']['duration'] - duration / 1e12) < 1e-11
    ctx.nontrivial(len(slices) > 1)


@suite.part(
    quick=120, thorough=600, kind=st.sampled_from(
        ['plain', 'triplet', 'supervised', 'adversarial']),
    k=st.integers(0, 99), password=st.booleans(), points=st.integers(1, 9),
    every=st.integers(1, 3), batches=st.integers(0, 40),
    slices=st.lists(st.tuples(
        st.text('abc/ ', min_size=1, max_size=5),
        st.integers(0, 10 ** 13), st.integers(1, 10 ** 13)), max_size=5))
def every_monitor_is_an_application(
        ctx, kind, k, password, points, every, batches, slices):
    """a monitor of any kind of training has an interpreter with the variables
    it was given, shows results with the features it was given, is closed to
    those without the password, and remembers as much as it was asked to"""
    Document, _, _ = model()
    trainer = Trainer()
    results = SearchResults(b'x', [
        (i, TimeSlice(Picoseconds(d), start=Picoseconds(s)))
        for i, s, d in slices])
    make, keys = {
        'plain': (lambda **kw: TrainingMonitorApp(
            keys_to_graph=['error'], **kw), ['error']),
        'supervised': (zounds.SupervisedTrainingMonitorApp,
                       ['train_error', 'test_error']),
        'adversarial': (zounds.GanTrainingMonitorApp, [
            'generator_score', 'real_score', 'critic_loss']),
        'triplet': (zounds.TripletEmbeddingMonitorApp, ['error'])}[kind]
    app = make(
        trainer=trainer, model=Document,
        visualization_feature=Document.resampled, audio_feature=Document.ogg,
        globals={'everywhere': k}, locals={'here': [k], 'found': results},
        n_training_points=points, batch_frequency=every,
        secret='secret' if password else None)
    http_ = Server(app)
    try:
        headers = {}
        if password:
            status, _, body = http_('POST', '/zounds/repl', 'here.append(1)')
            assert status != 200
            assert http_('GET', '/zounds/graph')[0] in (302, 403)
            _, h, _ = http_(
                'POST', '/zounds/login', 'secret=secret',
                **{'Content-Type': 'application/x-www-form-urlencoded'})
            headers['Cookie'] = h['Set-Cookie'].split(';')[0]

        def ask(code):
            status, h, body = http_('POST', '/zounds/repl', code, **headers)
            assert status == 200, (code, status)
            return json.loads(body.decode())

        assert ask('everywhere + 1')['result'] == str(k + 1)
        assert ask('here')['result'] == str([k])
        out = ask('found')
        status, h, body = http_('GET', out['url'], **headers)
        assert status == 200
        shown = json.loads(body.decode())['results']
        assert len(shown) == len(slices)
        for got, (_id, _, _) in zip(shown, slices):
            assert got['audio'] == app.feature_path(_id, 'ogg')
            assert got['visualization'] == app.feature_path(_id, 'resampled')
    finally:
        http_.stop()
    for b in range(batches):
        for f in list(trainer.callbacks):
            f(epoch=0, batch=b, **dict((key, (key, b)) for key in keys))
    want = list(range(0, batches, every))
    for key in keys:
        got = app.training_history[key]
        assert min(points, len(want)) <= len(got) <= min(
            points + 1, len(want))
        assert got == [(key, b) for b in want[len(want) - len(got):]]
    ctx.nontrivial(len(slices) > 1)
    ctx.label(kind)


# -- training -----------------------------------------------------------------

@suite.part(quick=300, every=st.integers(1, 7), points=st.integers(1, 20),
            batches=st.integers(0, 200), missing=st.booleans())
def training_history(ctx, every, points, batches, missing):
    """the monitor remembers the most recent values of every nth batch"""
    Document, _, _ = model()
    trainer = Trainer()
    app = TrainingMonitorApp(
        trainer, ['error', 'other'], batch_frequency=every,
        n_training_points=points, model=Document, globals={}, locals={})
    seen = []
    for i in range(batches):
        values = dict(epoch=1, batch=i, error=i * 0.5)
        if not missing:
            values['other'] = -i
        for f in trainer.callbacks:
            f(**values)
        if i % every == 0:
            seen.append(i)
    got = app.training_history['error']
    k = len(got)
    assert min(points, len(seen)) <= k <= points + 1
    assert got == [i * 0.5 for i in seen[len(seen) - k:]]
    if missing:
        assert not app.training_history['other']
    else:
        assert app.training_history['other'] == [
            -i for i in seen[len(seen) - k:]]
    ctx.nontrivial(len(seen) > points)


class Watcher(object):
    """a browser that watches training: a minimal websocket client"""

    def __init__(self, port, cookie=None):
        self.socket = socket.create_connection(('127.0.0.1', port), 30)
        self.socket.settimeout(30)
        self.file = self.socket.makefile('rb')
        lines = ['GET /zounds/training HTTP/1.1', 'Host: 127.0.0.1',
                 'Upgrade: websocket', 'Connection: Upgrade',
                 'Sec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==',
                 'Sec-WebSocket-Version: 13']
        if cookie:
            lines.append('Cookie: ' + cookie)
        self.socket.sendall(('\r\n'.join(lines) + '\r\n\r\n').encode())
        self.status = int(self.file.readline().split()[1])
        while self.file.readline().strip():
            pass

    def read(self):
        """the next message, None when the connection is closed"""
        head = self.file.read(2)
        if len(head) < 2:
            return None
        assert not head[1] & 128
        n = head[1] & 127
        if n > 125:
            n = int.from_bytes(self.file.read({126: 2, 127: 8}[n]), 'big')
        payload = self.file.read(n)
        if head[0] & 15 == 8:
            return None
        assert head[0] == 129, head
        return json.loads(payload.decode())

    def leave(self, how):
        """goes away politely, hangs up, or is cut off"""
        if how == 'politely':
            self.socket.sendall(b'\x88\x80\0\0\0\0')
        elif how == 'cut off':
            self.socket.setsockopt(
                socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
        if how != 'politely':
            self.file.close()
            self.socket.close()


class Steps(zounds.learn.trainer.Trainer):
    """reports what it's told to"""

    def __init__(self):
        super(Steps, self).__init__(epochs=1, batch_size=1)


@suite.part(
    quick=60, thorough=800, every=st.integers(1, 4), password=st.booleans(),
    history=st.lists(st.tuples(
        st.sampled_from(['batch'] * 7 + ['come'] * 3 + [
            'politely', 'hang up', 'cut off', 'once']),
        st.integers(0, 20)), min_size=10, max_size=60))
def watching_training(ctx, every, password, history):
    """whoever watches gets every nth batch from when they came, in order;
    training isn't disturbed by who comes, goes away, or stops listening"""
    Document, _, _ = model()
    trainer = Steps()
    app = TrainingMonitorApp(
        trainer, ['error', 'other'], batch_frequency=every, model=Document,
        globals={}, locals={}, secret='secret' if password else None)
    http_ = Server(app)
    cookie = None
    watchers = []
    left = []
    batch = 0
    heard = []
    once = 0
    try:
        if password:
            _, headers, _ = http_(
                'POST', '/zounds/login', 'secret=secret',
                **{'Content-Type': 'application/x-www-form-urlencoded'})
            cookie = headers['Set-Cookie'].split(';')[0]
            stranger = Watcher(http_.port)
            assert stranger.status != 101
            stranger.leave('hang up')
        for what, i in history:
            if what == 'batch':
                values = dict(epoch=i, batch=batch, error=batch / 4.,
                              network=app)
                if i % 2:
                    values['other'] = 'x' * i * 10
                trainer.on_batch_complete(**values)
                if batch % every == 0:
                    values.pop('network')
                    for w, want in watchers:
                        want.append(values)
                batch += 1
            elif what == 'once':
                # something else that wants to know about one batch only
                def listener(**kwargs):
                    heard.append(kwargs['batch'])
                    trainer.unregister_batch_complete_callback(listener)
                trainer.register_batch_complete_callback(listener)
                before = len(heard)
                trainer.on_batch_complete(epoch=0, batch=every * batch + 1
                                          if every > 1 else batch)
                assert len(heard) == before + 1
                if every == 1:
                    for w, want in watchers:
                        want.append(dict(epoch=0, batch=batch))
                once += 1
            elif what == 'come':
                w = Watcher(http_.port, cookie)
                assert w.status == 101
                # it's been listening since the next request is answered
                http_('GET', '/zounds/nothing')
                watchers.append((w, []))
            elif watchers:
                w, _ = watchers.pop(i % len(watchers))
                w.leave(what)
                left.append(w)
        for w, want in watchers:
            for values in want:
                assert w.read() == values
            w.leave('hang up')
        trainer.on_batch_complete(epoch=0, batch=0, error=0)
    finally:
        http_.stop()
    ctx.nontrivial(any(want for _, want in watchers))
    ctx.label('watched' if any(want for _, want in watchers) else 'alone')
    ctx.label('%d left' % min(len(left), 3))


@suite.part(
    quick=45, thorough=500, kind=st.sampled_from(
        ['supervised', 'held out', 'adversarial', 'triplet', 'plain']),
    every=st.integers(1, 3), n=st.integers(4, 20), batch=st.integers(1, 4),
    epochs=st.integers(1, 3), seed=gen.seeds, picture=st.booleans())
def watching_networks_learn(ctx, kind, every, n, batch, epochs, seed, picture):
    """the monitor of each kind of training sends what the trainer reports,
    and draws it"""
    import torch
    from torch import nn
    from checks import C24
    Document, _, _ = model()
    data = C24.normal(seed, n, 4).astype(np.float64)
    kwargs = dict(model=Document, globals={}, locals={},
                  batch_frequency=every)
    keys = {'adversarial': ['generator_score', 'real_score', 'critic_loss'],
            'triplet': ['error'], 'plain': ['loss']}.get(
                kind, ['train_error', 'test_error'])
    if kind == 'plain':
        class Slow(zounds.learn.trainer.Trainer):
            def _training_step(self, epoch, batch, data):
                return dict(loss=float(epoch + batch))
        trainer = Slow(epochs, batch, checkpoint_epochs=epochs)
        app = TrainingMonitorApp(trainer, keys, **kwargs)
    elif kind == 'adversarial':
        trainer = zounds.WassersteinGanTrainer(
            C24.Pair(2, 4), (2,), 1, epochs, batch, checkpoint_epochs=epochs)
        app = zounds.GanTrainingMonitorApp(trainer, **kwargs)
    elif kind == 'triplet':
        def louder(anchor, examples):
            return anchor * 2
        trainer = zounds.TripletEmbeddingTrainer(
            C24.Counted(4, 2), epochs, batch, slice(None), [louder],
            checkpoint_epochs=epochs)
        app = zounds.TripletEmbeddingMonitorApp(trainer, **kwargs)
        data = dict(data=data)
    else:
        single = lambda d: d.astype(np.float32)  # noqa: E731
        trainer = zounds.SupervisedTrainer(
            model=C24.Line(4), loss=nn.MSELoss(),
            optimizer=lambda m: torch.optim.SGD(m.parameters(), lr=.01),
            epochs=epochs, batch_size=batch, checkpoint_epochs=epochs,
            holdout_percent=.25 if kind == 'held out' else 0,
            data_preprocessor=single, label_preprocessor=single)
        app = zounds.SupervisedTrainingMonitorApp(trainer, **kwargs)
        data = dict(data=data, labels=data[:, :1])
    seen = []
    trainer.register_batch_complete_callback(
        lambda **kw: seen.append(dict(kw)))
    http_ = Server(app)
    try:
        w = Watcher(http_.port)
        http_('GET', '/zounds/nothing')
        with C24.quiet():
            trainer.train(data)
        reported = [s for s in seen if s['batch'] % every == 0]
        assert len(reported) >= epochs
        for s in reported:
            assert w.read() == dict(
                (k, s[k]) for k in ['epoch', 'batch'] + keys)
        w.leave('hang up')
        for k in keys:
            assert app.training_history[k] == [s[k] for s in reported]
        if picture:
            status, headers, png = http_('GET', '/zounds/graph')
            assert status == 200 and headers['Content-Type'] == 'image/png'
            assert png[:4] == b'\x89PNG'
            assert png[-8:-4] == b'IEND'
    finally:
        http_.stop()
    ctx.nontrivial(len(reported) > 1)
    ctx.label(kind)


# -- command lines ------------------------------------------------------------

OPTIONS = {
    'object': ('object_storage_region', 'object_storage_username',
               'object_storage_api_key'),
    'app': ('app_secret', 'port'),
    'training': ('epochs', 'batch_size', 'nsamples')}
DEFAULTS = dict(object_storage_region='DFW', app_secret=None, port=8888,
                epochs=None, batch_size=64, nsamples=None)


@suite.part(
    quick=300, groups=st.lists(st.sampled_from(sorted(OPTIONS)), min_size=1,
                               max_size=3, unique=True),
    values=st.dictionaries(
        st.sampled_from(sorted(sum(OPTIONS.values(), ()))),
        st.integers(1, 65535)), equals=st.booleans(), order=gen.seeds)
def command_lines(ctx, groups, values, equals, order):
    """settings from several groups are given on one command line, in any
    order; those that aren't given have their defaults, numbers are numbers"""
    parents = [dict(object=zounds.ObjectStorageSettings, app=zounds.AppSettings,
                    training=zounds.NeuralNetworkTrainingSettings)[g]()
               for g in groups]
    parser = argparse.ArgumentParser(parents=parents)
    names = [n for g in groups for n in OPTIONS[g]]
    given = dict((k, v) for k, v in values.items() if k in names)
    items = sorted(given.items())
    random.Random(order).shuffle(items)
    argv = []
    for k, v in items:
        flag = '--' + k.replace('_', '-')
        argv.extend(['%s=%d' % (flag, v)] if equals else [flag, str(v)])
    missing = [n for n in names if n not in given and n not in DEFAULTS]
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            got = vars(parser.parse_args(argv))
        except SystemExit:
            assert missing
            got = None
    if got is not None:
        assert not missing
        assert sorted(got) == sorted(names)
        for n in names:
            if n not in given:
                assert got[n] == DEFAULTS[n]
            elif n in OPTIONS['training']:
                assert got[n] == given[n] and isinstance(got[n], int)
            else:
                assert str(got[n]) == str(given[n])
    ctx.nontrivial(len(given) > 0)
    ctx.label('refused' if missing else 'parsed')


def unused_port():
    """not one of those that are given to connections"""
    while True:
        port = random.SystemRandom().randint(10000, 30000)
        with contextlib.closing(socket.socket()) as s:
            try:
                s.bind(('', port))
                return port
            except OSError:
                pass


@suite.part(
    quick=12, thorough=100, stays=st.lists(st.sampled_from(
        ['not at all', 'for a request', 'for a while', 'until it fails']),
        min_size=1, max_size=4),
    text=st.booleans())
def applications_start_and_stop(ctx, stays, text):
    """an application answers while it's started, and when it's stopped its
    thread has ended and its address is free, however soon that is, and
    whatever happened"""
    port = unused_port()

    def get():
        c = http.client.HTTPConnection('127.0.0.1', port, timeout=30)
        with contextlib.closing(c):
            c.request('GET', '/')
            r = c.getresponse()
            return r.status, r.read()

    for stay in stays:
        app = ZoundsApp(model=model()[0], globals={}, locals={})
        failed = False
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                with app.start_in_thread(str(port) if text else port) as a:
                    assert a is app
                    if stay != 'not at all':
                        assert get() == (200, app._html_content.encode())
                    if stay == 'for a while':
                        time.sleep(.05)
                    if stay == 'until it fails':
                        raise ZeroDivisionError()
            except ZeroDivisionError:
                failed = True
        assert failed == (stay == 'until it fails')
        assert not app.thread.is_alive()
        try:
            get()
            refused = False
        except ConnectionRefusedError:
            refused = True
        assert refused
    ctx.nontrivial(len(stays) > 1)
    ctx.label(*stays)
