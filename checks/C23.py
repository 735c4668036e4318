"""C23: collections of sounds, where they come from and what is known of them"""
import csv
import io
import json
import os
import re
import tarfile
import time
import urllib.parse
import zipfile
from contextlib import contextmanager, redirect_stdout

import featureflow as ff
import numpy as np
import requests
import requests.adapters
import urllib3
from hypothesis import strategies as st

import zounds
from vlib import env, gen
from vlib.runner import Suite
from checks.C11 import audio_of, tones
from zounds.datasets import (
    CompositeDataset, DataSetCache, Directory, FreeSoundSearch,
    InternetArchive, MusicNet, NSynth, PhatDrumLoops, PreDownload)
from zounds.soundfile import AudioMetaData, AudioStream, MetaData
from zounds.soundfile.audio_metadata import AudioMetaDataEncoder
from zounds.util import midi_instrument, midi_to_note, note_to_midi, tuplify

suite = Suite(
    'C23',
    'random collections of sounds on disk, in archives and on a web that '
    'stands in for the network, with missing, broken and interrupted '
    'resources; non-trivial = several sounds, something fails, or something '
    'is there already',
    ['the web is a transport adapter of the requests library',
     'a broken connection is noticed by the library',
     'flac streams come in one chunk']
)

RATE = 11025


# -- a web --------------------------------------------------------------------

class Cut(io.RawIOBase):
    """the body of a response whose connection breaks"""

    def __init__(self, data):
        self.data = io.BytesIO(data)

    def readable(self):
        return True

    def read(self, n=-1):
        out = self.data.read(n)
        if not out:
            raise ConnectionResetError('cut')
        return out


class Web(object):
    """url, without its query -> (status, body, length that arrives)"""

    def __init__(self):
        self.pages = dict()
        self.log = []

    def __setitem__(self, url, page):
        if isinstance(page, bytes):
            page = 200, page, None
        elif isinstance(page, (dict, list)):
            page = 200, json.dumps(page).encode(), None
        elif isinstance(page, str):
            page = 200, page.encode(), None
        self.pages[url] = page

    def send(self, adapter, request, **kwargs):
        self.log.append((request.url, dict(request.headers)))
        page = self.pages.get(request.url)
        if page is None:
            page = self.pages.get(request.url.split('?')[0])
        if page is None:
            page = 404, b'no such page', None
        if request.method != 'GET':
            # there's only something to get
            page = 405, b'method not allowed', None
        status, body, arrives = page
        flo = io.BytesIO(body) if arrives is None else Cut(body[:arrives])
        raw = urllib3.HTTPResponse(
            body=flo, status=status, preload_content=False,
            headers={'Content-Length': str(len(body))})
        return adapter.build_response(request, raw)


def get(meta):
    """what arrives when the sound of a data set is asked for"""
    with requests.Session() as session:
        response = session.send(meta.request.prepare())
    assert response.status_code == 200, response.status_code
    return response.content


@contextmanager
def the_web():
    web = Web()
    original = requests.adapters.HTTPAdapter.send
    requests.adapters.HTTPAdapter.send = \
        lambda self, request, **kw: web.send(self, request, **kw)
    try:
        yield web
    finally:
        requests.adapters.HTTPAdapter.send = original


@contextmanager
def folder():
    d = env.scratch_dir()
    try:
        yield d
    finally:
        env.remove_scratch(d)


@contextmanager
def quiet():
    with redirect_stdout(io.StringIO()):
        yield


encoded = dict()


def sound(seed, chans=1, millis=100, fmt='WAV', subtype='PCM_16'):
    """bytes of a sound, and its samples as written"""
    key = seed, chans, millis, fmt, subtype
    if key not in encoded:
        raw = tones(RATE, RATE * millis // 1000 + seed % 7, chans, seed)
        data = audio_of(raw, RATE).encode(fmt=fmt, subtype=subtype).read()
        encoded[key] = data, raw
    return encoded[key]


# -- documents ----------------------------------------------------------------

def document(database=None):
    class Settings(ff.PersistenceSettings):
        id_provider = ff.UserSpecifiedIdProvider(key='_id')
        key_builder = ff.StringDelimitedKeyBuilder('|')

    Settings.database = database(Settings.key_builder) if database else \
        ff.InMemoryDatabase(key_builder=Settings.key_builder)

    class Document(ff.BaseModel, Settings):
        meta = ff.JSONFeature(
            MetaData, store=True, encoder=AudioMetaDataEncoder)
        raw = ff.ByteStreamFeature(
            ff.ByteStream, chunksize=200000, needs=meta, store=True)
        pcm = zounds.AudioSamplesFeature(AudioStream, needs=raw, store=True)

    return Document


class QuotedFiles(ff.FileSystemDatabase):
    """the ids are addresses"""

    def _quoted(self, key):
        return urllib.parse.quote(key, safe='')

    def write_stream(self, key, content_type):
        return super(QuotedFiles, self).write_stream(
            self._quoted(key), content_type)

    def read_stream(self, key):
        return super(QuotedFiles, self).read_stream(self._quoted(key))

    def size(self, key):
        return super(QuotedFiles, self).size(self._quoted(key))

    def iter_ids(self):
        seen = set()
        for fn in os.listdir(self._path):
            _id = urllib.parse.unquote(fn).split('|')[0]
            if _id not in seen:
                seen.add(_id)
                yield _id

    def __contains__(self, key):
        return super(QuotedFiles, self).__contains__(self._quoted(key))

    def __delitem__(self, key):
        return super(QuotedFiles, self).__delitem__(self._quoted(key))


# processes find the class by its name
Shared = None


def share(path):
    global Shared
    Shared = document(lambda kb: QuotedFiles(path=path, key_builder=kb))
    Shared.__qualname__ = Shared.__name__ = 'Shared'
    Shared.__module__ = __name__
    return Shared


class Counting(object):
    """a dataset that says how often it was read"""

    def __init__(self, items):
        self.items = items
        self.n = 0

    def __iter__(self):
        for item in self.items:
            self.n += 1
            yield item


def stored_ids(cls):
    return sorted(set(cls.database.iter_ids()))


def holds(cls, _id, seed):
    data, raw = sound(seed)
    doc = cls(_id)
    assert b''.join(doc.raw) == data
    got = np.asarray(doc.pcm)
    assert got.shape == raw.shape
    assert np.allclose(got, raw, atol=2. / 2 ** 15)
    assert int(doc.pcm.samplerate) == RATE
    assert doc.meta['uri'] in (None, _id)


# where a sound of a collection is
KINDS = ['web', 'web', 'downloaded', 'downloaded', 'missing', 'garbage', 'cut']


def place(web, url, seed, kind):
    """puts a sound at the address, returns what a dataset says of it"""
    data, _ = sound(seed)
    if kind == 'downloaded':
        return AudioMetaData(uri=PreDownload(data, url), tags=['t%d' % seed])
    if kind == 'garbage':
        return AudioMetaData(uri=PreDownload(b'this is no sound' * 9, url))
    if kind == 'web':
        web[url] = data
    elif kind == 'cut':
        web[url] = 200, data, len(data) // 2
    elif kind == 'missing':
        web.pages.pop(url, None)
    return AudioMetaData(uri=requests.Request(method='GET', url=url))


sounds = st.lists(
    st.tuples(st.integers(0, 9), st.sampled_from(KINDS)),
    min_size=1, max_size=6)


def ingestion(ctx, items, before, mode, cores, skip, cls):
    name = lambda i: 'http://example.com/sounds/%d.wav' % i  # noqa
    before = {i % len(items) for i in before}
    with the_web() as web, quiet():
        for i in before:
            # something that was stored earlier under the same address
            cls.process(meta=place(
                web, name(i), 100 + i, 'downloaded'), _id=name(i))
        metas = [place(web, name(i), seed, kind)
                 for i, (seed, kind) in enumerate(items)]
        dataset = Counting(metas)
        web.log = []
        zounds.ingest(
            dataset, cls, skip_if_exists=skip,
            multi_process=mode == 'processes',
            multi_threaded=mode == 'threads', cores=cores)
        assert dataset.n == len(items)
        if mode != 'processes':
            # each once, and those that are skipped not at all
            asked = sorted(url for url, _ in web.log)
            assert asked == sorted(
                name(i) for i, (_, kind) in enumerate(items)
                if kind in ('web', 'cut', 'missing')
                and not (skip and i in before))
        expected = dict()
        for i, (seed, kind) in enumerate(items):
            if skip and i in before:
                expected[i] = 100 + i
            elif kind in ('web', 'downloaded'):
                expected[i] = seed
        for i, (seed, kind) in enumerate(items):
            if i in expected:
                assert cls.exists(name(i))
                holds(cls, name(i), expected[i])
            elif i not in before:
                # a sound that could not be had does not exist
                assert not cls.exists(name(i))
        # whatever went wrong, a later attempt finishes the work
        retry = [place(web, name(i), seed, 'web')
                 for i, (seed, kind) in enumerate(items)]
        web.log = []
        zounds.ingest(Counting(retry), cls, skip_if_exists=True)
        for i, (seed, kind) in enumerate(items):
            holds(cls, name(i), expected.get(i, seed))
        again = {url for url, _ in web.log}
        assert again == {
            name(i) for i in range(len(items)) if i not in expected}
        assert set(stored_ids(cls)) == {name(i) for i in range(len(items))}
    ctx.nontrivial(len(items) > 1)
    ctx.label(mode)
    for _, kind in items:
        ctx.label(kind)


@suite.part(
    quick=100, thorough=2000, items=sounds,
    before=st.lists(st.integers(0, 5), max_size=3),
    mode=st.sampled_from(['one by one', 'threads']), cores=st.integers(1, 4),
    skip=st.booleans())
def everything_is_ingested(ctx, items, before, mode, cores, skip):
    """every sound of a collection that can be had is stored once under its
    address when ingest returns, one by one or in parallel; sounds that are
    there already are left alone if asked; those that fail are not stored, do
    not keep the others from being stored, and can be had later"""
    ingestion(ctx, items, before, mode, cores, skip, document())


@suite.part(
    quick=4, thorough=60, items=sounds.filter(lambda x: len(x) > 1),
    before=st.lists(st.integers(0, 5), max_size=2), cores=st.integers(1, 3),
    skip=st.just(True))
def everything_is_ingested_by_processes(ctx, items, before, cores, skip):
    """the same of several processes that share a database"""
    with folder() as d:
        ingestion(ctx, items, before, 'processes', cores, skip, share(d))


# -- collections --------------------------------------------------------------

def told(meta):
    """what a dataset says of a sound"""
    d = dict(meta.__dict__)
    uri = d.pop('uri')
    d['url'] = uri.url
    return {k: v for k, v in d.items() if v is not None}


class Recorder(object):
    """a class of documents that remembers what it was asked for"""

    def __init__(self, there, broken, pause):
        self.there = set(there)
        self.broken = broken
        self.pause = pause
        self.processed = []
        self.finished = []

    def exists(self, _id):
        return _id in self.there

    def process(self, meta=None, _id=None):
        self.processed.append((_id, meta))
        if self.pause:
            time.sleep(.0005)
        if _id in self.broken:
            # a sound may be broken in any way
            raise self.broken[_id]('broken')
        self.finished.append(_id)


@suite.part(
    quick=60, thorough=600, n=st.integers(2, 700), threads=st.booleans(),
    cores=st.one_of(st.none(), st.integers(1, 6)), skip=st.booleans(),
    form=st.sampled_from(['%d', 'sounds?id=%d', 'x/#%d', 'a b/é%d.wav']),
    there=st.integers(0, 10), broken=st.integers(0, 10), seed=gen.seeds)
def large_collections(
        ctx, n, threads, cores, skip, form, there, broken, seed):
    """however many sounds there are, each is processed once under its own
    address, with what is said of it, before ingest returns; whatever is wrong
    with some of them"""
    r = gen.rng(seed)
    urls = ['http://example.com/' + form % i for i in range(n)]
    there = {u for u in urls if r.randint(0, 12) < there}
    errors = [ValueError, KeyError, OSError, ZeroDivisionError, TypeError,
              AssertionError, NotImplementedError, UnicodeError, EOFError]
    broken = {u: errors[r.randint(0, len(errors))]
              for u in urls if r.randint(0, 12) < broken}
    metas = [AudioMetaData(uri=PreDownload(b'x', u)) for u in urls]
    cls = Recorder(there, broken, threads)
    with quiet():
        zounds.ingest(iter(metas), cls, skip_if_exists=skip,
                      multi_threaded=threads, cores=cores)
    wanted = [u for u in urls if not (skip and u in there)]
    got = [u for u, _ in cls.processed]
    if threads:
        assert sorted(got) == sorted(wanted)
    else:
        assert got == wanted
    assert all(meta.request.url == u for u, meta in cls.processed)
    assert sorted(cls.finished) == sorted(
        u for u in wanted if u not in broken)
    ctx.nontrivial(n > 256)


@suite.part(quick=200, sizes=st.lists(st.integers(0, 4), max_size=14),
            again=st.booleans())
def collections_are_joined(ctx, sizes, again):
    """a composite has the sounds of its parts, in order, every time"""
    parts, expected, n = [], [], 0
    for size in sizes:
        part = [AudioMetaData(uri=PreDownload(b'x', 'http://h/%d' % (n + i)))
                for i in range(size)]
        n += size
        parts.append(part)
        expected += part
    composite = CompositeDataset(*parts)
    for _ in range(2):
        got = list(composite)
        assert len(got) == n and all(a is b for a, b in zip(got, expected))
    outer = list(CompositeDataset(composite, *parts))
    assert [m.uri.url for m in outer] == \
        [m.uri.url for m in expected + expected]
    ctx.nontrivial(len([s for s in sizes if s]) > 1)


@suite.part(quick=100, names=st.lists(
    st.text('abcxyz 0189._-', min_size=1, max_size=9).filter(
        lambda x: set(x) - {'.'}), max_size=6, unique=True),
    folders=st.lists(st.integers(0, 5), max_size=2))
def folders_of_sounds(ctx, names, folders):
    """a directory has its files, not its folders"""
    with folder() as d:
        folders = {i % len(names) for i in folders} if names else set()
        expected = set()
        for i, name in enumerate(names):
            p = os.path.join(d, name)
            if i in folders:
                os.mkdir(p)
                with open(os.path.join(p, 'inside'), 'w') as f:
                    f.write('x')
            else:
                with open(p, 'w') as f:
                    f.write('x')
                expected.add(p)
        got = list(Directory(d))
        assert sorted(got) == sorted(expected)
        # everything that's there, folders too, is given to a function once
        got = []
        zounds.process_dir(d, got.append)
        assert sorted(got) == sorted(os.path.join(d, x) for x in names)
        ctx.nontrivial(bool(folders) and bool(expected))


@suite.part(
    quick=200, thorough=2000,
    pages=st.lists(st.tuples(st.integers(0, 400), st.sampled_from(
        ['fine', 'fine', 'fine', 'cut', 'missing', 'empty'])),
        min_size=1, max_size=6),
    order=st.lists(st.integers(0, 5), min_size=1, max_size=12),
    heal=st.integers(0, 3), large=st.sampled_from([False] * 9 + [True]),
    form=st.sampled_from([
        '%d', 'sound?id=%d', 'x' * 150 + '%d', 'x' * 150 + '?q=%d', 'cases']),
    params=st.booleans())
def downloads_are_kept(ctx, pages, order, heal, large, form, params):
    """the cache gives a file with the content of every address, in order,
    and fetches each only once; an interrupted or failed download is reported,
    and not taken for the file afterwards"""
    name = lambda i: 'http://example.com/' + (  # noqa
        ['aa', 'aA', 'Aa', 'AA', 'aa/', 'aA/'][i] if form == 'cases'
        else form % i)
    body = lambda i: gen.rng(i).bytes(  # noqa
        1 + pages[i][0] * (17000 if large else 13))
    query = dict(token='k') if params and '?' not in form else dict()
    order = [i % len(pages) for i in order]
    with the_web() as web, folder() as d:
        path = os.path.join(d, 'a', 'cache')
        state = [kind for _, kind in pages]

        def publish():
            for i, kind in enumerate(state):
                if kind == 'cut':
                    web[name(i)] = 200, body(i), len(body(i)) // 2
                elif kind == 'missing':
                    web[name(i)] = 500, body(i), None
                else:
                    web[name(i)] = b'' if kind == 'empty' else body(i)

        cache = DataSetCache(path, [
            requests.Request(
                method='GET', url=name(i), params=query,
                headers={'X-Number': str(i)})
            for i in order])
        fetched = set()
        for attempt in range(len(pages) + 2):
            publish()
            web.log = []
            got = []
            failed = None
            try:
                for p in cache:
                    got.append(p)
            except (requests.RequestException, OSError) as e:
                failed = e
            good = []
            for i in order:
                if state[i] in ('cut', 'missing'):
                    break
                good.append(i)
            assert (failed is None) == (len(good) == len(order))
            assert len(got) == len(good), (got, good)
            for i, p in zip(good, got):
                with open(p, 'rb') as f:
                    assert f.read() == (
                        b'' if pages[i][1] == 'empty' else body(i))
                fetched.add(i)
            assert len(set(got)) == len(set(good))
            asked = [url for url, _ in web.log]
            assert len(set(asked)) == len(asked)
            # exactly what the collection says is asked for
            assert set(asked) <= {
                name(i) + ('?token=k' if query else '') for i in order}
            for url, headers in web.log:
                assert url.startswith(name(int(headers['X-Number'])))
            if failed is None:
                break
            # the one that failed is fine the next time, or one of the others
            culprit = order[len(good)]
            if attempt % (heal + 1) == heal or heal == 0:
                state[culprit] = 'fine'
        web.log = []
        if failed is None:
            assert len(list(cache)) == len(order) and not web.log
            # and they're found by the next to use the same place
            assert len(list(DataSetCache(path, cache.dataset))) == len(order)
            assert not web.log
    ctx.nontrivial(len(set(order)) > 1)
    for kind in {k for _, k in pages}:
        ctx.label(kind)


# -- what websites say of their sounds ----------------------------------------

word = st.text('abcdefghij xyz0123', min_size=1, max_size=8)


@suite.part(quick=100, thorough=1000,
            n=st.one_of(st.integers(0, 12), st.integers(40, 80)),
            size=st.integers(1, 15),
            wanted=st.one_of(st.integers(1, 14), st.integers(50, 90)),
            query=word)
def search_results_of_freesound(ctx, n, size, wanted, query):
    """a search gives as many of its results as asked for, or all of them,
    each once, in order, with what the site says of them"""
    base = 'http://www.freesound.org/apiv2/'
    with the_web() as web:
        facts = []
        for i in range(n):
            fact = dict(
                id=1000 + i, username='user%d' % (i % 3),
                samplerate=[44100., 48000., 22254.54][i % 3],
                channels=1 + i % 6,
                license='http://license/%d' % (i % 4),
                description='%s %d' % (query, i), tags=[str(i), query, 'b', 'a'],
                previews={'preview-hq-ogg': 'http://cdn.example/%d.ogg' % i,
                          'preview-hq-mp3': 'http://cdn.example/%d.mp3' % i})
            web[base + 'sounds/%d' % (1000 + i)] = fact
            facts.append(fact)
        pages = [list(range(i, min(n, i + size)))
                 for i in range(0, n, size)] or [[]]
        for k, page in enumerate(pages):
            url = base + 'search/text' if k == 0 else base + 'page/%d' % k
            web[url] = dict(
                results=[dict(id=1000 + i) for i in page],
                next=base + 'page/%d?%s' % (
                    k + 1, urllib.parse.urlencode(dict(query=query)))
                if k + 1 < len(pages) else None)
        search = FreeSoundSearch('key', query, n_results=wanted, delay=0)
        got = []
        for meta in search:
            got.append(meta)
            assert len(got) <= wanted + n
        assert len(got) == min(n, wanted)
        log = list(web.log)
        for i, meta in enumerate(got):
            fact = facts[i]
            web[meta.request.url] = 'sound %d' % i
            assert get(meta) == b'sound %d' % i
            assert meta.request.url == fact['previews']['preview-hq-ogg']
            assert (meta.samplerate, meta.channels, meta.licensing,
                    meta.description, meta.tags) == (
                fact['samplerate'], fact['channels'], fact['license'],
                fact['description'], fact['tags'])
            assert fact['username'] in meta.web_url
            assert str(fact['id']) in meta.web_url
        # the terms of the search, and the key, are sent
        for url, _ in log:
            if '/sounds/' not in url:
                terms = urllib.parse.parse_qs(
                    urllib.parse.urlparse(url).query, keep_blank_values=True)
                assert terms == {'query': [query], 'token': ['key']}
    ctx.nontrivial(n > size and wanted > size)


# names may contain characters that mean something in urls
filename = st.one_of(word, st.text(
    'abcxyz AB01#?%&=+;,()[]\'!@$~^é', min_size=1, max_size=8).map(
    lambda s: 'n' + s))


@suite.part(quick=100, thorough=1000, files=st.lists(
    st.tuples(filename, st.sampled_from(['Ogg Vorbis', 'WAVE', 'VBR MP3']),
              st.one_of(st.none(), st.integers(0, 5))),
    max_size=6, unique_by=lambda x: x[0]), wav=st.booleans(),
    attr=st.one_of(st.none(), st.just(''), word))
def files_of_the_internet_archive(ctx, files, wav, attr):
    """every file of the wanted format, with what is known of the original it
    derives from"""
    originals = [i for i, f in enumerate(files) if f[2] is None]
    listing, expected = dict(), dict()
    for i, (name, fmt, source) in enumerate(files):
        d = dict(format=fmt, title='title of %s' % name, size=str(i))
        if source is None or not originals:
            d['source'] = 'original'
            facts = name
        else:
            d['source'] = 'derivative'
            facts = files[originals[source % len(originals)]][0]
            d['original'] = facts + '.x'
        listing['/%s.x' % name] = d
        if fmt == ('WAVE' if wav else 'Ogg Vorbis'):
            expected[name] = facts
    with the_web() as web:
        web['https://archive.org/details/some_id&output=json'] = dict(
            files=listing)
        kwargs = dict() if attr is None else dict(artist=attr)
        if wav:
            kwargs['format_filter'] = lambda x: x['format'] == 'WAVE'
        dataset = InternetArchive('some_id', **kwargs)
        for _ in range(2):
            # what the site will be asked for
            got = dict()
            for m in dataset:
                asked = urllib.parse.urlsplit(m.request.prepare().url)
                assert (asked.scheme, asked.netloc) == (
                    'https', 'archive.org')
                assert asked.query == ''
                got[urllib.parse.unquote(asked.path)] = m
            assert set(got) == {
                '/download/some_id/%s.x' % name for name in expected}
            for name, facts in expected.items():
                m = got['/download/some_id/%s.x' % name]
                web[m.request.prepare().url] = name
                assert get(m) == name.encode()
                assert m.title == 'title of %s' % facts
                assert 'some_id' in m.web_url
                assert attr is None or m.artist == attr
    ctx.nontrivial(any(f[2] is not None for f in files) and bool(expected))


@suite.part(quick=60, names=st.lists(
    st.one_of(st.text('abcxyz01_-', min_size=1, max_size=8),
              st.text("ab()+,~!*'%/0", min_size=1, max_size=5).map(
                  lambda s: 'n%sx' % s)), max_size=6, unique=True),
    noise=st.lists(word, max_size=4),
    many=st.sampled_from([False] * 4 + [True]))
def breaks_of_phat_drum_loops(ctx, names, noise, many):
    """every sound the page links to"""
    if many:
        names = names + ['many%d' % i for i in range(700)]
    links = ['<a href="/audio/wav/%s.wav">%s</a>' % (n, n) for n in names]
    other = ['<a href="/other/%s.html">%s</a>' % (x, x) for x in noise]
    page = '<html>%s</html>' % '\n'.join(
        x for pair in zip(links + [''] * len(other), other + [''] * len(links))
        for x in pair)
    with the_web() as web:
        web['http://phatdrumloops.com/beats.php'] = page
        got = list(PhatDrumLoops(artist='someone'))
        for i, m in enumerate(got):
            web[m.request.prepare().url] = 'loop %d' % i
            assert get(m) == b'loop %d' % i
    assert [m.request.url for m in got] == [
        'http://phatdrumloops.com/audio/wav/%s.wav' % n for n in names]
    for m in got:
        assert m.artist == 'someone' and 'phatdrumloops' in m.web_url
        headers = {k.lower(): v for k, v in m.request.headers.items()}
        assert headers['range'] == 'bytes=0-'
    ctx.label("many" if many else "few")
    ctx.nontrivial(len(names) > 1 and len(noise) > 0)


@suite.part(quick=25, thorough=200, n=st.integers(0, 4), extra=st.integers(0, 2),
            stereo=st.booleans(), notes=st.lists(st.text('abc, "\'\nxyz', max_size=8),
                           min_size=6, max_size=6), local=st.booleans(),
            form=st.sampled_from(['%d', '%d', '%d.v2', '%d_b']))
def sounds_of_musicnet(ctx, n, extra, stereo, notes, local, form):
    """every sound, with the row of the table that is about it"""
    url = 'https://homes.cs.washington.edu/~thickstn/media/'
    table = io.StringIO()
    w = csv.DictWriter(
        table, ['id', 'composer', 'movement'], lineterminator='\n')
    w.writeheader()
    rows = dict()
    for i in reversed(range(n + extra)):
        rows[form % (1700 + i)] = dict(
            id=form % (1700 + i), composer=notes[i], movement='m %d' % i)
        w.writerow(rows[form % (1700 + i)])
    with the_web() as web, folder() as d, quiet():
        os.mkdir(os.path.join(d, 'train_data'))
        for i in range(n):
            with open(os.path.join(
                    d, 'train_data', form % (1700 + i) + '.wav'), 'wb') as f:
                f.write(sound(i, 1 + stereo)[0])
        if local:
            with open(os.path.join(d, 'musicnet_metadata.csv'), 'w') as f:
                f.write(table.getvalue())
        else:
            web[url + 'musicnet_metadata.csv'] = table.getvalue()
        got = list(MusicNet(d))
        assert len(got) == n
        for m in got:
            i = int(m.id[:4]) - 1700
            assert {k: getattr(m, k) for k in rows[m.id]} == rows[m.id]
            assert m.request.url == url + m.id
            read = zounds.AudioSamples.from_file(io.BytesIO(m.uri.read()))
            assert np.allclose(
                np.asarray(read), sound(i, 1 + stereo)[1], atol=1e-4)
        assert {m.id for m in got} == {form % (1700 + i) for i in range(n)}
        assert len(web.log) == (0 if local else 1)
    ctx.nontrivial(n > 1)


@suite.part(quick=40, thorough=300, n=st.integers(0, 4), where=st.integers(0, 4),
            fails=st.sampled_from(['no', 'no', 'cut', 'missing']),
            long=st.booleans())
def sounds_of_nsynth(ctx, n, where, fails, long):
    """every sound of the archive, with its entry of the table, wherever in
    the archive that is; an archive that could not be had is not used"""
    url = 'http://download.magenta.tensorflow.org/datasets/nsynth/' \
          'nsynth-valid.jsonwav.tar.gz'
    names = ['k%d%s' % (i // 3, ['', '.1', '_021-100'][i % 3])
             for i in range(n)]
    table = {names[i]: dict(pitch=40 + i, instrument_str='i%d' % i,
                             qualities=[i, 0]) for i in range(n)}
    wav = lambda i: sound(i, 1, 4000 if long else 100)[0]  # noqa
    flo = io.BytesIO()
    with tarfile.open(fileobj=flo, mode='w:gz') as tar:
        def add(name, data):
            info = tarfile.TarInfo(name)
            info.size = len(data)
            tar.addfile(info, io.BytesIO(data))

        folder_ = tarfile.TarInfo('nsynth-valid/audio')
        folder_.type = tarfile.DIRTYPE
        tar.addfile(folder_)
        for i in range(n):
            if i == where % (n + 1):
                add('nsynth-valid/examples.json', json.dumps(table).encode())
            add('nsynth-valid/audio/%s.wav' % names[i], wav(i))
        if where % (n + 1) == n:
            add('nsynth-valid/examples.json', json.dumps(table).encode())
    body = flo.getvalue()
    with the_web() as web, folder() as d, quiet():
        if fails != 'no':
            web[url] = (200, body, len(body) // 2) if fails == 'cut' \
                else (404, b'not here', None)
            try:
                got = list(NSynth(d))
            except (requests.RequestException, OSError):
                got = None
            assert got is None, 'an archive that did not arrive was used'
        web[url] = body
        for attempt in range(2):
            web.log = []
            got = list(NSynth(d))
            assert len(web.log) == (1 if attempt == 0 else 0)
            assert len(got) == n
            for i, m in enumerate(got):
                assert m.pitch == 40 + i and m.qualities == [i, 0]
                assert m.instrument_str == 'i%d' % i
                assert m.request.url.endswith('/' + names[i])
                assert 'nsynth' in m.web_url
                assert m.uri.read() == wav(i)
    ctx.nontrivial(n > 1)
    ctx.label(fails)


# -- sounds of all kinds of places ---------------------------------------------

@suite.part(
    quick=200, thorough=2000, seed=st.integers(0, 5), chans=st.integers(1, 2),
    fmt=st.sampled_from([('WAV', 'PCM_16'), ('WAV', 'FLOAT'),
                         ('FLAC', 'PCM_24'), ('AIFF', 'PCM_16')]),
    how=st.sampled_from([
        'path', 'bytes', 'open file', 'url', 'request', 'ranged request',
        'described path', 'described request', 'downloaded', 'zip']))
def sounds_from_anywhere(ctx, seed, chans, fmt, how):
    """the same sound is stored from a path, a file, an address, a request, a
    description or a zip file; its rate and channels are known if it's at
    hand; what is said of it is kept; requests ask for all of it, unless they
    say what they want"""
    data, raw = sound(seed, chans, 100, *fmt)
    url = 'http://example.com/a/sound'
    cls = document()
    extra = dict(licensing='some license', mood='blue', tags=['a', 'b'])
    with the_web() as web, folder() as d:
        web[url] = data
        p = os.path.join(d, 'sound')
        with open(p, 'wb') as f:
            f.write(data)
        known, uri, said = False, None, dict()
        if how == 'path':
            source, known, uri = p, True, p
        elif how == 'bytes':
            source, known = io.BytesIO(data), True
        elif how == 'open file':
            source, known = open(p, 'rb'), True
        elif how == 'url':
            source, uri = url, url
        elif how in ('request', 'ranged request'):
            source, uri = requests.Request(method='GET', url=url), url
            if how == 'ranged request':
                source.headers['Range'] = 'bytes=7-'
        elif how == 'described path':
            source, uri, said = AudioMetaData(uri=p, **extra), p, extra
        elif how == 'described request':
            source, uri, said = AudioMetaData(
                uri=requests.Request(method='GET', url=url), **extra), \
                url, extra
        elif how == 'downloaded':
            source, said = AudioMetaData(
                uri=PreDownload(data, url), **extra), extra
        else:
            z = os.path.join(d, 'sounds.zip')
            with zipfile.ZipFile(z, 'w') as f:
                f.writestr('other', b'x' * 50)
                f.writestr('sound', data)
            source = None
            for w in ff.iter_zip(z):
                if w.filename == 'sound':
                    source = w
                    cls.process(meta=w, _id='doc')
        if how != 'zip':
            cls.process(meta=source, _id='doc')
        if how == 'open file':
            source.close()
        doc = cls('doc')
        assert b''.join(doc.raw) == data
        got = np.asarray(doc.pcm)
        if chans == 2:
            raw = raw.mean(axis=1)
        assert got.shape == raw.shape
        assert np.allclose(got, raw, atol=2. / 2 ** 15)
        meta = doc.meta
        assert meta['uri'] == uri
        assert (meta['samplerate'], meta['channels']) == (
            (RATE, chans) if known else (None, None))
        for k, v in said.items():
            assert meta[k] == v
        for k in ('licensing', 'description', 'tags'):
            assert k in said or meta[k] is None
        if web.log and 'described' not in how:
            headers = {k.lower(): v for k, v in web.log[-1][1].items()}
            assert headers['range'] == (
                'bytes=7-' if how == 'ranged request' else 'bytes=0-')
    ctx.nontrivial()
    ctx.label(how)


facts = st.fixed_dictionaries(dict(
    samplerate=st.sampled_from([None, 11025, 44100]),
    channels=st.sampled_from([None, 1, 2]),
    licensing=st.one_of(st.none(), word),
    description=st.one_of(st.none(), st.text(max_size=9)),
    tags=st.one_of(st.none(), st.lists(word, max_size=2))))


@suite.part(quick=300, a=facts, b=facts, same=st.booleans(),
            more=st.dictionaries(
                st.sampled_from(['artist', 'album', 'year']),
                st.one_of(st.integers(), st.text(max_size=5), st.floats(
                    allow_nan=False, allow_infinity=False))),
            change=st.sampled_from(['nothing', 'uri', 'samplerate', 'channels',
                                    'licensing', 'description', 'tags']))
def descriptions(ctx, a, b, same, more, change):
    """descriptions are equal if everything that they commonly say is, and
    are stored as JSON with everything else they say"""
    x = AudioMetaData(uri='http://h/x', **a)
    if same:
        b = dict(a)
    y = AudioMetaData(uri='http://h/y' if change == 'uri' else 'http://h/x',
                      **dict(b, **more))
    if change not in ('nothing', 'uri'):
        setattr(y, change, 'changed')
        b = dict(b, **{change: 'changed'})
    assert (x == y) == (a == b and change != 'uri')
    stored = json.loads(''.join(AudioMetaDataEncoder()._process(y)))
    assert stored == dict(b, uri=y.uri, **more)
    try:
        AudioMetaData(**a)
        refused = False
    except ValueError:
        refused = True
    assert refused
    ctx.nontrivial(bool(more) or change != 'nothing')


# -- odds and ends ------------------------------------------------------------

# one word for every instrument of General MIDI
INSTRUMENTS = '''
    grand bright electric honky rhodes chorus harpsichord clav
    celesta glockenspiel box vibra marimba xylo bells dulcimer
    hammond percussive rock church reed accordion harmonica tango
    nylon steel jazz clean mute overdrive distortion harmonics
    acoustic finger pick fretless slap slap synth synth
    violin viola cello contrabass tremolo pizzicato harp timpani
    ensemble ensemble synth synth choir voice voice hit
    trumpet trombone tuba mute horn brass brass brass
    soprano alto tenor bari oboe english bassoon clarinet
    piccolo flute recorder pan blow shakuhachi whistle ocarina
    square sawtooth calliope chiff charang voice fifths bass|brass
    age warm polysynth choir bow metal halo sweep
    rain track crystal atmosphere bright goblin echo sci
    sitar banjo shamisen koto kalimba bag fiddle shana
    bell agogo steel wood taiko tom drum cymbal
    fret breath sea bird phone heli applause gun'''.split()


@suite.part(quick=300, a=st.integers(0, 127), b=st.integers(0, 127))
def notes(ctx, a, b):
    """numbers and names of notes correspond, an octave is twelve notes, the
    names within an octave are in order, and instruments have names"""
    for x in (a, b):
        assert note_to_midi(midi_to_note(x)) == x
        m = re.match('^([A-G])(#?)([0-9]+)$', midi_to_note(x))
        assert m
        want = 'C D EF G A B'.index(m.group(1)) + (m.group(2) == '#')
        assert want + 12 * int(m.group(3)) == x
        assert midi_instrument(x)
        for i in (x, (x + 43) % 128, (x + 86) % 128):
            assert re.search(INSTRUMENTS[i], midi_instrument(i).lower())
    assert (midi_to_note(a) == midi_to_note(b)) == (a == b)
    assert (midi_instrument(a) == midi_instrument(b)) == (a == b)
    ctx.nontrivial(a != b)


@suite.part(quick=200, value=st.one_of(
    st.integers(), st.floats(allow_nan=False), st.none(),
    st.lists(st.integers(), max_size=4),
    st.lists(st.integers(), max_size=4).map(tuple),
    st.sampled_from(['duration', 'array', 'scalar', 'generator'])))
def tuples_of_things(ctx, value):
    """one thing is a tuple of one, several are a tuple of them"""
    several = isinstance(value, (list, tuple))
    expected = tuple(value) if several else (value,)
    if value == 'duration':
        value = zounds.Seconds(3)
        expected = (value,)
    elif value == 'array':
        value, expected, several = np.arange(3), (0, 1, 2), True
    elif value == 'scalar':
        value = np.float32(3)
        expected = (value,)
    elif value == 'generator':
        value, expected, several = iter([1, 2]), (1, 2), True
    got = tuplify(value)
    assert isinstance(got, tuple) and got == expected
    assert tuplify(got) == got
    ctx.nontrivial(several)


@suite.part(
    quick=60, thorough=600, own=st.booleans(), n=st.integers(1, 4),
    on_disk=st.booleans(), two=st.booleans())
def databases_of_models(ctx, own, n, on_disk, two):
    """a model keeps its name and its documents, under the ids they were
    given; a model in memory keeps them to itself, one on disk finds them when
    it's opened again; features added to what was derived come along"""
    class Sound(ff.BaseModel):
        start = ff.PickleFeature(ff.Node, store=True)

    class Longer(Sound):
        twice = ff.PickleFeature(Twice, needs=Sound.start, store=True)

    def settings(path):
        if on_disk:
            return zounds.simple_lmdb_settings(
                path, map_size=1 << 20, user_supplied_id=own)
        return zounds.simple_in_memory_settings

    own = own and on_disk
    with folder() as d:
        path = os.path.join(d, 'a')
        A = settings(path)(Longer if two else Sound)
        B = settings(os.path.join(d, 'b'))(Sound)
        assert A.__name__ == ('Longer' if two else 'Sound')
        assert A.__module__ == Sound.__module__
        given = ['name %d' % i for i in range(n)]
        ids = [A.process(start=i + 1, _id=given[i]) if own
               else A.process(start=i + 1) for i in range(n)]
        assert len(set(ids)) == n
        if own:
            assert ids == given

        def check(cls):
            for i, _id in enumerate(ids):
                assert cls(_id).start == i + 1
                assert not two or cls(_id).twice == 2 * (i + 1)
                assert cls.exists(_id)
            assert sorted(doc._id for doc in cls) == sorted(ids)

        check(A)
        assert list(B) == []
        assert not any(B.exists(_id) for _id in ids)
        if on_disk:
            A.database.close()
            check(settings(path)(Longer if two else Sound))
    ctx.nontrivial(n > 1)


class Twice(ff.Node):
    def _process(self, data):
        yield 2 * data
