"""C18: hamming distance, hamming databases and search indexes"""
import json
import os
import time

import featureflow as ff
import lmdb
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.distance import cdist

import zounds
from vlib.runner import Suite
from vlib import gen, env
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, TimeSlice, Seconds
from zounds.nputil import (
    count_bits, count_packed_bits, hamming_distance, packed_hamming_distance)
from zounds.index import (
    HammingDb, HammingIndex, BruteForceSearch,
    HammingDistanceBruteForceSearch)

suite = Suite(
    'C18',
    'random codes that often are near or equal to each other, and histories '
    'of appending, searching and reopening; non-trivial = more than one code '
    'and a search that leaves some out, or several words per code',
    ['codes are bytes; databases hold far fewer than a million codes'])


def popcount(x):
    return bin(int(x)).count('1')


def words(shape, seed):
    rng = gen.rng(seed)
    x = rng.randint(0, 2 ** 32, shape, dtype=np.uint64) << np.uint64(32)
    x |= rng.randint(0, 2 ** 32, shape, dtype=np.uint64)
    # all bits, no bits, single bits and bits at the ends
    edge = np.array([0, 2 ** 64 - 1, 1, 2 ** 63, 2 ** 32, 2 ** 31,
                     2 ** 64 - 2], dtype=np.uint64)
    where = rng.uniform(0, 1, shape) < .3
    x[where] = edge[rng.randint(0, len(edge), where.sum())]
    return x


@suite.part(
    quick=500, n=st.integers(0, 40), w=st.integers(1, 6),
    how=st.sampled_from(['plain', 'strided', 'reversed', 'fortran', 'field']),
    value=st.integers(0, 2 ** 64 - 1), seed=gen.seeds)
def distances_count_differing_bits(ctx, n, w, how, value, seed):
    """the number of bits that differ, for any layout in memory"""
    b = words((n, w), seed)
    if how == 'strided':
        big = words((n * 2, w * 3), seed)
        big[::2, ::3] = b
        b = big[::2, ::3]
    elif how == 'reversed':
        b = b[::-1]
    elif how == 'fortran':
        b = np.asfortranarray(b)
    elif how == 'field':
        rec = np.zeros(n, dtype=[('id', 'S5'), ('code', np.uint64, (w,))])
        rec['code'] = b
        b = rec['code']
    a = words((w,), seed + 1)
    a[0] = value
    ctx.nontrivial(n > 1 and w > 1)
    ctx.label(how)
    before = b.copy()
    expected = [sum(popcount(x ^ y) for x, y in zip(row, a)) for row in b]
    assert list(packed_hamming_distance(a, b)) == expected
    assert list(count_packed_bits(b)) == [
        sum(popcount(x) for x in row) for row in b]
    first = b[:, 0]
    assert list(count_bits(first)) == [popcount(x) for x in first]
    scalar = np.uint64(value)
    assert list(hamming_distance(scalar, first)) == [
        popcount(value ^ int(x)) for x in first]
    assert np.array_equal(b, before)


def code(k, size, base):
    """codes of low numbers are near to each other; equal ones are common"""
    bits = gen.rng(base).randint(0, 2, size * 8).astype(np.uint8)
    flips = gen.rng(k % 97)
    for _ in range(k % 7):
        bits[flips.randint(0, size * 8)] ^= 1
    return np.packbits(bits).tobytes()


def distance(a, b):
    return sum(bin(x ^ y).count('1') for x, y in zip(a, b))


def check_results(got, stored, query, n, ordered):
    """got: the data of the n stored codes nearest to the query"""
    lookup = dict((d, c) for c, d in stored)
    assert len(lookup) == len(stored)
    assert len(got) == min(n, len(stored)), (len(got), n, len(stored))
    assert len(set(got)) == len(got), 'a result was given twice'
    distances = [distance(lookup[d], query) for d in got]
    nearest = sorted(distance(c, query) for c, _ in stored)[:n]
    assert sorted(distances) == nearest, (distances, nearest)
    if ordered:
        assert distances == nearest, (distances, nearest)


STEPS = st.lists(st.one_of(
    st.tuples(st.just('append'), st.integers(0, 1), st.integers(0, 200),
              st.binary(max_size=6), st.booleans()),
    st.tuples(st.just('append'), st.integers(0, 1), st.integers(0, 200),
              st.binary(max_size=6), st.booleans()),
    st.tuples(st.just('search'), st.integers(0, 1), st.integers(0, 200),
              st.integers(1, 12), st.booleans(), st.booleans()),
    st.tuples(st.just('random'), st.integers(0, 1), st.integers(1, 12),
              st.booleans(), st.booleans()),
    st.tuples(st.just('reopen'), st.integers(0, 1), st.booleans()),
    st.tuples(st.just('meta'), st.integers(0, 1), st.binary(
        min_size=1, max_size=3), st.binary(max_size=5)),
    st.tuples(st.just('reject'), st.integers(0, 1), st.integers(0, 40)),
), min_size=8, max_size=25)


class Handle(object):
    def __init__(self, path, size):
        self.path = path
        self.size = size
        self.writeonly = False
        self.db = None

    def open(self, size=None):
        if self.db is None:
            self.db = HammingDb(
                self.path, map_size=1 << 22, code_size=size,
                writeonly=self.writeonly)
        return self.db

    def close(self):
        if self.db is not None:
            self.db.close()
            try:
                self.db._pool.terminate()
            except AttributeError:
                pass
            self.db = None


@suite.part(
    quick=150, thorough=2500, steps=STEPS, size=st.sampled_from(
        [8, 8, 16, 24, 40]), two=st.booleans(), base=gen.seeds,
    initial=st.lists(st.integers(0, 200), max_size=15))
def histories_of_a_database(ctx, steps, size, two, base, initial):
    """whatever was appended by whichever instance is found by every other
    instance, nearest codes first, also after reopening"""
    path = os.path.join(env.scratch_dir(), 'db')
    handles = [Handle(path, size) for _ in range(2 if two else 1)]
    stored, meta = [], {}
    selective = False
    try:
        for h in handles:
            h.open(size)
        steps = [('append', k % 2, k, b'', False) for k in initial] + steps
        for step in steps:
            kind, h = step[0], handles[step[1] % len(handles)]
            db = h.open()
            assert db.code_size == size
            if kind == 'append':
                c = code(step[2], size, base)
                data = b'%d:' % len(stored) + step[3]
                if step[4]:
                    text = '%d:text' % len(stored)
                    db.append(c, text)
                    data = text.encode()
                else:
                    db.append(c, data)
                stored.append((c, data))
                for other in handles:
                    if other.db is not None:
                        assert len(other.db) == len(stored)
            elif kind == 'search':
                q = code(step[2], size, base)
                n = step[3]
                if h.writeonly:
                    try:
                        list(db.search(q, n))
                        assert False, 'searched in writeonly mode'
                    except RuntimeError:
                        continue
                got = list(db.search(
                    q, n, multithreaded=step[4], sort=step[5]))
                check_results(got, stored, q, n, step[5])
                selective |= n < len(stored)
            elif kind == 'random':
                if h.writeonly:
                    continue
                if not stored:
                    try:
                        db.random_search(step[2])
                        assert False, 'found something in an empty database'
                    except ValueError:
                        continue
                q, got = db.random_search(step[2], step[3], sort=step[4])
                assert q in [c for c, _ in stored]
                check_results(list(got), stored, q, step[2], step[4])
            elif kind == 'reopen':
                h.close()
                h.writeonly = step[2] and two
                db = h.open()
                assert len(db) == len(stored)
            elif kind == 'meta':
                db.set_metadata(b'm' + step[2], step[3])
                meta[step[2]] = step[3]
            elif kind == 'reject':
                wrong = step[2] if step[2] != size else size + 8
                for attempt in (
                        lambda: db.append(b'a' * wrong, b'data'),
                        lambda: list(db.search(b'a' * wrong, 1))
                        if not h.writeonly else db.append(b'', b'')):
                    try:
                        attempt()
                        assert False, 'took a code of the wrong size'
                    except ValueError:
                        pass
                assert len(db) == len(stored)
            for k, v in meta.items():
                assert db.get_metadata(b'm' + k) == v
        h = handles[0]
        h.close()
        h.writeonly = False
        db = h.open(size)
        q = code(0, size, base)
        check_results(list(db.search(q, 1000, sort=True)), stored, q, 1000,
                      True)
        h.close()
        try:
            h.open(size + 8)
            assert False, 'opened with a different code size'
        except ValueError:
            pass
        ctx.nontrivial(selective)
        ctx.label('two' if two else 'one')
    finally:
        for h in handles:
            h.close()


def document(steps, bits, kind, t, seed):
    """(array of codes, bytes of each)"""
    raw = gen.rng(seed).randint(0, 2, (steps, bits)).astype(np.uint8)
    # some codes are repeated
    for i in range(1, steps):
        if gen.rng(seed + i).uniform() < .3:
            raw[i] = raw[i - 1]
    packed = [np.packbits(r).tobytes() for r in raw]
    f, unit, lap = t
    dims = [TimeDimension(gen.td(f, unit), gen.td(f * lap, unit)),
            IdentityDimension()]
    if kind == 'bool':
        raw = raw.astype(bool)
    elif kind == 'packed':
        raw = np.stack([np.frombuffer(p, dtype=np.uint64) for p in packed])
    return ArrayWithUnits(raw, dims), packed


TIMES = st.tuples(st.integers(1, 1000), st.sampled_from(gen.UNITS),
                  st.integers(1, 3))
DOCS = st.lists(st.tuples(st.integers(1, 5), TIMES, gen.seeds),
                min_size=1, max_size=4)


class Settings(object):
    def __init__(self, path, version='IteratorNode'):
        class Node(ff.IteratorNode):
            @property
            def version(self):
                return version

        class S(ff.PersistenceSettings):
            id_provider = ff.UuidProvider()
            key_builder = ff.StringDelimitedKeyBuilder()
            database = ff.InMemoryDatabase(key_builder=key_builder)
            event_log = ff.EventLog(
                path=os.path.join(path, 'events'),
                channel=ff.InMemoryChannel(), map_size=1 << 22)

        class Document(ff.BaseModel, S):
            codes = zounds.ArrayWithUnitsFeature(
                Node, store=True)
            other = zounds.ArrayWithUnitsFeature(
                ff.Node, needs=codes, store=True)

        self.Document = Document


class CountingIndex(object):
    """an index that is closed for sure"""

    def __init__(self, *args, **kwargs):
        self.index = HammingIndex(*args, **kwargs)

    def __enter__(self):
        return self.index

    def __exit__(self, *args):
        pool = getattr(self.index.hamming_db, '_pool', None)
        self.index.close()
        if pool is not None:
            pool.terminate()


@suite.part(
    quick=100, thorough=1500, rounds=st.lists(DOCS, min_size=1, max_size=3),
    kind=st.sampled_from(['uint8', 'bool', 'packed']),
    bits=st.sampled_from([64, 128]), extra=st.booleans(),
    pick=st.integers(0, 99), n=st.integers(1, 20),
    multithreaded=st.booleans(), how=st.sampled_from(['events', 'add_all']))
def an_index_finds_every_moment_of_every_document(
        ctx, rounds, kind, bits, extra, pick, n, multithreaded, how):
    """every code of every document is found under its document and time
    slice, wherever indexing was interrupted and resumed"""
    path = env.scratch_dir()
    Document = Settings(path).Document
    model = []  # (code, id, start, duration)
    features = {}
    kwargs = dict(path=path, db_size_bytes=1 << 22)
    if extra:
        kwargs['steps'] = lambda doc, ts: len(doc.codes)
        kwargs['start'] = lambda doc, ts: str(ts.start)
    ctx.nontrivial(len(rounds) > 1 or len(rounds[0]) > 1)
    ctx.label(kind, how)
    if how == 'add_all':
        rounds = [sum(rounds, [])]
    for docs in rounds:
        for steps, t, seed in docs:
            arr, packed = document(steps, bits, kind, t, seed)
            _id = Document.process(codes=[arr])
            features[_id] = arr
            td = arr.dimensions[0]
            for i, c in enumerate(packed):
                model.append((
                    c, _id, gen.ps(td.frequency) * i, gen.ps(td.duration)))
        # a new instance carries on where the last one stopped
        with CountingIndex(Document, Document.codes, **kwargs) as index:
            if how == 'add_all':
                index.add_all()
            else:
                index._synchronously_process_events()
                # nothing is left to do
                index._synchronously_process_events()
            assert len(index) == len(model), (len(index), len(model))

    def parse(result):
        _id, ts = result[:2]
        assert isinstance(ts, TimeSlice)
        if extra:
            assert result[2] == dict(
                steps=len(features[_id]), start=str(ts.start))
        else:
            assert len(result) == 2
        return _id, gen.ps(ts.start), gen.ps(ts.duration)

    with CountingIndex(Document, Document.codes, **kwargs) as index:
        assert len(index) == len(model)
        everything = [(c, m) for c, *m in model]
        stored = [(c, tuple(m)) for c, m in everything]
        c, (_id, start, duration) = stored[pick % len(stored)]
        ts = TimeSlice(gen.td(duration, 'ps'), gen.td(start, 'ps'))
        row = features[_id][int(start // gen.ps(
            features[_id].dimensions[0].frequency))]
        for query in (c, None, row) if pick % 2 else (None, c, row):
            if query is None:
                results = index.random_search(n, sort=True)
                assert results.query in [s[0] for s in stored]
            else:
                results = index.search(
                    query, n, multithreaded=multithreaded, sort=True)
                assert results.query == c
            check_results(
                [parse(r) for r in results], stored, results.query, n, True)
        assert index.encode_query(index.decode_query(c)) == c
        assert index.decode_query(c).shape == (bits,)
        try:
            index.encode_query(np.zeros(bits))
            assert False, 'took floating point numbers for bits'
        except ValueError:
            pass
        if kind != 'packed':
            got = index.search(row, 1, sort=True)
            (best,) = [parse(r) for r in got]
            assert dict((m, k) for k, m in stored)[best] == c


class Interrupted(Exception):
    pass


@suite.part(
    quick=100, thorough=1500, docs=DOCS, bits=st.sampled_from([64, 128]),
    fails=st.lists(st.integers(1, 12), min_size=1, max_size=4),
    where=st.sampled_from(['extra data', 'append', 'metadata']))
def interrupted_indexing_loses_nothing(ctx, docs, bits, fails, where):
    """indexing that fails at any moment, even within a document, and is
    carried on by another instance, finds every code of every document"""
    path = env.scratch_dir()
    Document = Settings(path).Document
    expected = set()
    for steps, t, seed in docs:
        arr, packed = document(steps, bits, 'uint8', t, seed)
        _id = Document.process(codes=[arr])
        td = arr.dimensions[0]
        for i, c in enumerate(packed):
            expected.add(
                (_id, gen.ps(td.frequency) * i, gen.ps(td.duration)))
    left = [None]

    def countdown(*args):
        if left[0] is not None:
            left[0] -= 1
            if left[0] == 0:
                raise Interrupted()
        return 1

    kwargs = dict(path=path, db_size_bytes=1 << 22)
    if where == 'extra data':
        kwargs['calls'] = countdown

    def interrupt(db, name):
        func = getattr(db, name)

        def wrapped(*args, **kw):
            countdown()
            return func(*args, **kw)
        setattr(db, name, wrapped)

    interrupted = 0
    for fail in fails + [None]:
        with CountingIndex(Document, Document.codes, **kwargs) as index:
            left[0] = fail
            if where != 'extra data':
                index._init_hamming_db(b'a' * (bits // 8))
                interrupt(index.hamming_db, {
                    'append': 'append', 'metadata': 'set_metadata'}[where])
            try:
                index._synchronously_process_events()
            except Interrupted:
                interrupted += 1
    left[0] = None
    ctx.nontrivial(interrupted > 0 and len(expected) > 1)
    ctx.label(where, 'interrupted' if interrupted else 'not interrupted')
    with CountingIndex(Document, Document.codes, **kwargs) as index:
        n = len(index)
        assert n >= len(expected), (n, len(expected))
        found = list(index.search(b'a' * (bits // 8), n))
        assert set(
            (r[0], gen.ps(r[1].start), gen.ps(r[1].duration))
            for r in found) == expected
        if where == 'extra data':
            assert n == len(expected)


@suite.part(
    quick=250, docs=st.lists(st.tuples(
        st.integers(1, 6), TIMES, gen.seeds), min_size=1, max_size=4),
    n=st.integers(1, 25), metric=st.sampled_from(
        ['euclidean', 'cosine', 'cityblock']), features=st.integers(1, 4),
    seed=gen.seeds, packed=st.booleans())
def brute_force_search_is_exhaustive(
        ctx, docs, n, metric, features, seed, packed):
    """the nearest examples of all, in order, with their own time slices"""
    examples, flat, slices = [], [], []
    for k, (steps, (f, unit, lap), s) in enumerate(docs):
        rng = gen.rng(s)
        raw = words((steps, features), s) if packed else rng.normal(
            0, 1, (steps, features))
        td = TimeDimension(gen.td(f, unit), gen.td(f * lap, unit))
        examples.append(
            ('doc%d' % k, ArrayWithUnits(raw, [td, IdentityDimension()])))
        for i in range(steps):
            flat.append(raw[i])
            slices.append((
                'doc%d' % k, gen.ps(td.frequency) * i, gen.ps(td.duration)))
    flat = np.stack(flat)
    ctx.nontrivial(len(flat) > n)
    if packed:
        search = HammingDistanceBruteForceSearch(iter(examples))
        q = words((features,), seed)

        def distances(q):
            return np.array([
                sum(popcount(x ^ y) for x, y in zip(row, q))
                for row in flat], dtype='f8')
    else:
        search = BruteForceSearch(iter(examples), distance_metric=metric)
        q = gen.rng(seed).normal(0, 1, features)

        def distances(q):
            return cdist(np.asarray(q)[None], flat, metric=metric)[0]

    for results in (search.search(q, n), search.random_search(n)):
        d = distances(np.asarray(results.query))
        got = [(i, gen.ps(ts.start), gen.ps(ts.duration))
               for i, ts in results]
        assert len(got) == min(n, len(flat)) and len(set(got)) == len(got)
        where = [slices.index(g) for g in got]
        assert np.allclose(d[where], np.sort(d)[:n], atol=1e-9)
    assert np.array_equal(search.search(q).query, q)
    assert len(list(search.search(q))) == min(10, len(flat))


@suite.part(
    quick=20, thorough=200, size=st.sampled_from([1 << 16, 1 << 20]),
    bits=st.sampled_from([64]), seed=gen.seeds)
def an_index_is_as_large_as_asked(ctx, size, bits, seed):
    """the size given to an index bounds its database"""
    path = env.scratch_dir()
    Document = Settings(path).Document
    arr, _ = document(400, bits, 'uint8', (1, 's', 1), seed)
    Document.process(codes=[arr])
    ctx.nontrivial(True)
    with CountingIndex(
            Document, Document.codes, path=path, db_size_bytes=size) as index:
        try:
            index.add_all()
            full = False
        except lmdb.MapFullError:
            full = True
        assert full == (size == 1 << 16)  # 400 codes of about 200 bytes
        if full:
            assert 0 < len(index) < 400


@suite.part(
    quick=80, thorough=800, n=st.one_of(
        st.integers(1, 200), st.integers(500, 1200), st.integers(1200, 3000)),
    size=st.sampled_from([8, 16, 24]), many=st.booleans(),
    ask=st.one_of(st.integers(1, 20), st.integers(20, 3000)),
    multithreaded=st.booleans(), sort=st.booleans(), two=st.booleans(),
    seed=gen.seeds)
def nearest_among_many(
        ctx, n, size, many, ask, multithreaded, sort, two, seed):
    """the nearest of hundreds or thousands of codes, whether few or nearly
    all of them are asked for, and whoever appended them"""
    ctx.nontrivial(n > 64 and ask < n)
    ctx.label('many' if n > 1000 else 'some',
              'multithreaded' if multithreaded else 'one thread')
    rng = gen.rng(seed)
    codes = rng.randint(0, 256, (n, size)).astype(np.uint8)
    if many:
        # many are the same distance away
        codes[:, 1:] = codes[0, 1:]
    path = os.path.join(env.scratch_dir(), 'db')
    handles = [Handle(path, size) for _ in range(2 if two else 1)]
    try:
        for h in handles:
            h.open(size)
        for i, c in enumerate(codes):
            handles[i % 7 % len(handles)].db.append(
                c.tobytes(), b'%d' % i)
        for h in handles:
            assert len(h.db) == n
            for q in (codes[0], codes[-1], rng.randint(
                    0, 256, size).astype(np.uint8)):
                got = [int(r) for r in h.db.search(
                    q.tobytes(), ask, multithreaded, sort)]
                d = np.unpackbits(codes ^ q, axis=1).sum(axis=1)
                assert len(got) == len(set(got)) == min(n, ask)
                if not sort:
                    assert np.array_equal(
                        np.sort(d[got]), np.sort(d)[:ask])
                else:
                    assert np.array_equal(d[got], np.sort(d)[:ask])
    finally:
        for h in handles:
            h.close()


@suite.part(
    quick=60, thorough=500, size=st.sampled_from([8, 16, 24, 32]),
    other=st.sampled_from([8, 16, 24, 32, 40]), odd=st.integers(1, 7),
    stored=st.integers(0, 5), writeonly=st.booleans(), base=gen.seeds)
def databases_keep_to_their_code_size(
        ctx, size, other, odd, stored, writeonly, base):
    """a database knows its code size and is only opened with that one; one
    that was opened for writing only is not searched, however much it holds"""
    ctx.nontrivial(size != other and stored > 0)
    ctx.label('smaller' if other < size else 'larger')
    path = os.path.join(env.scratch_dir(), 'db')
    h = Handle(path, size)

    def refused(func, error=ValueError):
        try:
            func()
            assert False, 'this is not possible'
        except error:
            pass

    try:
        refused(lambda: h.open(None))
        refused(lambda: h.open(size + odd))
        h.writeonly = writeonly
        h.open(size)
        expected = []
        for i in range(stored):
            c = code(i, size, base)
            h.db.append(c, b'%d' % i)
            expected.append((c, b'%d' % i))
        if writeonly:
            refused(lambda: list(h.db.search(code(0, size, base), 3)),
                    RuntimeError)
            if stored:
                refused(lambda: list(h.db.random_search(3)[1]), RuntimeError)
        assert len(h.db) == stored
        h.close()
        h.writeonly = False
        if other != size:
            refused(lambda: h.open(other))
        refused(lambda: h.open(size + odd))
        for s in (None, size):
            h.open(s)
            assert h.db.code_size == size
            q = code(3, size, base)
            check_results(
                list(h.db.search(q, 9, sort=True)), expected, q, 9, True)
            if other != size:
                refused(lambda: h.db.append(b'a' * other, b''))
                refused(lambda: list(h.db.search(b'a' * other, 1)))
            assert len(h.db) == stored
            h.close()
    finally:
        h.close()


@suite.part(
    quick=40, thorough=400, size=st.sampled_from([64, 128]), events=st.lists(
        st.sampled_from(['codes', 'other', 'another version', 'codes']),
        min_size=1, max_size=20),
    version=st.sampled_from([None, '7', 'other']), seed=gen.seeds)
def an_index_is_about_one_feature_and_version(
        ctx, size, events, version, seed):
    """only events of that feature, in that version, add to an index, and an
    index asked for in another version is another index"""
    path = env.scratch_dir()


    Document = Settings(path, '3').Document
    ctx.nontrivial(len(set(events)) > 1)
    arr, packed = document(4, size, 'uint8', (1, 's', 1), seed)
    kwargs = dict(path=path, db_size_bytes=1 << 22)
    expected = 0
    for kind in events:
        _id = Document.process(codes=[arr])
        # the event of the document itself
        expected += len(arr)
        if kind != 'codes':
            Document.event_log.append(
                ('{"_id": "%s", "name": "%s", "version": "%s"}' % (
                    _id,
                    'other' if kind == 'other' else Document.codes.key,
                    '9' if kind == 'another version' else '3')))
    with CountingIndex(Document, Document.codes, **kwargs) as index:
        index._synchronously_process_events()
        assert len(index) == expected, (len(index), expected)
    with CountingIndex(
            Document, Document.codes, version=version, **kwargs) as index:
        assert len(index) == (expected if version is None else 0)
        index.add(_id)
        assert len(index) == (
            expected + len(arr) if version is None else len(arr))
    with CountingIndex(Document, Document.codes, **kwargs) as index:
        assert len(index) == (
            expected + len(arr) if version is None else expected)
    assert set(
        p for p in os.listdir(path) if p.startswith('index.')) == set(
        ['index.codes.3'] + (
            ['index.codes.' + version] if version else []))


PATIENCE = [20.]


def within(condition):
    deadline = time.time() + PATIENCE[0]
    while not condition():
        if time.time() > deadline:
            # don't wait as long for smaller examples of the same
            PATIENCE[0] = 2.
            assert False, 'waited in vain'
        time.sleep(.005)


@suite.part(
    quick=12, thorough=100, bits=st.sampled_from([64, 128]), before=DOCS,
    after=DOCS, empty=st.booleans(), foreign=st.integers(0, 2))
def an_index_follows_its_log_in_the_background(
        ctx, bits, before, after, empty, foreign):
    """an index that listens comes to hold every moment of the documents that
    were there before it and of those processed while it listens, without
    being asked, and can be searched meanwhile"""
    path = env.scratch_dir()
    Document = Settings(path).Document
    stored = []

    def process(specs):
        for steps, t, seed in specs:
            arr, packed = document(steps, bits, 'uint8', t, seed)
            _id = Document.process(codes=[arr])
            stored.extend(((_id, gen.ps(ts.start)), c) for (ts, _), c in zip(
                zounds.ConstantRateTimeSeries(arr).iter_slices(), packed))
            for _ in range(foreign):
                Document.event_log.append(json.dumps(
                    {'_id': _id, 'name': 'other', 'version': '1'}))

    def arrived(index):
        within(lambda: len(index) >= len(stored))
        time.sleep(.05)
        assert len(index) == len(stored), (len(index), len(stored))
        got = [((_id, gen.ps(ts.start))) for _id, ts in index.search(
            stored[-1][1], len(stored), sort=True)]
        assert sorted(got) == sorted(m for m, _ in stored)

    process([] if empty else before)
    with CountingIndex(
            Document, Document.codes, path=path, db_size_bytes=1 << 22,
            listen=True) as index:
        if stored:
            arrived(index)
        else:
            # the log is followed from here on
            within(lambda: Document.event_log.channel.generators)
            time.sleep(.3)
        for spec in after:
            process([spec])
            arrived(index)
    ctx.label('from nothing' if empty else 'carrying on')
    ctx.nontrivial(len(after) > 1)


@suite.part(
    quick=40, thorough=400, bits=st.sampled_from([64, 128]), specs=DOCS,
    before=st.integers(0, 3), writing=st.booleans(), log=st.booleans(),
    n=st.integers(1, 30))
def an_index_only_for_writing(ctx, bits, specs, before, writing, log, n):
    """an index that's only for writing can't be searched, now or when it's
    opened again, but what was added is found by one for reading; documents
    without a log can be indexed, only not followed"""
    path = env.scratch_dir()
    Base = Settings(path).Document
    if log:
        Document = Base
    else:
        class Plain(ff.PersistenceSettings):
            id_provider = Base.id_provider
            key_builder = Base.key_builder
            database = Base.database

        class Document(ff.BaseModel, Plain):
            codes = zounds.ArrayWithUnitsFeature(
                ff.IteratorNode, store=True)
    kwargs = dict(path=path, db_size_bytes=1 << 22)
    stored, ids = [], []
    for k, (steps, t, seed) in enumerate(specs):
        arr, packed = document(steps, bits, 'uint8', t, seed)
        _id = Document.process(codes=[arr])
        ids.append(_id)
        stored += [((_id, gen.ps(ts.start)), c) for (ts, _), c in zip(
            zounds.ConstantRateTimeSeries(arr).iter_slices(), packed)]
    for some in (ids[:before], ids[before:]):
        with CountingIndex(
                Document, Document.codes, writeonly=writing,
                **kwargs) as index:
            for _id in some:
                index.add(_id)
            if not len(index):
                continue
            try:
                for search in (
                        lambda: index.search(stored[0][1], n),
                        lambda: index.random_search(n)):
                    assert len(list(search())) == min(n, len(index))
                assert not writing
            except RuntimeError:
                assert writing
            if not log:
                try:
                    index._synchronously_process_events()
                    assert False, 'followed events without a log'
                except ValueError:
                    pass
    with CountingIndex(Document, Document.codes, **kwargs) as index:
        assert len(index) == len(stored)
        got = [(_id, gen.ps(ts.start))
               for _id, ts in index.search(stored[0][1], n, sort=True)]
        lookup = dict(stored)
        assert len(set(got)) == len(got) == min(n, len(stored))
        distances = [distance(lookup[g], stored[0][1]) for g in got]
        assert distances == sorted(
            distance(c, stored[0][1]) for _, c in stored)[:n]
    ctx.nontrivial(writing and len(stored) > 1)


@suite.part(
    quick=24, thorough=240, docs=st.integers(17, 40), long=st.integers(300, 1500),
    bits=st.sampled_from([64, 128]), kind=st.sampled_from(['uint8', 'packed']),
    how=st.sampled_from(['events', 'add_all', 'add']), seed=gen.seeds)
def many_and_long_documents_are_indexed(
        ctx, docs, long, bits, kind, how, seed):
    """every moment of dozens of documents, and of one with hundreds, is
    found"""
    ctx.nontrivial(long > 512)
    ctx.label(how, kind)
    path = env.scratch_dir()
    Document = Settings(path).Document
    everything = {}
    for k in range(docs):
        steps = long if k == docs // 2 else 1 + k % 3
        rng = gen.rng(seed + k)
        raw = rng.randint(0, 2, (steps, bits)).astype(np.uint8)
        codes = [np.packbits(r).tobytes() for r in raw]
        if kind == 'packed':
            raw = np.stack([np.frombuffer(c, dtype=np.uint64) for c in codes])
        _id = Document.process(codes=[ArrayWithUnits(raw, [
            TimeDimension(gen.td(k + 1, 'ms'), gen.td(k + 1, 'ms')),
            IdentityDimension()])])
        for i, c in enumerate(codes):
            start = gen.ps(gen.td((k + 1) * i, 'ms'))
            everything[(_id, start, gen.ps(gen.td(k + 1, 'ms')))] = c
    with CountingIndex(Document, Document.codes, path=path,
                       db_size_bytes=1 << 24) as index:
        if how == 'events':
            index._synchronously_process_events()
        elif how == 'add_all':
            index.add_all()
        else:
            for doc in Document:
                index.add(doc._id)
        n = len(everything)
        assert len(index) == n, (len(index), n)
        q = codes[-1]
        found = list(index.search(q, n + 1, sort=True))
        found = [(r[0], gen.ps(r[1].start), gen.ps(r[1].duration))
                 for r in found]
        assert len(found) == n and set(found) == set(everything)
        d = [distance(everything[f], q) for f in found]
        assert d == sorted(d)


@suite.part(
    quick=60, shape=st.lists(st.integers(1, 5), min_size=1, max_size=3),
    how=st.sampled_from(['plain', 'fortran', 'strided']), seed=gen.seeds)
def queries_are_the_bits_of_their_features(ctx, shape, how, seed):
    """codes of features in memory of any layout are their bits in order"""
    path = env.scratch_dir()
    Document = Settings(path).Document
    x = words(tuple(shape), seed)
    bits = gen.rng(seed).randint(0, 2, tuple(shape[:-1]) + (64,)).astype('u1')
    if how == 'fortran':
        x, bits = np.asfortranarray(x), np.asfortranarray(bits)
    elif how == 'strided':
        x = np.repeat(x, 2, axis=0)[::2]
        bits = np.repeat(bits, 2, axis=0)[::2]
    ctx.nontrivial(len(shape) > 1)
    with CountingIndex(Document, Document.codes, path=path,
                       db_size_bytes=1 << 20) as index:
        expected = b''.join(
            int(v).to_bytes(8, 'little') for v in x.ravel())
        assert index.encode_query(x) == expected
        text = ''.join(str(int(b)) for b in bits.ravel())
        expected = bytes(
            int(text[i: i + 8], 2) for i in range(0, len(text), 8))
        for b in (bits, bits.astype(bool)):
            assert index.encode_query(b) == expected
        assert np.array_equal(
            index.decode_query(expected), bits.ravel())
