import numpy as np
from hypothesis import strategies as st

from vlib.runner import Suite
from vlib import gen
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension

suite = Suite(
    'C06',
    'random arrays with random dimensions, and random reductions, reshapes, '
    'products, concatenations and arithmetic, against numpy on the raw array; '
    'non-trivial = at least two axes (or operands) are involved',
    ['sizes are given in any way that numpy takes'])


def same(got, want):
    assert np.shape(got) == np.shape(want), (np.shape(got), np.shape(want))
    assert np.array_equal(np.asarray(got), np.asarray(want)), (got, want)


def dims_are(arr, specs):
    """specs: a dimension spec per axis, None = carries no units"""
    assert isinstance(arr, ArrayWithUnits)
    assert len(arr.dimensions) == arr.ndim == len(specs), (
        arr.dimensions, specs)
    for dim, spec, size in zip(arr.dimensions, specs, arr.shape):
        if spec is None:
            assert isinstance(dim, IdentityDimension), dim
        else:
            assert gen.dim_matches(dim, spec), (dim, spec)
            if spec[0] == 'time':
                assert dim.size == size


def intact(arr, raw, spec):
    same(arr, raw)
    dims_are(arr, spec[1])


@suite.part(
    quick=1500, spec=gen.arrays(), op=st.sampled_from(['sum', 'max']),
    axes=st.one_of(
        st.none(), st.integers(-4, 3),
        st.lists(st.integers(0, 3), min_size=1, max_size=3, unique=True)),
    keepdims=st.booleans(), negative=st.sampled_from(
        [[False], [True], [True, False], [False, True]]),
    backwards=st.booleans(), seed=gen.seeds,
    kind=st.sampled_from(
        ['int64', 'int64', 'int8', 'float16', 'float32', 'complex64', 'bool']),
    dtype=st.sampled_from([None, None, 'float64', 'int64', 'float32']))
def reductions(ctx, spec, op, axes, keepdims, negative, backwards, seed,
               kind, dtype):
    """sum and max over any axes: numpy's values, and the dimensions of the
    axes that are left"""
    raw, arr = gen.build_array(spec)
    raw = gen.rng(seed).randint(-99, 99, raw.shape).astype(kind)
    if kind == 'int64':
        # beyond what a float can count
        raw *= 2 ** 55 + 1
    arr = ArrayWithUnits(raw.copy(), arr.dimensions)
    n = raw.ndim
    if axes is None:
        axis, gone = None, set(range(n))
    elif isinstance(axes, int):
        axis = axes % n - (n if negative[0] else 0)
        gone = {axis % n}
    else:
        gone = {a % n for a in axes}
        # some may be counted from the end, others from the start
        axis = tuple(
            a - n if negative[k % len(negative)] else a
            for k, a in enumerate(sorted(gone, reverse=backwards)))
    kwargs = dict(axis=axis, keepdims=keepdims)
    if op == 'sum' and dtype:
        kwargs['dtype'] = dtype
    want = getattr(raw, op)(**kwargs)
    got = getattr(arr, op)(**kwargs)
    same(got, want)
    assert np.asarray(got).dtype.kind == want.dtype.kind, (got, want)
    if np.ndim(want):
        assert got.dtype == want.dtype, (got.dtype, want.dtype)
    if axis is not None and np.ndim(want):
        dims_are(got, [
            None if i in gone else s for i, s in enumerate(spec[1])
            if keepdims or i not in gone])
    intact(arr, raw, spec)
    ctx.nontrivial(n > 1)
    ctx.label('none' if axis is None else type(axis).__name__)


@st.composite
def reshapes(draw):
    shape, dims = draw(gen.arrays(min_dims=1, max_dims=3, min_side=1))
    # singleton axes in among the others
    full_shape, full_dims = [], []
    for n, d in zip(shape, dims):
        if draw(st.integers(0, 3)) == 0:
            full_shape.append(1)
            full_dims.append(draw(st.sampled_from(
                [('id',), ('time', (3, 's'), (3, 's'))])))
        full_shape.append(n)
        full_dims.append(d)
    return tuple(full_shape), tuple(full_dims)


@suite.part(
    quick=1500, spec=reshapes(), how=st.sampled_from(
        ['drop ones', 'add ones', 'flat', 'split', 'same', 'merge']),
    where=st.lists(st.integers(0, 4), min_size=1, max_size=3),
    wildcard=st.one_of(st.none(), st.integers(0, 5)),
    order=st.sampled_from('CF'))
def reshaping(ctx, spec, how, where, wildcard, order):
    """reshape keeps numpy's element order; adding or dropping axes of size
    one keeps the dimensions of all others"""
    shape, dims = spec
    raw, arr = gen.build_array(spec)
    ones = [n == 1 for n in shape]
    want_dims = 'any'
    if how == 'drop ones':
        new = [n for n in shape if n != 1]
        want_dims = [d for n, d in zip(shape, dims) if n != 1]
    elif how == 'add ones':
        new = list(shape)
        want_dims = list(dims)
        for w in where:
            new.insert(w % (len(new) + 1), 1)
            want_dims.insert(w % (len(want_dims) + 1), None)
        if any(ones):
            want_dims = 'any'
    elif how == 'flat':
        new = [raw.size]
    elif how == 'merge':
        k = where[0] % max(1, len(shape) - 1) if len(shape) > 1 else 0
        new = list(shape[:k]) + [int(np.prod(shape[k:k + 2]))] + \
            list(shape[k + 2:])
    elif how == 'split':
        k = where[0] % len(shape)
        f = next((f for f in (2, 3, 5) if shape[k] % f == 0), 1)
        new = list(shape[:k]) + [f, shape[k] // f] + list(shape[k + 1:])
    else:
        new = list(shape)
    wild = list(new)
    if wildcard is not None and wild:
        wild[wildcard % len(wild)] = -1
    for target in (tuple(wild), wild):
        got = arr.reshape(target, order=order)
        same(got, raw.reshape(new, order=order))
        if order == 'C':
            same(arr.reshape(target), raw.reshape(new))
        assert isinstance(got, ArrayWithUnits)
        assert len(got.dimensions) == got.ndim
        # no axis may claim units which it doesn't have
        for dim, size in zip(got.dimensions, got.shape):
            if hasattr(dim, 'scale'):
                assert len(dim.scale) == size
        if want_dims != 'any' and (
                wildcard is None or not new
                or new[wildcard % len(new)] == 1):
            dims_are(got, want_dims)
    intact(arr, raw, spec)
    ctx.label(how)
    ctx.nontrivial(len(shape) > 1)


@suite.part(
    quick=600, spec=reshapes(), seed=gen.seeds,
    how=st.sampled_from(['-1', 'one by one', 'function', 'function -1',
                         'numpy ints', 'array']))
def sizes_however_given(ctx, spec, seed, how):
    """sizes can be given in any way that numpy takes"""
    shape, dims = spec
    raw, arr = gen.build_array(spec)
    new = [int(x) for x in gen.rng(seed).permutation(shape)]
    if seed % 2:
        new = [x for x in new if x != 1] or [1]
    if seed % 3 == 0:
        new.insert(seed % (len(new) + 1), 1)
    if how.endswith('-1'):
        new = [raw.size]
    got = {
        '-1': lambda: arr.reshape(-1),
        'one by one': lambda: arr.reshape(*new),
        'function': lambda: np.reshape(arr, new),
        'function -1': lambda: np.reshape(arr, -1),
        'numpy ints': lambda: arr.reshape(*np.array(new, dtype=np.int32)),
        'array': lambda: arr.reshape(np.array(new)),
    }[how]()
    assert isinstance(got, ArrayWithUnits)
    same(got, raw.reshape(new))
    assert len(got.dimensions) == got.ndim
    if how.endswith('-1'):
        assert isinstance(got.dimensions[0], IdentityDimension) or any(
            gen.dim_matches(got.dimensions[0], d)
            for n, d in zip(shape, dims) if n == raw.size)
    elif tuple(new) == tuple(n for n in shape if n != 1):
        dims_are(got, [d for n, d in zip(shape, dims) if n != 1])
    intact(arr, raw, spec)
    ctx.nontrivial(len(shape) > 1)
    ctx.label(how)


@suite.part(
    quick=600, spec=reshapes(), seed=gen.seeds,
    how=st.sampled_from(['int', 'negative', 'tuple', 'function', 'none']))
def squeezing_some_axes(ctx, spec, seed, how):
    """only the given axes go, and only when they have size one"""
    shape, dims = spec
    raw, arr = gen.build_array(spec)
    ones = [i for i, n in enumerate(shape) if n == 1]
    r = gen.rng(seed)
    if how in ('int', 'negative', 'function'):
        axis = int(r.randint(len(shape))) if seed % 4 == 0 or not ones \
            else ones[seed % len(ones)]
        gone = [axis]
        axis -= len(shape) if how == 'negative' else 0
    elif how == 'tuple':
        gone = [i for i in ones if r.randint(2)]
        axis = tuple(i - len(shape) * int(r.randint(2)) for i in gone)
    else:
        axis, gone = None, ones
    f = (lambda x: np.squeeze(x, axis=axis)) if how == 'function' else (
        lambda x: x.squeeze(axis))
    if set(gone) - set(ones):
        try:
            f(arr)
            assert False, 'squeezed an axis of other sizes'
        except ValueError:
            pass
    else:
        got = f(arr)
        same(got, f(raw))
        dims_are(got, [d for i, d in enumerate(dims) if i not in gone])
    intact(arr, raw, spec)
    ctx.nontrivial(0 < len(gone) < len(ones) or len(shape) > len(ones) > 0)


@suite.part(
    quick=400, spec=gen.arrays(), op=st.sampled_from(['sum', 'max']),
    least=st.integers(-5, 30), some=st.booleans(), axis=st.integers(0, 3),
    keepdims=st.booleans(), function=st.booleans())
def reductions_of_some_elements(ctx, spec, op, least, some, axis, keepdims,
                                function):
    """sums and maxima of the elements that are asked for only"""
    shape, dims = spec
    raw, arr = gen.build_array(spec)
    axis %= raw.ndim
    kwargs = dict(axis=axis, keepdims=keepdims, initial=least)
    if some:
        kwargs['where'] = raw % 2 == 0
    f = (lambda x: getattr(np, op)(x, **kwargs)) if function else (
        lambda x: getattr(x, op)(**kwargs))
    got, want = f(arr), f(raw)
    same(got, want)
    if np.ndim(want):
        dims_are(got, [None if i == axis else d for i, d in enumerate(dims)
                       if keepdims or i != axis])
    intact(arr, raw, spec)
    ctx.nontrivial(some and raw.ndim > 1)


@suite.part(
    quick=800, spec=reshapes(), dtype=st.sampled_from(
        ['int64', 'float32', 'uint8', 'complex64', 'bool']))
def squeeze_and_transpose(ctx, spec, dtype):
    """squeeze() and T: numpy's values, with the dimensions that belong to
    the remaining / reversed axes"""
    shape, dims = spec
    raw, arr = gen.build_array(spec, dtype)
    got = arr.squeeze()
    same(got, raw.squeeze())
    dims_are(got, [d for n, d in zip(shape, dims) if n != 1])
    same(arr.T, raw.T)
    dims_are(arr.T, dims[::-1])
    intact(arr.T.T, raw, spec)
    z = arr.zeros_like()
    same(z, np.zeros_like(raw))
    dims_are(z, dims)
    assert z.dtype == raw.dtype
    intact(arr, raw, spec)
    ctx.nontrivial(len(shape) > 1)


@suite.part(
    quick=800, spec=gen.arrays(max_dims=4), seed=gen.seeds,
    how=st.sampled_from(['method', 'tuple', 'function', 'swap', 'swapaxes',
                         'move', 'reversed']),
    negative=st.booleans())
def axes_in_another_order(ctx, spec, seed, how, negative):
    """however axes are exchanged, each takes its dimension along"""
    shape, dims = spec
    raw, arr = gen.build_array(spec)
    n = raw.ndim
    r = gen.rng(seed)
    order = [int(x) for x in r.permutation(n)]
    a, b = int(r.randint(n)), int(r.randint(n))
    if how in ('swap', 'swapaxes'):
        order = list(range(n))
        order[a], order[b] = order[b], order[a]
    elif how == 'move':
        order = list(range(n))
        order.insert(b, order.pop(a))
    elif how == 'reversed':
        order = list(range(n))[::-1]
    shift = n if negative else 0
    given = [x - shift for x in order]
    got = {
        'method': lambda: arr.transpose(*given),
        'tuple': lambda: arr.transpose(tuple(given)),
        'function': lambda: np.transpose(arr, given),
        'swap': lambda: np.swapaxes(arr, a - shift, b - shift),
        'swapaxes': lambda: arr.swapaxes(a - shift, b - shift),
        'move': lambda: np.moveaxis(arr, a - shift, b - shift),
        'reversed': lambda: arr.transpose(),
    }[how]()
    same(got, raw.transpose(order))
    dims_are(got, [dims[x] for x in order])
    intact(arr, raw, spec)
    ctx.label(how)
    ctx.nontrivial(order != list(range(n)))


@suite.part(
    quick=800, spec=gen.arrays(max_dims=4), seed=gen.seeds,
    how=st.sampled_from(['ravel', 'flatten', 'np.ravel', 'argmax', 'argmin',
                         'diagonal', 'take', 'broadcast', 'broadcast to',
                         'outer shape', 'repeat', 'repeat each', 'tile',
                         'insert', 'delete', 'roll', 'compress', 'resize']),
    order=st.sampled_from('CF'), times=st.integers(0, 3))
def no_axis_claims_what_it_is_not(ctx, spec, seed, how, order,
                                      times):
    """numpy operations that flatten, pick, repeat or broadcast give numpy's values,
    and no result has the dimension of an axis which is not there any more:
    there is a dimension per axis, of the size of that axis"""
    shape, dims = spec
    raw, arr = gen.build_array(spec)
    r = gen.rng(seed)
    axis = int(r.randint(raw.ndim))
    n = raw.shape[axis]
    one = tuple(slice(0, 1) if i == axis else slice(None)
                for i in range(raw.ndim))
    if how in ('diagonal', 'outer shape') and raw.ndim < 2:
        how = 'ravel'
    if how == 'broadcast' and dims[axis][0] == 'freq':
        how = 'argmax'
    f = {
        'ravel': lambda x: x.ravel(order),
        'flatten': lambda x: x.flatten(order),
        'np.ravel': lambda x: np.ravel(x),
        'argmax': lambda x: x.argmax(axis=axis),
        'argmin': lambda x: np.argmin(x, axis),
        'diagonal': lambda x: x.diagonal(),
        'take': lambda x: x.take(range(n - 1), axis=axis),
        'broadcast': lambda x: x[one] + raw,
        'broadcast to': lambda x: np.broadcast_to(
            x, (2,) + raw.shape, subok=True),
        'outer shape': lambda x: x + np.zeros((2,) + raw.shape, int),
        'repeat': lambda x: np.repeat(x, times, axis=axis),
        'repeat each': lambda x: x.repeat([times] * (n - 1) + [2], axis),
        'tile': lambda x: np.tile(x, [times, 1]),
        'insert': lambda x: np.insert(x, [0] * times, 3, axis=axis),
        'delete': lambda x: np.delete(x, range(n - times % 2, n), axis=axis),
        'roll': lambda x: np.roll(x, times, axis=axis),
        'compress': lambda x: x.compress(
            np.arange(n) < n - times % 2, axis=axis),
        'resize': lambda x: np.resize(x, (3, times + 1)),
    }[how]
    got, want = f(arr), f(raw)
    same(got, want)
    # in whatever kind of array they come, units have to be those of the axis
    found = getattr(got, 'dimensions', None)
    if found is not None and np.ndim(want):
        assert len(found) == got.ndim, (how, found, got.shape)
        for i, (dim, size) in enumerate(zip(found, got.shape)):
            if hasattr(dim, 'scale'):
                assert len(dim.scale) == size, (dim, size)
            elif hasattr(dim, 'size'):
                assert dim.size in (None, size), (dim.size, size)
            if not isinstance(dim, IdentityDimension):
                assert any(gen.dim_matches(dim, d) for d in dims), dim
                if got.ndim == raw.ndim:
                    assert gen.dim_matches(dim, dims[i]), (dim, dims[i])
    intact(arr, raw, spec)
    ctx.label(how)
    ctx.nontrivial(raw.ndim > 1)


@suite.part(
    quick=800, spec=gen.arrays(max_dims=3), k=st.integers(0, 4),
    seed=gen.seeds)
def products(ctx, spec, k, seed):
    """arr.dot(b): numpy's values, the leading dimensions are kept and the
    axis which is summed over isn't"""
    raw, arr = gen.build_array(spec)
    n = raw.shape[-1]
    b = gen.rng(seed).randint(-9, 9, (n, k) if k else n)
    got = arr.dot(b)
    want = raw.dot(b)
    same(got, want)
    if np.ndim(want):
        dims_are(got, list(spec[1][:-1]) + ([None] if k else []))
    ctx.nontrivial(raw.ndim > 1)


@suite.part(
    quick=800, spec=gen.arrays(max_dims=3), lengths=st.lists(
        st.integers(0, 5), min_size=1, max_size=4), seed=gen.seeds,
    mismatch=st.sampled_from([None, None, 'dims', 'units', 'units']),
    at=st.integers(0, 2), along=st.integers(-3, 2), k=st.integers(0, 2),
    kinds=st.lists(st.sampled_from(
        ['i8', 'i8', 'i2', 'f4', 'f8', 'c8']), min_size=4, max_size=4))
def concatenation(ctx, spec, lengths, seed, mismatch, at, along, k, kinds):
    """concatenating keeps order and dimensions; operands with different dimensions are refused with ValueError"""
    shape, dims = spec
    first = dims[0] if dims[0][0] != 'freq' else ('id',)
    dims = (first,) + dims[1:]
    r = gen.rng(seed)
    raws = [r.randint(0, 99, (n,) + shape[1:]).astype(kinds[i % 4])
            for i, n in enumerate(lengths)]
    arrs = [
        ArrayWithUnits(x.copy(), [gen.build_dim(d) for d in dims])
        for x in raws]
    got = ArrayWithUnits.concat(arrs)
    want = np.concatenate(raws)
    same(got, want)
    assert got.dtype == want.dtype
    dims_are(got, dims)
    pair = arrs[0].concatenate(arrs[-1])
    want = np.concatenate([raws[0], raws[-1]])
    same(pair, want)
    assert pair.dtype == want.dtype
    dims_are(pair, dims)
    ctx.nontrivial(len(lengths) > 1)
    axis = max(-len(shape), min(len(shape) - 1, along))
    if dims[axis][0] != 'freq':
        # (a scale has as many bands as it has)
        both = ArrayWithUnits.concat([arrs[0], arrs[0], arrs[0]], axis=axis)
        same(both, np.concatenate([raws[0]] * 3, axis=axis))
        dims_are(both, dims)
    if mismatch:
        at %= len(dims)
        other = ('time', (7, 'h'), (7, 'h')) \
            if dims[at][0] == 'id' else ('id',)
        odd = list(dims)
        odd[at] = other
        odd = [gen.build_dim(d) for d in odd]
        if dims[at][0] == 'time' and mismatch == 'units':
            # the same kind of units, but not the same
            f, d = gen.td(*dims[at][1]), gen.td(*dims[at][2])
            tick = np.timedelta64(1, 'ps')
            odd[at] = TimeDimension(
                *[(f + tick, d + tick), (f, d + tick), (f * 2, d * 2)][k])
        if dims[at][0] == 'freq' and mismatch == 'units':
            kind, lo, hi, n = dims[at][1:]
            others = ['linear', 'bark', 'mel', 'geometric']
            kind = others[(others.index(kind) + 1 + k) % 4] \
                if kind in others else others[k]
            odd[at] = gen.build_dim(('freq', kind, lo + (lo == 0), hi, n))
            if gen.same_bands(
                    odd[at].scale, gen.build_scale(*dims[at][1:])):
                return
        odd = ArrayWithUnits(raws[0].copy(), odd)
        for f in (lambda: arrs[0].concatenate(odd),
                  lambda: odd.concatenate(arrs[0]),
                  lambda: ArrayWithUnits.concat([arrs[0], arrs[0], odd]),
                  lambda: ArrayWithUnits.concat([arrs[0], odd], axis=axis)):
            try:
                f()
            except ValueError:
                continue
            raise AssertionError('mismatched dimensions were concatenated')


OPS = {
    'add': np.add, 'subtract': np.subtract, 'multiply': np.multiply,
    'maximum': np.maximum, 'greater': np.greater, 'equal': np.equal,
    'floor_divide': np.floor_divide}


@suite.part(
    quick=1200, spec=gen.arrays(max_dims=3), op=st.sampled_from(sorted(OPS)),
    other=st.sampled_from(['scalar', 'same', 'raw', 'column', 'first row']),
    swap=st.booleans(), seed=gen.seeds, kind=st.sampled_from(
        ['i8', 'i8', 'i2', 'f2', 'f4', 'f8']))
def arithmetic(ctx, spec, op, other, swap, seed, kind):
    """elementwise arithmetic: numpy's values with broadcasting, dimensions
    are kept when the shape is, and the operands are left alone"""
    raw, arr = gen.build_array(spec)
    r = gen.rng(seed)
    raw_b = r.randint(1, 50, raw.shape)
    if other == 'scalar':
        b = raw_b = 3
    elif other == 'same':
        b = ArrayWithUnits(raw_b.copy(), arr.dimensions)
    elif other == 'raw':
        b = raw_b
    elif other == 'column':
        b = raw_b = raw_b[..., :1]
    else:
        b = raw_b = raw_b[0]
    raw = (raw % 999 + 1).astype(kind)
    arr = ArrayWithUnits(raw.copy(), arr.dimensions)
    f = OPS[op]
    got = f(b, arr) if swap else f(arr, b)
    want = f(raw_b, raw) if swap else f(raw, raw_b)
    same(got, want)
    assert got.dtype == want.dtype
    dims_are(got, spec[1])
    for g, w in ((-arr, -raw), (abs(-arr), raw), (arr.copy(), raw),
                 (arr.astype(float), raw.astype(float)), (arr ** 2, raw ** 2)):
        same(g, w)
        assert g.dtype == w.dtype
        dims_are(g, spec[1])
    in_place = arr.copy()
    in_place += 2
    same(in_place, raw + 2)
    dims_are(in_place, spec[1])
    intact(arr, raw, spec)
    ctx.label(other)
    ctx.nontrivial(raw.ndim > 1)


@suite.part(quick=500, spec=gen.arrays(max_dims=3), wrong=st.integers(-2, 2))
def construction_validates(ctx, spec, wrong):
    """a dimension per axis is required, and frequency scales must have a
    band per coefficient; dimensions are copied and not shared"""
    raw, arr = gen.build_array(spec)
    dims = [gen.build_dim(d) for d in spec[1]]
    if wrong < 0:
        bad = dims[:wrong] if -wrong < len(dims) else []
    elif wrong > 0:
        bad = dims + [IdentityDimension()] * wrong
    else:
        bad = None
    if bad is not None and len(bad) != raw.ndim:
        try:
            ArrayWithUnits(raw, bad)
        except ValueError:
            pass
        else:
            raise AssertionError('wrong number of dimensions')
    for i, d in enumerate(spec[1]):
        if d[0] != 'freq':
            continue
        larger = np.zeros(
            [n + (1 if j == i else 0) for j, n in enumerate(raw.shape)])
        try:
            ArrayWithUnits(larger, dims)
        except ValueError:
            pass
        else:
            raise AssertionError('a scale of the wrong size was accepted')
    ctx.nontrivial(bad is not None)
    time_axes = [i for i, d in enumerate(spec[1]) if d[0] == 'time']
    if time_axes:
        shared = [gen.build_dim(d) for d in spec[1]]
        a = ArrayWithUnits(raw, shared)
        bigger = np.zeros(
            [n + (3 if j in time_axes else 0)
             for j, n in enumerate(raw.shape)])
        b = ArrayWithUnits(bigger, shared)
        for i in time_axes:
            assert a.dimensions[i].size == raw.shape[i]
            assert b.dimensions[i].size == raw.shape[i] + 3
    # None stands for an axis without units
    c = ArrayWithUnits(raw, [None] * raw.ndim)
    dims_are(c, [None] * raw.ndim)
