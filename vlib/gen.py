"""
Generators of plain data (so that cases can be shrunk, printed and replayed)
and the functions that build zounds objects out of that data.
"""
from collections.abc import Hashable
import numpy as np
from hypothesis import strategies as st

import zounds
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, TimeSlice, Picoseconds
from zounds.spectral import (
    FrequencyBand, FrequencyDimension, LinearScale, GeometricScale, BarkScale,
    MelScale, ExplicitScale)

UNITS = ('s', 'ms', 'us', 'ns', 'ps')
PS_PER = {'h': 3600 * 10 ** 12, 'm': 60 * 10 ** 12, 's': 10 ** 12,
          'ms': 10 ** 9, 'us': 10 ** 6, 'ns': 10 ** 3, 'ps': 1}
RATES = (96000, 48000, 44100, 22050, 16000, 11025)
SAMPLERATES = {
    96000: zounds.SR96000, 48000: zounds.SR48000, 44100: zounds.SR44100,
    22050: zounds.SR22050, 16000: zounds.SR16000, 11025: zounds.SR11025}


def td(count, unit):
    return np.timedelta64(int(count), unit)


def ps(t):
    """a timedelta in integer picoseconds"""
    if isinstance(t, np.timedelta64):
        unit, mult = np.datetime_data(t.dtype)
        return int(t.astype(np.int64)) * PS_PER[unit] * mult
    return int(t)


def rng(seed):
    return np.random.RandomState(seed)


seeds = st.integers(0, 2 ** 31 - 1)


# -- dimensions -------------------------------------------------------------

@st.composite
def time_dims(draw):
    """('time', (f, unit), (d, unit))"""
    kind = draw(st.sampled_from(['plain', 'plain', 'audio', 'overlap']))
    if kind == 'audio':
        f = (10 ** 12 // draw(st.sampled_from(RATES)), 'ps')
        k = draw(st.sampled_from([1, 1, 512]))
        return ('time', (f[0] * k, 'ps'), (f[0] * k, 'ps'))
    unit = draw(st.sampled_from(UNITS))
    f = draw(st.integers(1, 1000))
    if kind == 'plain':
        return ('time', (f, unit), (f, unit))
    return ('time', (f, unit), (f + draw(st.integers(1, 3 * f)), unit))


@st.composite
def freq_dims(draw, n):
    kind = draw(st.sampled_from(['linear', 'linear', 'geometric', 'bark',
                                 'mel', 'explicit']))
    lo = draw(st.integers(1, 500))
    hi = lo + draw(st.integers(50, 20000))
    if kind == 'linear' and draw(st.booleans()):
        lo = 0
    return ('freq', kind, lo, hi, n)


def dims(n):
    return st.one_of(
        st.just(('id',)), time_dims(), time_dims(), freq_dims(n))


def build_scale(kind, lo, hi, n):
    if kind == 'linear':
        return LinearScale(FrequencyBand(lo, hi), n)
    if kind == 'geometric':
        return GeometricScale(lo, hi, 0.2, n)
    if kind == 'bark':
        return BarkScale(FrequencyBand(lo, hi), n)
    if kind == 'mel':
        return MelScale(FrequencyBand(lo, hi), n)
    # adjacent, widening, slightly overlapping bands
    edges = lo + (hi - lo) * (np.arange(n + 1) / float(n)) ** 2
    return ExplicitScale([
        FrequencyBand(float(a), float(b) + 1)
        for a, b in zip(edges[:-1], edges[1:])])


def build_dim(spec):
    if spec[0] == 'id':
        return IdentityDimension()
    if spec[0] == 'time':
        return TimeDimension(td(*spec[1]), td(*spec[2]))
    return FrequencyDimension(build_scale(*spec[1:]))


@st.composite
def arrays(draw, min_dims=1, max_dims=4, max_side=6, min_side=1):
    """(shape, dimension specs)"""
    shape = tuple(draw(st.lists(
        st.integers(min_side, max_side), min_size=min_dims,
        max_size=max_dims)))
    return shape, tuple(draw(dims(n)) for n in shape)


def build_array(spec, dtype=np.int64):
    shape, dim_specs = spec
    raw = np.arange(int(np.prod(shape))).astype(dtype).reshape(shape)
    return raw, ArrayWithUnits(raw.copy(), [build_dim(d) for d in dim_specs])


# -- oracles for custom slices ---------------------------------------------

def dim_matches(dim, spec):
    """does a dimension still describe the same units as its spec?"""
    if spec[0] == 'id':
        return type(dim) is IdentityDimension
    if spec[0] == 'time':
        return isinstance(dim, TimeDimension) \
            and ps(dim.frequency) == ps(td(*spec[1])) \
            and ps(dim.duration) == ps(td(*spec[2]))
    return isinstance(dim, FrequencyDimension) and same_bands(
        dim.scale, build_scale(*spec[1:]))


def band_pairs(scale):
    return [(float(b.start_hz), float(b.stop_hz)) for b in scale]


def same_bands(a, b):
    a, b = band_pairs(a), band_pairs(b)
    return len(a) == len(b) and np.allclose(a, b, rtol=1e-7, atol=1e-7)


class Picks(object):
    """a few drawn numbers, for arguments whose range depends on others"""

    def __init__(self, drawn):
        self.drawn = list(drawn)
        self.used = 0

    def integer(self, lo, hi):
        v = self.drawn[self.used % len(self.drawn)]
        self.used += 1
        return lo + v % (hi - lo + 1)

    def __repr__(self):
        return 'Picks(%r)' % (self.drawn,)

    def __reduce__(self):
        return Picks, (self.drawn,)


picks = st.tuples(*[st.integers(0, 9999)] * 4).map(Picks)


_SHARED = {}


def shared(cls, *args):
    """an object that all cases share, since what it does may not depend on
    what it did before"""
    # (sample rates have no hash)
    key = (cls,) + tuple(
        a if isinstance(a, Hashable) else repr(a) for a in args)
    if key not in _SHARED:
        _SHARED[key] = cls(*args)
    return _SHARED[key]


def unless(default, **kwargs):
    """leaves out what has its default value, so that the defaults are also
    tried"""
    return dict((k, v) for k, v in kwargs.items() if v != default)
