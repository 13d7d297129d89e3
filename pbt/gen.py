"""Generators of cases, and the builders that turn a case into objects of the
code under test plus plain numpy copies for the oracles.

Coordinates are integers times a step: with a dyadic step everything a float32
computation does with them is exact (ties included), with the other steps the
oracles keep a band of "either is fine" around the decision boundaries.
"""
import numpy as np

from hypothesis import strategies as st

DYADIC = [0.125, 0.25, 0.5, 1.0, 2.0]
OTHER = [0.1, 0.3, 0.7, 0.037, 1.9, 13.7]


@st.composite
def ints_block(draw, count, width, limit):
  """`count` rows of `width` integers in [0, limit)."""
  if count * width == 0:
    return [[0] * width for _ in range(count)]
  if count * width > 1200:
    # too much for a case of Hypothesis: expanded from a seed
    rng = np.random.default_rng(draw(st.integers(0, 10**6)))
    return rng.integers(0, limit, (count, width)).tolist()
  raw = draw(st.binary(min_size=count * width, max_size=count * width))
  flat = [b % limit for b in raw]
  return [flat[i * width:(i + 1) * width] for i in range(count)]


@st.composite
def steps(draw):
  if draw(st.integers(0, 2)) < 2:
    return draw(st.sampled_from(DYADIC))
  return draw(st.sampled_from(OTHER))


@st.composite
def sizes_list(draw, max_batch, max_size, allow_empty, total=260):
  batch = draw(st.integers(1, max_batch))
  low = 0 if allow_empty else 1
  kind = draw(st.integers(0, 9))
  if kind == 0:
    limit = max_size
  elif kind < 5:
    limit = min(max_size, 24)
  else:
    limit = min(max_size, 8)
  limit = max(1, min(limit, total // batch))
  sizes = draw(st.lists(st.integers(low, limit), min_size=batch,
                        max_size=batch))
  if sum(sizes) == 0:
    sizes[draw(st.integers(0, batch - 1))] = 1
  return sizes


def factor_shapes(batch):
  """All the shapes [A1, ..., An], n <= 3, with the given product."""
  shapes = [[batch]]
  for a in range(1, batch + 1):
    if batch % a == 0:
      shapes.append([a, batch // a])
      rest = batch // a
      for b in range(1, rest + 1):
        if rest % b == 0:
          shapes.append([a, b, rest // b])
  return shapes


def cell_limit(dim):
  """Coordinate range that keeps the number of grid cells in int32 (if the
  cells are not made finer in one direction, see `finer`)."""
  return {1: 256, 2: 256, 3: 128, 4: 32, 5: 16, 6: 8}[dim]


@st.composite
def cloud(draw, dims=(2, 3, 4), max_batch=4, max_size=120, allow_empty=False,
          layouts=('ids', 'sizes', 'padded'), step=None, span=None,
          sizes=None, dim=None, offsets=True, large=0):
  """A batch of point clouds in one of the accepted layouts. One of 16 has a
  cloud of up to `large` points, one of 32 many clouds (above the sizes at which buffers, tiles or
  truncations of an implementation may matter)."""
  if dim is None:
    dim = draw(st.sampled_from(list(dims)))
  if sizes is None and large and draw(st.integers(0, 15)) == 5:
    sizes = [draw(st.sampled_from(
        [n for n in (65, 100, 129, 200, 257, 300, 400, 513, 700, 1025, 1300,
                     2049, 4100) if n <= large]))]
    while len(sizes) < max_batch and draw(st.booleans()):
      sizes.insert(draw(st.integers(0, len(sizes))),
                   draw(st.integers(0 if allow_empty else 1, 12)))
  elif sizes is None and large and draw(st.integers(0, 31)) == 5:
    batch = draw(st.sampled_from([17, 33, 48, 65]))
    sizes = [row[0] for row in draw(ints_block(batch, 1, 4))]
    sizes[draw(st.integers(0, batch - 1))] = 0 if allow_empty else 5
    sizes = [max(s, 0 if allow_empty else 1) for s in sizes]
    if sum(sizes) == 0:
      sizes[0] = 1
  elif sizes is None:
    sizes = draw(sizes_list(max_batch, max_size, allow_empty))
  batch = len(sizes)
  if step is None:
    step = draw(steps())
  top = cell_limit(dim)
  if span is None:
    span = draw(st.sampled_from([s for s in (2, 4, 6, 9, 16, 33, 100, 256)
                                 if s <= top]))
  count = sum(sizes)
  coords = draw(ints_block(count, dim, span))
  flat_dims = draw(st.sampled_from([0, 0, 0, 1]))
  if flat_dims:
    # all the points in a line or plane
    axis = draw(st.integers(0, dim - 1))
    for row in coords:
      row[axis] = 0
  if offsets and draw(st.booleans()):
    shift = draw(st.lists(st.lists(st.integers(-60, 60), min_size=dim,
                                   max_size=dim),
                          min_size=batch, max_size=batch))
  else:
    shift = [[0] * dim for _ in range(batch)]
  pos = 0
  for b, size in enumerate(sizes):
    for i in range(pos, pos + size):
      coords[i] = [c + s for c, s in zip(coords[i], shift[b])]
    pos += size
  layout = draw(st.sampled_from(list(layouts)))
  case = dict(dim=dim, sizes=sizes, step=step, coords=coords, layout=layout)
  if layout == 'ids':
    case['order'] = draw(order(count))
    case['batch_size'] = draw(st.booleans()) or sizes[-1] == 0
  else:
    case['shape'] = draw(st.sampled_from(factor_shapes(batch)))
    if layout == 'sizes':
      case['batch_size'] = draw(st.booleans())
    else:
      case['pad'] = draw(st.sampled_from([0, 0, 1, 3]))
      case['garbage'] = draw(st.sampled_from([0.0, 777.0, -3.0]))
      case['no_sizes'] = (len(set(sizes)) == 1 and case['pad'] == 0 and
                          draw(st.booleans()))
      case['batch_size'] = draw(st.booleans())
  return case


@st.composite
def order(draw, count):
  """A permutation of range(count): sorted (the simplest) or by random keys."""
  if count < 2 or draw(st.integers(0, 4)) == 0:
    return list(range(count))
  if count > 600:
    rng = np.random.default_rng(draw(st.integers(0, 10**6)))
    return rng.permutation(count).tolist()
  raw = draw(st.binary(min_size=2 * count, max_size=2 * count))
  keys = np.frombuffer(raw, dtype='<u2').astype(np.int64)
  return [int(i) for i in np.argsort(keys, kind='stable')]


class Cloud:
  """A built case: `pc` is the object under test; `points` (float32) and `ids`
  list the points in the order in which the object was given them."""

  def __init__(self, case, build=True):
    from pbt.core import sut
    self.case = case
    dim = case['dim']
    self.dim = dim
    self.sizes = np.array(case['sizes'], dtype=np.int64)
    self.batch = len(case['sizes'])
    self.count = int(self.sizes.sum())
    major = (np.array(case['coords'], dtype=np.float64).reshape(-1, dim) *
             case['step']).astype(np.float32)
    major_ids = np.repeat(np.arange(self.batch), self.sizes)
    self.major = major
    self.major_ids = major_ids
    layout = case['layout']
    self.shape = None
    if layout == 'ids':
      perm = np.array(case['order'], dtype=np.int64).reshape(-1)
      self.perm = perm
      self.points = major[perm]
      self.ids = major_ids[perm]
    else:
      self.perm = np.arange(self.count)
      self.points = major
      self.ids = major_ids
      self.shape = list(case['shape'])
      if layout == 'sizes' and len(self.shape) == 1:
        self.shape = None
    if build:
      with sut('PointCloud(%s)' % layout):
        self.pc = self.make()

  def make(self):
    from pylib.pc import PointCloud
    case = self.case
    layout = case['layout']
    if layout == 'ids':
      if case['batch_size']:
        return PointCloud(self.points, batch_ids=self.ids,
                          batch_size=self.batch)
      return PointCloud(self.points, batch_ids=self.ids)
    kwargs = {}
    if case.get('batch_size'):
      kwargs['batch_size'] = self.batch
    if layout == 'sizes':
      return PointCloud(self.points,
                        sizes=self.sizes.reshape(case['shape']), **kwargs)
    padded = self.padded(self.major, pad=case['pad'],
                         fill=case['garbage']).reshape(
                             case['shape'] + [-1, self.dim])
    if case['no_sizes']:
      return PointCloud(padded, **kwargs)
    return PointCloud(padded, sizes=self.sizes.reshape(case['shape']),
                      **kwargs)

  def padded(self, major_rows, pad=0, fill=0.0, rows=None):
    """`[B, V, C]` from rows in batch-major order."""
    major_rows = np.asarray(major_rows)
    v = int(self.sizes.max()) + pad if rows is None else rows
    out = np.full((self.batch, v) + major_rows.shape[1:], fill,
                  dtype=major_rows.dtype)
    pos = 0
    for b, size in enumerate(self.sizes):
      out[b, :size] = major_rows[pos:pos + size]
      pos += size
    return out

  def default_rows(self):
    """V of the padded form the object returns before any set_batch_shape."""
    return int(self.sizes.max()) + (
        self.case['pad'] if self.case['layout'] == 'padded' else 0)

  def to_major(self, rows):
    """Rows given in the order of the object, in batch-major order, where the
    points of a cloud keep their relative order."""
    rows = np.asarray(rows)
    return rows[np.argsort(self.ids, kind='stable')]

  @property
  def dyadic(self):
    return self.case['step'] in DYADIC


@st.composite
def features(draw, count, channels=(1, 2, 3, 5), signed=True):
  """Integer features, `count` rows; exactly representable sums."""
  width = draw(st.sampled_from(list(channels)))
  rows = draw(ints_block(count, width, 17))
  base = 8 if signed else -1
  return [[v - base for v in row] for row in rows]


def weights_array(seed_bytes, shape, scale=1.0):
  """Deterministic small weights from drawn bytes (cycled)."""
  raw = np.frombuffer(bytes(seed_bytes), dtype=np.uint8).astype(np.float64)
  total = int(np.prod(shape))
  # stretch the drawn bytes over the wanted number of values
  idx = np.arange(total)
  vals = raw[idx % len(raw)] + 31.0 * (idx // len(raw)) * (idx % 7 + 1)
  vals = (vals % 97.0) / 48.0 - 1.0
  return (vals * scale).reshape(shape).astype(np.float32)


@st.composite
def cell_sizes(draw, dim, step, low=-1, high=5):
  """Cell sizes (scalar or per dimension) that suit coordinates in units of
  `step`; powers of two times the step in two of three cases."""
  one = st.integers(low, high).map(lambda k: float(2.0 ** k))
  if draw(st.integers(0, 2)) == 0:
    one = st.sampled_from([0.7, 1.3, 3.1, 5.0, 9.9, 40.0])
  if draw(st.booleans()):
    return [draw(one) * step]
  return [draw(one) * step for _ in range(dim)]


@st.composite
def finer(draw, dim):
  """Factors that make cells much smaller along the last dimension of a cloud,
  such that there are more than 2^31 of them (but not in the first two
  dimensions, for which there is a table)."""
  factor = [1.0] * dim
  if dim > 2 and draw(st.integers(0, 3)) == 0:
    factor[-1] = draw(st.sampled_from([2.0 ** -18, 2.0 ** -12]))
  return factor


def scaled(values, factor):
  """Values per dimension, if a factor differs from one."""
  if all(f == 1 for f in factor):
    return values
  if len(values) == 1:
    values = values * len(factor)
  return [v * f for v, f in zip(values, factor)]


def is_pow2(x):
  return float(np.frexp(x)[0]) == 0.5


def exact_lattice(step, values):
  """Whether float32 arithmetic with these coordinates and radii is exact."""
  return step in DYADIC and all(is_pow2(v) for v in values)


def as_arg(values, how):
  """A radius/cell size argument: Python float, list, numpy or tensor."""
  import tensorflow as tf
  if how == 'float' and len(values) == 1:
    return values[0]
  if how == 'int' and len(values) == 1 and values[0] == int(values[0]):
    return int(values[0])
  if how == 'double':
    return np.array(values if len(values) > 1 else values[0])
  if how == 'tensor':
    if len(values) == 1:
      return tf.constant(values[0], dtype=tf.float32)
    return tf.constant(values, dtype=tf.float32)
  if how == 'list':
    return list(values)
  return np.array(values, dtype=np.float32)


ARG_KINDS = ['float', 'tensor', 'list', 'numpy', 'double', 'int']


def full(values, dim):
  """float64 values (as rounded to float32) per dimension."""
  v = np.array(values, dtype=np.float32).astype(np.float64)
  return np.repeat(v, dim) if len(v) == 1 else v


@st.composite
def centers(draw, cloud, max_extra=40):
  """Centers for a cloud case: None (the sorted points), the cloud itself, some
  of its points, or further points (also outside of its box)."""
  kind = draw(st.sampled_from(['none', 'same', 'subset', 'other', 'other',
                               'other']))
  if kind in ('none', 'same'):
    return dict(kind=kind)
  count = sum(cloud['sizes'])
  batch = len(cloud['sizes'])
  if kind == 'subset':
    keep = [row[0] == 0 for row in draw(ints_block(count, 1, 3))]
    if not any(keep):
      keep[0] = True
    return dict(kind=kind, keep=keep)
  num = draw(st.integers(1, max_extra))
  # each center: next to a point of the cloud, moved by some steps
  width = draw(st.sampled_from([1, 2, 4, 9, 30]))
  anchors = draw(ints_block(num, 1, 251))
  moves = draw(ints_block(num, cloud['dim'], 2 * width + 1))
  return dict(kind=kind, anchors=[a[0] % count for a in anchors],
              moves=[[m - width for m in row] for row in moves],
              half=draw(st.integers(0, 3)) == 0)


class Centers:
  """Built centers: `pc` (None for the sorted points), `points`, `ids`."""

  def __init__(self, spec, cloud):
    from pbt.core import sut
    from pylib.pc import PointCloud
    kind = spec['kind']
    self.kind = kind
    self.pc = None
    if kind in ('none', 'same'):
      self.points, self.ids = cloud.points, cloud.ids
      if kind == 'same':
        self.pc = cloud.pc
    else:
      if kind == 'subset':
        keep = np.array(spec['keep'])
        self.points, self.ids = cloud.points[keep], cloud.ids[keep]
      else:
        base = (cloud.points.astype(np.float64) / cloud.case['step'])
        pos = np.round(base[spec['anchors']]) + np.array(spec['moves']).reshape(
            len(spec['anchors']), cloud.dim)
        if spec['half']:
          pos = pos + 0.5
        self.points = (pos * cloud.case['step']).astype(np.float32)
        self.ids = cloud.ids[spec['anchors']]
      with sut('PointCloud of centers'):
        self.pc = PointCloud(self.points, batch_ids=self.ids,
                             batch_size=cloud.batch)
    self.count = len(self.points)


@st.composite
def radius_and_cells(draw, dim, step, low=-1, high=4):
  """A radius and cell sizes that are at least as large (per dimension)."""
  radius = draw(cell_sizes(dim, step, low, high))
  if draw(st.booleans()):
    return radius, list(radius)
  factor = draw(st.lists(st.sampled_from([1.0, 1.0, 2.0, 4.0, 1.25, 3.0]),
                         min_size=dim, max_size=dim))
  vals = radius * dim if len(radius) == 1 else radius
  return radius, [r * f for r, f in zip(vals, factor)]
