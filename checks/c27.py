"""C27: results do not depend on the history.

A case is a sequence of operations over a pool of clouds, grids, neighborhoods
and layers. Every operation runs on the shared objects and on objects made for
it alone (before and after the sequence); all have to agree. What is documented
to be kept (densities of a neighborhood, weights that were assigned) is modelled
and set up on the fresh objects.
"""
import numpy as np
from hypothesis import strategies as st

from checks.c19 import kernel_points
from pbt import gen, ref
from pbt.core import Target, require, sut

KINDS = ['mc', 'mc', 'mc_default', 'pc', 'kp', 'kp_linear', 'conv1x1', 'resnet']
OPS = ['sizes', 'box', 'points', 'grid', 'pairs', 'limited', 'get_pdf',
       'get_pdf', 'compute_pdf', 'transposed', 'transposed_pdf', 'density',
       'pair_density', 'poisson', 'average', 'poisson_in', 'average_in',
       'hierarchy', 'local_max', 'local_mean', 'global', 'layer', 'layer',
       'layer', 'layer', 'loss', 'scale', 'new_layer', 'gradient']


@st.composite
def _case(draw):
  dim = draw(st.sampled_from([2, 3, 3]))
  batch = draw(st.integers(1, 3))
  step = draw(st.sampled_from(gen.DYADIC))
  sizes = draw(st.lists(st.integers(0, 10), min_size=batch, max_size=batch))
  if sum(sizes) == 0:
    sizes[0] = 3
  second = sizes if draw(st.booleans()) else draw(st.lists(
      st.integers(1, 10), min_size=batch, max_size=batch))
  width = draw(st.sampled_from([1, 2, 3]))
  clouds, features = [], []
  for s in (sizes, second):
    clouds.append(draw(gen.cloud(dim=dim, sizes=s, step=step, span=6,
                                 layouts=('ids', 'sizes', 'padded'))))
    features.append(draw(gen.features(sum(s), (width,))))
  kinds = draw(st.lists(st.sampled_from(KINDS), min_size=2, max_size=3))
  if draw(st.booleans()):
    kinds[1] = kinds[0]
  one = st.integers(0, 1)
  op = st.fixed_dictionaries(dict(
      op=st.sampled_from(OPS), i=one, j=st.sampled_from([0, 1, 1, -1]), r=one,
      layer=st.integers(0, len(kinds) - 1), arg=st.integers(0, 3),
      nb=st.booleans(), again=st.sampled_from([0, 0, 1, 2, 3])))
  radius = draw(st.sampled_from([1.0, 2.0, 4.0]))
  return dict(dim=dim, batch=batch, width=width, clouds=clouds,
              features=features, kinds=kinds,
              radii=[radius * step, radius * step *
                     draw(st.sampled_from([0.5, 2.0, 1.5]))],
              raw=list(draw(st.binary(min_size=12, max_size=12))),
              tf_seed=draw(st.integers(0, 10**6)),
              ops=_linked(draw(st.lists(op, min_size=2, max_size=9))))


# what an operation has in common with the one before it
_AGAIN = {0: (), 1: ('i', 'j', 'r'), 2: ('op', 'i', 'j', 'r', 'nb'),
          3: ('op', 'layer', 'nb', 'arg', 'r')}


def _linked(ops):
  out = []
  for op in ops:
    op = dict(op)
    for name in _AGAIN[op.pop('again')] if out else ():
      op[name] = out[-1][name]
    op.pop('again', None)
    out.append(op)
  return out


class _Inputs:
  """What the operations are given, and copies of it."""

  def __init__(self, case):
    self.case = case
    self.dim, self.width = case['dim'], case['width']
    self.arrays = {}
    for i, cloud in enumerate(case['clouds']):
      c = gen.Cloud(cloud, build=False)
      layout = cloud['layout']
      if layout == 'ids':
        self.arrays['points%d' % i] = c.points
        self.arrays['ids%d' % i] = c.ids.astype(np.int32)
      elif layout == 'sizes':
        self.arrays['points%d' % i] = c.major
        self.arrays['sizes%d' % i] = c.sizes.astype(np.int32)
      else:
        self.arrays['points%d' % i] = c.padded(c.major, fill=np.float32(3))
        self.arrays['sizes%d' % i] = c.sizes.astype(np.int32)
      self.arrays['features%d' % i] = np.array(
          case['features'][i], dtype=np.float32).reshape(c.count, self.width)
    for r, radius in enumerate(case['radii']):
      self.arrays['radii%d' % r] = np.full(self.dim, radius, dtype=np.float32)
    self.arrays['kernel'] = kernel_points(self.dim)
    self.bandwidths = [np.full(self.dim, b, dtype=np.float32)
                       for b in (0.2, 0.25, 0.5, 1.0)]
    for b, value in enumerate(self.bandwidths):
      self.arrays['bandwidth%d' % b] = value
    # lists, handed to several objects
    self.mlp_size = [3, 4]
    self.levels = [self.arrays['radii0'].tolist(),
                   (2 * self.arrays['radii0']).tolist()]
    self.radius_list = [float(r) for r in case['radii']]
    self.copies = {k: np.array(v) for k, v in self.arrays.items()}
    self.lists = [list(self.mlp_size), [list(l) for l in self.levels],
                  list(self.radius_list)]

  def check(self, when):
    for name, value in self.arrays.items():
      require(np.array_equal(value, self.copies[name]) and
              value.dtype == self.copies[name].dtype,
              '%s changed an input: %s', when, name)
    require([self.mlp_size, self.levels, self.radius_list] == self.lists,
            '%s changed a list it was given', when)


class _World:
  """Objects, made when they are needed for the first time."""

  def __init__(self, inputs, scaled, pdfs):
    self.inputs = inputs
    self.made = {}
    self.scaled = scaled  # times the weights of a layer were halved
    self.pdfs = pdfs  # settings of the densities that are kept

  def _get(self, key, build):
    if key not in self.made:
      self.made[key] = build()
    return self.made[key]

  def cloud(self, i):
    import pylib.pc as P
    a, batch = self.inputs.arrays, self.inputs.case['batch']

    def build():
      if 'ids%d' % i in a:
        return P.PointCloud(a['points%d' % i], batch_ids=a['ids%d' % i],
                            batch_size=batch)
      if a['points%d' % i].ndim > 2:
        return P.PointCloud(a['points%d' % i], sizes=a['sizes%d' % i])
      return P.PointCloud(a['points%d' % i], sizes=a['sizes%d' % i],
                          batch_size=batch)
    return self._get(('cloud', i), build)

  def grid(self, i, r):
    import pylib.pc as P
    return self._get(('grid', i, r), lambda: P.Grid(
        self.cloud(i), self.inputs.arrays['radii%d' % r]))

  def neighborhood(self, i, r, j):
    import pylib.pc as P

    def build():
      return P.Neighborhood(self.grid(i, r),
                            self.inputs.arrays['radii%d' % r],
                            None if j < 0 else self.cloud(j))
    nb = self._get(('nb', i, r, j), build)
    self._densities(('nb', i, r, j), nb)
    return nb

  def transposed(self, i, r, j):
    j = i if j < 0 else j
    key = ('transposed', i, r, j)
    nb = self._get(key, lambda: self.neighborhood(i, r, j).transpose())
    self._densities(key, nb)
    return nb

  def _densities(self, key, nb):
    if ('pdf',) + key not in self.made:
      self.made[('pdf',) + key] = True
      if key in self.pdfs:
        nb.compute_pdf(**self.pdfs[key])

  def layer(self, number):
    return self._get(('layer', number), lambda: self._layer(number))

  def _layer(self, number):
    import tensorflow as tf
    inputs = self.inputs
    kind = inputs.case['kinds'][number]
    tf.random.set_seed(inputs.case['tf_seed'] + number)
    layer = make(kind, inputs)
    if kind == 'resnet':
      # the normalisation gets its variables in the first call
      layer(inputs.arrays['features0'], self.cloud(0), inputs.radius_list[0],
            training=False)
    raw = inputs.case['raw']
    for n, v in enumerate(layer.trainable_variables):
      at = (5 * number + n) % len(raw)
      value = gen.weights_array(raw[at:] + raw[:at], v.shape.as_list())
      v.assign(abs(value) + 0.125 if kind == 'pc' else value)
    for _ in range(self.scaled.get(number, 0)):
      halve(layer)
    return layer


def make(kind, inputs, width=None):
  from pylib.pc import layers as L
  dim, width = inputs.dim, inputs.width if width is None else width
  if kind == 'mc_default':
    return L.MCConv(width, 4, dim)
  if kind == 'mc':
    return L.MCConv(width, 4, dim, num_mlps=2, mlp_size=inputs.mlp_size)
  if kind == 'pc':
    return L.PointConv(width, 3, dim, size_hidden=8)
  if kind.startswith('kp'):
    return L.KPConv(width, 3, num_kernel_points=6, num_dims=dim,
                    deformable=kind == 'kp',
                    custom_kernel_points=inputs.arrays['kernel'])
  if kind == 'conv1x1':
    return L.Conv1x1(width, 2)
  return L.PointResNet(width, 1, dim, layer_type='MCConv', num_mlps=1,
                       mlp_size=inputs.mlp_size)


def halve(layer):
  for v in layer.trainable_variables:
    v.assign(0.5 * v)


def _uses_layer(kind, op, world, nb):
  """Call of a layer as the operation asks for it."""
  inputs = world.inputs
  layer = world.layer(op['layer'])
  i, j = op['i'], op['j'] if op['j'] >= 0 else op['i']
  feats = inputs.arrays['features%d' % i]
  if kind == 'conv1x1':
    return layer(feats, world.cloud(i), return_sorted=bool(op['arg'] % 2))
  if kind == 'resnet':
    return layer(feats, world.cloud(i), inputs.radius_list[op['r']],
                 training=False)
  radius = inputs.radius_list[op['r']]
  kwargs = {}
  if op['arg'] == 1:
    kwargs['return_sorted'] = True
  elif op['arg'] == 2:
    kwargs['return_padded'] = True
  if kind in ('mc', 'mc_default', 'pc') and op['arg']:
    kwargs['bandwidth'] = [None, 0.2, 0.25, 0.5][op['arg']]
  elif kind.startswith('kp') and op['arg'] == 3:
    kwargs['kernel_influence_dist'] = 0.75 * radius
  if nb is not None:
    kwargs['neighborhood'] = nb
  return layer(feats, world.cloud(i), world.cloud(j), radius, **kwargs)


def _prepare(op, world, kinds):
  """Makes the objects that the operation works on."""
  name, i, j, r = op['op'], op['i'], op['j'], op['r']
  if name in ('layer', 'loss', 'gradient'):
    kind = kinds[op['layer']]
    world.layer(op['layer'])
    world.cloud(i)
    if j >= 0:
      world.cloud(j)
    if op['nb'] and kind not in ('conv1x1', 'resnet'):
      world.neighborhood(i, r, i if j < 0 else j)
  elif name in ('pairs', 'get_pdf', 'compute_pdf', 'pair_density',
                'transposed'):
    world.neighborhood(i, r, j)
  elif name == 'transposed_pdf':
    world.transposed(i, r, j)
  elif name in ('grid', 'limited'):
    world.grid(i, r)
  elif name in ('poisson_in', 'average_in'):
    world.neighborhood(i, r, -1)
  elif name == 'scale':
    world.layer(op['layer'])
  else:
    world.cloud(i)


def _pdf_args(op, inputs):
  from pylib.pc import KDEMode
  return dict(bandwidth=inputs.bandwidths[op['arg']],
              mode=KDEMode.no_pdf if op['layer'] == 2 else KDEMode.constant,
              normalize=op['nb'])


def _do(op, world, kinds):
  """The results of an operation, as a list."""
  import tensorflow as tf
  import pylib.pc as P
  from pylib.pc import layers as L
  from pylib.pc.Neighborhood import (density_estimation,
                                     density_estimation_in_neighborhoods)
  inputs = world.inputs
  name, i, j, r = op['op'], op['i'], op['j'], op['r']
  radii = inputs.arrays['radii%d' % r]
  if name == 'sizes':
    return [world.cloud(i).get_sizes()]
  if name == 'points':
    pc = world.cloud(i)
    b = op['arg'] % inputs.case['batch']
    return [pc._points, pc.get_points(), pc.get_points(id=b)]
  if name == 'box':
    box = world.cloud(i).get_AABB()
    return [box._aabb_min, box._aabb_max, box.get_diameter()]
  if name == 'grid':
    grid = world.grid(i, r)
    return [grid._sorted_points, grid._sorted_keys, grid._sorted_batch_ids,
            grid._sorted_indices, grid._num_cells, grid.get_DS()]
  if name == 'pairs':
    nb = world.neighborhood(i, r, j)
    return [nb._original_neigh_ids, nb._neighbors, nb._samples_neigh_ranges]
  if name == 'limited':
    nb = P.Neighborhood(world.grid(i, r), radii,
                        None if j < 0 else world.cloud(j),
                        max_neighbors=1 + op['arg'])
    return [nb._samples_neigh_ranges, nb._original_neigh_ids]
  if name == 'get_pdf':
    return [world.neighborhood(i, r, j).get_pdf(**_pdf_args(op, inputs))]
  if name == 'compute_pdf':
    nb = world.neighborhood(i, r, j)
    nb.compute_pdf(**_pdf_args(op, inputs))
    return [nb.get_pdf()]
  if name == 'transposed':
    nb = world.neighborhood(i, r, j).transpose()
    return [nb._original_neigh_ids, nb._samples_neigh_ranges]
  if name == 'transposed_pdf':
    return [world.transposed(i, r, j).get_pdf(**_pdf_args(op, inputs))]
  if name == 'density':
    return [density_estimation(world.cloud(i), scaling=radii,
                               **_pdf_args(op, inputs))]
  if name == 'pair_density':
    return [density_estimation_in_neighborhoods(
        world.cloud(i), world.neighborhood(i, r, j)._original_neigh_ids,
        bandwidth=inputs.bandwidths[op['arg']], scaling=radii)]
  if name == 'poisson':
    s, ids = P.poisson_disk_sampling(world.cloud(i), radius=radii,
                                     return_ids=True)
    return [s._points, s._batch_ids, ids]
  if name == 'average':
    s = P.cell_average_sampling(world.cloud(i), cell_sizes=radii)
    return [s._points, s._batch_ids]
  if name in ('poisson_in', 'average_in'):
    s, ids = P.sample(world.neighborhood(i, r, -1),
                      'poisson' if name == 'poisson_in' else 'cell average')
    return [s._points, s._batch_ids, ids]
  if name == 'hierarchy':
    h = P.PointHierarchy(world.cloud(i), inputs.levels,
                         'poisson' if op['nb'] else 'cell average')
    return [h[1]._points, h[1]._batch_ids, h[2]._points, h[2]._batch_ids
            ] + list(h.get_sizes())
  if name in ('local_max', 'local_mean'):
    pool = L.MaxPooling() if name == 'local_max' else L.AveragePooling()
    return [pool(inputs.arrays['features%d' % i], world.cloud(i),
                 world.cloud(max(j, 0)), radii)]
  if name == 'global':
    return [L.GlobalMaxPooling()(inputs.arrays['features%d' % i],
                                 world.cloud(i)),
            L.GlobalAveragePooling()(inputs.arrays['features%d' % i],
                                     world.cloud(i))]
  if name == 'scale':
    layer = world.layer(op['layer'])
    halve(layer)
    return [tf.identity(v) for v in layer.trainable_variables]
  if name == 'new_layer':
    layer = make(kinds[op['layer']], inputs,
                 (None, 16, 64, 130)[op['arg']])
    halve(layer)
    return [tf.shape(v) for v in layer.trainable_variables]
  kind = kinds[op['layer']]
  nb = None
  if op['nb'] and kind not in ('conv1x1', 'resnet'):
    nb = world.neighborhood(i, r, i if j < 0 else j)
  if name == 'gradient':
    layer = world.layer(op['layer'])
    with tf.GradientTape() as tape:
      out = _uses_layer(kind, op, world, nb)
      total = tf.reduce_sum(out * out)
    return [out] + tape.gradient(total, list(layer.trainable_variables),
                                 unconnected_gradients='zero')
  out = [_uses_layer(kind, op, world, nb)]
  if name == 'loss' and kind == 'kp':
    out.append(world.layer(op['layer']).regularization_loss())
  return out


def _effects(op, inputs, kinds, scaled, pdfs):
  """The documented effects of the operation on the shared objects."""
  name = op['op']
  if name == 'scale':
    scaled[op['layer']] = scaled.get(op['layer'], 0) + 1
  elif name in ('get_pdf', 'compute_pdf', 'transposed_pdf'):
    key = ('nb', op['i'], op['r'], op['j'])
    if name == 'transposed_pdf':
      key = ('transposed', op['i'], op['r'],
             op['i'] if op['j'] < 0 else op['j'])
    if name == 'compute_pdf' or key not in pdfs:
      pdfs[key] = _pdf_args(op, inputs)
  elif name in ('layer', 'loss', 'gradient') and op['nb'] and (
      kinds[op['layer']] in ('mc', 'mc_default', 'pc')):
    from pylib.pc import KDEMode
    j = op['i'] if op['j'] < 0 else op['j']
    key = ('nb', op['i'], op['r'], j)
    if key not in pdfs:
      pdfs[key] = dict(bandwidth=np.float32([0.2, 0.2, 0.25, 0.5][op['arg']]),
                       mode=KDEMode.constant, normalize=False)


def _compare(got, want, what):
  require(len(got) == len(want), '%s: %d results instead of %d', what,
          len(got), len(want))
  for n, (x, y) in enumerate(zip(got, want)):
    x, y = ref.as_np(x), ref.as_np(y)
    require(x.shape == y.shape and x.dtype == y.dtype,
            '%s, result %d: %s of shape %s instead of %s of shape %s', what, n,
            x.dtype, x.shape, y.dtype, y.shape)
    if y.dtype.kind != 'f':
      ref.same(x, y, '%s, result %d' % (what, n))
      continue
    top = np.abs(y[np.isfinite(y)]).max(initial=0)
    good = np.isclose(x, y, rtol=1e-5, atol=1e-6 * top, equal_nan=True)
    require(good.all(), '%s, result %d: %s instead of %s', what, n,
            x[~good][:3].tolist(), y[~good][:3].tolist())


def _run(case, ctx):
  import tensorflow as tf
  inputs = _Inputs(case)
  kinds = case['kinds']
  scaled, pdfs = {}, {}

  def run(op, world, what):
    with sut('objects for %s (%s)' % (op['op'], what)):
      _prepare(op, world, kinds)
    tf.random.set_seed(case['tf_seed'])
    with sut('%s (%s)' % (op['op'], what)):
      out = _do(op, world, kinds)
      out = [ref.as_np(o) for o in out]
    inputs.check('%s (%s)' % (op['op'], what))
    return out

  # every operation alone, before
  alone = []
  for op in case['ops']:
    alone.append((dict(scaled), dict(pdfs)))
    _effects(op, inputs, kinds, scaled, pdfs)
  before = [run(op, _World(inputs, *state), 'alone')
            for op, state in zip(case['ops'], alone)]
  # the sequence on shared objects; densities are kept there by themselves
  shared = _World(inputs, {}, {})
  during = []
  for n, op in enumerate(case['ops']):
    during.append(run(op, shared, 'shared, step %d' % n))
    _compare(during[n], before[n], '%s after %s' % (
        op['op'], [o['op'] for o in case['ops'][:n]]))
  # results that were kept are still the same
  for n in reversed(range(len(case['ops']))):
    op, state = case['ops'][n], alone[n]
    _compare(run(op, _World(inputs, *state), 'alone again'), before[n],
             '%s on new objects after a sequence' % op['op'])

  names = [op['op'] for op in case['ops']]
  for name in set(names):
    ctx.label('op=' + name)
  ctx.label('two layers of a kind', len(set(kinds)) < len(kinds))
  used = [(o['i'], o['r'], o['j']) for o in case['ops']]
  ctx.label('steps >= 5', len(names) >= 5)
  ctx.label('kept density used', any('pdf' in n for n in names) and any(
      n in ('layer', 'gradient') and o['nb']
      for n, o in zip(names, case['ops'])))
  ctx.interesting(len(names) >= 3 and len(set(used)) < len(used))


TARGETS = [Target('history', _case, _run, quick=320)]
