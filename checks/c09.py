"""C09: Poisson disk sampling."""
import collections

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut

MODES = ['poisson', 'poisson disk', 'poisson_disk', 'Poisson', 'POISSON DISK']


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(2, 2, 3, 3, 4), max_batch=5, large=300, max_size=60,
                         allow_empty=True))
  dim = cloud['dim']
  radius, cells = draw(gen.radius_and_cells(dim, cloud['step'], -1, 4))
  api = draw(st.sampled_from(['radius', 'radius', 'neighborhood', 'sample',
                              'sample']))
  return dict(cloud=cloud, radius=radius, cells=cells, api=api,
              ids=draw(st.booleans()),
              mode=draw(st.sampled_from(MODES)),
              arg_as=draw(st.sampled_from(gen.ARG_KINDS)),
              tf_seed=draw(st.integers(0, 10**6)))


def check_samples(c, radii, exact, points, ids, indices, what):
  """`points`, `ids` (and indices into the input or None) are a valid Poisson
  disk sample of cloud `c`."""
  n = len(points)
  require(n <= c.count, '%s: %d samples of %d points', what, n, c.count)
  if indices is not None:
    indices = ref.shaped(indices, [n], what + ' indices', 'iu')
    require(n == 0 or (indices.min() >= 0 and indices.max() < c.count),
            '%s: index out of range', what)
    require(len(set(indices.tolist())) == n, '%s: an index is repeated', what)
    ref.same(points, c.points[indices], what + ' points of the indices')
    ref.same(ids, c.ids[indices], what + ' batch ids of the indices')
  have = collections.Counter(
      (int(i),) + tuple(p) for p, i in zip(c.points.tolist(), c.ids))
  got = collections.Counter(
      (int(i),) + tuple(p) for p, i in zip(points.tolist(), ids))
  for key, value in got.items():
    require(have[key] >= value, '%s: %d samples at %s (cloud %d), %d points '
            'there', what, value, list(key[1:]), key[0], have[key])
  certain, _ = ref.neighbor_sets(points, ids, points, ids, radii, exact)
  np.fill_diagonal(certain, False)
  bad = np.argwhere(certain)
  require(len(bad) == 0, '%s: samples %s are closer than the radius', what,
          bad[:1].tolist())
  _, possible = ref.neighbor_sets(points, ids, c.points, c.ids, radii, exact)
  bad = np.nonzero(~possible.any(axis=1))[0]
  require(len(bad) == 0, '%s: point %s of cloud %s has no sample within the '
          'radius', what, c.points[bad[:1]].tolist(), c.ids[bad[:1]].tolist())


def _run(case, ctx):
  import tensorflow as tf
  import pylib.pc as P
  c = gen.Cloud(case['cloud'])
  radii = gen.full(case['radius'], c.dim)
  exact = gen.exact_lattice(c.case['step'], case['radius'])
  radius = gen.as_arg(case['radius'], case['arg_as'])
  tf.random.set_seed(case['tf_seed'])
  indices = None
  with sut('poisson sampling (%s)' % case['api']):
    if case['api'] == 'radius':
      kwargs = dict(radius=radius)
    else:
      nb = P.Neighborhood(
          P.Grid(c.pc, np.array(case['cells'], dtype=np.float32)), radius)
      kwargs = dict(neighborhood=nb)
    if case['api'] == 'sample':
      out, indices = P.sample(nb, case['mode'])
      require(indices is not None, 'no indices')
    elif case['ids']:
      out, indices = P.poisson_disk_sampling(c.pc, return_ids=True, **kwargs)
    else:
      out = P.poisson_disk_sampling(c.pc, **kwargs)
    points, ids = out._points, out._batch_ids
  points = ref.shaped(points, [None, c.dim], 'samples', 'f')
  ids = ref.shaped(ids, [len(points)], 'batch ids', 'iu')
  check_samples(c, radii, exact, points, ids, indices, case['api'])
  with sut('get_sizes of the samples'):
    sizes = out.get_sizes()
  ref.same(sizes, np.bincount(ids, minlength=c.batch), 'sizes of the samples')
  ctx.label('api=' + case['api'])
  ctx.label('indices', indices is not None)
  ctx.label('exact arithmetic', exact)
  ctx.label('empty cloud', bool((c.sizes == 0).any()))
  ctx.label('several clouds', c.batch > 1)
  ctx.label('all points kept', len(points) == c.count)
  ctx.interesting(2 < len(points) < c.count)


@st.composite
def _graph_case(draw):
  cloud = draw(gen.cloud(dims=(2, 3), max_batch=3, max_size=30,
                         layouts=('ids',), allow_empty=True))
  radius, _ = draw(gen.radius_and_cells(cloud['dim'], cloud['step'], -1, 4))
  return dict(cloud=cloud, radius=radius,
              api=draw(st.sampled_from(['radius', 'hierarchy', 'hierarchy',
                                        'sample'])),
              tf_seed=draw(st.integers(0, 10**6)))


_traced = {}


def _function(api, dim, batch):
  """The sampling inside of a compiled function, for any number of points."""
  import tensorflow as tf
  import pylib.pc as P
  if (api, dim, batch) not in _traced:
    def sampled(points, ids, radii):
      pc = P.PointCloud(points, batch_ids=ids, batch_size=batch)
      indices = tf.zeros([0], tf.int64)
      if api == 'radius':
        out, indices = P.poisson_disk_sampling(pc, radii, return_ids=True)
      elif api == 'hierarchy':
        out = P.PointHierarchy(pc, [radii], 'poisson disk')[1]
      else:
        out, indices = P.sample(P.Neighborhood(P.Grid(pc, radii), radii),
                                'poisson')
      return out._points, out._batch_ids, tf.cast(indices, tf.int64)
    _traced[api, dim, batch] = tf.function(sampled, input_signature=[
        tf.TensorSpec([None, dim], tf.float32), tf.TensorSpec([None], tf.int32),
        tf.TensorSpec([dim], tf.float32)])
  return _traced[api, dim, batch]


def _run_graph(case, ctx):
  import tensorflow as tf
  c = gen.Cloud(case['cloud'], build=False)
  radii = gen.full(case['radius'], c.dim)
  exact = gen.exact_lattice(c.case['step'], case['radius'])
  tf.random.set_seed(case['tf_seed'])
  with sut('poisson sampling in graph mode (%s)' % case['api']):
    points, ids, indices = _function(case['api'], c.dim, c.batch)(
        tf.constant(c.points), tf.constant(c.ids.astype(np.int32)),
        tf.constant(radii.astype(np.float32)))
  points = ref.shaped(points, [None, c.dim], 'samples', 'f')
  ids = ref.shaped(ids, [len(points)], 'batch ids', 'iu')
  check_samples(c, radii, exact, points, ids,
                None if case['api'] == 'hierarchy' else indices, 'graph mode')
  ctx.label('graph: ' + case['api'])
  ctx.interesting(2 < len(points) < c.count)


TARGETS = [Target('poisson', _case, _run, quick=900),
           Target('graph', _graph_case, _run_graph, quick=400)]
