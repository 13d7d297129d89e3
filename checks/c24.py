"""C24: graph mode."""
import numpy as np
from hypothesis import strategies as st

from checks.c19 import equal, kernel_points
from pbt import convref, gen, ref
from pbt.core import Target, require, sut

QUANTITIES = ['cloud', 'box', 'grid', 'neighbors', 'limited', 'density',
              'pair_density', 'pairs', 'cells', 'global', 'max', 'mean', 'mc', 'pc',
              'kp', 'kp_deformable', 'conv1x1', 'hierarchy', 'transposed', 'gradients',
              'resnet', 'bottleneck', 'spatial']
NETS = ('resnet', 'bottleneck', 'spatial')


@st.composite
def _case(draw):
  dim = draw(st.sampled_from([2, 3, 3, 4]))
  batch = draw(st.integers(1, 4))
  width = draw(st.sampled_from([1, 2, 3]))
  layout = draw(st.sampled_from(['ids', 'ids', 'ids', 'padded', 'sizes']))
  step = draw(st.sampled_from(gen.DYADIC))
  span = draw(st.sampled_from([4, 9, 16, 16, 90]))
  inputs = []
  rows = draw(st.integers(1, 9))
  total = None
  for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
    if layout == 'padded':
      sizes = draw(st.lists(st.integers(0, rows), min_size=batch,
                            max_size=batch))
      if sum(sizes) == 0:
        sizes[0] = 1
    elif layout == 'sizes' and total is not None:
      # the same total number of points, cut at other places
      cuts = sorted(draw(st.lists(st.integers(0, total), min_size=batch - 1,
                                  max_size=batch - 1)))
      sizes = [b - a for a, b in zip([0] + cuts, cuts + [total])]
    else:
      sizes = draw(st.lists(st.integers(0, 14), min_size=batch,
                            max_size=batch))
      if sum(sizes) == 0:
        sizes[0] = 2
    total = sum(sizes)
    cloud = draw(gen.cloud(dim=dim, sizes=sizes, step=step, span=span,
                           layouts=('ids',)))
    others = draw(gen.ints_block(draw(st.integers(1, 8)), dim, span))
    cids = draw(st.lists(st.integers(0, batch - 1), min_size=len(others),
                         max_size=len(others)))
    inputs.append(dict(cloud=cloud, centers=others, center_ids=cids,
                       features=draw(gen.features(total, (width,)))))
  one = st.integers(0, 3).map(lambda e: float(2.0 ** e) * step)
  return dict(dim=dim, batch=batch, width=width, layout=layout, rows=rows,
              inputs=inputs, radius=draw(one),
              shape=draw(st.sampled_from(gen.factor_shapes(batch))),
              quantities=draw(st.permutations(QUANTITIES))[
                  :draw(st.integers(1, 3))],
              inner=draw(st.sampled_from(['mc', 'pointconv', 'kpconv'])),
              net_radii=draw(st.sampled_from([[1, 1, 1], [1, 2, 1],
                                              [1, 1, 2]])),
              radii_as=draw(st.sampled_from(['list', 'tensor'])),
              static=draw(st.integers(0, 3)) == 0, normalize=draw(st.booleans()),
              tf_seed=draw(st.integers(0, 10**6)))


def _layers(names, dim, width, case):
  import tensorflow as tf
  from pylib.pc import layers as L
  made = {}
  for name in names:
    if name in ('mc', 'gradients'):
      made[name] = L.MCConv(width, 4, dim, num_mlps=2, mlp_size=[4])
    elif name == 'pc':
      made[name] = L.PointConv(width, 3, dim, size_hidden=8)
      for v in made[name]._weights_pdf + made[name]._biases_pdf:
        v.assign(tf.abs(v) + 0.125)
    elif name.startswith('kp'):
      made[name] = L.KPConv(width, 3, num_kernel_points=6, num_dims=dim,
                            deformable=name != 'kp',
                            custom_kernel_points=kernel_points(dim))
    elif name == 'conv1x1':
      made[name] = L.Conv1x1(width, 2)
    elif name in NETS:
      inner = dict(layer_type=case['inner'], projection_shortcuts=True)
      if case['inner'] == 'kpconv':
        inner.update(num_kernel_points=6,
                     custom_kernel_points=kernel_points(dim))
      elif case['inner'] == 'mc':
        inner.update(num_mlps=1)
      if name == 'resnet':
        made[name] = L.PointResNet(width, 1, dim, **inner)
      elif name == 'bottleneck':
        made[name] = L.PointResNetBottleNeck(width, 2, 1, dim, **inner)
      else:
        made[name] = L.PointResNetSpatialBottleNeck(width, 1, dim, **inner)
      for v in made[name].trainable_variables:
        if 'pdf_' in v.name:
          v.assign(tf.abs(v) + 0.125)
  return made


def results(names, layers, case, points, extra, cpoints, cids, feats):
  """All the wanted results as a dictionary of lists of tensors."""
  import tensorflow as tf
  import pylib.pc as P
  from pylib.pc import layers as L
  from pylib.pc.Neighborhood import (compute_neighborhoods,
                                     density_estimation,
                                     density_estimation_in_neighborhoods)
  dim, batch = case['dim'], case['batch']
  if case['layout'] == 'ids':
    pc = P.PointCloud(points, batch_ids=extra, batch_size=batch)
  else:
    pc = P.PointCloud(points, sizes=extra, batch_size=batch)
  radius = case['radius']
  radii = np.full(dim, radius, dtype=np.float32)
  out = {}
  centers = P.PointCloud(cpoints, batch_ids=cids, batch_size=batch)
  for name in names:
    if name == 'cloud':
      if case['layout'] == 'ids':
        pc.set_batch_shape(case['shape'])
      out[name] = [pc.get_sizes(), pc.get_points(max_num_points=60),
                   pc.get_unflatten(max_num_points=60)(pc._points),
                   pc.get_points()]
    elif name == 'box':
      box = pc.get_AABB()
      out[name] = [box._aabb_min, box._aabb_max, box.get_diameter(),
                   box.get_diameter(ord=1)]
    elif name in ('grid', 'neighbors', 'limited', 'pair_density', 'transposed'):
      grid = P.Grid(pc, radii)
      if name == 'grid':
        out[name] = [grid._sorted_points, grid._sorted_batch_ids,
                     grid._sorted_keys, grid._sorted_indices, grid._num_cells,
                     grid.get_DS()]
        continue
      nb = P.Neighborhood(grid, radii, centers,
                          max_neighbors=2 if name == 'limited' else 0)
      if name == 'limited':
        out[name] = [nb._samples_neigh_ranges]
        continue
      if name == 'transposed':
        nb = nb.transpose()
      out[name] = [nb._original_neigh_ids, nb._samples_neigh_ranges]
      if name == 'pair_density':
        out[name].append(nb.get_pdf(bandwidth=0.5, normalize=case['normalize']))
    elif name == 'pairs':
      pairs, ranges = compute_neighborhoods(
          P.Grid(pc, radii), radii, centers, return_ranges=True,
          return_sorted_ids=case['normalize'])
      out[name] = [pairs, ranges, density_estimation_in_neighborhoods(
          pc, pairs, 0.5, radii, normalize=case['normalize'])]
    elif name == 'density':
      out[name] = [density_estimation(pc, bandwidth=0.25, scaling=radii,
                                      normalize=case['normalize'])]
    elif name == 'cells':
      s = P.cell_average_sampling(pc, cell_sizes=radii)
      out[name] = [s._points, s._batch_ids]
    elif name == 'hierarchy':
      h = P.PointHierarchy(pc, [radii, 2 * radii], 'cell average')
      out[name] = [h[2]._points, h[2]._batch_ids] + h.get_sizes()
    elif name == 'global':
      out[name] = [L.GlobalMaxPooling()(feats, pc),
                   L.GlobalAveragePooling()(feats, pc)]
    elif name == 'max':
      out[name] = [L.MaxPooling()(feats, pc, centers, radii)]
    elif name == 'mean':
      out[name] = [L.AveragePooling()(feats, pc, centers, radii)]
    elif name == 'gradients':
      with tf.GradientTape() as tape:
        tape.watch([points, feats])
        if case['layout'] == 'ids':
          own = P.PointCloud(points, batch_ids=extra, batch_size=batch)
        else:
          own = P.PointCloud(points, sizes=extra, batch_size=batch)
        nb = P.Neighborhood(P.Grid(own, radii), radii, centers)
        pdf = nb.get_pdf(bandwidth=0.5)
        conv = layers[name](feats, own, centers, radius, nb)
        total = tf.reduce_sum(pdf * pdf) + tf.reduce_sum(conv * conv)
      out[name] = [tf.convert_to_tensor(g) for g in tape.gradient(
          total, [points, feats] + list(layers[name].trainable_variables),
          unconnected_gradients='zero')]
    elif name == 'conv1x1':
      out[name] = [layers[name](feats, pc), layers[name](
          feats, pc, return_sorted=True)]
    elif name in ('resnet', 'bottleneck'):
      out[name] = [layers[name](feats, pc, radius, case['normalize'])]
    elif name == 'spatial':
      three = [radius * f for f in case['net_radii']]
      if case['radii_as'] == 'tensor':
        three = tf.constant(three, dtype=tf.float32)
      out[name] = [layers[name](feats, pc, centers, three, case['normalize'])]
    else:
      out[name] = [layers[name](feats, pc, centers, radius)]
      if name == 'kp_deformable':
        out[name].append(layers[name](feats, pc, pc, radius))
        out[name].append(layers[name].regularization_loss())
  return out


def _in_order(results):
  """Pairs and their densities with the neighbors of a center in order."""
  pairs = ref.shaped(results[0], [None, 2], 'pairs', 'iu')
  order = np.lexsort((pairs[:, 0], pairs[:, 1]))
  return [np.asarray(r)[order] if i != 1 else r for i, r in enumerate(results)]


def _run(case, ctx, any_order=False):
  import tensorflow as tf
  tf.random.set_seed(case['tf_seed'])
  dim, width = case['dim'], case['width']
  names = case['quantities']
  with sut('layers'):
    layers = _layers(names, dim, width, case)
  args = []
  for item in case['inputs']:
    c = gen.Cloud(item['cloud'], build=False)
    feats = np.array(item['features'], dtype=np.float32).reshape(c.count, width)
    cpoints = (np.array(item['centers'], dtype=np.float64) *
               item['cloud']['step']).astype(np.float32)
    cids = np.array(item['center_ids'], dtype=np.int32)
    if case['layout'] == 'ids':
      points, extra = c.points, c.ids.astype(np.int32)
    elif case['layout'] == 'sizes':
      points, extra = c.major, c.sizes.astype(np.int32)
    else:
      points = c.padded(c.major, rows=case['rows'], fill=np.float32(5))
      points = points.reshape(case['shape'] + [case['rows'], dim])
      extra = c.sizes.astype(np.int32).reshape(case['shape'])
    args.append([tf.constant(a) for a in (points, extra, cpoints, cids, feats)])
  traced = {}

  def body(*a):
    out = results(names, layers, case, *a)
    if not tf.executing_eagerly():
      traced[str([t.shape for t in a])] = {
          name: [t.shape for t in out[name]] for name in names}
    return out
  shapes = []
  for i in range(5):
    shape = args[0][i].shape.as_list()
    if i in (2, 3) or (case['layout'] == 'ids' and i in (0, 1, 4)) or (
        case['layout'] == 'padded' and i == 4):
      shape[0] = None
    shapes.append(shape)
  if case['static']:
    # shapes known: a trace per shape
    graph = tf.function(body)
  else:
    graph = tf.function(body, input_signature=[
        tf.TensorSpec(s, a.dtype) for s, a in zip(shapes, args[0])])
  for n, arg in enumerate(args):
    with sut('eager mode'):
      want = body(*arg)
    with sut('graph mode (%s), input %d' % (names, n)):
      got = graph(*arg)
    # (one trace, or one per shape of the inputs)
    known = traced.get(str([a.shape for a in arg])) if case['static'] else (
        list(traced.values())[-1])
    for name in names:
      require(len(got[name]) == len(want[name]), '%s: results', name)
      if any_order and name in ('neighbors', 'pair_density', 'transposed',
                                'pairs'):
        got[name], want[name] = _in_order(got[name]), _in_order(want[name])
      for i, (x, y) in enumerate(zip(got[name], want[name])):
        what = '%s in graph mode, result %d for input %d' % (name, i, n)
        y = ref.as_np(y)
        x = ref.as_np(x)
        require(known is None or known[name][i].is_compatible_with(x.shape),
                '%s: shape %s, in the graph %s', what, list(x.shape),
                known and known[name][i])
        require(x.dtype == y.dtype, '%s: type %s instead of %s', what, x.dtype,
                y.dtype)
        if y.dtype.kind in 'iub':
          ref.same(x, y, what)
        else:
          equal(x, y, what, rtol=1e-3 if name in NETS else
                2e-4 if name.startswith('kp') else 3e-5)
  for name in names:
    ctx.label('of=' + name)
  ctx.label('layout=' + case['layout'])
  ctx.label('several inputs', len(args) > 1)
  ctx.label('unknown number of points', not case['static'])
  ctx.interesting(len(args) > 1 and not case['static'])


TARGETS = [Target('graph', _case, _run, quick=400)]
