"""C26: the same results with the package of compiled operations present.

`pbt.standin` is installed as `tfg_custom_ops` before the code under test is
imported, so everything goes through the wrappers. The checks of the single
operations run against their oracles in this setting; the first target compares
the wrappers with the TensorFlow fallback, call by call.
"""
import numpy as np
from hypothesis import strategies as st

from checks import (c05, c06, c07, c08, c09, c10, c12, c13, c14, c15, c18, c20,
                    c25)
from pbt import convref, gen, ref, standin
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  case = draw(convref.conv_case(max_size=40, max_batch=4, low=0, high=4))
  case.update(basis=draw(st.sampled_from([1, 2, 3, 8])),
              cells=draw(st.sampled_from([1.0, 1.0, 1.5, 2.0, 3.7])),
              limit=draw(st.sampled_from([0, 0, 1, 3])),
              given_box=draw(st.booleans()),
              bandwidths=draw(st.lists(st.sampled_from([0.1, 0.25, 0.5, 1.0]),
                                       min_size=case['cloud']['dim'],
                                       max_size=case['cloud']['dim'])))
  return case


def _pairs(neighbors):
  neighbors = np.asarray(neighbors)
  return neighbors[np.lexsort((neighbors[:, 0], neighbors[:, 1]))]


def _run(case, ctx):
  import tensorflow as tf
  from pylib.pc import Grid, KDEMode, Neighborhood, custom_ops
  from pylib.pc.custom_ops import custom_ops_tf, custom_ops_wrapper
  require(custom_ops.CUSTOM == 1 and
          custom_ops.find_neighbors is custom_ops_wrapper.find_neighbors,
          'the wrappers are not used although the package is present')
  k = convref.ConvCase(dict(case, inner=1.0))
  c, cen = k.c, k.cen
  dim = c.dim
  step_ok = k.exact and case['cells'] in (1.0, 2.0)
  cells = np.full(dim, k.radius * case['cells'], dtype=np.float32)
  radii = np.full(dim, k.radius, dtype=np.float32)
  box = c.pc.get_AABB() if case['given_box'] else None
  with sut('Grid'):
    grid = Grid(c.pc, cells) if box is None else Grid(c.pc, cells, box)
  num_cells = tf.constant(grid._num_cells)
  # keys
  with sut('compute_keys'):
    keys = custom_ops.compute_keys(c.pc, num_cells, grid._cell_sizes,
                                   c.pc.get_AABB() if box is None else box)
    if box is None:
      again = custom_ops.compute_keys(c.pc, num_cells, grid._cell_sizes)
      ref.same(again, keys, 'keys with the default box')
    want = custom_ops_tf.compute_keys_tf(c.pc, num_cells, grid._cell_sizes)
  keys = ref.shaped(keys, [c.count], 'keys', 'iu')
  if step_ok:
    ref.same(keys, want.numpy(), 'keys')
    ctx.label('exact')
  # the table of the same keys
  with sut('build_grid_ds'):
    table = custom_ops.build_grid_ds(grid._sorted_keys, grid._num_cells,
                                     grid._batch_size)
    want = custom_ops_tf.build_grid_ds_tf(grid._sorted_keys, grid._num_cells,
                                          grid._batch_size)
  table, want = ref.as_np(table), ref.as_np(want)
  require(table.shape == want.shape, 'table of shape %s instead of %s',
          table.shape, want.shape)
  full = want[..., 1] > want[..., 0]
  ref.same(table[full], want[full], 'table')
  require((table[~full][:, 0] >= table[~full][:, 1]).all(),
          'ranges of empty cells')
  # neighbors on the same grid
  limit = case['limit']
  with sut('find_neighbors'):
    ranges, neighbors = custom_ops.find_neighbors(
        grid, cen.pc, tf.constant(radii), limit)
    want_ranges, want = custom_ops_tf.find_neighbors_tf(
        grid, cen.pc, tf.constant(radii), limit)
  if k.ok:
    ref.same(ranges, want_ranges.numpy(), 'ranges')
    if limit == 0:
      ref.same(_pairs(neighbors), _pairs(want), 'neighbors')
    ctx.label('limited', limit > 0)
  # densities and projections in the same neighborhood
  with sut('Neighborhood'):
    own = Neighborhood(grid, radii)
    nb = Neighborhood(grid, radii, cen.pc)
  bandwidth = tf.constant(np.array(case['bandwidths'], dtype=np.float32))
  with sut('compute_pdf'):
    pdf = custom_ops.compute_pdf(own, bandwidth, KDEMode.constant.value)
    want = custom_ops_tf.compute_pdf_tf(own, bandwidth, KDEMode.constant.value)
  want = ref.as_np(want)
  ref.close(pdf, want, 'densities', rtol=k.rtol(
      (1 / min(case['bandwidths'])) ** 2))
  pairs = ref.as_np(nb._original_neigh_ids)
  basis = tf.Variable(gen.weights_array(case['raw'],
                                        (len(pairs), case['basis'])))
  feats = tf.Variable(k.features)
  results = []
  for function in (custom_ops.basis_proj, custom_ops_tf.basis_proj_tf):
    with tf.GradientTape() as tape:
      with sut('basis_proj'):
        out = function(basis, feats, nb)
      shape = [cen.count, k.width, case['basis']]
      mix = gen.weights_array(case['raw'][5:] + case['raw'][:5], shape, 1.0)
      total = tf.reduce_sum(out * mix)
    with sut('gradient of basis_proj'):
      grads = tape.gradient(total, [basis, feats],
                            unconnected_gradients='zero')
    results.append([ref.as_np(out)] + [
        tf.convert_to_tensor(g).numpy() for g in grads])
  for got, want, what in zip(results[0], results[1],
                             ('aggregation', 'gradient of the basis',
                              'gradient of the features')):
    require(got.shape == want.shape, '%s of shape %s instead of %s', what,
            got.shape, want.shape)
    top = np.abs(want).max(initial=0)
    ref.close(got, want, what, rtol=1e-4, atol=1e-5 * top + 1e-7)
  ctx.label('centers=' + cen.kind)
  ctx.label('given box', case['given_box'])
  ctx.interesting(len(pairs) > cen.count)


def _through(module, **counts):
  """Targets of another check, judged through the wrappers."""
  made = []
  for target in module.TARGETS:
    if target.name not in counts:
      continue

    def strategy(target=target):
      # the operations are defined for 2 to 6 dimensions
      return target.strategy().filter(
          lambda case: case.get('cloud', {}).get('dim', 2) >= 2)

    def run(case, ctx, target=target):
      standin.CALLS.clear()
      target.run(case, ctx)
      for op in standin.CALLS:
        ctx.label('op=' + op)
    made.append(Target('%s_%s' % (module.__name__[-3:], target.name),
                       strategy, run, quick=counts[target.name]))
  return made


TARGETS = [Target('wrappers', _case, _run, quick=500)]
TARGETS += _through(c05, grid=250)
TARGETS += _through(c06, neighborhood=250)
TARGETS += _through(c07, transpose=100)
TARGETS += _through(c08, neighborhood=150, functions=100)
TARGETS += _through(c09, poisson=120)
TARGETS += _through(c10, average=120)
TARGETS += _through(c12, basis_proj=150)
TARGETS += _through(c13, mcconv=100)
TARGETS += _through(c14, pointconv=80)
TARGETS += _through(c15, kpconv=80)
TARGETS += _through(c18, local=120)
TARGETS += _through(c20, resnet=40)
TARGETS += _through(c25, layers=60, densities=60, pooling_and_aggregation=40)
