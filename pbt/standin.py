"""A stand-in for the compiled package `tfg_custom_ops`.

It offers the operations of the package with their registered interface (types,
ranks and attributes are enforced as TensorFlow does it for a compiled
operation), implemented in NumPy from the documentation of their kernels. Each
operation checks what it is promised about its arguments.

Gradients are those registered for the operations, as for compiled ones.
"""
import sys
import types

import numpy as np

CALLS = {}


class ContractError(Exception):
  """The caller broke the contract of an operation."""


def _check(cond, text):
  if not cond:
    raise ContractError(text)


class _Op:
  """What a registered gradient function gets to see of an operation."""

  def __init__(self, inputs, attrs):
    self.inputs = inputs
    self.attrs = attrs

  def get_attr(self, name):
    return self.attrs[name]


def _operation(op_type, input_types, attr_names, compute):
  """A function with the interface of a compiled operation."""
  import tensorflow as tf
  from tensorflow.python.framework import ops

  def call(*args, **kwargs):
    names = [n for n, _, _ in input_types] + attr_names
    kwargs.pop('name', None)
    if len(args) + len(kwargs) != len(names):
      raise TypeError('%s takes the arguments %s' % (op_type, names))
    values = dict(zip(names, args))
    for key, value in kwargs.items():
      if key not in names or key in values:
        raise TypeError('%s: argument %s' % (op_type, key))
      values[key] = value
    attrs = {n: int(values[n]) for n in attr_names}
    inputs = []
    for name, dtype, rank in input_types:
      tensor = tf.convert_to_tensor(values[name], dtype=getattr(tf, dtype))
      _check(tensor.shape.rank == rank, '%s: %s of shape %s' % (
          op_type, name, tensor.shape))
      inputs.append(tensor)
    CALLS[op_type] = CALLS.get(op_type, 0) + 1
    try:
      gradient = ops.gradient_registry.lookup(op_type)
    except LookupError:
      gradient = None
      registered = False
    else:
      registered = True

    @tf.custom_gradient
    def run(*tensors):
      outs = compute(*[t.numpy() for t in tensors], **attrs)
      outs = tuple(tf.constant(o) for o in outs)

      def grad(*upstream):
        if not registered:
          raise LookupError('no gradient defined for operation %s' % op_type)
        if gradient is None:
          return [None] * len(tensors)
        back = gradient(_Op(list(tensors), attrs), *upstream)
        _check(len(back) == len(tensors), '%s: %d gradients for %d inputs' % (
            op_type, len(back), len(tensors)))
        return list(back)
      return (outs if len(outs) > 1 else outs[0]), grad
    return run(*inputs)
  return call


def cells_of_keys(keys, num_cells):
  rest = keys.astype(np.int64).copy()
  out = np.zeros((len(keys), len(num_cells)), dtype=np.int64)
  for d in range(len(num_cells) - 1, -1, -1):
    out[:, d] = rest % num_cells[d]
    rest //= num_cells[d]
  return out, rest


def _cells(points, scaled_min, num_cells, inv):
  rel = points * inv - scaled_min
  return np.clip(np.floor(rel), 0, num_cells - 1).astype(np.int64)


def compute_keys(points, batch_ids, scaled_aabb_min, num_cells, inv_cell_sizes):
  dim = points.shape[1]
  _check(2 <= dim <= 6, 'ComputeKeys: %d dimensions' % dim)
  _check(batch_ids.shape[0] == points.shape[0], 'ComputeKeys: batch ids')
  _check(scaled_aabb_min.shape[1] == dim, 'ComputeKeys: box')
  _check(num_cells.shape[0] == dim, 'ComputeKeys: number of cells')
  _check(inv_cell_sizes.shape[0] == dim, 'ComputeKeys: cell sizes')
  cell = _cells(points, scaled_aabb_min[batch_ids], num_cells, inv_cell_sizes)
  keys = batch_ids.astype(np.int64)
  for d in range(dim):
    keys = keys * int(num_cells[d]) + cell[:, d]
  return (keys,)


def build_grid_ds(keys, num_cells_gpu, num_cells_cpu, batch_size):
  _check((np.diff(keys) <= 0).all(), 'BuildGridDs: keys are not sorted')
  _check((num_cells_gpu == num_cells_cpu).all(), 'BuildGridDs: cells differ')
  table = np.zeros((batch_size, num_cells_cpu[0], num_cells_cpu[1], 2),
                   dtype=np.int32)
  cells, batch = cells_of_keys(keys, num_cells_gpu)
  _check(batch.max(initial=0) < batch_size, 'BuildGridDs: batch size')
  where = (batch * int(num_cells_cpu[0]) + cells[:, 0]) * int(
      num_cells_cpu[1]) + cells[:, 1]
  flat = table.reshape(-1, 2)
  for at in np.unique(where):
    rows = np.nonzero(where == at)[0]
    flat[at] = rows[0], rows[-1] + 1
  return (table,)


def find_neighbors(samples, samples_batch_ids, points, point_keys, grid_acc_ds,
                   num_cells, scaled_aabb_min, inv_cell_sizes, inv_radii,
                   max_neighs):
  dim = samples.shape[1]
  for name, size in (('num_cells', num_cells.shape[0]),
                     ('points', points.shape[1]),
                     ('scaled_aabb_min', scaled_aabb_min.shape[1]),
                     ('inv_cell_sizes', inv_cell_sizes.shape[0]),
                     ('inv_radii', inv_radii.shape[0])):
    _check(size == dim, 'FindNeighbors: dimension of %s' % name)
  _check(samples_batch_ids.shape[0] == samples.shape[0],
         'FindNeighbors: batch ids')
  _check(point_keys.shape[0] == points.shape[0], 'FindNeighbors: keys')
  _check(grid_acc_ds.shape[3] == 2, 'FindNeighbors: table')
  _check((np.diff(point_keys) <= 0).all(), 'FindNeighbors: keys not sorted')
  # the cells around the one of the sample, through the table
  at = _cells(samples, scaled_aabb_min[samples_batch_ids], num_cells,
              inv_cell_sizes)
  cells, _ = cells_of_keys(point_keys, num_cells)
  ranges, pairs = [], []
  for i, sample in enumerate(samples):
    mine = []
    for x in range(at[i, 0] - 1, at[i, 0] + 2):
      for y in range(at[i, 1] - 1, at[i, 1] + 2):
        if not (0 <= x < num_cells[0] and 0 <= y < num_cells[1]):
          continue
        start, end = grid_acc_ds[samples_batch_ids[i], x, y]
        for j in range(start, end):
          if (np.abs(cells[j, 2:] - at[i, 2:]) <= 1).all():
            off = (sample - points[j]) * inv_radii
            if np.sqrt((off * off).sum(dtype=np.float32)) < 1.0:
              mine.append(j)
    if max_neighs > 0:
      mine = mine[:max_neighs]
    pairs += [(j, i) for j in mine]
    ranges.append(len(pairs))
  return (np.array(ranges, dtype=np.int32),
          np.array(pairs, dtype=np.int32).reshape(-1, 2))


def _check_ranges(what, ranges, neighbors, samples):
  _check(neighbors.shape[1] == 2, what + ': shape of the neighbors')
  _check(ranges.shape[0] == samples, what + ': number of ranges')
  last = 0
  for i, end in enumerate(ranges):
    _check(end >= last and (neighbors[last:end, 1] == i).all(),
           what + ': range of sample %d' % i)
    last = end
  _check(last == len(neighbors), what + ': last range')


def sampling(points, batch_ids, point_keys, num_cells, neighbors,
             sample_neigh_indices, mode):
  _check(mode in (0, 1), 'Sampling: mode %d' % mode)
  count = points.shape[0]
  _check(batch_ids.shape[0] == count, 'Sampling: batch ids')
  _check(point_keys.shape[0] == count, 'Sampling: keys')
  _check(num_cells.shape[0] == points.shape[1], 'Sampling: cells')
  _check((np.diff(point_keys) <= 0).all(), 'Sampling: keys are not sorted')
  if mode == 1:
    _check(neighbors.shape[1] == 2, 'Sampling: shape of the neighbors')
    out, ids = [], []
    _, batch = cells_of_keys(point_keys, num_cells)
    start = 0
    while start < count:
      end = start
      while end < count and point_keys[end] == point_keys[start]:
        end += 1
      out.append(points[start:end].mean(axis=0, dtype=np.float64))
      ids.append(batch[start])
      start = end
    # (the indices are not defined in this mode)
    return (np.array(out, dtype=np.float32).reshape(-1, points.shape[1]),
            np.array(ids, dtype=np.int32), np.array([-7], dtype=np.int32))
  _check_ranges('Sampling', sample_neigh_indices, neighbors, count)
  cells, _ = cells_of_keys(point_keys, num_cells)
  used = np.zeros(count, dtype=bool)
  order = np.lexsort((np.arange(count),) + tuple(
      (cells % 2).T))
  for i in order:
    start = sample_neigh_indices[i - 1] if i > 0 else 0
    if not used[neighbors[start:sample_neigh_indices[i], 0]].any():
      used[i] = True
  at = np.nonzero(used)[0].astype(np.int32)
  # stored in any order
  at = np.concatenate([at[1::2], at[::2]])
  return points[at], batch_ids[at], at


def _kde(points, neighbors, ranges, inv_bandwidth, inv_radii):
  _check_ranges('ComputePdf', ranges, neighbors, len(ranges))
  _check(points.shape[0] == len(ranges), 'ComputePdf: the samples are the '
         'points')
  off = (points[neighbors[:, 0]].astype(np.float64) -
         points[neighbors[:, 1]].astype(np.float64))
  scale = inv_bandwidth.astype(np.float64) * inv_radii
  u = off * scale
  per = inv_bandwidth * np.exp(-0.5 * u * u) / np.sqrt(2 * np.pi)
  return off, scale, per.prod(axis=1)


def compute_pdf_with_pt_grads(points, neighbors, sample_neigh_indices,
                              inv_badnwidth, inv_radii, mode):
  dim = points.shape[1]
  _check(mode in (0, 1), 'ComputePdf: mode %d' % mode)
  _check(inv_badnwidth.shape[0] == dim, 'ComputePdf: bandwidth')
  _check(inv_radii.shape[0] == dim, 'ComputePdf: radii')
  _, _, value = _kde(points, neighbors, sample_neigh_indices, inv_badnwidth,
                     inv_radii)
  out = np.zeros(len(sample_neigh_indices))
  np.add.at(out, neighbors[:, 1], value)
  return (out.astype(np.float32),)


def compute_pdf_pt_grads(points, neighbors, sample_neigh_indices,
                         inv_badnwidth, inv_radii, pdf_grads, mode):
  off, scale, value = _kde(points, neighbors, sample_neigh_indices,
                           inv_badnwidth, inv_radii)
  _check(pdf_grads.shape == (len(sample_neigh_indices),), 'pdf_grads')
  term = -off * scale * scale * (value * pdf_grads[neighbors[:, 1]])[:, None]
  out = np.zeros(points.shape)
  np.add.at(out, neighbors[:, 0], term)
  np.add.at(out, neighbors[:, 1], -term)
  return (out.astype(np.float32),)


def basis_proj(basis_neighbors, pt_features, neighbors, sample_neigh_indices):
  _check(basis_neighbors.shape[0] == neighbors.shape[0], 'BasisProj: basis')
  _check_ranges('BasisProj', sample_neigh_indices, neighbors,
                len(sample_neigh_indices))
  _check(neighbors[:, 0].max(initial=-1) < pt_features.shape[0],
         'BasisProj: neighbor ids')
  out = np.zeros((len(sample_neigh_indices), pt_features.shape[1],
                  basis_neighbors.shape[1]))
  np.add.at(out, neighbors[:, 1],
            pt_features[neighbors[:, 0]].astype(np.float64)[:, :, None] *
            basis_neighbors[:, None, :])
  return (out.astype(np.float32),)


def basis_proj_grads(basis_neighbors, pt_features, neighbors,
                     sample_neigh_indices, in_gradients):
  up = in_gradients[neighbors[:, 1]].astype(np.float64)
  basis = np.einsum('mch,mc->mh', up, pt_features[neighbors[:, 0]])
  feats = np.zeros(pt_features.shape)
  np.add.at(feats, neighbors[:, 0], np.einsum('mch,mh->mc', up,
                                              basis_neighbors))
  return basis.astype(np.float32), feats.astype(np.float32)


F, I, L = 'float32', 'int32', 'int64'
OPERATIONS = dict(
    compute_keys=('ComputeKeys', [
        ('points', F, 2), ('batch_ids', I, 1), ('scaled_aabb_min', F, 2),
        ('num_cells', I, 1), ('inv_cell_sizes', F, 1)], [], compute_keys),
    build_grid_ds=('BuildGridDs', [
        ('keys', L, 1), ('num_cells_gpu', I, 1), ('num_cells_cpu', I, 1)],
                   ['batch_size'], build_grid_ds),
    find_neighbors=('FindNeighbors', [
        ('samples', F, 2), ('samples_batch_ids', I, 1), ('points', F, 2),
        ('point_keys', L, 1), ('grid_acc_ds', I, 4), ('num_cells', I, 1),
        ('scaled_aabb_min', F, 2), ('inv_cell_sizes', F, 1),
        ('inv_radii', F, 1)], ['max_neighs'], find_neighbors),
    sampling=('Sampling', [
        ('points', F, 2), ('batch_ids', I, 1), ('point_keys', L, 1),
        ('num_cells', I, 1), ('neighbors', I, 2),
        ('sample_neigh_indices', I, 1)], ['mode'], sampling),
    compute_pdf_with_pt_grads=('ComputePdfWithPtGrads', [
        ('points', F, 2), ('neighbors', I, 2), ('sample_neigh_indices', I, 1),
        ('inv_badnwidth', F, 1), ('inv_radii', F, 1)], ['mode'],
                               compute_pdf_with_pt_grads),
    compute_pdf_pt_grads=('ComputePdfPtGrads', [
        ('points', F, 2), ('neighbors', I, 2), ('sample_neigh_indices', I, 1),
        ('inv_badnwidth', F, 1), ('inv_radii', F, 1), ('pdf_grads', F, 1)],
                          ['mode'], compute_pdf_pt_grads),
    basis_proj=('BasisProj', [
        ('basis_neighbors', F, 2), ('pt_features', F, 2), ('neighbors', I, 2),
        ('sample_neigh_indices', I, 1)], [], basis_proj),
    basis_proj_grads=('BasisProjGrads', [
        ('basis_neighbors', F, 2), ('pt_features', F, 2), ('neighbors', I, 2),
        ('sample_neigh_indices', I, 1), ('in_gradients', F, 3)], [],
                      basis_proj_grads))


def install():
  """Puts the stand-in where `import tfg_custom_ops` finds it."""
  module = types.ModuleType('tfg_custom_ops')
  made = {}

  def attribute(name):
    if name not in OPERATIONS:
      raise AttributeError(name)
    if name not in made:
      made[name] = _operation(*OPERATIONS[name])
    return made[name]
  module.__getattr__ = attribute
  sys.modules['tfg_custom_ops'] = module
