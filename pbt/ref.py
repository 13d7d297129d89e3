"""Reference implementations in numpy float64, written from the documented
behaviour, and comparison helpers."""
import numpy as np

from pbt.core import require, sut


def as_np(x, what='result'):
  """Value of a tensor (or nested numbers) of the code under test."""
  with sut(what):
    if hasattr(x, 'numpy'):
      x = x.numpy()
    return np.asarray(x)


def shaped(x, shape, what, kind=None):
  """Numpy value with a required shape (None: any) and dtype kind."""
  x = as_np(x, what)
  ok = len(x.shape) == len(shape) and all(
      s is None or s == t for s, t in zip(shape, x.shape))
  require(ok, '%s: shape %s instead of %s' % (what, list(x.shape),
                                              list(shape)))
  if kind is not None:
    require(x.dtype.kind in kind, '%s: dtype %s' % (what, x.dtype))
  return x


def same(x, y, what):
  """Exact equality of arrays."""
  x = as_np(x, what)
  y = np.asarray(y)
  require(x.shape == y.shape, '%s: shape %s instead of %s' % (
      what, list(x.shape), list(y.shape)))
  if x.size == 0:
    return
  bad = ~(x == y)
  if bad.any():
    at = np.argwhere(bad)[0]
    require(False, '%s: %d of %d entries differ, first at %s: %r instead of %r'
            % (what, int(bad.sum()), x.size, at.tolist(), x[tuple(at)].item(),
               y[tuple(at)].item()))


def close(x, y, what, rtol=1e-4, atol=1e-5, scale=None):
  """Equality up to a tolerance (`scale`: extra magnitude per entry)."""
  x = as_np(x, what).astype(np.float64)
  y = np.asarray(y, dtype=np.float64)
  require(x.shape == y.shape, '%s: shape %s instead of %s' % (
      what, list(x.shape), list(y.shape)))
  if x.size == 0:
    return
  tol = atol + rtol * np.abs(y)
  if scale is not None:
    tol = tol + rtol * np.asarray(scale)
  bad = ~(np.abs(x - y) <= tol)
  if bad.any():
    at = np.argwhere(bad)[0]
    require(False, '%s: %d of %d entries differ, first at %s: %r instead of %r'
            % (what, int(bad.sum()), x.size, at.tolist(), x[tuple(at)].item(),
               y[tuple(at)].item()))


def boxes(points, ids, batch):
  """Per-cloud minimum and maximum (float64), nan for empty clouds."""
  dim = points.shape[1]
  low = np.full((batch, dim), np.nan)
  high = np.full((batch, dim), np.nan)
  for b in range(batch):
    own = points[ids == b].astype(np.float64)
    if len(own):
      low[b] = own.min(axis=0)
      high[b] = own.max(axis=0)
  return low, high


def cell_counts(low, high, cell):
  """Number of cells per dimension: (smallest, largest acceptable)."""
  cell = np.asarray(cell, dtype=np.float64)
  ext = np.nanmax((high - low) / cell, axis=0)
  band = 2e-5 * (1 + np.nanmax(np.maximum(np.abs(high), np.abs(low)) / cell,
                               axis=0) * 0.02 + ext)
  lo = np.maximum(np.ceil(ext - band), 1).astype(np.int64)
  hi = np.maximum(np.ceil(ext + band), 1).astype(np.int64)
  return lo, hi


def cell_indices(points, ids, low, cell, counts):
  """Cell of each point: (smallest, largest acceptable) per dimension."""
  cell = np.asarray(cell, dtype=np.float64)
  base = low[ids]
  rel = (points.astype(np.float64) - base) / cell
  band = 2e-5 * (1 + np.abs(points) / cell * 0.02 + np.abs(rel))
  lo = np.clip(np.floor(rel - band), 0, counts - 1).astype(np.int64)
  hi = np.clip(np.floor(rel + band), 0, counts - 1).astype(np.int64)
  return lo, hi


def keys_from_cells(cells, ids, counts):
  """Documented key: batch * prod(counts) + sum_d c_d prod_{d'>d} counts_d'."""
  counts = [int(c) for c in counts]
  total = 1
  for c in counts:
    total *= c
  keys = np.asarray(ids, dtype=np.int64) * total
  mult = 1
  for d in reversed(range(len(counts))):
    keys = keys + cells[:, d] * mult
    mult *= counts[d]
  return keys


def cells_from_keys(keys, counts):
  """Inverse of `keys_from_cells`: (batch, cells)."""
  keys = np.asarray(keys, dtype=np.int64).copy()
  cells = []
  for c in reversed([int(c) for c in counts]):
    cells.append(keys % c)
    keys = keys // c
  return keys, np.stack(cells[::-1], axis=1)


def relative_distances(points, centers, radii):
  """`[centers, points]` distances in units of the radius."""
  diff = (points[None].astype(np.float64) - centers[:, None].astype(
      np.float64)) / np.asarray(radii, dtype=np.float64)
  return np.sqrt((diff ** 2).sum(axis=2))


def neighbor_sets(points, ids, centers, center_ids, radii, exact):
  """Boolean `[centers, points]` matrices: certain neighbors, possible ones."""
  dist = relative_distances(points, centers, radii)
  same_batch = center_ids[:, None] == ids[None]
  if exact:
    band = 0.0
  else:
    mag = max(np.abs(points).max(initial=0), np.abs(centers).max(initial=0))
    band = 1e-5 * (1 + 0.1 * mag / float(np.min(radii)))
  certain = same_batch & (dist < 1 - band)
  possible = same_batch & ((dist < 1 + band) if band else (dist < 1))
  return certain, possible


def pair_set(pairs, what):
  """Checks a `[M, 2]` list of pairs for duplicates; returns a set."""
  pairs = shaped(pairs, [None, 2], what, 'iu')
  out = set(map(tuple, pairs.tolist()))
  require(len(out) == len(pairs), '%s: duplicate pairs' % what)
  return out


def check_ranges(ranges, pairs, num_centers, what):
  """End offsets that delimit the run of each center in the pairs."""
  ranges = shaped(ranges, [num_centers], what + ' ranges', 'iu')
  pairs = np.asarray(pairs)
  counts = np.bincount(pairs[:, 1], minlength=num_centers) if len(
      pairs) else np.zeros(num_centers, dtype=np.int64)
  same(ranges, np.cumsum(counts), what + ' ranges')
  if len(pairs):
    require((np.diff(pairs[:, 1]) >= 0).all(),
            '%s: pairs are not ordered by center' % what)


def gaussian_kde(points, pairs_center, pairs_neigh, num_centers, radii,
                 bandwidth):
  """Sum over the pairs of the product Gaussian kernel, scaled by 1/bandwidth."""
  h = np.asarray(bandwidth, dtype=np.float64) * np.asarray(
      radii, dtype=np.float64)
  diff = (points[pairs_neigh].astype(np.float64) -
          points[pairs_center].astype(np.float64)) / h
  val = np.prod(np.exp(-diff ** 2 / 2) / np.sqrt(2 * np.pi), axis=1)
  out = np.zeros(num_centers)
  np.add.at(out, pairs_center, val)
  return out / np.prod(np.asarray(bandwidth, dtype=np.float64))
