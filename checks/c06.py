"""C06: neighborhoods against the brute force definition."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(2, 2, 3, 3, 3, 4, 5), max_batch=6, large=1300, max_size=150,
                         allow_empty=True))
  radius, cells = draw(gen.radius_and_cells(cloud['dim'], cloud['step']))
  factor = draw(gen.finer(cloud['dim']))
  radius, cells = gen.scaled(radius, factor), gen.scaled(cells, factor)
  return dict(cloud=cloud, radius=radius, cells=cells,
              centers=draw(gen.centers(cloud)),
              radius_as=draw(st.sampled_from(gen.ARG_KINDS)),
              limit=draw(st.sampled_from([0, 0, 1, 2, 3, 7])),
              api=draw(st.sampled_from(['class', 'class', 'function',
                                        'function_sorted', 'op'])))


def _check_pairs(what, pairs, ranges, certain, possible, limit, ctx):
  """pairs: [neighbor, center] in the indexing of the matrices."""
  got = np.zeros(certain.shape, dtype=bool)
  pairs = ref.shaped(pairs, [None, 2], what, 'iu').astype(np.int64)
  ref.pair_set(pairs, what)
  if len(pairs):
    require(pairs.min() >= 0 and (pairs[:, 0] < certain.shape[1]).all() and
            (pairs[:, 1] < certain.shape[0]).all(),
            '%s: ids out of range', what)
    got[pairs[:, 1], pairs[:, 0]] = True
  if ranges is not None:
    ref.check_ranges(ranges, pairs, certain.shape[0], what)
  extra = got & ~possible
  if extra.any():
    i, j = np.argwhere(extra)[0]
    require(False, '%s: center %d has point %d, which is not a neighbor (%d '
            'such pairs)', what, i, j, int(extra.sum()))
  if limit == 0:
    missing = certain & ~got
    if missing.any():
      i, j = np.argwhere(missing)[0]
      require(False, '%s: center %d misses its neighbor %d (%d such pairs)',
              what, i, j, int(missing.sum()))
  else:
    n = got.sum(axis=1)
    lo = np.minimum(limit, certain.sum(axis=1))
    hi = np.minimum(limit, possible.sum(axis=1))
    bad = (n < lo) | (n > hi)
    require(not bad.any(), '%s: a center has %s neighbors instead of %s, '
            'limit %d', what, n[bad][:1].tolist(), lo[bad][:1].tolist(), limit)


def _run(case, ctx):
  from pylib.pc import Grid, Neighborhood
  from pylib.pc import Neighborhood as _N  # noqa
  import pylib.pc as P
  c = gen.Cloud(case['cloud'])
  cen = gen.Centers(case['centers'], c)
  radii = gen.full(case['radius'], c.dim)
  exact = gen.exact_lattice(c.case['step'], case['radius'])
  certain, possible = ref.neighbor_sets(c.points, c.ids, cen.points, cen.ids,
                                        radii, exact)
  radius = gen.as_arg(case['radius'], case['radius_as'])
  limit = case['limit']
  with sut('Grid'):
    grid = Grid(c.pc, np.array(case['cells'], dtype=np.float32))
  with sut('sorted indices'):
    perm = grid._sorted_indices.numpy()
    sorted_points = grid._sorted_points.numpy()
  if cen.kind == 'none':
    # centers are the sorted points
    require(sorted(perm.tolist()) == list(range(c.count)), 'sorted indices')
    certain, possible = certain[perm], possible[perm]
  api = case['api']
  if api == 'class':
    with sut('Neighborhood'):
      nb = Neighborhood(grid, radius, cen.pc, max_neighbors=limit)
      pairs, ranges = nb._original_neigh_ids, nb._samples_neigh_ranges
      sorted_pairs = nb._neighbors
    _check_pairs('neighborhood', pairs, ranges, certain, possible, limit, ctx)
    sp = ref.shaped(sorted_pairs, [None, 2], 'sorted neighbor ids', 'iu')
    op = ref.as_np(pairs)
    require(len(sp) == len(op), 'numbers of pairs differ')
    require(len(sp) == 0 or (sp[:, 0].min() >= 0 and
                             sp[:, 0].max() < c.count), 'ids out of range')
    ref.same(perm[sp[:, 0]], op[:, 0], 'original ids of sorted ids')
    ref.same(sorted_points[sp[:, 0]], c.points[op[:, 0]],
             'points of sorted and original ids')
    ref.same(sp[:, 1], op[:, 1], 'centers of sorted and original pairs')
  elif api == 'op':
    import tensorflow as tf
    from pylib.pc import custom_ops
    from pylib.pc import PointCloud
    if getattr(custom_ops, 'CUSTOM', 0):
      # documented with one radius per dimension
      radius = tf.constant(radii, dtype=tf.float32)
    centers = cen.pc
    if centers is None:
      with sut('PointCloud'):
        centers = PointCloud(grid._sorted_points, grid._sorted_batch_ids,
                             batch_size=c.batch)
    with sut('find_neighbors'):
      ranges, pairs = custom_ops.find_neighbors(grid, centers, radius,
                                                limit)
    p = ref.shaped(pairs, [None, 2], 'pairs', 'iu').copy()
    require(len(p) == 0 or (p[:, 0].min() >= 0 and p[:, 0].max() < c.count),
            'ids out of range')
    p[:, 0] = perm[p[:, 0]]
    _check_pairs('find_neighbors', p, ranges, certain, possible, limit, ctx)
  else:
    from pylib.pc.Neighborhood import compute_neighborhoods
    srt = api == 'function_sorted'
    with sut('compute_neighborhoods'):
      pairs, ranges = compute_neighborhoods(
          grid, radius, cen.pc, limit, return_ranges=True,
          return_sorted_ids=srt)
      alone = compute_neighborhoods(grid, radius, cen.pc, limit,
                                    return_sorted_ids=srt)
    ref.same(alone, ref.as_np(pairs), 'pairs with and without ranges')
    p = ref.shaped(pairs, [None, 2], 'pairs', 'iu').copy()
    require(len(p) == 0 or (p[:, 0].min() >= 0 and p[:, 0].max() < c.count),
            'ids out of range')
    if srt:
      p[:, 0] = perm[p[:, 0]]
    _check_pairs('compute_neighborhoods', p, ranges, certain, possible, limit,
                 ctx)
  counts = certain.sum(axis=1)
  ctx.label('exact arithmetic', exact)
  ctx.label('api=' + api)
  ctx.label('centers=' + cen.kind)
  ctx.label('isolated center', bool((counts == 0).any()))
  ctx.label('limit cuts', limit > 0 and bool((counts > limit).any()))
  ctx.label('radius per dimension', len(case['radius']) > 1)
  ctx.label('cells larger than radius', bool(
      (gen.full(case['cells'], c.dim) > radii).any()))
  if exact:
    d = ref.relative_distances(c.points, cen.points, radii)
    ctx.label('pair exactly at the radius',
              bool(((d == 1) & (cen.ids[:, None] == c.ids[None])).any()))
  ctx.label('> 60 points', c.count > 60)
  if cen.kind == 'other':
    low, high = ref.boxes(c.points, c.ids, c.batch)
    out = (cen.points < low[cen.ids]) | (cen.points > high[cen.ids])
    ctx.label('center outside of the box', bool(out.any()))
  total = certain.sum()
  own = (cen.ids[:, None] == c.ids[None]).sum()
  ctx.interesting(total > 2 * cen.count / 3 and total < own)


@st.composite
def _plain_case(draw):
  cloud = draw(gen.cloud(dims=(1, 2, 3, 4), max_batch=5, large=1300, max_size=60,
                         allow_empty=True))
  spec = draw(gen.centers(cloud))
  if spec['kind'] == 'none':
    spec = dict(kind='same')
  return dict(cloud=cloud, centers=spec,
              radius=draw(gen.cell_sizes(1, cloud['step'], -1, 4))[0])


def _run_plain(case, ctx):
  from pylib.pc.custom_ops.custom_ops_tf import find_neighbors_no_grid
  c = gen.Cloud(case['cloud'])
  cen = gen.Centers(case['centers'], c)
  r = float(np.float32(case['radius']))
  d = ref.relative_distances(c.points, cen.points, [r] * c.dim)
  same_batch = cen.ids[:, None] == c.ids[None]
  if gen.exact_lattice(c.case['step'], [case['radius']]):
    certain = same_batch & ((d < 1 - 1e-6) | (d == 1))
    possible = same_batch & (d < 1 + 1e-6)
  else:
    certain, possible = ref.neighbor_sets(
        c.points, c.ids, cen.points, cen.ids, [r] * c.dim, False)
  with sut('find_neighbors_no_grid'):
    ranges, pairs = find_neighbors_no_grid(c.pc, cen.pc, case['radius'])
  _check_pairs('search without grid', pairs, ranges, certain, possible, 0, ctx)
  counts = certain.sum(axis=1)
  ctx.label('isolated center', bool((counts == 0).any()))
  ctx.interesting(certain.sum() > 2 and certain.sum() < same_batch.sum())


TARGETS = [Target('neighborhood', _case, _run, quick=2400),
           Target('no_grid', _plain_case, _run_plain, quick=600)]
