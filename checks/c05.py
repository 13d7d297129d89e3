"""C05: the regular grid."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(1, 2, 2, 3, 3, 3, 4, 5, 6), max_batch=6, large=4100,
                         max_size=150, allow_empty=True))
  case = dict(cloud=cloud,
              cells=gen.scaled(
                  draw(gen.cell_sizes(cloud['dim'], cloud['step'])),
                  draw(gen.finer(cloud['dim']))),
              cells_as=draw(st.sampled_from(gen.ARG_KINDS)),
              box=None)
  if draw(st.integers(0, 3)) == 0:
    case['box'] = draw(st.lists(
        st.lists(st.integers(-8, 8), min_size=cloud['dim'],
                 max_size=cloud['dim']),
        min_size=len(cloud['sizes']), max_size=len(cloud['sizes'])))
  return case


def _run(case, ctx):
  from pylib.pc import Grid, PointCloud
  c = gen.Cloud(case['cloud'])
  cell = gen.full(case['cells'], c.dim)
  box = None
  box_points, box_ids = c.points, c.ids
  if case['box'] is not None:
    # box of a larger cloud: one more point per cloud
    extra, extra_ids = [], []
    for b in range(c.batch):
      own = c.points[c.ids == b]
      if len(own):
        extra.append(own[0] + np.float32(c.case['step']) *
                     np.array(case['box'][b], dtype=np.float32))
        extra_ids.append(b)
    box_points = np.concatenate([c.points, np.array(extra, np.float32)])
    box_ids = np.concatenate([c.ids, extra_ids])
    with sut('bounding box'):
      box = PointCloud(box_points, batch_ids=box_ids,
                       batch_size=c.batch).get_AABB()
  low, high = ref.boxes(box_points, box_ids, c.batch)
  with sut('Grid'):
    grid = Grid(c.pc, gen.as_arg(case['cells'], case['cells_as']),
                **({} if box is None else dict(aabb=box)))
    num_cells, keys = grid._num_cells, grid._cur_keys
    s_points, s_keys = grid._sorted_points, grid._sorted_keys
    s_ids, s_index = grid._sorted_batch_ids, grid._sorted_indices

  num_cells = ref.shaped(num_cells, [c.dim], 'number of cells', 'iu')
  exact = gen.exact_lattice(c.case['step'], case['cells'])
  if exact:
    lo = np.maximum(np.ceil(np.nanmax((high - low) / cell, axis=0)), 1)
    hi = lo
  else:
    lo, hi = ref.cell_counts(low, high, cell)
  require(((num_cells >= lo) & (num_cells <= hi)).all(),
          'number of cells %s, expected %s..%s', num_cells.tolist(),
          lo.tolist(), hi.tolist())

  keys = ref.shaped(keys, [c.count], 'keys', 'iu')
  got_batch, got_cells = ref.cells_from_keys(keys, num_cells)
  ref.same(got_batch, c.ids, 'cloud encoded in the keys')
  counts = num_cells.astype(np.int64)
  if exact:
    rel = np.floor((c.points.astype(np.float64) - low[c.ids]) / cell)
    want = np.clip(rel, 0, counts - 1).astype(np.int64)
    ref.same(got_cells, want, 'cell of the points')
  else:
    lo, hi = ref.cell_indices(c.points, c.ids, low, cell, counts)
    bad = (got_cells < lo) | (got_cells > hi)
    require(not bad.any(), 'cells of the points: %s, expected %s..%s',
            got_cells[bad.any(axis=1)][:1].tolist(),
            lo[bad.any(axis=1)][:1].tolist(),
            hi[bad.any(axis=1)][:1].tolist())

  index = ref.shaped(s_index, [c.count], 'sorted indices', 'iu')
  ref.same(np.sort(index), np.arange(c.count), 'sorted indices (sorted)')
  s_keys = ref.shaped(s_keys, [c.count], 'sorted keys', 'iu')
  ref.same(s_keys, keys[index], 'sorted keys')
  ref.same(s_points, c.points[index], 'sorted points')
  s_ids = ref.as_np(s_ids)
  ref.same(s_ids, c.ids[index], 'sorted batch ids')
  steps = np.diff(s_keys.astype(np.int64))
  require((steps <= 0).all() or (steps >= 0).all(), 'keys are not sorted')

  occupied = len(set(keys.tolist()))
  if c.dim >= 2:
    with sut('get_DS'):
      table = grid.get_DS()
    table = ref.shaped(table, [c.batch, counts[0], counts[1], 2],
                       'lookup table', 'iu').astype(np.int64)
    begin, end = table[..., 0], table[..., 1]
    require((end >= begin).all() and (begin >= 0).all() and
            (end <= c.count).all(), 'invalid ranges in the lookup table')
    owner = np.full(c.count, -1)
    for b, i, j in np.argwhere(end > begin):
      rng = slice(begin[b, i, j], end[b, i, j])
      require((owner[rng] == -1).all(), 'overlapping ranges')
      owner[rng] = (b * counts[0] + i) * counts[1] + j
    _, sc = ref.cells_from_keys(s_keys, num_cells)
    want = (s_ids.astype(np.int64) * counts[0] + sc[:, 0]) * counts[1] + \
        sc[:, 1]
    ref.same(owner, want, '2D cell of the sorted points')
    with sut('get_DS again'):
      again = grid.get_DS()
    ref.same(again, table, 'lookup table read again')

  ctx.label('dim=%d' % c.dim)
  ctx.label('exact arithmetic', exact)
  ctx.label('explicit box', box is not None)
  ctx.label('empty clouds', bool((c.sizes == 0).any()))
  ctx.label('cells per dimension', len(case['cells']) > 1)
  if exact:
    top = ((high[c.ids] - c.points) == 0) & (
        np.mod((c.points - low[c.ids]) / cell, 1) == 0) & (
            c.points > low[c.ids])
    ctx.label('point on the upper side at a cell border', bool(top.any()))
  ctx.label('> 1000 cells', int(np.prod(counts)) > 1000)
  ctx.label('> 2^31 cells', c.batch * int(np.prod(counts)) > 2**31)
  ctx.interesting(occupied > 2 and c.count > occupied)


TARGETS = [Target('grid', _case, _run, quick=2400)]
