"""C10: cell average sampling."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut

MODES = ['average', 'cell average', 'cell_average', 'Cell Average']


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(2, 2, 3, 3, 4), max_batch=5, large=1300, max_size=120,
                         allow_empty=True))
  dim = cloud['dim']
  api = draw(st.sampled_from(['cells', 'grid', 'sample']))
  cells = gen.scaled(draw(gen.cell_sizes(dim, cloud['step'], -1, 5)),
                     draw(gen.finer(dim)))
  return dict(cloud=cloud, cells=cells, api=api,
              mode=draw(st.sampled_from(MODES)),
              box=draw(st.integers(0, 4)) == 0 and api != 'cells',
              arg_as=draw(st.sampled_from(gen.ARG_KINDS)))


def cell_means(points, ids, low, high, cells):
  """Means of the occupied cells as {(batch, cell...): (mean, count)}, or None
  if a point is at a cell boundary up to rounding."""
  lo_n, hi_n = ref.cell_counts(low, high, cells)
  if (lo_n != hi_n).any():
    return None
  lo, hi = ref.cell_indices(points, ids, low, cells, lo_n)
  if (lo != hi).any():
    return None
  groups = {}
  for row, (i, cell) in enumerate(zip(ids.tolist(), lo.tolist())):
    groups.setdefault((i,) + tuple(cell), []).append(row)
  return {k: (points[rows].astype(np.float64).mean(axis=0), len(rows))
          for k, rows in groups.items()}


def exact_cells(points, ids, low, high, cells):
  """The same when all the coordinates and cell sizes are dyadic."""
  low_i = low[ids]
  cells = np.asarray(cells, dtype=np.float64)
  counts = np.maximum(np.ceil(np.nanmax((high - low) / cells, axis=0)), 1)
  idx = np.clip(np.floor((points.astype(np.float64) - low_i) / cells), 0,
                counts - 1).astype(np.int64)
  groups = {}
  for row, (i, cell) in enumerate(zip(ids.tolist(), idx.tolist())):
    groups.setdefault((i,) + tuple(cell), []).append(row)
  return {k: (points[rows].astype(np.float64).mean(axis=0), len(rows))
          for k, rows in groups.items()}


def match_means(points, ids, groups, tol, what):
  """Multiset comparison of samples with the expected means."""
  require(len(points) == len(groups), '%s: %d samples for %d occupied cells',
          what, len(points), len(groups))
  for batch in sorted({k[0] for k in groups}):
    got = points[ids == batch].astype(np.float64)
    want = np.array([v[0] for k, v in groups.items() if k[0] == batch])
    require(len(got) == len(want), '%s: cloud %d has %d samples for %d '
            'occupied cells', what, batch, len(got), len(want))
    free = np.ones(len(want), dtype=bool)
    for row in got:
      dist = np.where(free, np.abs(want - row).max(axis=1), np.inf)
      best = int(np.argmin(dist))
      require(dist[best] <= tol, '%s: sample %s of cloud %d is the mean of no '
              'cell', what, row.tolist(), batch)
      free[best] = False


def _run(case, ctx):
  import pylib.pc as P
  c = gen.Cloud(case['cloud'])
  cells = gen.full(case['cells'], c.dim)
  cells_arg = gen.as_arg(case['cells'], case['arg_as'])
  with sut('cell average sampling (%s)' % case['api']):
    if case['api'] == 'cells':
      out = P.cell_average_sampling(c.pc, cell_sizes=cells_arg)
    else:
      if case['box']:
        grid = P.Grid(c.pc, cells_arg, aabb=c.pc.get_AABB())
      else:
        grid = P.Grid(c.pc, cells_arg)
      if case['api'] == 'grid':
        out = P.cell_average_sampling(c.pc, grid=grid)
      else:
        out, indices = P.sample(P.Neighborhood(grid, cells_arg), case['mode'])
        require(indices is None, 'indices of averages')
    points, ids = out._points, out._batch_ids
  points = ref.shaped(points, [None, c.dim], 'averages', 'f')
  ids = ref.shaped(ids, [len(points)], 'batch ids', 'iu')
  low, high = ref.boxes(c.points, c.ids, c.batch)
  if gen.exact_lattice(c.case['step'], case['cells']):
    groups = exact_cells(c.points, c.ids, low, high, cells)
  else:
    groups = cell_means(c.points, c.ids, low, high, cells)
  ctx.label('api=' + case['api'])
  ctx.label('empty cloud', bool((c.sizes == 0).any()))
  ctx.label('several clouds', c.batch > 1)
  ctx.label('cells per dimension', len(case['cells']) > 1)
  if groups is None:
    ctx.label('ambiguous cell')
    return
  mag = np.abs(c.points).max(initial=0)
  match_means(points, ids, groups, 1e-6 + 4e-6 * mag, case['api'])
  with sut('get_sizes of the averages'):
    sizes = out.get_sizes()
  ref.same(sizes, np.bincount(ids, minlength=c.batch), 'sizes of the averages')
  biggest = max(v[1] for v in groups.values())
  ctx.label('a cell with several points', biggest > 1)
  ctx.interesting(biggest > 1 and len(groups) > 2)


TARGETS = [Target('average', _case, _run, quick=1800)]
