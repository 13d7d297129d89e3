"""C11: point hierarchies."""
import types

import numpy as np
from hypothesis import strategies as st

from checks import c09, c10
from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _level_cells(draw, dim, step, scale):
  one = st.sampled_from([1.0, 1.0, 2.0, 0.5, 4.0, 1.5]).map(
      lambda f: f * step * scale)
  count = draw(st.sampled_from([1, 1, dim] + list(range(1, dim + 1))))
  return [draw(one) for _ in range(count)]


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(2, 3, 3, 4), max_batch=6, large=400, max_size=40,
                         allow_empty=True))
  levels = draw(st.integers(1, 3))
  scale = draw(st.sampled_from([1.0, 2.0, 4.0]))
  cells = []
  for _ in range(levels):
    cells.append(draw(_level_cells(cloud['dim'], cloud['step'], scale)))
    scale *= draw(st.sampled_from([1.0, 2.0, 2.0, 4.0]))
  batch = len(cloud['sizes'])
  shapes = gen.factor_shapes(batch)
  op = st.one_of(
      st.builds(lambda s: ['shape', s], st.sampled_from(shapes)),
      st.just(['shape', None]),
      st.just(['points']),
      st.builds(lambda k: ['points_max', k], st.integers(0, 3)),
      st.builds(lambda b: ['cloud', b], st.integers(0, batch - 1)),
      st.just(['sizes']),
      st.builds(lambda i, t: ['neighborhood', i, t],
                st.integers(-levels, levels - 1), st.booleans()),
      st.builds(lambda t: ['neighborhoods', t], st.booleans()))
  return dict(cloud=cloud, cells=cells,
              mode=draw(st.sampled_from(
                  ['poisson', 'poisson', 'average', 'cell average',
                   'cell_average', 'poisson disk'])),
              cells_as=draw(st.sampled_from(['list', 'numpy', 'tensor',
                                             'float'])),
              default_mode=draw(st.booleans()),
              tf_seed=draw(st.integers(0, 10**6)),
              ops=draw(st.lists(op, min_size=1, max_size=7)))


def _level_arg(values, how):
  import tensorflow as tf
  if len(values) == 1 and how == 'float':
    return values[0]
  if how == 'tensor':
    return tf.constant(values, dtype=tf.float32)
  if how == 'numpy':
    return np.array(values, dtype=np.float32)
  return list(values)


def _check_neighborhood(nb, level, radii, exact, transposed, what):
  """Neighborhood of a level with itself (centers: its sorted points)."""
  with sut(what):
    pairs = nb._original_neigh_ids
    ranges = nb._samples_neigh_ranges
    if not transposed:
      perm = nb._grid._sorted_indices.numpy()
  pairs = ref.shaped(pairs, [None, 2], what, 'iu').astype(np.int64)
  ref.check_ranges(ranges, pairs, level.count, what)
  ref.pair_set(pairs, what)
  certain, possible = ref.neighbor_sets(
      level.points, level.ids, level.points, level.ids, radii, exact)
  got = np.zeros((level.count, level.count), dtype=bool)
  require(pairs.min() >= 0 and pairs.max() < level.count,
          '%s: id out of range', what)
  if transposed:
    # the relation up to the order of one side: compare the counts
    got[pairs[:, 1], pairs[:, 0]] = True
    degrees = np.sort(got.sum(axis=1))
    require((np.sort(certain.sum(axis=1)) <= degrees).all() and
            (degrees <= np.sort(possible.sum(axis=1))).all(),
            '%s: numbers of neighbors', what)
    return
  got[perm[pairs[:, 1]], pairs[:, 0]] = True
  bad = (got & ~possible) | (certain & ~got)
  require(not bad.any(), '%s: pair %s is wrong', what,
          np.argwhere(bad)[:1].tolist())


def _run(case, ctx):
  import tensorflow as tf
  import pylib.pc as P
  c = gen.Cloud(case['cloud'])
  tf.random.set_seed(case['tf_seed'])
  shape = list(c.shape) if c.shape is not None else None
  poisson = case['mode'].startswith('poisson')
  args = [_level_arg(v, case['cells_as']) for v in case['cells']]
  with sut('PointHierarchy'):
    if case['mode'] == 'poisson' and case['default_mode']:
      h = P.PointHierarchy(c.pc, args)
    else:
      h = P.PointHierarchy(c.pc, args, case['mode'])
  with sut('len'):
    require(len(h) == len(args) + 1, 'len %d for %d cell sizes', len(h),
            len(args))
    require(h[0] is c.pc or
            np.array_equal(h[0]._points.numpy(), c.points),
            'level 0 is not the input')
  low, high = ref.boxes(c.points, c.ids, c.batch)
  prev = types.SimpleNamespace(points=c.points, ids=c.ids, count=c.count)
  levels = [prev]
  radii = []
  exact = []
  sampled = 0
  for i, values in enumerate(case['cells']):
    full = values + [values[-1]] * (c.dim - len(values))
    r = gen.full(full, c.dim)
    with sut('level %d' % (i + 1)):
      points, ids = h[i + 1]._points, h[i + 1]._batch_ids
    points = ref.shaped(points, [None, c.dim], 'level %d' % (i + 1), 'f')
    ids = ref.shaped(ids, [len(points)], 'batch ids of level %d' % (i + 1),
                     'iu')
    what = 'level %d (%s)' % (i + 1, case['mode'])
    lattice = gen.exact_lattice(c.case['step'], full)
    if poisson:
      c09.check_samples(prev, r, lattice, points, ids, None, what)
      exact.append(lattice)
    else:
      if lattice and i == 0:
        groups = c10.exact_cells(prev.points, prev.ids, low, high, r)
      else:
        groups = c10.cell_means(prev.points, prev.ids, low, high, r)
      if groups is not None:
        mag = np.abs(c.points).max(initial=0)
        c10.match_means(points, ids, groups, 1e-6 + 4e-6 * mag, what)
      else:
        ctx.label('ambiguous cell')
      exact.append(lattice and i == 0)
    if len(points) < prev.count:
      sampled += 1
    radii.append(r)
    prev = types.SimpleNamespace(points=points, ids=ids, count=len(points))
    levels.append(prev)
  sizes = [np.bincount(lv.ids, minlength=c.batch) for lv in levels]
  changed = False
  kinds = set()
  for op in [['sizes']] + case['ops'] + [['points'], ['sizes']]:
    full = shape if shape is not None else [c.batch]
    kinds.add(op[0])
    if op[0] == 'shape':
      with sut('set_batch_shape(%s)' % (op[1],)):
        h.set_batch_shape(op[1])
      shape = op[1]
      changed = True
    elif op[0] == 'sizes':
      with sut('get_sizes'):
        out = h.get_sizes()
      require(len(out) == len(levels), 'get_sizes: %d entries', len(out))
      for i, (got, want) in enumerate(zip(out, sizes)):
        ref.same(got, want.reshape(full), 'sizes of level %d' % i)
    elif op[0] in ('points', 'points_max'):
      kwargs = {}
      if op[0] == 'points_max':
        kwargs['max_num_points'] = max(1, int(sizes[0].max())) + op[1]
      with sut('get_points(%s)' % kwargs):
        out = h.get_points(**kwargs)
      require(len(out) == len(levels), 'get_points: %d entries', len(out))
      for i, (got, lv) in enumerate(zip(out, levels)):
        got = ref.shaped(got, full + [None, c.dim], 'points of level %d' % i)
        rows = got.shape[-2]
        if kwargs:
          require(rows == kwargs['max_num_points'],
                  'points of level %d: V = %d', i, rows)
        else:
          require(rows == sizes[i].max() or (i == 0 and
                                             rows == c.default_rows()),
                  'points of level %d: V = %d for sizes %s', i, rows,
                  sizes[i].tolist())
        want = np.zeros((c.batch, rows, c.dim), dtype=np.float32)
        for b in range(c.batch):
          own = lv.points[lv.ids == b]
          want[b, :len(own)] = own
        ref.same(got, want.reshape(full + [rows, c.dim]),
                 'points of level %d' % i)
    elif op[0] == 'cloud':
      with sut('get_points(%d)' % op[1]):
        out = h.get_points(op[1])
      for i, (got, lv) in enumerate(zip(out, levels)):
        ref.same(got, lv.points[lv.ids == op[1]],
                 'cloud %d of level %d' % (op[1], i))
    elif op[0] == 'neighborhood':
      with sut('get_neighborhood(%d, %s)' % (op[1], op[2])):
        nb = h.get_neighborhood(op[1], transposed=op[2])
      i = op[1] % len(radii)
      _check_neighborhood(nb, levels[i], radii[i], exact[i], op[2],
                          'neighborhood %d (transposed: %s)' % (op[1], op[2]))
    else:
      with sut('get_neighborhood(transposed=%s)' % op[1]):
        nbs = h.get_neighborhood(transposed=op[1])
      require(len(nbs) == len(radii), '%d neighborhoods', len(nbs))
      for i, nb in enumerate(nbs):
        _check_neighborhood(nb, levels[i], radii[i], exact[i], op[1],
                            'neighborhood %d of all (transposed: %s)' % (
                                i, op[1]))
  ctx.label('poisson', poisson)
  ctx.label('cell average', not poisson)
  ctx.label('levels >= 2', len(radii) >= 2)
  ctx.label('short cell size vector',
            any(1 < len(v) < c.dim for v in case['cells']))
  ctx.label('batch shape changed', changed)
  ctx.label('empty cloud', bool((c.sizes == 0).any()))
  ctx.label('neighborhoods read',
            bool(kinds & {'neighborhood', 'neighborhoods'}))
  ctx.interesting(sampled >= 1 and levels[-1].count > 1 and len(kinds) >= 3)


TARGETS = [Target('hierarchy', _case, _run, quick=700)]
