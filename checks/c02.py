"""C02: histories of reshaping and reading."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, rejects, require, sut


@st.composite
def _case(draw):
  batch = draw(st.sampled_from([1, 2, 3, 4, 4, 6, 6, 8, 12]))
  sizes = draw(st.lists(st.integers(0, 6), min_size=batch, max_size=batch))
  if sum(sizes) == 0:
    sizes[-1] = 1
  cloud = draw(gen.cloud(dims=(1, 2, 3), sizes=sizes))
  shapes = gen.factor_shapes(batch)
  op = st.one_of(
      st.builds(lambda s: ['shape', s], st.sampled_from(shapes)),
      st.builds(lambda s: ['shape', s], st.sampled_from(shapes)),
      st.just(['shape', None]),
      st.builds(lambda s: ['bad_shape', s], st.sampled_from(
          [[batch + 1], [batch, 2], [2, batch + 1], [0], [1, batch + 3]])),
      st.just(['points']),
      st.builds(lambda k: ['points_max', k], st.integers(0, 4)),
      st.builds(lambda b: ['cloud', b], st.integers(0, batch - 1)),
      st.builds(lambda b: ['cloud_index', b], st.integers(0, batch - 1)),
      st.just(['sizes']),
      st.just(['unflatten']),
      st.builds(lambda k: ['unflatten_max', k], st.integers(0, 4)),
      st.builds(lambda o: ['diameter', o],
                st.sampled_from(['euclidean', 1, 2, 'inf'])))
  return dict(cloud=cloud, ops=draw(st.lists(op, min_size=2, max_size=14)))


def _run(case, ctx):
  c = gen.Cloud(case['cloud'])
  pc = c.pc
  shape = list(c.shape) if c.shape is not None else None
  index_shape = shape  # shape under which clouds can be indexed
  reshaped = False
  major = c.to_major(c.points)
  data = np.arange(1, 2 * c.count + 1, dtype=np.float32).reshape(-1, 2)
  biggest = int(c.sizes.max())
  low, high = ref.boxes(c.points, c.ids, c.batch)
  kinds = set()
  changes = 0
  for op in case['ops']:
    name = op[0]
    kinds.add(name)
    full = shape if shape is not None else [c.batch]
    # V of the default padding: that of the input, or the largest size
    if name == 'shape':
      with sut('set_batch_shape(%s)' % (op[1],)):
        pc.set_batch_shape(op[1])
      if op[1] is not None and op[1] != shape:
        changes += 1
      shape = op[1]
      if shape is not None:
        index_shape = shape
      else:
        index_shape = None
      reshaped = True
    elif name == 'bad_shape':
      if int(np.prod(op[1])) == c.batch:
        continue
      with rejects('set_batch_shape(%s) of %d clouds' % (op[1], c.batch)):
        pc.set_batch_shape(op[1])
    elif name in ('points', 'unflatten'):
      if name == 'points':
        with sut('get_points()'):
          out = pc.get_points()
        rows_of, width = major, c.dim
      else:
        with sut('get_unflatten()'):
          out = pc.get_unflatten()(data)
        rows_of, width = c.to_major(data), 2
      out = ref.shaped(out, full + [None, width], name, 'f')
      rows = out.shape[-2]
      require(rows in (biggest, c.default_rows()),
              '%s: V = %d for sizes %s' % (name, rows, c.case['sizes']))
      ref.same(out, c.padded(rows_of, rows=rows).reshape(
          full + [rows, width]), name)
    elif name in ('points_max', 'unflatten_max'):
      want = max(1, biggest + op[1])
      if name == 'points_max':
        with sut('get_points(max_num_points=%d)' % want):
          out = pc.get_points(max_num_points=want)
        rows_of, width = major, c.dim
      else:
        with sut('get_unflatten(max_num_points=%d)' % want):
          out = pc.get_unflatten(max_num_points=want)(data)
        rows_of, width = c.to_major(data), 2
      ref.same(out, c.padded(rows_of, rows=want).reshape(
          full + [want, width]), name)
    elif name == 'cloud':
      with sut('get_points(%d)' % op[1]):
        out = pc.get_points(op[1])
      ref.same(out, c.points[c.ids == op[1]], 'points of cloud %d' % op[1])
    elif name == 'cloud_index':
      if index_shape is None:
        continue
      index = [int(i) for i in np.unravel_index(op[1], index_shape)]
      with sut('get_points(%s)' % index):
        out = pc.get_points(index)
      ref.same(out, c.points[c.ids == op[1]], 'points of cloud %s' % index)
    elif name == 'sizes':
      with sut('get_sizes()'):
        out = pc.get_sizes()
      ref.same(ref.shaped(out, full, 'sizes', 'iu'), c.sizes.reshape(full),
               'sizes')
    elif name == 'diameter':
      order = np.inf if op[1] == 'inf' else op[1]
      with sut('get_AABB().get_diameter(%s)' % op[1]):
        out = pc.get_AABB().get_diameter(ord=order)
      out = ref.shaped(out, full, 'diameter', 'f').reshape(-1)
      norm = 2 if order == 'euclidean' else order
      for b in range(c.batch):
        if c.sizes[b]:
          want = np.linalg.norm(high[b] - low[b], ord=norm)
          ref.close(out[b], want, 'diameter of cloud %d' % b)
  ctx.label('layout=' + c.case['layout'])
  ctx.label('>= 2 shape changes', changes >= 2)
  ctx.label('rejected change', 'bad_shape' in kinds)
  ctx.label('shape removed', ['shape', None] in case['ops'])
  ctx.label('padding request then default read', 'points_max' in kinds and
            'points' in kinds)
  ctx.interesting(reshaped and len(kinds) >= 3)


TARGETS = [Target('history', _case, _run, quick=2400)]
