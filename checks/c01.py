"""C01: packed and padded forms of a batch hold the same points."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, fail, require, sut


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(1, 2, 3, 4, 5), max_batch=7, large=700, max_size=60,
                         allow_empty=True))
  return dict(
      cloud=cloud,
      extra=draw(st.sampled_from([0, 1, 2, 5, 17])),
      channels=draw(st.sampled_from([1, 2, 4])),
      points_as=draw(st.sampled_from(['float32', 'float64', 'list', 'tensor'])),
      ids_as=draw(st.sampled_from(['int64', 'int32', 'list', 'tensor'])))


def _build(cloud, points_as, ids_as):
  import tensorflow as tf
  from pylib.pc import PointCloud

  def as_points(p):
    if points_as == 'float64':
      return p.astype(np.float64)
    if points_as == 'list':
      return p.astype(np.float64).tolist()
    if points_as == 'tensor':
      return tf.constant(p)
    return p

  def as_ints(v):
    if ids_as == 'int32':
      return v.astype(np.int32)
    if ids_as == 'list':
      return v.tolist()
    if ids_as == 'tensor':
      return tf.constant(v.astype(np.int32))
    return v

  case = cloud.case
  kwargs = {}
  if case.get('batch_size'):
    kwargs['batch_size'] = cloud.batch
  if case['layout'] == 'ids':
    return PointCloud(as_points(cloud.points), batch_ids=as_ints(cloud.ids),
                      **kwargs)
  sizes = as_ints(cloud.sizes.reshape(case['shape']))
  if case['layout'] == 'sizes':
    return PointCloud(as_points(cloud.points), sizes=sizes, **kwargs)
  padded = cloud.padded(cloud.major, pad=case['pad'],
                        fill=case['garbage']).reshape(
                            case['shape'] + [-1, cloud.dim])
  if case['no_sizes']:
    return PointCloud(as_points(padded), **kwargs)
  return PointCloud(as_points(padded), sizes=sizes, **kwargs)


def _run(case, ctx):
  c = gen.Cloud(case['cloud'], build=False)
  with sut('PointCloud'):
    pc = _build(c, case['points_as'], case['ids_as'])
  ctx.label('layout=' + c.case['layout'])
  ctx.label('empty clouds', (c.sizes == 0).any())
  ctx.label('trailing empty cloud', c.sizes[-1] == 0)
  ctx.label('unsorted ids', bool((np.diff(c.ids) < 0).any()))
  ctx.label('multi-dimensional batch shape',
            c.shape is not None and len(c.shape) > 1)
  ctx.label('garbage padding', c.case.get('garbage', 0) != 0 and (
      c.case.get('pad', 0) > 0 or len(set(c.case['sizes'])) > 1))
  ctx.label('dim=%d' % c.dim)
  ctx.interesting(c.batch > 1 and c.count > 2)
  shape = c.shape or [c.batch]

  with sut('get_sizes'):
    sizes = pc.get_sizes()
  ref.same(ref.shaped(sizes, shape, 'sizes', 'iu'), c.sizes.reshape(shape),
           'sizes')

  # single clouds
  for b in range(c.batch):
    with sut('get_points(%d)' % b):
      own = pc.get_points(b)
    ref.same(own, c.points[c.ids == b], 'points of cloud %d' % b)
  if c.shape is not None:
    for index in np.ndindex(*c.shape):
      b = int(np.ravel_multi_index(index, c.shape))
      with sut('get_points(%s)' % (list(index),)):
        own = pc.get_points(list(index))
      ref.same(own, c.points[c.ids == b], 'points of cloud %s' % (index,))

  # padded, default V
  with sut('get_points()'):
    padded = pc.get_points()
  padded = ref.shaped(padded, shape + [None, c.dim], 'padded points', 'f')
  rows = padded.shape[-2]
  require(rows in (c.default_rows(), int(c.sizes.max())),
          'padded points: V = %d for sizes %s', rows, c.case['sizes'])
  major = c.to_major(c.points)
  ref.same(padded, c.padded(major, rows=rows).reshape(
      shape + [rows, c.dim]), 'padded points')

  # padded, requested V
  want = int(c.sizes.max()) + case['extra']
  if want > 0:
    with sut('get_points(max_num_points=%d)' % want):
      padded = pc.get_points(max_num_points=want)
    ref.same(padded, c.padded(major, rows=want).reshape(
        shape + [want, c.dim]), 'points padded to %d' % want)

  # other per-point data
  chan = case['channels']
  data = np.arange(1, c.count * chan + 1, dtype=np.float32).reshape(-1, chan)
  with sut('get_unflatten()'):
    out = pc.get_unflatten()(data)
  ref.same(out, c.padded(c.to_major(data), rows=rows).reshape(
      shape + [rows, chan]), 'unflattened data')
  with sut('get_unflatten(max_num_points)'):
    out = pc.get_unflatten(max_num_points=want)(data)
  ref.same(out, c.padded(c.to_major(data), rows=want).reshape(
      shape + [want, chan]), 'data unflattened to %d' % want)

  # round trip through the padded form
  from pylib.pc import PointCloud
  with sut('round trip'):
    again = PointCloud(pc.get_points(), sizes=pc.get_sizes())
    flat = [again.get_points(b).numpy() for b in range(c.batch)]
    sizes = again.get_sizes()
  ref.same(sizes, c.sizes.reshape(shape), 'sizes after a round trip')
  for b in range(c.batch):
    ref.same(flat[b], c.points[c.ids == b], 'cloud %d after a round trip' % b)


TARGETS = [Target('layouts', _case, _run, quick=2000)]
