"""C16: kernel point layouts and random rotations."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut

SIZES = [5, 7, 13, 15, 18]


def _ring(count, radius, z, turn):
  angle = turn + 2 * np.pi * np.arange(count) / count
  return np.stack([radius * np.cos(angle), radius * np.sin(angle),
                   np.full(count, z)], axis=1)


def layout(num):
  """The documented layout, up to rotations."""
  poles = np.array([[0, 0, 0], [0, 0, 1], [0, 0, -1]], dtype=np.float64)
  if num == 5:
    p = np.array([[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]])
    return np.concatenate([poles[:1], p / np.sqrt(3)])
  if num == 7:
    return np.concatenate([poles[:1], np.eye(3), -np.eye(3)])
  if num == 13:
    # latitudes of the icosahedron
    z = 1 / np.sqrt(5)
    r = 2 / np.sqrt(5)
    return np.concatenate([poles, _ring(5, r, z, 0), _ring(5, r, -z,
                                                           np.pi / 5)])
  if num == 15:
    z = np.sqrt(3) / 2
    return np.concatenate([poles, _ring(6, 0.5, z, 0),
                           _ring(6, 0.5, -z, np.pi / 6)])
  r = 1 / np.sqrt(2)
  return np.concatenate([poles, _ring(5, r, 0.5, 0),
                         _ring(5, 1.0, 0.0, np.pi / 5), _ring(5, r, -0.5, 0)])


def _distances(p):
  d = np.linalg.norm(p[:, None].astype(np.float64) - p[None], axis=2)
  return np.sort(d[np.triu_indices(len(p), 1)])


@st.composite
def _layout_case(draw):
  return dict(num=draw(st.sampled_from(SIZES)),
              rotate=draw(st.sampled_from([None, True, False])),
              layer=draw(st.sampled_from([False, False, 'rigid',
                                          'deformable'])),
              tf_seed=draw(st.integers(0, 10**6)))


def _run_layout(case, ctx):
  import tensorflow as tf
  from pylib.pc.layers import KPConv, spherical_kernel_points
  tf.random.set_seed(case['tf_seed'])
  num = case['num']
  kwargs = {} if case['rotate'] is None else dict(rotate=case['rotate'])
  scale = 1.0
  with sut('kernel points'):
    if case['layer']:
      points = KPConv(2, 3, num_kernel_points=num,
                      deformable=case['layer'] == 'deformable')._kernel_points
      scale = 0.75
    else:
      points = spherical_kernel_points(num, **kwargs)
  points = ref.shaped(points, [num, 3], 'kernel points', 'f').astype(
      np.float64) / scale
  norms = np.linalg.norm(points, axis=1)
  require(norms.min() < 1e-5, 'no kernel point in the center')
  require(norms.max() < 1 + 1e-5, 'kernel point outside of the unit sphere: '
          'length %g', norms.max())
  dist = _distances(points)
  require(dist[0] > 1e-2, 'kernel points coincide')
  ref.close(points.sum(axis=0), np.zeros(3), 'sum of the kernel points',
            atol=1e-4)
  ref.close(dist, _distances(layout(num)), 'mutual distances of the %d kernel '
            'points' % num, atol=1e-4)
  if case['rotate'] is False and not case['layer']:
    with sut('kernel points, again'):
      again = spherical_kernel_points(num, rotate=False)
    ref.close(again, points, 'layout without rotation', atol=1e-6)
  ctx.label('size=%d' % num)
  ctx.label('in a layer', bool(case['layer']))
  ctx.label('rotated', bool(case['layer']) or case['rotate'] is not False)
  ctx.interesting(bool(case['layer']) or case['rotate'] is not False)


@st.composite
def _rotation_case(draw):
  num = draw(st.integers(1, 12))
  return dict(points=draw(gen.ints_block(num, 3, 41)),
              step=draw(gen.steps()),
              arg=draw(st.sampled_from(['numpy', 'tensor', 'list'])),
              tf_seed=draw(st.integers(0, 10**6)))


def _run_rotation(case, ctx):
  import tensorflow as tf
  from pylib.pc.layers.utils import random_rotation
  tf.random.set_seed(case['tf_seed'])
  points = ((np.array(case['points'], dtype=np.float64) - 20) *
            case['step']).astype(np.float32)
  arg = points
  if case['arg'] == 'tensor':
    arg = tf.constant(points)
  elif case['arg'] == 'list':
    arg = points.tolist()
  with sut('random_rotation'):
    outs = [random_rotation(arg).numpy() for _ in range(3)]
  mag = max(1.0, np.abs(points).max())
  p = points.astype(np.float64)
  for out in outs:
    q = ref.shaped(out, [len(points), 3], 'rotated points', 'f').astype(
        np.float64)
    ref.close(q @ q.T, p @ p.T, 'inner products of rotated points',
              rtol=1e-5, atol=2e-5 * mag ** 2)
    # volume of a triple keeps its sign
    for i, j, k in list(itertools.combinations(range(len(p)), 3))[:20]:
      before = np.linalg.det(p[[i, j, k]])
      after = np.linalg.det(q[[i, j, k]])
      require(abs(before - after) <= 1e-4 * mag ** 3,
              'volume %g of points %s becomes %g', before, [i, j, k], after)
      ctx.label('orientation seen', abs(before) > 1e-2 * mag ** 3)
  if np.abs(p).max() > 0:
    same = all(np.array_equal(outs[0], o) for o in outs[1:])
    require(not same, 'three random rotations are the same')
  rank = np.linalg.matrix_rank(p) if len(p) else 0
  ctx.label('rank=%d' % rank)
  ctx.interesting(rank == 3)


@st.composite
def _cube_case(draw):
  return dict(n=draw(st.integers(2, 7)), named=draw(st.booleans()))


def _run_cube(case, ctx):
  from pylib.pc.layers import cube_kernel_points
  n = case['n']
  with sut('cube_kernel_points(%d)' % n):
    out = (cube_kernel_points(n, name='cube') if case['named'] else
           cube_kernel_points(n))
  out = ref.shaped(out, [n ** 3, 3], 'cube kernel points', 'f')
  index = out.astype(np.float64) * (n - 1)
  ref.close(index, np.round(index), 'lattice coordinates', atol=1e-4)
  cells = set(map(tuple, np.round(index).astype(int).tolist()))
  want = set(itertools.product(range(n), repeat=3))
  require(cells == want, 'points are not the lattice, e.g. %s',
          sorted(cells ^ want)[:2])
  ctx.interesting(n > 2)


TARGETS = [Target('layout', _layout_case, _run_layout, quick=400),
           Target('rotation', _rotation_case, _run_rotation, quick=800),
           Target('cube', _cube_case, _run_cube, quick=24)]
