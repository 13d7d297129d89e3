"""C04: invalid input is rejected, its nearest valid counterpart accepted."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.core import Target, rejects, require, sut

KINDS = ['points_1d', 'no_segmentation', 'ids_length', 'cloud_index',
         'cloud_multi_index', 'batch_shape', 'padding_too_small',
         'poisson_args', 'average_args', 'sample_mode', 'hierarchy_dims',
         'hierarchy_mode', 'mc_mlps', 'mc_channels', 'kp_dims', 'kp_interp',
         'kp_points', 'feature_rows', 'conv1x1_channels', 'block_layer',
         'activation', 'no_file', 'file_type', 'files_batch_shape', 'table_1d']


@st.composite
def _case(draw):
  kind = draw(st.sampled_from(KINDS))
  dims = (2, 3, 4)
  if kind in ('kp_interp', 'kp_points'):
    dims = (3,)
  cloud = draw(gen.cloud(dims=dims, max_batch=6, max_size=12, span=9,
                         step=0.5, offsets=False))
  return dict(kind=kind, cloud=cloud,
              a=draw(st.integers(0, 11)), b=draw(st.integers(1, 9)),
              flag=draw(st.booleans()))


def _run(case, ctx):
  import tensorflow as tf
  from pylib import pc as P
  from pylib.pc import layers
  from pylib.pc.layers.utils import spherical_kernel_points
  from pylib import io
  kind, a, b, flag = case['kind'], case['a'], case['b'], case['flag']
  c = gen.Cloud(case['cloud'])
  pc, n, dim = c.pc, c.count, c.dim
  ctx.label(kind)
  ctx.interesting()
  feats = np.ones((n, 3), dtype=np.float32)

  if kind == 'points_1d':
    with rejects('1D points', ValueError):
      P.PointCloud(c.points[:, 0], batch_ids=c.ids)
    with sut('2D points'):
      P.PointCloud(c.points, batch_ids=c.ids)
  elif kind == 'no_segmentation':
    with rejects('points without sizes and batch ids', ValueError):
      P.PointCloud(c.points, batch_size=c.batch if flag else None)
    with sut('points with batch ids'):
      P.PointCloud(c.points, batch_ids=c.ids,
                   batch_size=c.batch if flag else None)
  elif kind == 'ids_length':
    bad = np.concatenate([c.ids, c.ids[:1].repeat(b)]) if flag or n <= b else \
        c.ids[:-b]
    with rejects('%d batch ids for %d points' % (len(bad), n)):
      P.PointCloud(c.points, batch_ids=bad)
  elif kind == 'cloud_index':
    bad = c.batch + a if flag else -1 - a
    with rejects('get_points(%d) of %d clouds' % (bad, c.batch)):
      pc.get_points(bad)
    with sut('get_points(%d)' % (a % c.batch)):
      pc.get_points(a % c.batch)
  elif kind == 'cloud_multi_index':
    shape = gen.factor_shapes(c.batch)[a % len(gen.factor_shapes(c.batch))]
    with sut('set_batch_shape(%s)' % shape):
      pc.set_batch_shape(shape)
    axis = b % len(shape)
    index = [a % s for s in shape]
    with sut('get_points(%s)' % index):
      pc.get_points(index)
    index[axis] = shape[axis] + a
    with rejects('get_points(%s) in batch shape %s' % (index, shape)):
      pc.get_points(index)
  elif kind == 'batch_shape':
    shape = list(gen.factor_shapes(c.batch)[
        a % len(gen.factor_shapes(c.batch))])
    good = list(shape)
    shape[b % len(shape)] += b
    with rejects('set_batch_shape(%s) of %d clouds' % (shape, c.batch)):
      pc.set_batch_shape(shape)
    with sut('set_batch_shape(%s)' % good):
      pc.set_batch_shape(good)
  elif kind == 'padding_too_small':
    big = int(c.sizes.max())
    if big < 2:
      return
    bad = 1 + a % (big - 1)
    with rejects('padding of %s points to %d' % (c.case['sizes'], bad)):
      pc.get_points(max_num_points=bad)
    with sut('padding to %d' % big):
      pc.get_points(max_num_points=big)
  elif kind == 'poisson_args':
    with rejects('Poisson sampling without radius', ValueError):
      P.poisson_disk_sampling(pc, return_ids=flag)
    with sut('Poisson sampling'):
      P.poisson_disk_sampling(pc, radius=2.0, return_ids=flag)
  elif kind == 'average_args':
    with rejects('cell average without cells', ValueError):
      P.cell_average_sampling(pc)
    with sut('cell average'):
      P.cell_average_sampling(pc, cell_sizes=2.0)
  elif kind == 'sample_mode':
    nb = P.Neighborhood(P.Grid(pc, 2.0), 2.0)
    bad = ['uniform', 'poisson ', 'averages', '', 'cell'][a % 5]
    with rejects('sampling mode %r' % bad):
      P.sample(nb, bad)
    with sut('sampling mode'):
      P.sample(nb, ['poisson', 'Cell Average'][flag])
  elif kind == 'hierarchy_dims':
    good = [[1.0 + a] * (1 + b % dim)]
    bad = [[1.0 + a] * (dim + 1 + b % 2)]
    if flag:
      good, bad = [2.0] + good, [2.0] + bad
    with rejects('%d cell sizes in %dD' % (len(bad[-1]), dim)):
      P.PointHierarchy(pc, bad, 'cell_average')
    with sut('%d cell sizes in %dD' % (len(good[-1]), dim)):
      P.PointHierarchy(pc, good, 'cell_average')
  elif kind == 'hierarchy_mode':
    bad = ['uniform', 'fps', 'poissondisk'][a % 3]
    with rejects('hierarchy with mode %r' % bad):
      P.PointHierarchy(pc, [1.0 + b], bad)
    with sut('hierarchy'):
      P.PointHierarchy(pc, [1.0 + b], 'poisson_disk' if flag else 'average')
  elif kind == 'mc_mlps':
    mlps = 2 + b % 5
    out = mlps * (1 + a % 3) + 1 + a % (mlps - 1)
    with rejects('MCConv with %d features and %d MLPs' % (out, mlps),
                 ValueError):
      layers.MCConv(3, out, dim, num_mlps=mlps)
    with sut('MCConv'):
      layers.MCConv(3, mlps * (1 + a % 3), dim, num_mlps=mlps)
  elif kind == 'mc_channels':
    bad = 3 + b if flag else 3 - b % 2 - 1
    layer = layers.MCConv(3, 4, dim, num_mlps=2)
    with rejects('MCConv(3 features) with %d features' % bad):
      layer(np.ones((n, bad), dtype=np.float32), pc, pc, 2.0)
    with sut('MCConv'):
      layer(feats, pc, pc, 2.0)
  elif kind == 'kp_dims':
    bad = [2, 4, 5, 6][a % 4]
    with rejects('KPConv in %dD without kernel points' % bad, ValueError):
      layers.KPConv(3, 4, num_dims=bad, deformable=flag)
    with sut('KPConv in %dD with kernel points' % bad):
      layers.KPConv(3, 4, num_kernel_points=b, num_dims=bad, deformable=flag,
                    custom_kernel_points=np.ones((b, bad), dtype=np.float32))
  elif kind == 'kp_interp':
    bad = ['cubic', 'nearest', ''][a % 3]
    with rejects('KPConv interpolation %r' % bad):
      layers.KPConv(3, 4, kp_interpolation=bad, deformable=flag)(
          feats, pc, pc, 2.0)
    with sut('KPConv'):
      layers.KPConv(3, 4, kp_interpolation='gaussian', deformable=flag)
  elif kind == 'kp_points':
    allowed = [5, 7, 13, 15, 18]
    bad = [k for k in range(0, 30) if k not in allowed][(a * 9 + b) % 25]
    with rejects('%d kernel points' % bad, ValueError):
      if flag:
        layers.KPConv(3, 4, num_kernel_points=bad)
      else:
        spherical_kernel_points(bad)
    with sut('%d kernel points' % allowed[a % 5]):
      spherical_kernel_points(allowed[a % 5], rotate=flag)
  elif kind == 'feature_rows':
    bad = np.ones((n + b if flag or n <= b else n - b, 3), dtype=np.float32)
    which = a % 5
    call = [
        lambda f: layers.Conv1x1(3, 2)(f, pc),
        lambda f: layers.GlobalMaxPooling()(f, pc),
        lambda f: layers.GlobalAveragePooling()(f, pc),
        lambda f: layers.MaxPooling()(f, pc, pc, 2.0),
        lambda f: layers.MCConv(3, 4, dim)(f, pc, pc, 2.0)][which]
    with rejects('%d feature rows for %d points (layer %d)' % (
        len(bad), n, which)):
      call(bad)
    with sut('features (layer %d)' % which):
      call(feats)
  elif kind == 'conv1x1_channels':
    with rejects('Conv1x1 with wrong features'):
      layers.Conv1x1(3 + b, 2)(feats, pc)
    with sut('Conv1x1'):
      layers.Conv1x1(3, b)(feats, pc)
  elif kind == 'block_layer':
    bad = ['conv', 'mcconv2', 'kpc'][a % 3]
    cls = [layers.PointResNet, layers.PointResNetSpatialBottleNeck][flag]
    with rejects('block with layer type %r' % bad):
      cls(num_features=4, num_blocks=1, num_dims=dim, layer_type=bad)
    with sut('block'):
      cls(num_features=4, num_blocks=1, num_dims=dim,
          layer_type=['MCConv', 'PointConv', 'mc'][b % 3])
  elif kind == 'activation':
    bad = ['tanhh', 'relu6', ''][a % 3]
    cls = [layers.MCConv, layers.PointConv][flag]
    with rejects('activation %r' % bad):
      cls(3, 4, dim, non_linearity_type=bad)(feats, pc, pc, 2.0)
    with sut('activation'):
      cls(3, 4, dim, non_linearity_type=['ReLU', 'lReLU', 'ELU'][b % 3])(
          feats, pc, pc, 2.0)
  elif kind in ('no_file', 'file_type', 'files_batch_shape'):
    with tempfile.TemporaryDirectory(prefix='verif-c04-') as folder:
      names = []
      for i in range(c.batch):
        name = os.path.join(folder, '%d.txt' % i)
        with open(name, 'w') as out:
          for row in c.major[c.major_ids == i]:
            out.write(','.join(repr(float(v)) for v in row) + '\n')
        names.append(name)
      load = [io.load_points_from_file_to_numpy,
              io.load_points_from_file_to_tensor][flag]
      if kind == 'no_file':
        with rejects('a missing file', FileNotFoundError):
          load(names[0] + 'x', dimension=dim)
        with rejects('a missing file in a batch', FileNotFoundError):
          io.load_batch_of_points(names[:-1] + [names[-1] + 'x'],
                                  point_dimension=dim)
        with sut('loading'):
          load(names[0], dimension=dim)
      elif kind == 'file_type':
        bad = [3, None, [names[0]], names[0].encode()][a % 4]
        with rejects('file name %r' % (bad,), TypeError):
          load(bad, dimension=dim)
      else:
        shapes = gen.factor_shapes(c.batch)
        good = list(shapes[a % len(shapes)])
        bad = list(good)
        bad[b % len(bad)] += b
        with rejects('batch shape %s for %d files' % (bad, c.batch),
                     ValueError):
          io.load_batch_of_points(names, batch_shape=bad, point_dimension=dim)
        with sut('batch shape %s for %d files' % (good, c.batch)):
          io.load_batch_of_points(names, batch_shape=good,
                                  point_dimension=dim)
  elif kind == 'table_1d':
    with rejects('lookup table of 1D points'):
      P.Grid(P.PointCloud(c.points[:, :1], batch_ids=c.ids),
             1.0 + b).get_DS()
    with sut('lookup table'):
      P.Grid(P.PointCloud(c.points[:, :2], batch_ids=c.ids),
             1.0 + b).get_DS()


TARGETS = [Target('rejections', _case, _run, quick=2400)]
