"""C23: mesh loader."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _mesh(draw):
  count = draw(st.integers(3, 14))
  coords = draw(gen.ints_block(count, 3, 41))
  return dict(coords=coords, format=draw(st.sampled_from(['obj', 'off'])),
              faces=draw(gen.ints_block(draw(st.integers(0, 4)), 3, count)))


@st.composite
def _case(draw):
  count = draw(st.integers(1, 6))
  return dict(meshes=draw(st.lists(_mesh(), min_size=count, max_size=count)),
              step=draw(gen.steps()),
              shape=draw(st.one_of(st.none(), st.sampled_from(
                  gen.factor_shapes(count)))),
              explicit=draw(st.booleans()),
              # place of the file of each mesh; files given once more
              folders=draw(st.one_of(st.none(), st.lists(
                  st.integers(0, 5), min_size=count, max_size=count))),
              again=draw(st.lists(st.integers(0, count - 1), max_size=2)),
              process=draw(st.booleans()),
              dtype=draw(st.sampled_from([None, 'float32', 'float64'])))


def _shim():
  """tensorflow-graphics and the installed trimesh 5 disagree about the
  abstract methods of resolvers, which has nothing to do with this loader."""
  import tensorflow_graphics.io.triangle_mesh as mesh
  mesh.GFileResolver.__abstractmethods__ = frozenset()


def _run(case, ctx):
  import tensorflow as tf
  from pylib import io
  from pylib.pc import PointCloud
  _shim()
  folder = tempfile.mkdtemp(prefix='verif-c23-')
  one_format = case['meshes'][0]['format']
  try:
    names, values = [], []
    for i, mesh in enumerate(case['meshes']):
      # distinct vertices (trimesh merges the others), all of them in a face
      coords = np.array(mesh['coords'], dtype=np.int64)
      coords[:, 0] = 41 * np.arange(len(coords)) + coords[:, 0]
      verts = coords * case['step']
      n = len(verts)
      faces = [[j, (j + 1) % n, (j + 2) % n] for j in range(n)]
      faces = faces + [f for f in mesh['faces'] if len(set(f)) == 3]
      kind = one_format if case['explicit'] else mesh['format']
      suffix = 'dat' if case['explicit'] else kind
      if case['folders'] is None:
        path = os.path.join(folder, '%d.%s' % (i, suffix))
      else:
        # the same name in different folders
        place = os.path.join(folder, str(i), *['x'] * case['folders'][i])
        os.makedirs(place)
        path = os.path.join(place, 'mesh.%s' % suffix)
      with open(path, 'w') as out:
        if kind == 'off':
          out.write('OFF\n%d %d 0\n' % (n, len(faces)))
        for row in verts.tolist():
          out.write(('v ' if kind == 'obj' else '') + '%r %r %r\n' %
                    tuple(row))
        for row in faces:
          if kind == 'obj':
            out.write('f %d %d %d\n' % tuple(v + 1 for v in row))
          else:
            out.write('3 %d %d %d\n' % tuple(row))
      names.append(path)
      values.append(verts)
    if case['shape'] is None:
      for i in case['again']:
        names.append(names[i])
        values.append(values[i])
    kwargs = {}
    if case['explicit']:
      kwargs['file_type'] = one_format
    if case['dtype'] is not None:
      kwargs['dtype'] = getattr(tf, case['dtype'])
    if case['shape'] is not None:
      kwargs['batch_shape'] = list(case['shape'])
    if not case['process']:
      kwargs['process'] = False
    with sut('load_batch_of_meshes(%s)' % kwargs):
      points, sizes = io.load_batch_of_meshes(names, **kwargs)
  finally:
    shutil.rmtree(folder)
  batch = len(names)
  full = case['shape'] if case['shape'] is not None else [batch]
  true = [len(v) for v in values]
  v = max(true)
  ref.same(ref.shaped(sizes, full, 'sizes', 'iu').reshape(-1), true, 'sizes')
  points = ref.shaped(points, list(full) + [v, 3], 'points')
  dtype = case['dtype'] or 'float32'
  require(points.dtype == np.dtype(dtype), 'points of type %s', points.dtype)
  want = np.zeros((batch, v, 3))
  for i, rows in enumerate(values):
    want[i, :len(rows)] = rows
  flat = points.reshape(batch, v, 3)
  ref.close(flat, want, 'points', rtol=2e-7 if dtype == 'float32' else 1e-12,
            atol=0)
  with sut('PointCloud of the loaded meshes'):
    pc = PointCloud(points, sizes=sizes)
    clouds = [pc.get_points(i).numpy() for i in range(batch)]
  for i in range(batch):
    ref.close(clouds[i], values[i], 'cloud %d' % i, rtol=2e-7, atol=0)
  ctx.label('sizes differ', len(set(true)) > 1)
  ctx.label('batch shape', case['shape'] is not None and
            len(case['shape']) > 1)
  ctx.label('same names', case['folders'] is not None and batch > 1)
  ctx.label('files given twice', len(set(names)) < batch)
  ctx.label('explicit type', case['explicit'])
  ctx.interesting(batch > 1 and len(set(true)) > 1)


TARGETS = [Target('meshes', _case, _run, quick=800)]
