"""C22: text file loaders."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, rejects, require, sut

DELIMITERS = [None, ',', ',', ' ', ';', '\t', '|', ', ']
STYLES = ['dyadic', 'dyadic', 'int', 'repr', 'exp', 'plus']


@st.composite
def _numbers(draw, count, width):
  raw = draw(st.binary(min_size=3 * count * width, max_size=3 * count * width))
  flat = np.frombuffer(raw, dtype=np.uint8).reshape(-1, 3).astype(np.int64)
  vals = (flat[:, 0] - 128) * (1 + (flat[:, 1] % 4 == 0) * flat[:, 2])
  return [[int(v) for v in vals[i * width:(i + 1) * width]]
          for i in range(count)]


@st.composite
def _file(draw, dim, extra, limit=14):
  count = draw(st.integers(0, limit))
  return dict(rows=draw(_numbers(count, dim + extra)),
              style=draw(st.sampled_from(STYLES)),
              ending=draw(st.sampled_from(['\n', '\n', '\n', '\r\n'])),
              last=draw(st.sampled_from([True, True, False])))


@st.composite
def _case(draw):
  dim = draw(st.sampled_from([1, 2, 3, 3, 4, 6]))
  extra = draw(st.sampled_from([0, 0, 1, 3, 4]))
  return dict(dim=dim, extra=extra,
              default_dim=dim == 3 and draw(st.booleans()),
              file=draw(_file(dim, extra)),
              delimiter=draw(st.sampled_from(DELIMITERS)),
              api=draw(st.sampled_from(['tensor', 'numpy', 'numpy'])),
              dtype=draw(st.sampled_from([None, None, 'float32', 'float64',
                                          'int32', 'int64'])),
              limit=draw(st.sampled_from([None, None, 0, 1, 2, 5, 13, 100])))


def value(number, style):
  """(text, exact value) of a number in a style."""
  if style == 'int':
    return str(number), float(number)
  if style == 'dyadic':
    text = '%.3f' % (number / 8)
  elif style == 'repr':
    text = repr(number / 7)
  elif style == 'exp':
    text = '%.6e' % (number / 4096)
  else:
    text = '%+.2f' % (number / 4)
  return text, float(text)


def write(path, spec, delimiter, style=None):
  """Writes a file; returns the values as float64."""
  style = style or spec['style']
  lines, values = [], []
  for row in spec['rows']:
    pairs = [value(v, style) for v in row]
    lines.append(delimiter.join(p[0] for p in pairs))
    values.append([p[1] for p in pairs])
  text = spec['ending'].join(lines) + (
      spec['ending'] if spec['last'] and lines else '')
  with open(path, 'w', newline='') as out:
    out.write(text)
  width = len(values[0]) if values else 0
  return np.array(values, dtype=np.float64).reshape(len(values), width)


def _compare(got, want, dtype, what):
  got = ref.as_np(got)
  require(got.dtype == np.dtype(dtype), '%s: type %s instead of %s', what,
          got.dtype, dtype)
  if dtype in ('float32',):
    ref.close(got, want, what, rtol=1.3e-7, atol=1e-37)
  else:
    ref.same(got, want.astype(dtype), what)


def _run(case, ctx):
  import tensorflow as tf
  from pylib import io
  dim = case['dim']
  style = case['file']['style']
  dtype = case['dtype']
  if dtype is not None and dtype.startswith('int'):
    style = 'int'
  folder = tempfile.mkdtemp(prefix='verif-c22-')
  try:
    path = os.path.join(folder, 'points.txt')
    delimiter = case['delimiter'] or ','
    values = write(path, case['file'], delimiter, style)
    kwargs = {}
    if case['delimiter'] is not None:
      kwargs['delimiter'] = delimiter
    if not case['default_dim']:
      kwargs['dimension'] = dim
    if case['api'] == 'tensor':
      if dtype is not None:
        kwargs['dtype'] = getattr(tf, dtype)
      with sut('load_points_from_file_to_tensor(%s)' % kwargs):
        points, feats = io.load_points_from_file_to_tensor(path, **kwargs)
    else:
      if dtype is not None:
        kwargs['dtype'] = getattr(np, dtype)
      if case['limit'] is not None:
        kwargs['max_num_points'] = case['limit']
      with sut('load_points_from_file_to_numpy(%s)' % kwargs):
        points, feats = io.load_points_from_file_to_numpy(path, **kwargs)
  finally:
    shutil.rmtree(folder)
  n = len(values)
  if case['api'] == 'numpy' and case['limit'] is not None:
    n = min(n, case['limit'])
  dtype = dtype or 'float32'
  if n > 0:
    ref.shaped(points, [n, dim], 'points')
    ref.shaped(feats, [n, case['extra']], 'features')
    _compare(points, values[:n, :dim], dtype, 'points')
    _compare(feats, values[:n, dim:], dtype, 'features')
  else:
    ref.shaped(points, [0, dim], 'points of no lines')
    ref.shaped(feats, [0, None], 'features of no lines')
  ctx.label('no lines', len(values) == 0)
  ctx.label('api=' + case['api'])
  ctx.label('delimiter=' + repr(delimiter))
  ctx.label('no final newline', not case['file']['last'])
  ctx.label('CRLF', case['file']['ending'] == '\r\n')
  ctx.label('limit below the length', n < len(values))
  ctx.label('no features', case['extra'] == 0)
  ctx.interesting(n > 1)


@st.composite
def _batch_case(draw):
  dim = draw(st.sampled_from([1, 2, 3, 3, 4]))
  extra = draw(st.sampled_from([0, 1, 2, 3]))
  count = draw(st.integers(1, 6))
  return dict(dim=dim, extra=extra,
              files=draw(st.lists(_file(dim, extra, 9), min_size=count,
                                  max_size=count)),
              shape=draw(st.one_of(st.none(), st.sampled_from(
                  gen.factor_shapes(count)))),
              bad_shape=draw(st.booleans()),
              delimiter=draw(st.sampled_from(DELIMITERS)),
              dtype=draw(st.sampled_from([None, 'float32', 'float64',
                                          'int32'])))


def _run_batch(case, ctx):
  import tensorflow as tf
  from pylib import io
  from pylib.pc import PointCloud
  dim, extra = case['dim'], case['extra']
  delimiter = case['delimiter'] or ','
  dtype = case['dtype']
  folder = tempfile.mkdtemp(prefix='verif-c22-')
  try:
    names, values = [], []
    for i, spec in enumerate(case['files']):
      names.append(os.path.join(folder, '%d.xyz' % i))
      values.append(write(names[-1], spec, delimiter,
                          'int' if dtype == 'int32' else None))
    kwargs = dict(point_dimension=dim)
    if case['delimiter'] is not None:
      kwargs['delimiter'] = delimiter
    if dtype is not None:
      kwargs['dtype'] = getattr(tf, dtype)
    if case['shape'] is not None:
      kwargs['batch_shape'] = list(case['shape'])
    with sut('load_batch_of_points(%s)' % kwargs):
      points, feats, sizes = io.load_batch_of_points(names, **kwargs)
    if case['bad_shape']:
      kwargs['batch_shape'] = [len(names) + 1]
      with rejects('batch shape %s for %d files' % (
          kwargs['batch_shape'], len(names)), (ValueError,)):
        io.load_batch_of_points(names, **kwargs)
  finally:
    shutil.rmtree(folder)
  batch = len(names)
  full = case['shape'] if case['shape'] is not None else [batch]
  true = [len(v) for v in values]
  v = max(true)
  sizes = ref.shaped(sizes, full, 'sizes', 'iu')
  ref.same(sizes.reshape(-1), true, 'sizes')
  points = ref.shaped(points, list(full) + [v, dim], 'points')
  if v == 0:
    extra = 0
  feats = ref.shaped(feats, list(full) + [v, extra], 'features')
  want = np.zeros((batch, v, dim + case['extra']))
  for i, rows in enumerate(values):
    if len(rows):
      want[i, :len(rows)] = rows
  dtype = dtype or 'float32'
  _compare(points.reshape(batch, v, dim), want[..., :dim], dtype, 'points')
  _compare(feats.reshape(batch, v, extra), want[..., dim:dim + extra], dtype,
           'features')
  with sut('PointCloud of the loaded batch'):
    pc = PointCloud(points, sizes=sizes)
    clouds = [pc.get_points(i).numpy() for i in range(batch)]
  for i in range(batch):
    ref.shaped(clouds[i], [true[i], dim], 'cloud %d' % i)
    if true[i]:
      ref.close(clouds[i], values[i][:, :dim], 'cloud %d' % i, rtol=1.3e-7,
                atol=1e-37)
  ctx.label('empty file', 0 in true)
  ctx.label('only empty files', v == 0)
  ctx.label('sizes differ', len(set(true)) > 1)
  ctx.label('batch shape', case['shape'] is not None and
            len(case['shape']) > 1)
  ctx.label('no features', extra == 0)
  ctx.interesting(batch > 1 and len(set(true)) > 1)


TARGETS = [Target('file', _case, _run, quick=2400),
           Target('batch', _batch_case, _run_batch, quick=800)]
