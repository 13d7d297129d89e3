"""The example programs in the top folder of the repository.

They are scripts: they read a data set, define a model and train it. Here they
are executed statement by statement on a small data set, without the statements
that build the large model of the paper and train it for days."""
import ast
import contextlib
import io
import os
import sys
import types

from pbt import env

SCRIPTS = ['modelnet40.py', 'modelnet40_small.py']


def _names(node, context):
  return {n.id for n in ast.walk(node)
          if isinstance(n, ast.Name) and isinstance(n.ctx, context)}


def _builds(value, space, seen=()):
  """Whether a value is a class of models, or a function of the script that
  uses one."""
  import tensorflow as tf
  if isinstance(value, type):
    return issubclass(value, tf.Module) and \
        value.__module__ == space['__name__']
  return isinstance(value, types.FunctionType) and \
      value.__globals__ is space and id(value) not in seen and any(
          _builds(space.get(name), space, (*seen, id(value)))
          for name in value.__code__.co_names)


def _skipped(statement, space, missing):
  """Whether a statement builds the model of the script or uses it."""
  if isinstance(statement, (ast.FunctionDef, ast.ClassDef, ast.Import,
                            ast.ImportFrom)):
    return False
  if _names(statement, ast.Load) & missing:
    return True
  return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
             _builds(space.get(n.func.id), space) for n in ast.walk(statement))


def execute(script, data_dir, binary_dir):
  """The names that a script defines, with the given folders of the data."""
  path = os.path.join(env.REPO, script)
  with open(path, encoding='utf-8') as f:
    tree = ast.parse(f.read(), path)
  paths = types.ModuleType('data_paths')
  paths.data_dir = data_dir
  paths.hdf5_tmp_dir = binary_dir
  before = sys.modules.get('data_paths')
  sys.modules['data_paths'] = paths
  space = {'__name__': 'program', '__file__': path}
  missing = set()
  try:
    with contextlib.redirect_stdout(io.StringIO()):
      for statement in tree.body:
        if _skipped(statement, space, missing):
          missing |= _names(statement, ast.Store)
        else:
          missing -= _names(statement, ast.Store)
          exec(compile(ast.Module([statement], []), path, 'exec'), space)  # pylint: disable=exec-used
  finally:
    if before is None:
      del sys.modules['data_paths']
    else:
      sys.modules['data_paths'] = before
  return space


def code(number, rows):
  """`rows` points [rows, 3] that tell which sample and row they are of, also
  after a scaling of the axes: 16 levels per axis, of which the highest one of
  the first axis is that of the sample (of less than 4096)."""
  import numpy as np
  rows = np.arange(rows)
  levels = np.stack([rows % 16, rows // 16 % 16, rows // 256 % 16], axis=1)
  points = 1 + levels / 16
  points[levels[:, 0] == 15, 0] = 3 + number / 1024
  return points


def decode(points):
  """(number of the sample, code of the row per point, scales of the axes), or
  None if the points are not those of one sample."""
  import numpy as np
  scales = points.min(axis=0)
  points = points / scales
  top = points[:, 0] > 2.5
  if not top.any():
    return None
  number = np.round((points[0 if top[0] else np.argmax(top), 0] - 3) * 1024)
  levels = np.round((points - 1) * 16)
  levels[top, 0] = 15
  want = 1 + levels / 16
  want[top, 0] = 3 + number / 1024
  if np.abs(points - want).max() > 1e-9 or levels.max() > 15:
    return None
  return int(number), (levels @ [1, 16, 256]).astype(int), scales


def write_data(folder, categories, train, test, rows):
  """Writes the data set; train and test are lists of numbers of categories.
  The samples are numbered through. Returns the numbers of the categories."""
  labels = list(train) + list(test)
  with open(folder + 'modelnet40_shape_names.txt', 'w') as f:
    f.writelines(c + '\n' for c in categories)
  number = 0
  for part, kinds in (('train', train), ('test', test)):
    with open(folder + 'modelnet40_%s.txt' % part, 'w') as f:
      for kind in kinds:
        # the data set numbers the models per category
        name = '%s_%04d' % (categories[kind], number + 1)
        f.write(name + '\n')
        os.makedirs(folder + categories[kind], exist_ok=True)
        text = ''.join(_lines(number, rows))
        with open(folder + categories[kind] + '/' + name + '.txt',
                  'w') as out:
          out.write(text)
        number += 1
  return labels


_cache = {}


def _lines(number, rows):
  if rows not in _cache:
    _cache[rows] = ['%r,%r,%r,0.0,0.0,1.0\n' % tuple(p)
                    for p in code(0, rows).tolist()]
  lines = list(_cache[rows])
  first = '%r,' % (3 + number / 1024)
  for i in range(15, rows, 16):
    lines[i] = first + lines[i].split(',', 1)[1]
  return lines
