"""Environment of the checks: which interpreter, which tree, which libraries.

Must be imported before TensorFlow.
"""
import importlib.machinery
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
PYTHON = '/opt/venv/bin/python'
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

RUN_ENV = {
    'TF_USE_LEGACY_KERAS': '1',
    'CUDA_VISIBLE_DEVICES': '-1',
    'TF_CPP_MIN_LOG_LEVEL': '3',
    'TF_ENABLE_ONEDNN_OPTS': '0',
    'PYTHONDONTWRITEBYTECODE': '1',
    'PYTHONHASHSEED': '0',
    'PYTHONWARNINGS': 'ignore',
    'OMP_NUM_THREADS': '1',
    'OPENBLAS_NUM_THREADS': '1',
    'LANG': 'C.UTF-8',
    'MPLBACKEND': 'Agg',
}


class _OnlyHypothesis:
  """Finds hypothesis (and nothing else) in the verification tools' venv, so
  that numpy and TensorFlow stay those of the code under test."""

  allowed = ('hypothesis', 'sortedcontainers', '_hypothesis')

  @classmethod
  def find_spec(cls, name, path=None, target=None):
    if path is None and name.startswith(cls.allowed):
      return importlib.machinery.PathFinder.find_spec(name, [VT_SITE])
    return None


def install_hypothesis():
  if not any(f is _OnlyHypothesis for f in sys.meta_path):
    sys.meta_path.append(_OnlyHypothesis)


def setup_tf():
  """Imports TensorFlow with one thread per worker, then the tree under test.

  Byte code of the tree under test is neither read nor written: the check must
  judge the present sources.
  """
  import warnings
  warnings.filterwarnings('ignore')
  import tensorflow as tf
  tf.config.threading.set_intra_op_parallelism_threads(1)
  tf.config.threading.set_inter_op_parallelism_threads(1)
  import tensorflow_graphics.geometry.convolution.utils  # noqa
  sys.dont_write_bytecode = True
  sys.pycache_prefix = '/nonexistent-verif-pycache'
  sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != '/repo']
  sys.path.insert(0, REPO)
  import pylib.pc  # noqa
  where = os.path.realpath(pylib.pc.__file__)
  if not where.startswith(os.path.realpath(REPO) + os.sep):
    raise RuntimeError('pylib imported from %s' % where)
  return tf
