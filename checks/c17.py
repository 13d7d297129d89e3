"""C17: global pooling."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut

TYPES = ['float32', 'float64', 'int32', 'float16', 'int64']


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(1, 2, 3), max_batch=6, large=400, max_size=40,
                         allow_empty=True))
  batch = len(cloud['sizes'])
  return dict(
      cloud=cloud, features=draw(gen.features(sum(cloud['sizes']))),
      dtype=draw(st.sampled_from(['float32'] * 3 + TYPES)),
      op=draw(st.sampled_from(['max', 'mean'])),
      padded=draw(st.booleans()), pad=draw(st.sampled_from([0, 0, 1, 4])),
      fill=draw(st.sampled_from([0, 100, -100, 7])),
      return_padded=draw(st.booleans()),
      shift=draw(st.sampled_from([0, 0, -50, 50, -5000, 10**6, -10**6,
                                   2**26])),
      shape=draw(st.one_of(st.none(), st.sampled_from(
          gen.factor_shapes(batch)))),
      as_tensor=draw(st.booleans()))


def _run(case, ctx):
  import tensorflow as tf
  from pylib.pc.layers import GlobalAveragePooling, GlobalMaxPooling
  c = gen.Cloud(case['cloud'])
  shape = c.shape
  if case['shape'] is not None:
    with sut('set_batch_shape'):
      c.pc.set_batch_shape(case['shape'])
    shape = case['shape']
  op = case['op']
  dtype = case['dtype']
  if op == 'mean' and dtype.startswith('int'):
    dtype = 'float32'
  shift = case['shift']
  if dtype == 'float16':
    shift = max(-50, min(50, shift))
  feats = (np.array(case['features'], dtype=np.float64).reshape(c.count, -1) +
           shift).astype(dtype)
  arg = feats
  if case['padded']:
    rows = int(c.sizes.max()) + case['pad']
    full = shape if shape is not None else [c.batch]
    arg = c.padded(c.to_major(feats), rows=rows,
                   fill=np.array(case['fill']).astype(dtype)).reshape(
                       full + [rows, feats.shape[1]])
  if case['as_tensor']:
    arg = tf.constant(arg)
  layer = GlobalMaxPooling() if op == 'max' else GlobalAveragePooling()
  return_padded = case['return_padded'] and shape is not None
  with sut('global %s pooling' % op):
    if return_padded:
      got = layer(arg, c.pc, return_padded=True)
    else:
      got = layer(arg, c.pc)
  got = ref.as_np(got)
  require(got.dtype == np.dtype(dtype), 'pooled type %s for features of type '
          '%s', got.dtype, dtype)
  full = list(shape) if return_padded else [c.batch]
  got = ref.shaped(got, full + [feats.shape[1]], 'pooled features').reshape(
      c.batch, -1)
  for b in range(c.batch):
    own = feats[c.ids == b].astype(np.float64)
    if len(own) == 0:
      continue
    if op == 'max':
      ref.same(got[b], own.max(axis=0), 'maximum of cloud %d' % b)
    else:
      rtol, atol = {'float16': (2e-3, 0.3), 'float64': (1e-12, 1e-10)}.get(
          dtype, (1e-5, 1e-4 + 1e-6 * abs(shift)))
      ref.close(got[b], own.mean(axis=0), 'mean of cloud %d' % b, rtol=rtol,
                atol=atol)
  ctx.label('op=' + op)
  ctx.label('dtype=' + dtype)
  ctx.label('padded features', case['padded'])
  ctx.label('padded, rows differ', case['padded'] and
            len(set(c.case['sizes'])) > 1)
  ctx.label('return_padded', return_padded)
  ctx.label('empty cloud', bool((c.sizes == 0).any()))
  ctx.label('all features negative', case['shift'] < 0)
  ctx.interesting(c.batch > 1 and c.sizes.max() > 1)


TARGETS = [Target('global', _case, _run, quick=2400)]
