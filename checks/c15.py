"""C15: kernel point convolution and its regularisation."""
import numpy as np
from hypothesis import strategies as st

from checks.c13 import features_arg
from pbt import convref, gen, ref
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  case = draw(convref.conv_case(max_size=30, large=200))
  if draw(st.integers(0, 2)) == 0 and case['centers']['kind'] == 'other':
    case['centers'] = dict(kind='same')
  dim = case['cloud']['dim']
  kernel = None
  if dim != 3 or draw(st.booleans()):
    num = draw(st.sampled_from([1, 2, 4, 7, 8, 9, 15, 16, 17, 33]))
    rows = draw(gen.ints_block(num, dim, 17))
    kernel = [[v - 8 for v in row] for row in rows]
  else:
    num = draw(st.sampled_from([None, 5, 7, 13, 15, 18]))
  case.update(
      out=draw(st.sampled_from([1, 2, 3, 7])), num=num, kernel=kernel,
      interpolation=draw(st.sampled_from([None, 'linear', 'gaussian',
                                          'gaussian'])),
      influence=draw(st.sampled_from([None, None, 0.25, 0.5, 1.0, 1.7])),
      deformable=draw(st.booleans()),
      twice=draw(st.booleans()),
      second=draw(st.sampled_from([None, None, 0.75, 0.3])),
      tf_seed=draw(st.integers(0, 10**6)),
      features_as=draw(st.sampled_from(['numpy', 'tensor', 'int', 'float64'])))
  return case


def build(case, k):
  import tensorflow as tf
  from pylib.pc.layers import KPConv
  tf.random.set_seed(case['tf_seed'])
  kwargs = {}
  custom = None
  if case['num'] is not None:
    kwargs['num_kernel_points'] = case['num']
  if case['kernel'] is not None:
    custom = (np.array(case['kernel'], dtype=np.float32) / 8).reshape(
        case['num'], k.c.dim)
    kwargs['custom_kernel_points'] = custom
  if case['interpolation'] is not None:
    kwargs['kp_interpolation'] = case['interpolation']
  if case['deformable']:
    kwargs['deformable'] = True
  if k.c.dim != 3:
    kwargs['num_dims'] = k.c.dim
  with sut('KPConv'):
    layer = KPConv(k.width, case['out'], **kwargs)
  num = case['num'] or 15
  with sut('kernel points'):
    kernel = layer._kernel_points
  kernel = ref.shaped(kernel, [num, k.c.dim], 'kernel points', 'f')
  if custom is not None:
    ref.close(kernel, custom * 0.75, 'kernel points', rtol=1e-6, atol=1e-7)
  else:
    norms = np.linalg.norm(kernel, axis=1)
    require(norms.max() < 0.75 + 1e-4 and norms.min() < 1e-6,
            'kernel points of norms %s', norms.tolist())
  raw = case['raw']
  weights = gen.weights_array(raw, (num * k.width, case['out']))
  shift = None
  with sut('weights of the documented shapes'):
    layer._weights.assign(weights)
    if case['deformable']:
      shift = gen.weights_array(raw[3:] + raw[:3],
                                (num * k.width, num * k.c.dim), 0.02)
      layer._kernel_offsets_weights.assign(shift)
  return layer, kernel, weights, shift


def _call(layer, k, case, ctx, kernel, weights, shift):
  kwargs = {}
  sigma = 1 / 2.5
  if case['influence'] is not None:
    kwargs['kernel_influence_dist'] = case['influence'] * k.radius
    sigma = case['influence']
  nb = k.neighborhood()
  if nb is not None:
    kwargs['neighborhood'] = nb
  with sut('KPConv call'):
    got = layer(features_arg(k.features, case['features_as']), k.c.pc,
                k.cen.pc, k.radius_arg, **kwargs)
  got = ref.shaped(got, [k.cen.count, case['out']], 'KPConv', 'f')
  ctx.label('center without neighbors', bool((k.counts == 0).any()))
  if not k.ok:
    ctx.label('ambiguous neighbor')
    return False
  kind = case['interpolation'] or 'linear'
  want, mag, extra = convref.kpconv(k, kernel, sigma, kind, weights, shift)
  # weights are at most 1, with slope 1 / sigma (3 / sigma) in the distance
  lost = (1e-6 * k.mag / k.radius + 2e-6) * 3 / sigma
  total = np.zeros(k.cen.count)
  np.add.at(total, k.ci, np.abs(k.features).sum(axis=1)[k.ni])
  top = total[:, None] * np.abs(weights).max()
  if shift is not None:
    # the shifts carry the error of a convolution of their own
    lost = lost * (1 + 40 * (total.max() + 1) * np.abs(shift).max())
  ref.close(got, want, 'KPConv (%s)' % kind, rtol=2e-4, scale=mag +
            top * lost / 2e-4)
  if shift is not None and extra[0] is not None:
    with sut('regularization_loss'):
      loss = layer.regularization_loss()
    loss = ref.shaped(loss, [], 'regularization_loss', 'f')
    num = k.cen.count * len(kernel)
    ref.close(loss, extra[0], 'regularization_loss',
              rtol=5e-4 + 50 * lost, atol=1e-4 + 20 * lost * num)
    ctx.label('loss')
  return k.counts.max(initial=0) > 1 and np.abs(want).max() > 0


def _run(case, ctx):
  k = convref.ConvCase(case)
  layer, kernel, weights, shift = build(case, k)
  good = _call(layer, k, case, ctx, kernel, weights, shift)
  if case['twice'] and k.cen.kind != 'same':
    # the layer again, on other points: nothing of the first call remains
    other = dict(case, centers=dict(kind='same'), influence=case['second'])
    _call(layer, convref.ConvCase(other), other, ctx, kernel, weights, shift)
    ctx.label('called twice')
  ctx.label('deformable', case['deformable'])
  ctx.label('custom kernel points', case['kernel'] is not None)
  ctx.label('neighborhood=' + case['neighborhood'])
  ctx.label('gaussian', case['interpolation'] == 'gaussian')
  ctx.interesting(good)


TARGETS = [Target('kpconv', _case, _run, quick=1000)]
