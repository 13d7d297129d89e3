"""C14: PointConv convolution."""
import numpy as np
from hypothesis import strategies as st

from checks.c13 import features_arg
from pbt import convref, gen, ref
from pbt.core import Target, sut


@st.composite
def _case(draw):
  case = draw(convref.conv_case(large=300))
  case.update(
      out=draw(st.sampled_from([1, 2, 3, 7])),
      hidden=draw(st.sampled_from([None, 8, 16, 1, 3])),
      act=draw(st.sampled_from([None] + convref.ACTS)),
      keep_pdf=draw(st.sampled_from([None, None, None, 0.4])),
      features_as=draw(st.sampled_from(['numpy', 'tensor', 'int', 'float64'])),
      second=draw(st.none() | st.fixed_dictionaries(dict(
          factor=st.sampled_from([1.0, 2.0, 0.5]),
          bandwidth=st.sampled_from([None, 0.2, 0.3, 0.6]),
          neighborhood=st.sampled_from(['none', 'none', 'given']),
          turn=st.integers(0, 5)))))
  return case


def build(case, k, layer=None):
  from pylib.pc.layers import PointConv
  kwargs = {}
  hidden = case['hidden'] or 32
  if case['hidden'] is not None:
    kwargs['size_hidden'] = hidden
  if case['act'] is not None:
    kwargs['non_linearity_type'] = case['act']
  with sut('PointConv(%s)' % kwargs):
    layer = layer or PointConv(k.width, case['out'], k.c.dim, **kwargs)
  raw = case['raw']
  # offsets are in units of the coordinates here
  axis = gen.weights_array(raw, (k.c.dim, hidden), 1.0 / k.radius)
  bias = gen.weights_array(raw[::-1], (1, hidden), 0.5)
  weights = gen.weights_array(raw[3:] + raw[:3],
                              (hidden * k.width, case['out']))
  # a positive divisor for each relative density in (0, 1] (with some hidden
  # values below zero)
  pdf_w = [gen.weights_array(raw[5:] + raw[:5], (1, 16)),
           np.abs(gen.weights_array(raw[7:] + raw[:7], (16, 1)))]
  pdf_b = [gen.weights_array(raw[6:] + raw[:6], (1, 16), 0.5),
           np.abs(gen.weights_array(raw[2:] + raw[:2], (1, 1), 0.5)) +
           np.float32(0.125)]
  with sut('weights of the documented shapes'):
    layer._basis_axis_tf.assign(axis)
    layer._basis_bias_tf.assign(bias)
    layer._weights.assign(weights)
    for i in range(2):
      layer._weights_pdf[i].assign(pdf_w[i])
      layer._biases_pdf[i].assign(pdf_b[i])
  return layer, axis, bias, weights, pdf_w, pdf_b


def _call(case, ctx, k, built):
  layer = built[0]
  nb = k.neighborhood()
  kwargs = {}
  if case['bandwidth'] is not None:
    kwargs['bandwidth'] = case['bandwidth']
  bandwidth = k.bandwidth
  if nb is not None:
    kwargs['neighborhood'] = nb
    if case['keep_pdf'] is not None:
      bandwidth = case['keep_pdf']
      with sut('compute_pdf'):
        nb.compute_pdf(bandwidth=bandwidth)
  with sut('PointConv call'):
    got = layer(features_arg(k.features, case['features_as']), k.c.pc,
                k.cen.pc, k.radius_arg, **kwargs)
  got = ref.shaped(got, [k.cen.count, case['out']], 'PointConv', 'f')
  ctx.label('neighborhood=' + case['neighborhood'])
  ctx.label('centers=' + k.cen.kind)
  ctx.label('kept density', bandwidth != k.bandwidth)
  ctx.label('center without neighbors', bool((k.counts == 0).any()))
  if not k.ok:
    ctx.label('ambiguous neighbor')
    return
  want, mag = convref.pointconv(k, *built[1:], case['act'] or 'relu',
                                k.density(bandwidth))
  ref.close(got, want, 'PointConv', rtol=k.rtol((1 / bandwidth) ** 2),
            scale=mag)
  ctx.interesting(k.counts.max(initial=0) > 1 and np.abs(want).max() > 0 and
                  len(k.ci) > 3)


def _run(case, ctx):
  k = convref.ConvCase(case)
  built = build(case, k)
  _call(case, ctx, k, built)
  second = case['second']
  if second is not None:
    # the layer again, with other weights, densities and points: nothing of
    # the first call remains
    turn = second['turn']
    other = dict(case, centers=dict(kind='same'),
                 radius=case['radius'] * second['factor'],
                 bandwidth=second['bandwidth'],
                 neighborhood=second['neighborhood'],
                 raw=case['raw'][turn:] + case['raw'][:turn])
    k = convref.ConvCase(other)
    _call(other, ctx, k, build(other, k, built[0]))
    ctx.label('called twice')


TARGETS = [Target('pointconv', _case, _run, quick=1000)]
