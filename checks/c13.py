"""C13: Monte Carlo convolution."""
import numpy as np
from hypothesis import strategies as st

from pbt import convref, gen, ref
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  case = draw(convref.conv_case(large=300))
  mlps = draw(st.sampled_from([None, 1, 2, 3, 4]))
  case.update(
      mlps=mlps, per_mlp=draw(st.sampled_from([1, 2, 3])),
      mlp_size=draw(st.one_of(
          st.none(), st.lists(st.sampled_from([1, 2, 3, 5, 8]), min_size=1,
                              max_size=3))),
      act=draw(st.sampled_from([None] + convref.ACTS)),
      keep_pdf=draw(st.sampled_from([None, None, None, 0.4])),
      features_as=draw(st.sampled_from(['numpy', 'tensor', 'int', 'float64'])),
      second=draw(st.none() | st.fixed_dictionaries(dict(
          factor=st.sampled_from([1.0, 2.0, 0.5]),
          bandwidth=st.sampled_from([None, 0.2, 0.3, 0.6]),
          neighborhood=st.sampled_from(['none', 'none', 'given']),
          turn=st.integers(0, 5)))))
  return case


def build(case, k, layer=None):
  """The layer with weights from the case, and plain copies of them."""
  from pylib.pc.layers import MCConv
  mlps = case['mlps'] or 4
  sizes = case['mlp_size'] or [8]
  kwargs = {}
  if case['mlps'] is not None:
    kwargs['num_mlps'] = mlps
  if case['mlp_size'] is not None:
    kwargs['mlp_size'] = list(sizes)
  if case['act'] is not None:
    kwargs['non_linearity_type'] = case['act']
  out = mlps * case['per_mlp']
  with sut('MCConv(%s)' % kwargs):
    layer = layer or MCConv(k.width, out, k.c.dim, **kwargs)
  raw = case['raw']
  weights, biases = [], []
  prev = k.c.dim
  with sut('weights of the documented shapes'):
    for i, size in enumerate(sizes):
      weights.append(gen.weights_array(raw[i:] + raw[:i], (mlps, prev, size)))
      biases.append(gen.weights_array(raw[::-1][i:] + raw[:i],
                                      (mlps, 1, size), 0.5))
      layer._weights_tf[i].assign(weights[-1])
      layer._bias_tf[i].assign(biases[-1])
      prev = size
    final = gen.weights_array(raw[4:] + raw[:4],
                              (mlps, prev * k.width, case['per_mlp']))
    layer._final_weights_tf.assign(final)
  return layer, weights, biases, final


def features_arg(features, how):
  import tensorflow as tf
  if how == 'tensor':
    return tf.constant(features)
  if how == 'int':
    return features.astype(np.int32)
  if how == 'float64':
    return features.astype(np.float64)
  return features


def _call(case, ctx, k, built):
  layer, weights, biases, final = built
  nb = k.neighborhood()
  kwargs = {}
  if case['bandwidth'] is not None:
    kwargs['bandwidth'] = case['bandwidth']
  bandwidth = k.bandwidth
  if nb is not None:
    kwargs['neighborhood'] = nb
    if case['keep_pdf'] is not None:
      # a density that is there already is used
      bandwidth = case['keep_pdf']
      with sut('compute_pdf'):
        nb.compute_pdf(bandwidth=bandwidth)
  with sut('MCConv call'):
    got = layer(features_arg(k.features, case['features_as']), k.c.pc,
                k.cen.pc, k.radius_arg, **kwargs)
  got = ref.shaped(got, [k.cen.count, final.shape[0] * final.shape[2]],
                   'MCConv', 'f')
  ctx.label('neighborhood=' + case['neighborhood'])
  ctx.label('centers=' + k.cen.kind)
  ctx.label('hidden layers >= 2', len(weights) > 1)
  ctx.label('kept density', bandwidth != k.bandwidth)
  ctx.label('center without neighbors', bool((k.counts == 0).any()))
  if not k.ok:
    ctx.label('ambiguous neighbor')
    return
  want, mag = convref.mcconv(k, weights, biases, final,
                             case['act'] or 'leaky_relu', k.density(bandwidth))
  ref.close(got, want, 'MCConv', rtol=k.rtol((1 / bandwidth) ** 2), scale=mag)
  ctx.interesting(k.counts.max(initial=0) > 1 and np.abs(want).max() > 0 and
                  len(k.ci) > 3)


def _run(case, ctx):
  k = convref.ConvCase(case)
  built = build(case, k)
  _call(case, ctx, k, built)
  second = case['second']
  if second is not None:
    # the layer again, with other weights, densities and points: nothing of
    # the first call remains
    turn = second['turn']
    other = dict(case, centers=dict(kind='same'),
                 radius=case['radius'] * second['factor'],
                 bandwidth=second['bandwidth'],
                 neighborhood=second['neighborhood'],
                 raw=case['raw'][turn:] + case['raw'][:turn])
    k = convref.ConvCase(other)
    _call(other, ctx, k, build(other, k, built[0]))
    ctx.label('called twice')


TARGETS = [Target('mcconv', _case, _run, quick=1000)]
