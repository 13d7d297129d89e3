"""C20: residual blocks."""
import numpy as np
from hypothesis import strategies as st

from checks.c19 import equal, kernel_points
from pbt import convref, gen, ref
from pbt.core import Target, require, sut

CONVS = dict(mc=['MCConv', 'mc', 'mc_conv'], kp=['KPConv', 'kp', 'kp_conv'],
             point=['PointConv', 'point_conv'])


@st.composite
def _case(draw):
  case = draw(convref.conv_case(max_size=16, large=129, max_batch=3, dims=(2, 3, 3, 4),
                                channels=(1, 2, 4), low=1))
  conv = draw(st.sampled_from(['default', 'mc', 'mc', 'kp', 'kp', 'point',
                               'point']))
  case.update(
      net=draw(st.sampled_from(['plain', 'bottleneck', 'spatial'])),
      conv=conv,
      layer_type=draw(st.sampled_from(CONVS[conv])) if conv != 'default'
      else None,
      blocks=draw(st.sampled_from([1, 1, 2, 3])),
      inner=draw(st.sampled_from([1, 2, 4])),
      projection=draw(st.sampled_from([None, False, True, True])),
      activation=draw(st.sampled_from([None, 'elu', 'leaky_relu', 'tanh'])),
      deformable=draw(st.booleans()),
      gaussian=draw(st.booleans()),
      kernel_influence=draw(st.sampled_from([None, 0.6])),
      radii=draw(st.lists(st.sampled_from([1.0, 1.0, 2.0, 0.5]), min_size=3,
                          max_size=3)),
      radii_as=draw(st.sampled_from(['list', 'numpy', 'tensor'])),
      calls=draw(st.lists(st.booleans(), min_size=1, max_size=3)),
      name=draw(st.sampled_from([None, None, 'trunk'])),
      # (neighborhoods that are passed can have radii of their own)
      given=draw(st.lists(st.sampled_from([1.0, 0.5, 0.75]), min_size=3,
                          max_size=3)),
      tf_seed=draw(st.integers(0, 10**6)))
  if conv == 'default':
    case['features'] = [[row[0]] * 4 for row in case['features']]
    case['inner'] = 4
  return case


ACTIVATIONS = dict(
    elu=convref.activation('elu'), leaky_relu=convref.activation('lrelu'),
    tanh=np.tanh, relu=convref.activation('relu'))


class _Norm:
  """Numpy batch normalisation with the variables of a Keras layer."""

  def __init__(self, layer, raw, salt):
    self.layer = layer
    width = layer.gamma.shape[0]
    turn = raw[salt % len(raw):] + raw[:salt % len(raw)]
    with sut('batch norm variables'):
      layer.gamma.assign(1 + 0.5 * gen.weights_array(turn, (width,)))
      layer.beta.assign(gen.weights_array(turn[::-1], (width,)))
      layer.moving_mean.assign(gen.weights_array(turn[1:] + turn[:1],
                                                 (width,)))
      layer.moving_variance.assign(
          1.5 + gen.weights_array(turn[2:] + turn[:2], (width,)))

  def __call__(self, x, training):
    layer = self.layer
    gamma, beta, mean, var = [
        v.numpy().astype(np.float64) for v in
        (layer.gamma, layer.beta, layer.moving_mean, layer.moving_variance)]
    self.next = (mean, var)
    if training:
      batch_mean, batch_var = x.mean(axis=0), x.var(axis=0)
      m = layer.momentum
      self.next = (m * mean + (1 - m) * batch_mean,
                   m * var + (1 - m) * batch_var)
      mean, var = batch_mean, batch_var
    return (x - mean) / np.sqrt(var + layer.epsilon) * gamma + beta

  def check(self, what):
    ref.close(self.layer.moving_mean, self.next[0], what + ', moving mean',
              rtol=1e-3, atol=1e-3)
    ref.close(self.layer.moving_variance, self.next[1],
              what + ', moving variance', rtol=1e-3, atol=1e-3)


def _run(case, ctx):
  import tensorflow as tf
  from pylib.pc import Grid, Neighborhood
  from pylib.pc import layers as L
  tf.random.set_seed(case['tf_seed'])
  k = convref.ConvCase(case)
  c, cen = k.c, k.cen
  dim, width, net_kind = c.dim, k.width, case['net']
  kwargs, call_kwargs = {}, {}
  if case['layer_type'] is not None:
    kwargs['layer_type'] = case['layer_type']
  if case['conv'] == 'kp':
    kwargs.update(num_kernel_points=6, custom_kernel_points=kernel_points(dim))
    if case['deformable']:
      kwargs['deformable'] = True
    if case['gaussian']:
      kwargs['kp_interpolation'] = 'gaussian'
    if case['kernel_influence'] is not None:
      call_kwargs['kernel_influence_dist'] = (
          case['kernel_influence'] * k.radius)
  elif case['conv'] == 'mc':
    kwargs['num_mlps'] = 1
  if case['bandwidth'] is not None and case['conv'] != 'kp':
    call_kwargs['bandwidth'] = case['bandwidth']
  if case['activation'] is not None:
    kwargs['activation'] = getattr(tf.nn, case['activation'])
  if case['projection'] is not None:
    kwargs['projection_shortcuts'] = case['projection']
  if case.get('name') is not None:
    kwargs['name'] = case['name']
  radii = [k.radius * f for f in case['radii']]
  with sut('network'):
    if net_kind == 'plain':
      net = L.PointResNet(width, case['blocks'], dim, **kwargs)
    elif net_kind == 'bottleneck':
      net = L.PointResNetBottleNeck(width, case['inner'], case['blocks'], dim,
                                    **kwargs)
    else:
      net = L.PointResNetSpatialBottleNeck(width, case['blocks'], dim, **kwargs)
    for v in net.trainable_variables:
      if 'pdf_' in v.name:
        v.assign(tf.abs(v) + 0.125)

  def neighborhoods(given=True):
    def one(a, b, r, i=0):
      factors = case.get('given') if given else None
      r = np.full(dim, r * factors[i] if factors else r, dtype=np.float32)
      return Neighborhood(Grid(a, r), r, b)
    with sut('Neighborhood'):
      if net_kind != 'spatial':
        return one(c.pc, c.pc, k.radius)
      return [one(c.pc, cen.pc, radii[0]), one(cen.pc, cen.pc, radii[1], 1),
              one(cen.pc, c.pc, radii[2], 2)]

  def call(training, given):
    extra = dict(call_kwargs)
    if net_kind == 'spatial':
      if given:
        extra['neighborhoods'] = neighborhoods()
      rr = radii
      if case['radii_as'] == 'numpy':
        rr = np.array(radii, dtype=np.float32)
      elif case['radii_as'] == 'tensor':
        rr = tf.constant(radii, dtype=tf.float32)
      return net(k.features, c.pc, cen.pc, rr, training, **extra)
    if given:
      extra['neighborhood'] = neighborhoods()
    return net(k.features, c.pc, k.radius_arg, training, **extra)

  act = ACTIVATIONS[case['activation'] or 'relu']
  with sut('network call'):
    call(False, False)  # creates the variables of the normalisation
    norms = [_Norm(layer, case['raw'], i)
             for i, layer in enumerate(net._batch_norm_layers)]
    for group in ('_projection_layers', '_upsampling_layers',
                  '_downsampling_layers'):
      for i, layer in enumerate(getattr(net, group, [])):
        if isinstance(layer, L.Conv1x1):
          layer._bias_tf.assign(gen.weights_array(
              case['raw'][i:] + case['raw'][:i], layer._bias_tf.shape))

    if case.get('name') is not None:
      require(net.name == case['name'], 'the network is called %s', net.name)
    with net.name_scope:
      pass
    have = [id(v) for v in net.trainable_variables]
    parts = [p for group in ('_conv_layers', '_batch_norm_layers',
                             '_projection_layers', '_upsampling_layers',
                             '_downsampling_layers')
             for p in getattr(net, group, [])]
    parts = {id(p): p for p in parts}.values()
    need = [id(v) for p in parts
            for v in getattr(p, 'trainable_variables', [])]
    require(len(set(need)) == len(need), 'layers of a network share variables')
    require(set(need) == set(have) and len(have) == len(need),
            'the network has %d trainable variables, its layers %d', len(have),
            len(need))

  def conv(layer, x, a, b, r, nb):
    with sut('convolution'):
      return layer(x.astype(np.float32), a, b, r, neighborhood=nb,
                   **call_kwargs).numpy().astype(np.float64)

  def one_by_one(layer, x):
    require(isinstance(layer, L.Conv1x1), 'a projection is no 1x1 convolution')
    return (x @ layer._weights_tf.numpy().astype(np.float64) +
            layer._bias_tf.numpy())

  def reference(training, given):
    x = k.features.astype(np.float64)
    nbs = neighborhoods(given)
    used = []

    def norm(i, v):
      used.append(i)
      return act(norms[i](v, training))

    for i in range(case['blocks']):
      skip = x
      if net_kind == 'plain':
        x = conv(net._conv_layers[2 * i], norm(2 * i, x), c.pc, c.pc, k.radius,
                 nbs)
        x = conv(net._conv_layers[2 * i + 1], norm(2 * i + 1, x), c.pc, c.pc,
                 k.radius, nbs)
      elif net_kind == 'bottleneck':
        x = one_by_one(net._downsampling_layers[i], norm(3 * i, x))
        x = conv(net._conv_layers[i], norm(3 * i + 1, x), c.pc, c.pc, k.radius,
                 nbs)
        x = one_by_one(net._upsampling_layers[i], norm(3 * i + 2, x))
      else:
        x = conv(net._downsampling_layers[i], norm(3 * i, x), c.pc, cen.pc,
                 radii[0], nbs[0])
        x = conv(net._conv_layers[i], norm(3 * i + 1, x), cen.pc, cen.pc,
                 radii[1], nbs[1])
        x = conv(net._upsampling_layers[i], norm(3 * i + 2, x), cen.pc, c.pc,
                 radii[2], nbs[2])
      if case['projection']:
        skip = one_by_one(net._projection_layers[i], skip)
      x = x + skip
    require(len(used) == len(norms), '%d normalisations for %d layers',
            len(used), len(norms))
    return x

  for n, training in enumerate(case['calls']):
    given = (n + len(case['calls'])) % 2 == 0
    want = reference(training, given)
    what = '%s network, call %d (training: %s, neighborhoods %s)' % (
        net_kind, n, training, 'given' if given else 'computed')
    with sut(what):
      got = call(training, given)
    equal(got, want, what, rtol=1e-3)
    for i, norm in enumerate(norms):
      if np.abs(norm.next[1]).max() < 1e4:
        norm.check('%s, normalisation %d' % (what, i))
  ctx.label('net=' + net_kind)
  ctx.label('conv=' + case['conv'])
  ctx.label('blocks >= 2', case['blocks'] > 1)
  ctx.label('projection', bool(case['projection']))
  ctx.label('training', True in case['calls'])
  ctx.label('inference', False in case['calls'])
  ctx.label('training then inference', any(
      a and not b for a, b in zip(case['calls'], case['calls'][1:])))
  ctx.interesting(c.count > 2 and len(k.ci) > c.count)


TARGETS = [Target('resnet', _case, _run, quick=320)]
