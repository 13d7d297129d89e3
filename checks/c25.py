"""C25: gradients of layers and densities.

Every gradient the code under test gives is compared, entry by entry, with the
gradient of a float64 reference of the documented formulas (segment sums over
the brute-force neighbor pairs, no grid, no code of the repository). Entries at
a kink (an activation at zero, a tie of a maximum) are not judged.
"""
import numpy as np
from hypothesis import strategies as st

from checks import c13, c14, c15
from pbt import convref, gen, ref
from pbt.core import Target, require, sut

KINK = 2e-4


class Kinks:
  """Smallest relative distance to a point without derivative."""

  def __init__(self):
    self.least = np.inf

  def near(self, values, scale=None):
    values = np.abs(np.asarray(values))
    if values.size:
      scale = scale if scale is not None else max(values.max(), 1e-30)
      self.least = min(self.least, values.min() / scale)


def act64(name, kinks):
  import tensorflow as tf
  name = name.lower()

  def call(x):
    kinks.near(x.numpy())
    if name == 'relu':
      return tf.where(x > 0, x, 0 * x)
    if name == 'elu':
      return tf.where(x > 0, x, tf.math.expm1(tf.minimum(x, 0)))
    return tf.where(x > 0, x, 0.2 * x)
  return call


def pick_extreme(values, segments, num, last, kinks, sign=1):
  """Row index of the (largest) value of each segment and column; near ties
  are resolved to the first or last row (they count if both give the same, like
  the density of two points that only see each other)."""
  values = sign * np.asarray(values)
  out = np.full((num,) + values.shape[1:], 0, dtype=np.int64)
  for s in range(num):
    rows = np.nonzero(segments == s)[0]
    if not len(rows):
      continue
    own = values[rows]
    top = own.max(axis=0)
    good = own >= top - 1e-5 * np.abs(top) - 1e-12
    if good.sum(axis=0).max() > 2:
      kinks.near([0.0], 1.0)
    at = (len(rows) - 1 - good[::-1].argmax(axis=0)) if last else (
        good.argmax(axis=0))
    out[s] = rows[at]
  return out


def seg_sum(x, ids, num):
  import tensorflow as tf
  return tf.math.unsorted_segment_sum(x, ids, num)


def kde64(k, pts, bandwidth, normalize_rows=None):
  """Densities per point from float64 coordinates."""
  import tensorflow as tf
  ci, ni = k.own
  rel = (tf.gather(pts, ci) - tf.gather(pts, ni)) / k.pair_r
  u = rel / bandwidth
  per = tf.exp(-0.5 * u * u) / (np.sqrt(2 * np.pi) * bandwidth)
  return seg_sum(tf.reduce_prod(per, axis=1), ci, k.c.count)


def project(basis, feats, k):
  import tensorflow as tf
  terms = tf.gather(feats, k.ni)[:, :, None] * basis[:, None, :]
  agg = seg_sum(terms, k.ci, k.cen.count)
  return tf.reshape(agg, [k.cen.count, -1])


def mc64(k, p, act, bandwidth, kinks, last):
  import tensorflow as tf
  act = act64(act, kinks)
  centers = p['points'] if k.cen.kind == 'same' else p['centers']
  rel = (tf.gather(p['points'], k.ni) - tf.gather(centers, k.ci)) / k.r
  pdf = tf.gather(kde64(k, p['points'], bandwidth), k.ni)
  outs = []
  layers = len([n for n in p if n.startswith('weights')])
  for m in range(p['final'].shape[0]):
    x = rel
    for i in range(layers):
      x = act(x @ p['weights%d' % i][m] + p['biases%d' % i][m])
    outs.append(project(x / pdf[:, None], p['features'], k) @ p['final'][m])
  return tf.concat(outs, axis=1)


def pointconv64(k, p, act, bandwidth, kinks, last):
  import tensorflow as tf
  centers = p['points'] if k.cen.kind == 'same' else p['centers']
  offs = tf.gather(p['points'], k.ni) - tf.gather(centers, k.ci)
  x = act64(act, kinks)(offs @ p['axis'] + p['bias'])
  pdf = kde64(k, p['points'], bandwidth)
  own = tf.gather(pdf, k.ni)
  rows = pick_extreme(own.numpy(), k.ci, k.cen.count, last, kinks)
  rel = (own / tf.gather(own, rows[k.ci]))[:, None]
  hid = act64('relu', kinks)(rel @ p['pdf_w0'] + p['pdf_b0'])
  div = hid @ p['pdf_w1'] + p['pdf_b1']
  return project(x / div, p['features'], k) @ p['weights']


def kp64(k, p, kind, sigma, kernel, kinks, last, loss):
  import tensorflow as tf
  kernel = tf.constant(kernel.astype(np.float64))
  rel = tf.constant(k.offsets() / k.r)
  num = k.cen.count

  def weight(dist):
    if kind == 'linear':
      kinks.near(1 - dist.numpy() / sigma, 1.0)
      return tf.where(dist < sigma, 1 - dist / sigma, 0 * dist)
    return tf.exp(-(dist * 3 / sigma) ** 2)

  def conv(points, w):
    d2 = tf.reduce_sum((rel[:, None] - tf.gather(points, k.ci)) ** 2, axis=2)
    if 'shift' in p:
      kinks.near(d2.numpy() / sigma ** 2, 1.0)
    dist = tf.sqrt(tf.maximum(d2, 1e-60))
    return project(weight(dist), p['features'], k) @ w, dist

  base = tf.tile(kernel[None], [num, 1, 1])
  if 'shift' not in p:
    return conv(base, p['weights'])[0]
  shift, _ = conv(base, p['shift'])
  moved = base + tf.reshape(shift, base.shape)
  out, dist = conv(moved, p['weights'])
  if not loss:
    return out
  d2 = (dist / sigma) ** 2
  rows = pick_extreme(d2.numpy(), k.ci, num, last, kinks, sign=-1)
  fit = 0
  for j in range(kernel.shape[0]):
    fit += tf.reduce_sum(tf.gather(d2[:, j], rows[:, j]))
  rep = 0
  for i in range(kernel.shape[0]):
    for j in range(kernel.shape[0]):
      if i != j:
        d2 = tf.reduce_sum((moved[:, i] - moved[:, j]) ** 2, axis=1)
        kinks.near(d2.numpy() / sigma ** 2, 1.0)
        rep += tf.reduce_sum(weight(tf.sqrt(tf.maximum(d2, 1e-60))))
  return tf.reshape(fit + rep, [1, 1])


def reference(function, params, wrt, mix):
  """Gradients in `wrt`, their uncertainty, and the output."""
  import tensorflow as tf

  def gradients(values, last, kinks):
    p = {n: tf.constant(v, dtype=tf.float64) for n, v in values.items()}
    with tf.GradientTape() as tape:
      tape.watch([p[n] for n in wrt])
      out = function(p, kinks, last)
      total = tf.reduce_sum(out * mix(out))
    grads = tape.gradient(total, [p[n] for n in wrt],
                          unconnected_gradients='zero')
    return [tf.convert_to_tensor(g).numpy() for g in grads], out.numpy()

  kinks = Kinks()
  first, out = gradients(params, False, kinks)
  other, _ = gradients(params, True, Kinks())
  unsure = [np.abs(a - b) for a, b in zip(first, other)]
  # what a float32 rounding of the inputs does to the gradients
  for turn in range(3):
    noise = np.random.RandomState(turn)
    moved = {}
    for n, v in params.items():
      size = np.abs(v).max(initial=0) if n in ('points', 'centers') else (
          np.abs(v))
      moved[n] = v + 3e-7 * size * noise.uniform(-1, 1, np.shape(v))
    for last in (False, True):
      again, _ = gradients(moved, last, Kinks())
      unsure = [np.maximum(u, np.abs(a - b))
                for u, a, b in zip(unsure, first, again)]
  return first, unsure, out, kinks


def mixer(raw):
  """Weights of the sum that is differentiated."""
  def mix(out):
    shape = [int(s) for s in out.shape]
    return gen.weights_array(raw[8:] + raw[:8], shape, 1.0).astype(
        out.dtype.as_numpy_dtype)
  return mix


def compare(names, got, want, unsure, what):
  import tensorflow as tf
  for name, g, w, u in zip(names, got, want, unsure):
    if g is None and not np.abs(w).any():
      continue
    require(g is not None, '%s: no gradient with respect to the %s', what, name)
    if isinstance(g, tf.IndexedSlices):
      g = tf.convert_to_tensor(g)
    g = ref.shaped(g, w.shape, '%s: gradient of the %s' % (what, name), 'f')
    top = np.abs(w).max(initial=0)
    allowed = 30 * u + 2e-4 * top + 1e-6
    bad = ~(np.abs(g - w) <= allowed)
    if bad.any():
      at = tuple(int(i) for i in np.argwhere(bad)[0])
      require(False, '%s: gradient with respect to the %s at %s is %r, not %r '
              '(+- %.3g; largest %.3g)', what, name, at, float(g[at]),
              float(w[at]), float(allowed[at]), top)


def _points_args(k, names):
  """Clouds built from variables inside of a tape."""
  import tensorflow as tf
  from pylib.pc import PointCloud
  variables = dict(points=tf.Variable(k.c.points))
  if k.cen.kind != 'same':
    variables['centers'] = tf.Variable(k.cen.points)

  def clouds():
    pc = PointCloud(variables['points'], batch_ids=k.c.ids,
                    batch_size=k.c.batch)
    if k.cen.kind == 'same':
      return pc, pc
    return pc, PointCloud(variables['centers'], batch_ids=k.cen.ids,
                          batch_size=k.c.batch)
  return variables, clouds


@st.composite
def _case(draw):
  kind = draw(st.sampled_from(['mc', 'mc', 'point', 'point', 'kp', 'kp',
                               'loss']))
  case = draw(convref.conv_case(max_size=12, max_batch=3, low=1, high=5,
                                channels=(1, 2, 3)))
  if kind in ('kp', 'loss') and draw(st.booleans()):
    case['centers'] = dict(kind='same')
  case.update(kind=kind, wrt_points=draw(st.booleans()),
              act=draw(st.sampled_from([None, 'relu', 'leaky_relu', 'elu'])),
              keep_pdf=None, features_as='tensor')
  if kind == 'mc':
    case.update(mlps=draw(st.sampled_from([1, 2, 3])),
                per_mlp=draw(st.sampled_from([1, 2])),
                mlp_size=draw(st.lists(st.sampled_from([1, 2, 3]), min_size=1,
                                       max_size=3)))
  elif kind == 'point':
    case.update(out=draw(st.sampled_from([1, 2])),
                hidden=draw(st.sampled_from([1, 3, 5])))
  else:
    num = draw(st.sampled_from([1, 2, 4, 7]))
    rows = draw(gen.ints_block(num, case['cloud']['dim'], 17))
    case.update(out=draw(st.sampled_from([1, 2])), num=num,
                kernel=[[v - 8 for v in row] for row in rows],
                interpolation=draw(st.sampled_from(['linear', 'gaussian'])),
                influence=draw(st.sampled_from([None, 0.5, 1.0, 1.7])),
                deformable=kind == 'loss' or draw(st.booleans()), tf_seed=0)
  return case


def _nudge(bias):
  """No bias close to zero: self pairs are at the kink then."""
  return np.where(np.abs(bias) < 0.02, np.float32(0.03), bias).astype(
      np.float32)


def _run(case, ctx):
  import tensorflow as tf
  k = convref.ConvCase(case)
  ctx.label('kind=' + case['kind'])
  if not k.ok:
    ctx.label('ambiguous neighbor')
    return
  params = dict(features=k.features, points=k.c.points)
  if k.cen.kind != 'same':
    params['centers'] = k.cen.points
  wrt = ['features']
  variables = {}
  kwargs = {}
  if case['kind'] == 'mc':
    layer, weights, biases, final = c13.build(case, k)
    for i, (w, b) in enumerate(zip(weights, biases)):
      b = _nudge(b)
      layer._bias_tf[i].assign(b)
      params.update({'weights%d' % i: w, 'biases%d' % i: b})
      variables.update({'weights%d' % i: layer._weights_tf[i],
                        'biases%d' % i: layer._bias_tf[i]})
    params['final'] = final
    variables['final'] = layer._final_weights_tf
  elif case['kind'] == 'point':
    layer, axis, bias, weights, pdf_w, pdf_b = c14.build(case, k)
    bias = _nudge(bias)
    layer._basis_bias_tf.assign(bias)
    params.update(axis=axis, bias=bias, weights=weights, pdf_w0=pdf_w[0],
                  pdf_w1=pdf_w[1], pdf_b0=pdf_b[0] + np.float32(0.05),
                  pdf_b1=pdf_b[1])
    layer._biases_pdf[0].assign(params['pdf_b0'])
    variables.update(axis=layer._basis_axis_tf, bias=layer._basis_bias_tf,
                     weights=layer._weights, pdf_w0=layer._weights_pdf[0],
                     pdf_w1=layer._weights_pdf[1],
                     pdf_b0=layer._biases_pdf[0], pdf_b1=layer._biases_pdf[1])
  else:
    layer, kernel, weights, shift = c15.build(case, k)
    params['weights'] = weights
    variables['weights'] = layer._weights
    if shift is not None:
      params['shift'] = shift
      variables['shift'] = layer._kernel_offsets_weights
    if case['influence'] is not None:
      kwargs['kernel_influence_dist'] = case['influence'] * k.radius
    sigma = case['influence'] or 1 / 2.5
    if case['kind'] == 'loss' and not (k.counts > 0).all():
      ctx.label('center without neighbors')
      return
  if case['kind'] in ('mc', 'point'):
    if case['bandwidth'] is not None:
      kwargs['bandwidth'] = case['bandwidth']
  with_points = case['wrt_points'] and case['kind'] in ('mc', 'point')
  variables['features'] = tf.Variable(k.features)
  clouds = lambda: (k.c.pc, k.cen.pc)
  if with_points:
    point_variables, clouds = _points_args(k, None)
    variables.update(point_variables)
  wrt = [n for n in params if n in variables]
  if case['kind'] == 'loss':
    wrt = [n for n in wrt if n in ('features', 'shift')]
  mix = mixer(case['raw'])
  with tf.GradientTape() as tape:
    with sut('%s call' % case['kind']):
      pc, centers = clouds()
      nb = k.neighborhood(pc, centers)
      if nb is not None:
        kwargs['neighborhood'] = nb
      out = layer(variables['features'], pc, centers, k.radius_arg, **kwargs)
      if case['kind'] == 'loss':
        out = tf.reshape(layer.regularization_loss(), [1, 1])
    total = tf.reduce_sum(out * mix(out))
  with sut('gradient'):
    got = tape.gradient(total, [variables[n] for n in wrt])
  params = {n: np.asarray(v, dtype=np.float64) for n, v in params.items()}
  if case['kind'] == 'mc':
    fn = lambda p, kinks, last: mc64(k, p, case['act'] or 'leaky_relu',
                                     k.bandwidth, kinks, last)
  elif case['kind'] == 'point':
    fn = lambda p, kinks, last: pointconv64(k, p, case['act'] or 'relu',
                                            k.bandwidth, kinks, last)
  else:
    fn = lambda p, kinks, last: kp64(k, p, case['interpolation'], sigma, kernel,
                                     kinks, last, case['kind'] == 'loss')
  want, unsure, value, kinks = reference(fn, params, wrt, mix)
  # (the values themselves are the business of other properties)
  if kinks.least < KINK:
    ctx.label('at a kink')
    return
  compare(wrt, got, want, unsure, case['kind'])
  ctx.label('points', with_points)
  ctx.label('deformable', bool(case.get('deformable')))
  ctx.label('centers=' + k.cen.kind)
  used = np.zeros(k.c.count, dtype=bool)
  used[k.ni] = True
  ctx.label('unused point', not used.all())
  ctx.interesting(len(k.ci) > k.cen.count and
                  all(np.abs(w).max(initial=0) > 0 for w in want))


@st.composite
def _density_case(draw):
  case = draw(convref.conv_case(max_size=14, max_batch=3, low=1, high=5,
                                channels=(1,)))
  case.update(api=draw(st.sampled_from(['pairs', 'points'])),
              normalize=draw(st.booleans()))
  if draw(st.booleans()):
    dim = case['cloud']['dim']
    case.update(factors=draw(st.lists(st.sampled_from([0.5, 1, 1.5, 2]),
                                      min_size=dim, max_size=dim)),
                bandwidths=draw(st.lists(st.sampled_from([0.1, 0.2, 0.3, 0.5]),
                                         min_size=dim, max_size=dim)))
  return case


def _run_density(case, ctx):
  import tensorflow as tf
  from pylib.pc import Grid, Neighborhood
  from pylib.pc.Neighborhood import density_estimation
  k = convref.ConvCase(dict(case, inner=1.0))
  ctx.label('api=' + case['api'])
  if not k.ok:
    ctx.label('ambiguous neighbor')
    return
  variables, clouds = _points_args(k, None)
  mix = mixer(case['raw'])
  radii = k.r.astype(np.float32)
  bandwidth, scaling = k.bandwidth, k.radius
  if case.get('factors'):
    bandwidth = np.array(case['bandwidths'], dtype=np.float32)
    scaling = radii
    ctx.label('radius per axis', len(set(radii)) > 1)
  own_counts = np.bincount(k.own[0], minlength=k.c.count)
  with tf.GradientTape() as tape:
    with sut('density'):
      pc, centers = clouds()
      if case['api'] == 'points':
        out = density_estimation(pc, bandwidth=bandwidth, scaling=scaling,
                                 normalize=case['normalize'])
        pairs = None
      else:
        nb = Neighborhood(Grid(pc, radii), radii, centers)
        out = nb.get_pdf(bandwidth=bandwidth, normalize=case['normalize'])
        pairs = nb._original_neigh_ids.numpy()
    total = tf.reduce_sum(out * mix(out))
  with sut('gradient'):
    got = tape.gradient(total, variables['points'])

  def fn(p, kinks, last):
    pdf = kde64(k, p['points'], np.asarray(bandwidth, dtype=np.float64))
    if pairs is None:
      return pdf / own_counts if case['normalize'] else pdf
    pdf = tf.gather(pdf, pairs[:, 0])
    return pdf / k.counts[pairs[:, 1]] if case['normalize'] else pdf

  params = dict(points=k.c.points.astype(np.float64))
  want, unsure, _, _ = reference(fn, params, ['points'], mix)
  if pairs is not None and len(pairs) == 0:
    require(got is None or not np.abs(tf.convert_to_tensor(got).numpy()).any(),
            'gradient of no densities')
    return
  compare(['points'], [got], want, unsure, 'density')
  ctx.interesting(np.abs(want[0]).max() > 0)


@st.composite
def _simple_case(draw):
  case = draw(convref.conv_case(max_size=14, max_batch=3, channels=(1, 2, 3)))
  case.update(op=draw(st.sampled_from(
      ['max', 'mean', 'global max', 'global mean', '1x1', 'basis_proj'])),
              out=draw(st.integers(1, 3)))
  return case


def _run_simple(case, ctx):
  """Layers that are linear, or select: gradients follow from the pairs."""
  import tensorflow as tf
  from pylib.pc.layers import (AveragePooling, Conv1x1, GlobalAveragePooling,
                               GlobalMaxPooling, MaxPooling)
  from pylib.pc.custom_ops import basis_proj
  op = case['op']
  if op != 'basis_proj':
    case = dict(case, inner=1.0)
  k = convref.ConvCase(case)
  ctx.label('op=' + op)
  if not k.ok:
    ctx.label('ambiguous neighbor')
    return
  feats = tf.Variable(k.features)
  mix = mixer(case['raw'])
  variables = [feats]
  names = ['features']
  n = k.c.count
  f64 = k.features.astype(np.float64)
  with tf.GradientTape() as tape:
    with sut(op):
      if op in ('max', 'mean'):
        layer = MaxPooling() if op == 'max' else AveragePooling()
        out = layer(feats, k.c.pc, k.cen.pc, k.radius)
      elif op.startswith('global'):
        layer = (GlobalMaxPooling() if op == 'global max' else
                 GlobalAveragePooling())
        out = layer(feats, k.c.pc)
      elif op == '1x1':
        layer = Conv1x1(k.width, case['out'])
        out = layer(feats, k.c.pc)
        weights = [layer._weights_tf, layer._bias_tf]
        names += ['weights', 'biases']
        variables += weights
      else:
        nb = k.neighborhood()
        if nb is None:
          from pylib.pc import Grid, Neighborhood
          radii = np.full(k.c.dim, k.radius, dtype=np.float32)
          nb = Neighborhood(Grid(k.c.pc, radii), radii, k.cen.pc)
        pairs = nb._original_neigh_ids.numpy()
        basis = tf.Variable(gen.weights_array(case['raw'],
                                              (len(pairs), case['out'])))
        names.append('basis')
        variables.append(basis)
        out = basis_proj(basis, feats, nb)
    # empty segments of a maximum are huge
    r = mix(out)
    if op in ('max', 'mean'):
      r[k.counts == 0] = 0
    elif op.startswith('global'):
      r[k.c.sizes == 0] = 0
    total = tf.reduce_sum(tf.where(r != 0, out * r, 0 * r))
  with sut('gradient of ' + op):
    got = tape.gradient(total, variables)
  r = r.astype(np.float64)
  unsure = np.zeros_like(f64)
  if op.startswith('global') or op in ('max', 'mean'):
    if op.startswith('global'):
      seg, rows, num = k.c.ids, np.arange(n), k.c.batch
    else:
      seg, rows, num = k.ci, k.ni, k.cen.count
    want = np.zeros_like(f64)
    if op.endswith('mean'):
      count = np.bincount(seg, minlength=num)
      np.add.at(want, rows, (r / np.maximum(count, 1)[:, None])[seg])
    else:
      for s in range(num):
        own = rows[seg == s]
        if not len(own):
          continue
        for ch in range(k.width):
          vals = f64[own, ch]
          top = own[vals == vals.max()]
          if len(top) > 1:
            unsure[top, ch] = np.inf
          want[top[0], ch] += r[s, ch]
    want = [want]
    unsure = [unsure]
  elif op == '1x1':
    w = weights[0].numpy().astype(np.float64)
    require(w.shape[-2:] == (k.width, case['out']), 'weights %s', w.shape)
    want = [r @ w.reshape(k.width, case['out']).T,
            (f64.T @ r).reshape(w.shape),
            r.sum(axis=0).reshape(weights[1].shape)]
    unsure = [np.zeros_like(v) for v in want]
  else:
    want_f = np.zeros_like(f64)
    b64 = basis.numpy().astype(np.float64)
    rr = r[pairs[:, 1]]
    np.add.at(want_f, pairs[:, 0], np.einsum('mch,mh->mc', rr, b64))
    want = [want_f, np.einsum('mch,mc->mh', rr, f64[pairs[:, 0]])]
    unsure = [np.zeros_like(v) for v in want]
  got = [tf.convert_to_tensor(g) if g is not None else g for g in got]
  for i, g in enumerate(got):
    if g is None and not np.abs(want[i]).any():
      got[i] = tf.zeros(want[i].shape)
  compare(names, got, want, unsure, op)
  ctx.interesting(np.abs(want[0]).max(initial=0) > 0)


TARGETS = [Target('layers', _case, _run, quick=320),
           Target('densities', _density_case, _run_density, quick=200),
           Target('pooling_and_aggregation', _simple_case, _run_simple,
                  quick=400)]
