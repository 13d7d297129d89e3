"""C19: packed, sorted and padded features."""
import numpy as np
from hypothesis import strategies as st

from pbt import convref, gen, ref
from pbt.core import Target, require, sut

LAYERS = ['mc', 'mc', 'pointconv', 'pointconv', 'kp', 'kp', 'kp_deformable',
          'max', 'mean', 'conv1x1', 'global_max', 'global_mean',
          'resnet', 'bottleneck', 'spatial']
SINGLE = ('conv1x1', 'resnet', 'bottleneck')


@st.composite
def _case(draw):
  case = draw(convref.conv_case(max_size=24, large=200, max_batch=6, dims=(2, 3, 3, 4)))
  batch = len(case['cloud']['sizes'])
  shapes = st.one_of(st.none(), st.none(),
                     st.sampled_from(gen.factor_shapes(batch)))
  case.update(
      layer=draw(st.sampled_from(LAYERS)), out=draw(st.sampled_from([1, 2, 4])),
      shape_in=draw(shapes), shape_out=draw(shapes),
      pad=draw(st.sampled_from([0, 0, 1, 3])),
      fill=draw(st.sampled_from([0.0, 1000.0, -7.5])),
      inner=draw(st.sampled_from(['mc', 'pointconv', 'kpconv'])),
      training=draw(st.booleans()),
      tf_seed=draw(st.integers(0, 10**6)))
  return case


def kernel_points(dim, num=6):
  """Custom kernel points for any dimension."""
  vals = gen.weights_array(bytes(range(40, 80)), (num, dim), 1.0)
  return vals


def make_layer(name, k, case):
  """A function (features, **formatting) for the layer."""
  import tensorflow as tf
  from pylib.pc import layers as L
  dim = k.c.dim
  out = case['out']
  extra = {}
  if name in ('resnet', 'bottleneck', 'spatial'):
    inner = dict(layer_type=case['inner'])
    if case['inner'] == 'kpconv':
      inner.update(num_kernel_points=6, custom_kernel_points=kernel_points(dim))
    elif case['inner'] == 'mc':
      inner.update(num_mlps=1)
  if name == 'mc':
    layer = L.MCConv(k.width, 2 * out, dim, num_mlps=2, mlp_size=[3, 4])
  elif name == 'pointconv':
    layer = L.PointConv(k.width, out, dim, size_hidden=8)
    for v in layer._weights_pdf + layer._biases_pdf:
      v.assign(tf.abs(v) + 0.125)
  elif name in ('kp', 'kp_deformable'):
    layer = L.KPConv(k.width, out, num_kernel_points=6, num_dims=dim,
                     deformable=name == 'kp_deformable',
                     custom_kernel_points=kernel_points(dim))
  elif name == 'max':
    layer = L.MaxPooling()
  elif name == 'mean':
    layer = L.AveragePooling()
  elif name == 'conv1x1':
    layer = L.Conv1x1(k.width, out)
    layer._bias_tf.assign(gen.weights_array(case['raw'], (1, out)))
  elif name == 'global_max':
    layer = L.GlobalMaxPooling()
  elif name == 'global_mean':
    layer = L.GlobalAveragePooling()
  elif name == 'resnet':
    layer = L.PointResNet(k.width, 1, dim, projection_shortcuts=True, **inner)
  elif name == 'bottleneck':
    layer = L.PointResNetBottleNeck(k.width, 2, 1, dim, **inner)
  else:
    layer = L.PointResNetSpatialBottleNeck(k.width, 1, dim, **inner)
  c, cen = k.c, k.cen
  if name == 'conv1x1':
    call = lambda f, **kw: layer(f, c.pc, **kw)
  elif name.startswith('global'):
    call = lambda f, **kw: layer(f, c.pc, **kw)
  elif name in ('resnet', 'bottleneck'):
    call = lambda f, **kw: layer(f, c.pc, k.radius, case['training'], **kw)
  elif name == 'spatial':
    call = lambda f, **kw: layer(f, c.pc, cen.pc, [k.radius] * 3,
                                 case['training'], **kw)
  else:
    call = lambda f, **kw: layer(f, c.pc, cen.pc, k.radius, **kw)
  return layer, call


def equal(got, want, what, rtol=1e-4):
  """Equality up to a tolerance relative to the largest value; not-a-number
  and infinities have to be at the same places."""
  got = ref.as_np(got).astype(np.float64)
  want = np.asarray(want, dtype=np.float64)
  require(got.shape == want.shape, '%s: shape %s instead of %s', what,
          list(got.shape), list(want.shape))
  if want.size == 0:
    return
  got, want = np.atleast_1d(got), np.atleast_1d(want)
  fin = np.isfinite(want) & (np.abs(want) < 1e30)
  fin2 = np.isfinite(got) & (np.abs(got) < 1e30)
  bad = fin != fin2
  top = np.abs(want[fin]).max(initial=0)
  both = fin & fin2
  bad[both] |= np.abs(got[both] - want[both]) > rtol * (top + 1e-3)
  if bad.any():
    at = np.argwhere(bad)[0]
    require(False, '%s: %d of %d entries differ, first at %s: %r instead of %r',
            what, int(bad.sum()), bad.size, at.tolist(),
            float(got[tuple(at)]), float(want[tuple(at)]))


def _run(case, ctx):
  import tensorflow as tf
  tf.random.set_seed(case['tf_seed'])
  k = convref.ConvCase(dict(case, inner=1.0))
  c, cen = k.c, k.cen
  name = case['layer']
  shape_in, shape_out = c.shape, None
  with sut('set_batch_shape'):
    if case['shape_in'] is not None:
      c.pc.set_batch_shape(case['shape_in'])
      shape_in = case['shape_in']
    if cen.kind == 'same':
      shape_out = shape_in
    elif case['shape_out'] is not None:
      cen.pc.set_batch_shape(case['shape_out'])
      shape_out = case['shape_out']
  on_input = name in SINGLE or name == 'spatial'
  out_ids = c.ids if on_input else cen.ids
  if on_input:
    shape_out = shape_in
  with sut(name):
    layer, call = make_layer(name, k, case)
    packed = call(k.features).numpy()
  flat_in = list(shape_in) if shape_in is not None else [c.batch]
  flat_out = list(shape_out) if shape_out is not None else [c.batch]
  rows = max(1, int(c.sizes.max())) + case['pad']
  padded_in = c.padded(c.to_major(k.features), rows=rows,
                       fill=np.float32(case['fill'])).reshape(
                           flat_in + [rows, k.width])
  if name == 'conv1x1':
    w = layer._weights_tf.numpy().astype(np.float64)
    b = layer._bias_tf.numpy().astype(np.float64)
    ref.close(packed, k.features @ w + b, 'affine map', rtol=1e-5, atol=1e-4)
  with sut(name + ' of padded features'):
    got = call(padded_in)
  equal(got, packed, '%s of padded features' % name)
  if name.startswith('global'):
    if shape_in is not None:
      with sut(name + ' returned in the batch shape'):
        got = call(padded_in, return_padded=True)
      equal(got, packed.reshape(flat_in + [-1]), name + ' in the batch shape')
  else:
    width = packed.shape[1]
    at = np.argsort(out_ids, kind='stable')
    for feats, how in ((k.features, 'packed'), (padded_in, 'padded')):
      with sut('%s of %s features, sorted' % (name, how)):
        got = call(feats, return_sorted=True)
      equal(got, packed[at], '%s of %s features, sorted' % (name, how))
      with sut('%s of %s features, padded' % (name, how)):
        got = call(feats, return_padded=True)
      what = '%s of %s features, padded' % (name, how)
      got = ref.shaped(got, flat_out + [None, width], what)
      sizes = np.bincount(out_ids, minlength=c.batch)
      v = got.shape[-2]
      require(v >= sizes.max(), '%s: V = %d', what, v)
      want = np.zeros((c.batch, v, width))
      for i in range(c.batch):
        want[i, :sizes[i]] = packed[out_ids == i]
      equal(got.reshape(want.shape), want, what)
      got = got.reshape(want.shape)
      for i in range(c.batch):
        require((got[i, sizes[i]:] == 0).all(), '%s: padding is not zero', what)
    if not on_input or True:
      with sut('both'):
        got = call(k.features, return_sorted=True, return_padded=True)
      require(len(got.shape) == len(flat_out) + 2,
              '%s: return_padded with return_sorted gives shape %s', name,
              list(got.shape))
  ctx.label('layer=' + name)
  ctx.label('points in mixed order', not (np.diff(out_ids) >= 0).all())
  ctx.label('batch shape', shape_in is not None)
  ctx.label('sizes differ', len(set(c.case['sizes'])) > 1)
  ctx.label('empty cloud', bool((c.sizes == 0).any()))
  ctx.interesting(c.batch > 1 and c.count > 3)


TARGETS = [Target('layouts', _case, _run, quick=640)]
