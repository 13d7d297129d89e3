"""C28: the CUDA kernels of custom_ops/, on an emulated device.

`pbt.native` builds the sources of the repository for the CPU. Everything of
pylib that uses the package then runs these kernels, with the size of the device
and the order of the threads drawn with the case, and is judged by the oracles
of the single operations.
"""
import numpy as np
from hypothesis import strategies as st

from checks import c05, c06, c08, c09, c10, c24, c25
from pbt import convref, gen, native, ref
from pbt.core import Target, require, sut


@st.composite
def _machine(draw):
  return dict(seed=draw(st.integers(0, 2**31 - 1)),
              mps=draw(st.sampled_from([1, 2, 3, 16])),
              blocks=draw(st.sampled_from([1, 2, 4])),
              preempt=draw(st.sampled_from([0, 0, 0, 29, 7, 2])),
              resident=draw(st.sampled_from([1, 2, 5, 40])),
              order=draw(st.sampled_from([0, 1, 1, 2])))


def _start(case, ctx):
  machine = case['machine']
  native.configure(**machine)
  ctx.label('preempted threads', machine['preempt'] > 0)
  ctx.label('blocks %s' % ['in order', 'in any order', 'reversed'][
      machine['order']])
  ctx.label('blocks one by one', machine['resident'] == 1)


def _native(what):
  import pylib.pc.custom_ops as ops
  from pylib.pc.custom_ops import custom_ops_wrapper
  require(ops.CUSTOM == 1 and
          getattr(ops, what) is getattr(custom_ops_wrapper, what),
          'the compiled operations are not used although they are present')


def _through(module, **counts):
  """Targets of another check, judged with the kernels."""
  made = []
  for target in module.TARGETS:
    if target.name not in counts:
      continue

    @st.composite
    def strategy(draw, target=target):
      # the operations are defined for 2 to 6 dimensions
      inner = draw(target.strategy().filter(
          lambda case: case['cloud']['dim'] >= 2))
      return dict(machine=draw(_machine()), case=inner)

    def run(case, ctx, target=target):
      _native('find_neighbors')
      _start(case, ctx)
      target.run(case['case'], ctx)
      ctx.label('> 2 dimensions', case['case']['cloud']['dim'] > 2)
      ctx.label('> 3 dimensions', case['case']['cloud']['dim'] > 3)
      ctx.label('several clouds', len(case['case']['cloud']['sizes']) > 1)
    made.append(Target('%s_%s' % (module.__name__[-3:], target.name),
                       strategy, run, quick=counts[target.name]))
  return made


@st.composite
def _basis_case(draw):
  case = draw(convref.conv_case(dims=(2, 3, 3, 4), max_size=60, max_batch=4,
                                low=0, high=4, large=300,
                                channels=(1, 2, 3, 5, 7, 8, 16, 24, 40)))
  basis = draw(st.sampled_from([8, 8, 16, 32, 64]))
  width = len(case['features'][0]) if case['features'] else 1
  pairs = (max(case['cloud']['sizes']) * sum(case['cloud']['sizes']))
  # (the emulated device is slow: at most 2e7 products)
  while pairs * width * basis > 2e7 and basis > 8:
    basis //= 2
  if pairs * width * basis > 2e7:
    width = 8
    case['features'] = [row[:8] for row in case['features']]
  case.update(basis=basis)
  return dict(case=case, machine=draw(_machine()))


def _run_basis(case, ctx):
  import tensorflow as tf
  from pylib.pc import custom_ops
  _native('basis_proj')
  _start(case, ctx)
  inner = case['case']
  k = convref.ConvCase(inner)
  with sut('Neighborhood'):
    nb = k.neighborhood()
    if nb is None:
      from pylib.pc import Grid, Neighborhood
      radii = np.full(k.c.dim, k.radius, dtype=np.float32)
      nb = Neighborhood(Grid(k.c.pc, radii), radii, k.cen.pc)
    pairs = nb._original_neigh_ids
    ranges = ref.as_np(nb._samples_neigh_ranges)
  pairs = ref.shaped(pairs, [None, 2], 'pairs', 'iu')
  num = len(ranges)
  size = inner['basis']
  basis = tf.Variable(gen.weights_array(inner['raw'], (len(pairs), size)))
  feats = tf.Variable(k.features)
  with tf.GradientTape() as tape:
    with sut('basis_proj'):
      out = custom_ops.basis_proj(basis, feats, nb)
    mix = gen.weights_array(inner['raw'][5:] + inner['raw'][:5],
                            [num, k.width, size], 1.0)
    total = tf.reduce_sum(out * mix)
  with sut('gradient of basis_proj'):
    grads = tape.gradient(total, [basis, feats],
                          unconnected_gradients='zero')
  b64 = basis.numpy().astype(np.float64)
  f64 = k.features.astype(np.float64)
  m64 = mix.astype(np.float64)
  want = np.zeros((num, k.width, size))
  np.add.at(want, pairs[:, 1], f64[pairs[:, 0]][:, :, None] * b64[:, None, :])
  out = ref.shaped(out, want.shape, 'aggregation', 'f')
  ref.close(out, want, 'aggregation', rtol=1e-5,
            atol=2e-6 * (1 + np.abs(want).max(initial=0)))
  want = np.einsum('mch,mc->mh', m64[pairs[:, 1]], f64[pairs[:, 0]])
  got = ref.shaped(tf.convert_to_tensor(grads[0]), want.shape,
                   'gradient of the basis', 'f')
  ref.close(got, want, 'gradient of the basis', rtol=1e-5,
            atol=2e-6 * (1 + np.abs(want).max(initial=0)))
  want = np.zeros_like(f64)
  np.add.at(want, pairs[:, 0], np.einsum('mch,mh->mc', m64[pairs[:, 1]], b64))
  got = ref.shaped(tf.convert_to_tensor(grads[1]), want.shape,
                   'gradient of the features', 'f')
  ref.close(got, want, 'gradient of the features', rtol=1e-5,
            atol=2e-6 * (1 + np.abs(want).max(initial=0)))
  ctx.label('basis=%d' % size)
  ctx.label('features=%d' % k.width)
  ctx.label('no pairs', len(pairs) == 0)
  ctx.label('isolated center', bool((np.diff(ranges, prepend=0) == 0).any()))
  ctx.interesting(len(pairs) > num)


@st.composite
def _layer_case(draw):
  case = draw(c25._case())
  # the kernels exist for 8, 16, 32 and 64 basis functions; a kernel point
  # convolution is padded to them
  size = draw(st.sampled_from([8, 8, 16]))
  if case['kind'] == 'mc':
    mlps = draw(st.sampled_from([1, 2, 4]))
    case.update(mlps=mlps, mlp_size=case['mlp_size'][:2] + [size // mlps])
  elif case['kind'] == 'point':
    case['hidden'] = size
  else:
    size = draw(st.sampled_from(
        [8, 1, 5, 7, 9] if case['kind'] == 'loss' else
        [8, 16, 1, 5, 7, 9, 12, 15, 17, 20, 33, 40]))
    rows = draw(gen.ints_block(size, case['cloud']['dim'], 17))
    case.update(num=size, kernel=[[v - 8 for v in row] for row in rows])
  return dict(case=case, machine=draw(_machine()))


def _run_layer(case, ctx):
  _native('basis_proj')
  _start(case, ctx)
  c25._run(case['case'], ctx)


@st.composite
def _graph_case(draw):
  case = draw(c24._case())
  return dict(case=case, machine=draw(_machine()))


def _run_graph(case, ctx):
  _native('find_neighbors')
  _start(case, ctx)
  c24._run(case['case'], ctx, any_order=True)


TARGETS = _through(c05, grid=400)
TARGETS += _through(c06, neighborhood=800)
TARGETS += _through(c08, neighborhood=240, functions=160)
TARGETS += _through(c09, poisson=320)
TARGETS += _through(c10, average=240)
TARGETS += _through(c25, densities=80)
TARGETS += [Target('basis_proj', _basis_case, _run_basis, quick=480),
            Target('layers', _layer_case, _run_layer, quick=120),
            Target('graph', _graph_case, _run_graph, quick=64)]
