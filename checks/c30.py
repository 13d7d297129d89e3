"""C30: the models of the example programs."""
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gen, programs, ref
from pbt.core import Target, require, sut

KINDS = ['MCConv', 'KPConv', 'PointConv']
_spaces, _models = {}, {}


def _space(script):
  if script not in _spaces:
    folder = tempfile.mkdtemp() + '/'
    try:
      programs.write_data(folder, ['a'], [0], [0],
                          1024 if 'small' in script else 10000)
      _spaces[script] = programs.execute(script, folder, folder + 'binary')
    finally:
      shutil.rmtree(folder, ignore_errors=True)
  return _spaces[script]


def _eager(on):
  import tensorflow as tf
  tf.config.run_functions_eagerly(on)


@st.composite
def _model_case(draw):
  script = draw(st.sampled_from(programs.SCRIPTS))
  batch = 16
  rows = draw(st.integers(1, 8))
  return dict(
      script=script, kind=draw(st.sampled_from(KINDS)),
      levels=draw(st.sampled_from([1, 2, 2])),
      step=draw(st.sampled_from(gen.DYADIC)),
      points=draw(gen.ints_block(batch * rows, 3, 17)),
      sizes=draw(st.lists(st.integers(1, rows), min_size=batch,
                          max_size=batch)),
      rows=rows, radius=draw(st.integers(2, 8)),
      shift=draw(st.lists(st.integers(-64, 64), min_size=3, max_size=3)),
      seed=draw(st.integers(0, 2**31 - 1)),
      training=draw(st.booleans()),
      method=draw(st.sampled_from(['cell average', 'cell average',
                                   'poisson disk'])))


def _model(case):
  """The model of a case, with the weights of the case."""
  space = _space(case['script'])
  levels = case['levels']
  small = 'small' in case['script']
  method = case.get('method', 'cell average')
  key = (case['script'], case['kind'], levels, method)
  # the boundaries of cells do not meet the extents of clouds: these are cells
  # of their own only if another cloud of the batch is larger
  radii = np.array([case['radius'] * case['step'] * 2**i
                    for i in range(levels)]) * 1.07**0.5
  import tensorflow as tf
  tf.random.set_seed(1)
  if small:
    # the last level pools each cloud in one point
    radii = np.append(radii, 1000.0)
    sizes = [1] + [8, 4, 12][:levels + 1] + [4, 3]
  else:
    sizes = [4, 8][:levels] + [4, 3]
  if key not in _models:
    _models[key] = space['mymodel'](
        sizes, radii, radii * 1.5, layer_type=case['kind'],
        sampling_method=method, dropout_rate=0.5)
  model = _models[key]
  # the radii are plain attributes
  for name in ('pool_radii', 'sample_radii'):
    if hasattr(model, name):
      setattr(model, name, radii.reshape(-1, 1))
  model.conv_radii = radii * 1.5
  return model, space


def _assign(module, case):
  """New values for all variables; those which are divisors positive."""
  rng = np.random.RandomState(case['seed'])
  for v in module.variables:
    value = rng.uniform(-1, 1, v.shape)
    # (PointConv divides by a network of the densities)
    if 'variance' in v.name or 'pdf' in v.name:
      value = np.abs(value) + 0.5
    v.assign(value.astype(np.float32))


def _inputs(case):
  points = np.array(case['points'], dtype=np.float64).reshape(
      16, case['rows'], 3) * case['step']
  if case.get('method') == 'poisson disk':
    # the choice of samples is random: the points of a cloud coincide
    points[:] = points[:, :1]
  return points.astype(np.float32), np.array(case['sizes'], dtype=np.int32)


def _call(model, points, sizes, what, training=False):
  import tensorflow as tf
  features = tf.ones(points.shape[:2] + (1,))
  with sut(what):
    out = model(tf.constant(points), features, tf.constant(sizes),
                tf.constant(training))
  return ref.shaped(out, [16, 3], what, 'f')


def _run_model(case, ctx):
  import tensorflow as tf
  _eager(True)
  try:
    with sut('model'):
      model, space = _model(case)
    require(space['batch_size'] == 16, 'batch size')
    points, sizes = _inputs(case)
    # the dense layers and batch norms are built by the first call
    _call(model, points, sizes, 'first call')
    _assign(model, case)
    logits = _call(model, points, sizes, 'logits')
    require(np.isfinite(logits).all(), 'a logit is not finite')
    scale = 1 + np.abs(logits).max()

    def compare(got, want, what):
      ref.close(got, want, what, rtol=2e-3, atol=2e-3 * scale)

    ref.same(_call(model, points, sizes, 'second call'), logits,
             'logits of a second call (dropout in inference?)')
    # the rows after the points of a cloud do not matter
    rng = np.random.RandomState(case['seed'])
    if case.get('method') == 'poisson disk':
      with sut('model'):
        twin, _ = _model(dict(case, method='cell average'))
      _call(twin, points, sizes, 'first call')
      _assign(twin, case)
      compare(_call(twin, points, sizes, 'cell average'), logits,
              'logits with cell average sampling')
    other = points.copy()
    wide = rng.uniform(-50, 50, (16, case['rows'] + 2, 3)).astype(np.float32)
    for i, n in enumerate(sizes):
      wide[i, :n] = points[i, :n]
    compare(_call(model, wide, sizes, 'other padding'), logits,
            'logits with other padding')
    # order of the clouds
    order = rng.permutation(16)
    compare(_call(model, points[order], sizes[order], 'reordered batch'),
            logits[order], 'logits of reordered clouds')
    # clouds do not influence each other; order of points in their cloud
    replaced = rng.permutation(16)[:8]
    kept = np.setdiff1d(np.arange(16), replaced)
    if case['kind'] != '':
      for i in kept:
        other[i, :sizes[i]] = points[i, rng.permutation(sizes[i])]
      for i in replaced:
        # inside of the extent of all clouds: the number of cells is shared
        other[i] = points[replaced[0], 0]
      compare(_call(model, other, sizes, 'other clouds')[kept], logits[kept],
              'logits of the other clouds after replacing some')
    before = [v.numpy() for v in model.variables]
    shift = np.array(case['shift']) * case['step']
    compare(_call(model, (points + shift).astype(np.float32), sizes, 'moved'),
            logits, 'logits of moved clouds')
    for v, b in zip(model.variables, before):
      ref.same(v, b, 'variable %s after a call in inference' % v.name)
    if case['seed'] % 3 == 0:
      # saved weights are those of the model
      folder = tempfile.mkdtemp()
      try:
        with sut('saving weights'):
          if hasattr(model, 'save_weights'):
            model.save_weights(folder + '/saved')
          else:
            path = tf.train.Checkpoint(model=model).save(folder + '/saved')
        _assign(model, dict(case, seed=case['seed'] // 3 + 1))
        with sut('loading weights'):
          if hasattr(model, 'save_weights'):
            model.load_weights(folder + '/saved')
          else:
            tf.train.Checkpoint(model=model).restore(
                path).assert_existing_objects_matched()
      finally:
        shutil.rmtree(folder, ignore_errors=True)
      for v, b in zip(model.variables, before):
        ref.same(v, b, 'variable %s after saving and loading it' % v.name)
      ctx.label('saved')
    if case['training']:
      with tf.GradientTape() as tape:
        with sut('training'):
          out = model(tf.constant(points), tf.ones(points.shape[:2] + (1,)),
                      tf.constant(sizes), tf.constant(True))
          loss = tf.reduce_sum(tf.convert_to_tensor(out) *
                               rng.uniform(1, 2, (16, 3)).astype(np.float32))
      with sut('gradient'):
        grads = tape.gradient(loss, model.trainable_variables)
      for v, g in zip(model.trainable_variables, grads):
        require(g is not None, 'variable %s (%s) has no gradient', v.name,
                v.shape)
      ids = {id(v) for v in model.trainable_variables}
      for v, b in zip(model.variables, before):
        if id(v) in ids:
          ref.same(v, b, 'trainable variable %s after a call' % v.name)
        else:
          require((np.asarray(v) != b).any(), 'training does not update %s',
                  v.name)
    ctx.label(case['script'])
    ctx.label(case['kind'])
    ctx.label('training', case['training'])
    ctx.label(case.get('method'))
    ctx.interesting(case['rows'] > 3 and case['levels'] > 1)
  finally:
    _eager(False)


@st.composite
def _graph_case(draw):
  case = draw(_model_case())
  case['levels'] = 1
  return case


def _run_graph(case, ctx):
  with sut('model'):
    model, _ = _model(case)
  points, sizes = _inputs(case)
  _eager(True)
  try:
    _call(model, points, sizes, 'first call')
    _assign(model, case)
    logits = _call(model, points, sizes, 'logits')
  finally:
    _eager(False)
  got = _call(model, points, sizes, 'logits in graph mode')
  ref.close(got, logits, 'logits in graph mode', rtol=2e-3,
            atol=2e-3 * (1 + np.abs(logits).max()))
  ctx.interesting(case['rows'] > 2)


@st.composite
def _block_case(draw):
  cloud = draw(gen.cloud(dims=(3,), max_size=14, max_batch=3, span=16,
                         layouts=('ids', 'sizes')))
  strided = draw(st.booleans())
  return dict(cloud=cloud, kind=draw(st.sampled_from(KINDS)), strided=strided,
              width=draw(st.sampled_from([[4, 4], [4, 8], [8, 4], [8, 8]])),
              radius=draw(st.integers(1, 8)), pool=draw(st.integers(1, 12)),
              seed=draw(st.integers(0, 2**31 - 1)), silent=draw(st.booleans()))


def _norm(layer, x):
  gamma, beta, mean, var = [w.astype(np.float64) for w in layer.get_weights()]
  return (x - mean) / np.sqrt(var + layer.epsilon) * gamma + beta


def _run_block(case, ctx):
  import tensorflow as tf
  import pylib.pc as P
  from pylib.pc import layers as L
  space = _space(programs.SCRIPTS[0])
  c = gen.Cloud(case['cloud'])
  w_in, w_out = case['width']
  with sut('conv_block'):
    tf.random.set_seed(1)
    block = space['conv_block'](w_in, w_out, case['kind'],
                                strided=case['strided'])
  step = c.case['step']
  radius, pool = case['radius'] * step, case['pool'] * step
  rng = np.random.RandomState(case['seed'])
  features = rng.randint(-8, 9, (c.count, w_in)).astype(np.float32)
  out_cloud = c.pc
  if case['strided']:
    with sut('cell average'):
      out_cloud = P.cell_average_sampling(c.pc, np.float32(pool))

  def call(what):
    with sut(what):
      return block(features, c.pc, out_cloud, radius, pool, training=False)
  with sut('first call'):
    first = call('first call')
  require(first.shape[1] == w_out, 'features of shape %s', first.shape)
  _assign(block, case)
  num = len(ref.as_np(out_cloud._points))
  if case['strided']:
    with sut('max pooling'):
      pooled = ref.as_np(L.MaxPooling()(features, c.pc, out_cloud, pool))
  else:
    pooled = features
  if not np.isfinite(pooled).all() or np.abs(pooled).max(initial=0) > 1e30:
    ctx.label('nothing to pool')
    return
  if case['silent']:
    # without weights only the skip connection is left
    for layer in block.submodules:
      if isinstance(layer, L.Conv1x1):
        for v in layer.trainable_variables:
          v.assign(tf.zeros_like(v))
    out = ref.shaped(call('block without weights'), [num, w_out], 'features',
                     'f')
    want = pooled if w_in == w_out else np.zeros([num, w_out], np.float32)
    # (cells may be empty of neighbors if the pooling radius is small)
    if np.isfinite(want).all() and np.abs(want).max(initial=0) < 1e30:
      ref.close(out, want, 'skip connection', rtol=1e-5, atol=1e-6)
  else:
    names = ('BN_layers', 'activation_layers', 'res_layers', 'skip_layers')
    if not all(hasattr(block, n) for n in names):
      ctx.label('other structure')
      return
    out = ref.shaped(call('block'), [num, w_out], 'features', 'f')
    act = lambda x: np.where(x > 0, x, 0.3 * x)  # pylint: disable=unnecessary-lambda-assignment
    norms = list(block.BN_layers)

    def conv1x1(layer, x, cloud=out_cloud):
      with sut('1x1 convolution'):
        return ref.as_np(layer(x.astype(np.float32), cloud)).astype(np.float64)
    res = conv1x1(block.res_layers[0], act(_norm(norms[0], features)), c.pc)
    res = act(_norm(norms[1], res)).astype(np.float32)
    with sut('convolution'):
      res = ref.as_np(block.res_layers[1](res, c.pc, out_cloud, radius))
    res = conv1x1(block.res_layers[2], act(_norm(norms[2], res)))
    skip = pooled.astype(np.float64)
    if w_in != w_out:
      skip = conv1x1(block.skip_layers[3], act(_norm(block.skip_layers[1],
                                                     skip)))
    want = res + skip
    if np.isfinite(want).all() and np.abs(want).max(initial=0) < 1e30:
      scale = 1 + np.abs(want).max(initial=0)
      ref.close(out, want, 'block', rtol=1e-3, atol=1e-3 * scale)
      ctx.interesting(num > 2)
  if case['seed'] % 2 and c.count > 1:
    statistics = [v for v in block.variables
                  if not any(v is w for w in block.trainable_variables)]
    before = [v.numpy() for v in statistics]
    with sut('training'):
      block(features, c.pc, out_cloud, radius, pool, training=True)
    for v, b in zip(statistics, before):
      require((v.numpy() != b).any(), 'training does not update %s', v.name)
    ctx.label('training')
  ctx.label(case['kind'])
  ctx.label('strided', case['strided'])
  ctx.label('projected', w_in != w_out)


TARGETS = [Target('block', _block_case, _run_block, quick=400),
           Target('model', _model_case, _run_model, quick=64),
           Target('graph', _graph_case, _run_graph, quick=8)]
