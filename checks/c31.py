"""C31: the training loop of the example programs."""
import contextlib
import inspect
import io
import re
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from checks.c29 import check_batch
from pbt import programs, ref
from pbt.core import Target, require, sut


class _Model:
  """Classifies clouds by the mean of their points, and records its calls."""

  def __init__(self, classes, seed):
    import tensorflow as tf
    rng = np.random.RandomState(seed)
    self.variables = [
        tf.Variable(rng.uniform(-1, 1, s).astype(np.float32))
        for s in ([3, classes], [classes])]
    self.trainable_variables = self.variables
    self.calls, self.saved = [], []

  def __call__(self, points, features, sizes, training):
    import tensorflow as tf
    points = np.asarray(points)
    logits = _logits(self.variables, points)
    self.calls.append(dict(
        points=points, features=np.asarray(features), sizes=np.asarray(sizes),
        training=bool(training), logits=logits.numpy(),
        variables=[v.numpy() for v in self.variables]))
    return tf.identity(logits)

  def save_weights(self, path):
    self.saved.append((path, [v.numpy() for v in self.variables]))


def _logits(variables, points):
  import tensorflow as tf
  mean = tf.constant(10 * (points.mean(axis=1) - 1.5), tf.float32)
  return tf.matmul(mean, variables[0]) + variables[1]


@st.composite
def _case(draw):
  classes = draw(st.integers(2, 5))
  def kinds(low):
    n = draw(st.one_of(st.integers(low, 20), st.integers(16, 50)))
    return st.lists(st.integers(0, classes - 1), min_size=n, max_size=n)
  return dict(script=draw(st.sampled_from(programs.SCRIPTS + [
      programs.SCRIPTS[1]])), classes=classes,
              train=draw(kinds(16)), test=draw(kinds(1)),
              epochs=draw(st.integers(1, 3)),
              seed=draw(st.integers(0, 10**6)))


def _run(case, ctx):
  import tensorflow as tf
  folder = tempfile.mkdtemp() + '/'
  try:
    rows = 1024 if 'small' in case['script'] else 10000
    labels = programs.write_data(
        folder, ['c%d' % i for i in range(case['classes'])], case['train'],
        case['test'], rows)
    np.random.seed(case['seed'])
    with sut(case['script']):
      space = programs.execute(case['script'], folder, folder + 'binary')
  finally:
    shutil.rmtree(folder, ignore_errors=True)
  model = _Model(case['classes'], case['seed'])
  start = [v.numpy() for v in model.variables]
  settings = space['optimizer'].get_config()
  printed = io.StringIO()
  with contextlib.redirect_stdout(printed), sut('training'):
    args = {n: space[n] for n in ('optimizer', 'loss_function')
            if n in inspect.signature(space['training']).parameters}
    space['training'](model, num_epochs=case['epochs'], **args)
  size = space['batch_size']
  parts = [(n, len(case[n]) // size) for n in ('train', 'test')]
  require(len(model.calls) == case['epochs'] * sum(n for _, n in parts),
          '%d evaluations of the model in %d epochs of %s batches',
          len(model.calls), case['epochs'], parts)
  # the same steps with the labels of the data set
  optimizer = type(space['optimizer']).from_config(settings)
  variables = [tf.Variable(v) for v in start]
  offsets = dict(train=0, test=len(case['train']))
  at = 0
  results = []
  for epoch in range(case['epochs']):
    for part, batches in parts:
      numbers = {offsets[part] + i: rows for i in range(len(case[part]))}
      used, losses, hits = [], [], []
      for i in range(batches):
        call = model.calls[at]
        at += 1
        what = 'epoch %d, batch %d of %s' % (epoch, i, part)
        require(call['training'] == (part == 'train'), '%s: training=%s', what,
                call['training'])
        ref.same(call['sizes'], np.full([size], 1024), what + ': sizes')
        for got, want in zip(call['variables'], variables):
          ref.close(got, want, what + ': variables', rtol=1e-4, atol=1e-5)
        used += check_batch(
            (call['points'], call['features'],
             np.array([labels[programs.decode(p)[0]] if programs.decode(p)
                       else -1 for p in call['points']])),
            size, 1024, numbers, labels, part == 'train', what)
        want = np.array([labels[n] for n in used[-size:]])
        with tf.GradientTape() as tape:
          loss = tf.reduce_mean(tf.nn.sparse_softmax_cross_entropy_with_logits(
              want, _logits(variables, call['points'])))
        losses.append(float(loss))
        hits.append(np.mean(call['logits'].argmax(axis=1) == want))
        if part == 'train':
          optimizer.apply_gradients(zip(tape.gradient(loss, variables),
                                        variables))
          # (rounding errors do not add up)
          after = (model.calls[at]['variables'] if at < len(model.calls) else
                   [v.numpy() for v in model.variables])
          for v, w in zip(variables, after):
            ref.close(w, v, what + ': variables afterwards', rtol=1e-4,
                      atol=2e-5)
            v.assign(w)
      require(len(set(used)) == len(used), 'epoch %d: a sample of %s is used '
              'twice', epoch, part)
      results.append((part, losses, hits))
  for v, w in zip(variables, model.variables):
    ref.same(w, v.numpy(), 'variables afterwards')
  # what is saved is the model after an epoch
  steps = sum(n for _, n in parts)
  after = [model.calls[(e + 1) * steps]['variables'] if e + 1 < case['epochs']
           else [v.numpy() for v in model.variables]
           for e in range(case['epochs'])]
  for path, saved in model.saved:
    require(any(all((a == b).all() for a, b in zip(saved, x)) for x in after),
            'the weights saved as %s are not those after an epoch', path)
  require(len({p for p, _ in model.saved}) == len(model.saved),
          'saved weights are overwritten')
  ctx.label('saved', len(model.saved) > 0)
  lines = re.findall(r'(Training|Validation): *Loss: *([\d.]+), *Accuracy: '
                     r'*([\d.]+)%', printed.getvalue())
  if len(lines) == len(results):
    for (name, loss, rate), (part, losses, hits) in zip(lines, results):
      if losses:
        ref.close(np.array([float(loss), float(rate)]),
                  np.array([np.mean(losses), 100 * np.mean(hits)]),
                  'reported results (%s)' % name, rtol=1e-3, atol=2e-3)
    ctx.label('reported results')
  ctx.label(case['script'])
  ctx.label('several epochs', case['epochs'] > 1)
  ctx.interesting(case['epochs'] > 1 and parts[1][1] > 0)


TARGETS = [Target('training', _case, _run, quick=112)]
