"""C29: the data sets and batches of the example programs."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import programs, ref
from pbt.core import Target, rejects, require, sut

NAMES = ['chair', 'night_stand', 'glass_box', 'x', 'tv_stand', 'a_0001', 'tv',
         'night', 'glass', 'box']


@st.composite
def _data_case(draw):
  names = draw(st.permutations(NAMES))[:draw(st.integers(1, 6))]
  count = st.one_of(st.integers(1, 4), st.integers(16, 35))
  kinds = lambda n: st.lists(st.integers(0, len(names) - 1), min_size=n,
                             max_size=n)
  return dict(script=draw(st.sampled_from(programs.SCRIPTS)), names=names,
              train=draw(count.flatmap(kinds)), test=draw(count.flatmap(kinds)),
              more=draw(st.sampled_from([0, 0, 3, 500])),
              again=draw(st.booleans()), unknown=draw(st.integers(0, 9)) == 0,
              np_seed=draw(st.integers(0, 10**6)))


def check_batch(item, size, samples, count, labels, augmented, what):
  """A batch consists of distinct rows of `size` distinct samples; returns the
  numbers of these samples."""
  points, features, classes = item
  points = np.asarray(points)
  require(points.shape == (size, samples, 3), '%s: points of shape %s',
          what, list(points.shape))
  ref.same(features, np.ones([size, samples, 1]), what + ': features')
  classes = np.asarray(classes)
  require(classes.shape == (size,), '%s: labels of shape %s', what,
          list(classes.shape))
  used, scaled = [], []
  for cloud, label in zip(points, classes):
    found = programs.decode(cloud)
    require(found is not None, '%s: these are not the points of one sample',
            what)
    number, rows, scales = found
    require(number in count, '%s: points of sample %d, which is not in the set',
            what, number)
    times = np.bincount(rows, minlength=4096)
    have = np.bincount(np.arange(count[number]) % 4096, minlength=4096)
    require((times <= have).all(), '%s: a point is repeated', what)
    require(label == labels[number], '%s: sample %d has label %s instead of %d',
            what, number, label, labels[number])
    used.append(number)
    scaled.append(scales)
    if augmented:
      require(scales.min() >= 0.9 - 1e-9 and scales.max() <= 1.1 + 1e-9,
              '%s: scaled by %s', what, scales.tolist())
    else:
      require((scales == 1).all(), '%s: the points were scaled by %s', what,
              scales.tolist())
  require(len(set(used)) == len(used), '%s: a sample is repeated', what)
  if augmented and scaled:
    scaled = np.array(scaled)
    require((np.ptp(scaled, axis=1) > 0).all() and
            (len(scaled) == 1 or (np.ptp(scaled, axis=0) > 0).all()),
            '%s: axes or samples share their scale', what)
  return used


def check_epoch(gen, count, labels, augmented, what):
  """All batches of an epoch."""
  size = gen.batch_size
  require(len(gen) == len(count) // size, '%s: %d batches of %d for %d samples',
          what, len(gen), size, len(count))
  ref.same(np.asarray(gen.sizes), np.full([size], 1024), what + ': sizes')
  used = []
  for i in range(len(gen)):
    with sut('%s[%d]' % (what, i)):
      item = gen[i]
    used += check_batch(item, size, 1024, count, labels, augmented,
                        '%s: batch %d' % (what, i))
  require(len(set(used)) == len(used),
          '%s: a sample is in several batches of an epoch', what)


def _run_data(case, ctx):
  folder = tempfile.mkdtemp() + '/'
  try:
    rows = 1024 if 'small' in case['script'] else 10000
    labels = programs.write_data(folder, case['names'], case['train'],
                                 case['test'], rows + case['more'])
    binary = folder + 'binary'
    if case['unknown']:
      with open(folder + 'modelnet40_test.txt', 'a') as f:
        f.write('unknown_0001\n')
      with rejects('an unknown category', (ValueError,)):
        programs.execute(case['script'], folder, binary)
      ctx.label('unknown category')
      return
    for time in range(1 + case['again']):
      np.random.seed(case['np_seed'])
      if time:
        for name in case['names']:
          shutil.rmtree(folder + name, ignore_errors=True)
      what = 'second run: ' if time else ''
      with sut(what + case['script']):
        space = programs.execute(case['script'], folder, binary)
      require(space['num_classes'] == len(case['names']),
              '%s%d classes instead of %d', what, space['num_classes'],
              len(case['names']))
      first = 0
      for part, kinds in (('train', case['train']), ('test', case['test'])):
        points = np.asarray(space[part + '_data_points'])
        want = np.stack([programs.code(first + i, rows)
                         for i in range(len(kinds))])
        ref.same(points, want, what + part + ' points')
        numbers = {first + i: rows for i in range(len(kinds))}
        check_epoch(space['gen_' + part], numbers, labels, part == 'train',
                    what + part)
        ref.same(points, want, what + part + ' points afterwards')
        first += len(kinds)
    ctx.label('read again', case['again'])
    ctx.label(case['script'])
    ctx.interesting(len(case['train']) >= 16 and len(case['test']) >= 16 and
                    len(set(labels)) > 1)
  finally:
    shutil.rmtree(folder, ignore_errors=True)


_classes = {}


def _class(script):
  if script not in _classes:
    folder = tempfile.mkdtemp() + '/'
    try:
      rows = 1024 if 'small' in script else 10000
      programs.write_data(folder, ['a'], [0], [0], rows)
      space = programs.execute(script, folder, folder + 'binary')
      _classes[script] = type(space['gen_train'])
    finally:
      shutil.rmtree(folder, ignore_errors=True)
  return _classes[script]


@st.composite
def _batch_case(draw):
  count = draw(st.integers(0, 12))
  return dict(script=draw(st.sampled_from(programs.SCRIPTS)),
              rows=draw(st.sampled_from([1024, 1024, 1030, 1060])),
              labels=draw(st.lists(st.integers(0, 9), min_size=count,
                                   max_size=count)),
              listed=draw(st.booleans()),
              size=draw(st.integers(1, 5)), augment=draw(st.booleans()),
              steps=draw(st.lists(st.sampled_from(
                  ['epoch', 'next', 'next', 'iterate', 'end']), min_size=1,
                                  max_size=8)),
              np_seed=draw(st.integers(0, 10**6)))


def _run_batches(case, ctx):
  np.random.seed(case['np_seed'])
  cls = _class(case['script'])
  total = len(case['labels'])
  points = np.stack([programs.code(i, case['rows']) for i in range(total)]) \
      if total else np.zeros([0, case['rows'], 3])
  before = points.copy()
  labels = list(case['labels']) if case['listed'] else np.array(
      case['labels'], dtype=int)
  with sut('generator'):
    gen = cls(points, labels, case['size'], case['augment'])
  count = {i: case['rows'] for i in range(total)}
  args = (count, case['labels'], case['augment'])
  position, used = 0, []
  for step in case['steps']:
    if step == 'epoch':
      check_epoch(gen, *args, 'generator')
    elif step == 'iterate':
      with sut('iteration'):
        items = list(gen)
      require(len(items) == total // case['size'], 'iteration: %d batches',
              len(items))
      seen = []
      for item in items:
        seen += check_batch(item, case['size'], 1024, *args, 'iteration')
      require(len(set(seen)) == len(seen), 'iteration: a sample is repeated')
    elif step == 'next' and position < total // case['size']:
      with sut('next batch'):
        item = gen()
      used += check_batch(item, case['size'], 1024, *args, 'next batch')
      position += 1
      require(len(set(used)) == len(used),
              'consecutive batches repeat a sample')
    elif step == 'end':
      with sut('on_epoch_end'):
        gen.on_epoch_end()
      position, used = 0, []
  ref.same(points, before, 'points of the data set afterwards')
  ref.same(np.asarray(labels), np.array(case['labels'], dtype=int),
           'labels of the data set afterwards')
  ctx.label('augmented', case['augment'])
  ctx.label('incomplete batch', total % case['size'] != 0)
  ctx.interesting(total >= 2 * case['size'] and len(case['steps']) > 1)


TARGETS = [Target('batches', _batch_case, _run_batches, quick=1200),
           Target('data', _data_case, _run_data, quick=96)]
