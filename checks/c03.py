"""C03: bounding boxes."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  return dict(
      cloud=draw(gen.cloud(dims=(1, 2, 3, 4, 5), max_batch=8, large=2049, max_size=80)),
      negate=draw(st.booleans()),
      reshape=draw(st.booleans()),
      orders=draw(st.lists(st.sampled_from(
          ['euclidean', 1, 2, 'inf', 3, 1.5, 0.5]), min_size=1, max_size=3)))


def _run(case, ctx):
  spec = dict(case['cloud'])
  if case['negate']:
    spec['coords'] = [[-v - 1 for v in row] for row in spec['coords']]
  c = gen.Cloud(spec)
  with sut('get_AABB'):
    box = c.pc.get_AABB()
    low_s, high_s = box._aabb_min, box._aabb_max
  low, high = ref.boxes(c.points, c.ids, c.batch)
  low_s = ref.shaped(low_s, [c.batch, c.dim], 'box minimum', 'f')
  high_s = ref.shaped(high_s, [c.batch, c.dim], 'box maximum', 'f')
  require((low_s <= low.astype(np.float32)).all(),
          'box minimum %s above the points %s' % (low_s.tolist(),
                                                  low.tolist()))
  require((high_s >= high.astype(np.float32)).all(),
          'box maximum %s below the points %s' % (high_s.tolist(),
                                                  high.tolist()))
  ref.close(low_s, low, 'box minimum', rtol=0, atol=1e-8)
  ref.close(high_s, high, 'box maximum', rtol=0, atol=1e-8)
  shape = c.shape or [c.batch]
  if case['reshape']:
    shape = gen.factor_shapes(c.batch)[-1]
    with sut('set_batch_shape'):
      c.pc.set_batch_shape(shape)
  ext = high - low
  for name in case['orders']:
    order = np.inf if name == 'inf' else name
    norm = 2 if order == 'euclidean' else order
    with sut('get_diameter'):
      diam = box.get_diameter(ord=order)
    diam = ref.shaped(diam, shape, 'diameter', 'f').reshape(-1)
    want = np.array([np.abs(e).max() if norm == np.inf else
                     (np.abs(e) ** norm).sum() ** (1.0 / norm) for e in ext])
    # roots of sums of the slack of 1e-9 for small p
    ref.close(diam, want, 'diameter (order %s)' % name, rtol=1e-4,
              atol=1e-4 if norm >= 1 else 2e-3, scale=np.sqrt(ext.max(axis=1)))
    if order == 'euclidean':
      with sut('get_diameter()'):
        diam2 = c.pc.get_AABB().get_diameter()
      ref.close(ref.as_np(diam2).reshape(-1), want, 'default diameter')
    ctx.label('order=%s' % name)
  ctx.label('layout=' + c.case['layout'])
  ctx.label('all negative', bool((c.points < 0).all()))
  ctx.label('single point cloud', bool((c.sizes == 1).any()))
  ctx.label('unsorted ids', bool((np.diff(c.ids) < 0).any()))
  ctx.label('several orders', len(set(case['orders'])) > 1)
  ctx.interesting(c.batch > 1 and bool((c.sizes > 1).any()))


TARGETS = [Target('boxes', _case, _run, quick=3000)]
