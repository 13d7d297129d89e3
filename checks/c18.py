"""C18: local pooling."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(2, 3, 3, 4), max_batch=5, large=300, max_size=60,
                         allow_empty=True))
  centers = draw(gen.centers(cloud))
  if centers['kind'] == 'none':
    centers = dict(kind='same')
  return dict(
      cloud=cloud, centers=centers,
      radius=draw(gen.cell_sizes(cloud['dim'], cloud['step'], -1, 4)),
      radius_as=draw(st.sampled_from(gen.ARG_KINDS)),
      features=draw(gen.features(sum(cloud['sizes']))),
      shift=draw(st.sampled_from([0, 0, -50, 50, -5000, 10**6, -10**6])),
      dtype=draw(st.sampled_from(['float32'] * 4 + ['float64', 'int32'])),
      op=draw(st.sampled_from(['max', 'mean'])),
      second=draw(st.sampled_from([None, None, 0.5, 1.0, 2.0])),
      padded=draw(st.booleans()), pad=draw(st.sampled_from([0, 0, 2])),
      fill=draw(st.sampled_from([0, 100, -100])),
      output=draw(st.sampled_from(['packed', 'packed', 'sorted', 'padded'])))


def _run(case, ctx):
  from pylib.pc.layers import AveragePooling, MaxPooling
  layer = MaxPooling() if case['op'] == 'max' else AveragePooling()
  _pool(case, ctx, layer)
  if case['second'] is not None:
    # the layer again with other points and features
    radius = [r * case['second'] for r in case['radius']]
    if len(radius) > 1:
      radius = radius[::-1]
    _pool(dict(case, centers=dict(kind='same'), radius=radius,
               features=case['features'][::-1], output='packed'), ctx, layer)
    ctx.label('called twice')


def _pool(case, ctx, layer):
  c = gen.Cloud(case['cloud'])
  cen = gen.Centers(case['centers'], c)
  radii = gen.full(case['radius'], c.dim)
  exact = gen.exact_lattice(c.case['step'], case['radius'])
  op = case['op']
  dtype = case['dtype']
  if op == 'mean' and dtype == 'int32':
    dtype = 'float32'
  feats = (np.array(case['features'], dtype=np.float64).reshape(c.count, -1) +
           case['shift']).astype(dtype)
  arg = feats
  if case['padded']:
    rows = int(c.sizes.max()) + case['pad']
    full = c.shape if c.shape is not None else [c.batch]
    arg = c.padded(c.to_major(feats), rows=rows,
                   fill=np.array(case['fill']).astype(dtype)).reshape(
                       list(full) + [rows, feats.shape[1]])
  kwargs = {}
  if case['output'] == 'sorted':
    kwargs['return_sorted'] = True
  elif case['output'] == 'padded':
    kwargs['return_padded'] = True
  with sut('local %s pooling' % op):
    got = layer(arg, c.pc, cen.pc, gen.as_arg(case['radius'],
                                              case['radius_as']), **kwargs)
  width = feats.shape[1]
  if case['output'] == 'padded':
    sizes = np.bincount(cen.ids, minlength=c.batch)
    full = [c.batch]
    if cen.kind == 'same' and c.shape is not None:
      full = list(c.shape)
    got = ref.shaped(got, full + [None, width], 'pooled features')
    rows = got.shape[-2]
    require(rows >= sizes.max(), 'V = %d', rows)
    got = got.reshape(c.batch, rows, width)
    require(all((got[b, sizes[b]:] == 0).all() for b in range(c.batch)),
            'padding is not zero')
    got = np.concatenate([got[b, :sizes[b]] for b in range(c.batch)])
    at = np.argsort(cen.ids, kind='stable')
  else:
    got = ref.shaped(got, [cen.count, width], 'pooled features')
    at = (np.argsort(cen.ids, kind='stable') if case['output'] == 'sorted'
          else np.arange(cen.count))
  require(got.dtype == np.dtype(dtype), 'pooled type %s for features of type '
          '%s', got.dtype, dtype)
  cert, poss = ref.neighbor_sets(c.points, c.ids, cen.points, cen.ids, radii,
                                 exact)
  judged = 0
  biggest = 0
  for row, center in enumerate(at):
    if (cert[center] != poss[center]).any() or not cert[center].any():
      continue
    own = feats[cert[center]].astype(np.float64)
    judged += 1
    biggest = max(biggest, len(own))
    if op == 'max':
      ref.same(got[row], own.max(axis=0), 'maximum at output point %d' % center)
    else:
      ref.close(got[row], own.mean(axis=0), 'mean at output point %d' % center,
                rtol=1e-5, atol=1e-4)
  ctx.label('op=' + op)
  ctx.label('centers=' + cen.kind)
  ctx.label('padded features', case['padded'])
  ctx.label('output=' + case['output'])
  ctx.label('radius per dimension', len(case['radius']) > 1)
  ctx.label('center without neighbors', bool((~poss.any(axis=1)).any()))
  ctx.interesting(judged > 1 and biggest > 1)


TARGETS = [Target('local', _case, _run, quick=1800)]
