"""C12: aggregation of features times basis values."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(2, 3, 3, 4), max_batch=4, large=400, max_size=60,
                         allow_empty=True))
  radius, cells = draw(gen.radius_and_cells(cloud['dim'], cloud['step']))
  return dict(cloud=cloud, radius=radius, cells=cells,
              centers=draw(gen.centers(cloud)),
              transposed=draw(st.integers(0, 3)) == 0,
              limit=draw(st.sampled_from([0, 0, 0, 1, 3])),
              width=draw(st.sampled_from([1, 2, 3, 7])),
              basis=draw(st.sampled_from([1, 2, 5, 8, 16, 32])),
              raw=list(draw(st.binary(min_size=16, max_size=16))),
              order=draw(gen.order(sum(cloud['sizes']))),
              factors=[draw(st.integers(-3, 3)), draw(st.integers(-3, 3))])


def _small(raw, shape, salt):
  return np.round(gen.weights_array(raw[salt:] + raw[:salt], shape, 6.0))


def _run(case, ctx):
  from pylib.pc import Grid, Neighborhood, PointCloud
  from pylib.pc.custom_ops import basis_proj
  c = gen.Cloud(case['cloud'])
  cen = gen.Centers(case['centers'], c)
  cells = np.array(case['cells'], dtype=np.float32)
  radius = gen.full(case['radius'], c.dim).astype(np.float32)
  transposed = case['transposed'] and cen.kind != 'none'
  with sut('Neighborhood'):
    nb = Neighborhood(Grid(c.pc, cells), radius, cen.pc,
                      max_neighbors=0 if transposed else case['limit'])
    num_out, num_in = cen.count, c.count
    if transposed:
      nb = nb.transpose()
      num_out, num_in = num_in, num_out
    pairs = nb._original_neigh_ids.numpy()
  raw = case['raw']
  width, hid = case['width'], case['basis']
  basis = [_small(raw, (len(pairs), hid), 1), _small(raw, (len(pairs), hid), 5)]
  feats = [_small(raw, (num_in, width), 3), _small(raw, (num_in, width), 8)]

  def expect(b, f):
    out = np.zeros((num_out, width, hid))
    np.add.at(out, pairs[:, 1], f[pairs[:, 0]].astype(np.float64)[:, :, None] *
              b.astype(np.float64)[:, None])
    return out

  def call(b, f, what):
    with sut('basis_proj'):
      out = basis_proj(b, f, nb)
    return ref.shaped(out, [num_out, width, hid], what, 'f')

  # small integers: all the sums are exact
  want = expect(basis[0], feats[0])
  got = call(basis[0], feats[0], 'aggregation')
  ref.same(got, want, 'aggregation')
  s, t = case['factors']
  ref.same(call(basis[0], s * feats[0] + t * feats[1], 'features combined'),
           s * want + t * expect(basis[0], feats[1]),
           'aggregation of combined features')
  ref.same(call(s * basis[0] + t * basis[1], feats[0], 'basis combined'),
           s * want + t * expect(basis[1], feats[0]),
           'aggregation of combined basis values')
  # the points in another order
  exact = gen.exact_lattice(c.case['step'], case['radius'])
  if not transposed and cen.kind in ('subset', 'other') and exact and (
      case['limit'] == 0):
    perm = np.array(case['order'], dtype=np.int64)
    with sut('Neighborhood of permuted points'):
      pc2 = PointCloud(c.points[perm], batch_ids=c.ids[perm],
                       batch_size=c.batch)
      nb2 = Neighborhood(Grid(pc2, cells), radius, cen.pc)
      pairs2 = nb2._original_neigh_ids.numpy()
    table = {(int(a), int(b)): i for i, (a, b) in enumerate(pairs)}
    rows = [table.get((int(perm[a]), int(b)), -1) for a, b in pairs2]
    require(len(pairs2) == len(pairs) and -1 not in rows,
            'pairs of the permuted points differ')
    with sut('basis_proj'):
      out = basis_proj(basis[0][np.array(rows, dtype=np.int64)].reshape(
          len(pairs), hid), feats[0][perm], nb2)
    ref.same(out, want, 'aggregation of permuted points')
    ctx.label('permuted')
  counts = np.bincount(pairs[:, 1], minlength=num_out)
  ctx.label('centers=' + cen.kind)
  ctx.label('transposed', transposed)
  ctx.label('center without neighbors', bool((counts == 0).any()))
  ctx.label('limited', case['limit'] > 0)
  ctx.interesting(counts.max(initial=0) > 1 and len(pairs) > 3)


TARGETS = [Target('basis_proj', _case, _run, quick=1400)]
