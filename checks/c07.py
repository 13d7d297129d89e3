"""C07: transposed neighborhoods."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(2, 3, 3, 4), max_batch=5, large=700, max_size=80,
                         allow_empty=True))
  radius, cells = draw(gen.radius_and_cells(cloud['dim'], cloud['step']))
  return dict(cloud=cloud, radius=radius, cells=cells,
              centers=draw(gen.centers(cloud)),
              radius_as=draw(st.sampled_from(gen.ARG_KINDS)),
              pdf_first=draw(st.booleans()))


def _pairs(nb, what, num_neigh, num_centers):
  with sut(what):
    pairs, ranges = nb._original_neigh_ids, nb._samples_neigh_ranges
  pairs = ref.shaped(pairs, [None, 2], what, 'iu').astype(np.int64)
  if len(pairs):
    require(pairs.min() >= 0 and pairs[:, 0].max() < num_neigh and
            pairs[:, 1].max() < num_centers, '%s: ids out of range', what)
  ref.check_ranges(ranges, pairs, num_centers, what)
  ref.pair_set(pairs, what)
  got = np.zeros((num_centers, num_neigh), dtype=bool)
  if len(pairs):
    got[pairs[:, 1], pairs[:, 0]] = True
  return got


def _run(case, ctx):
  from pylib.pc import Grid, Neighborhood
  c = gen.Cloud(case['cloud'])
  cen = gen.Centers(case['centers'], c)
  radii = gen.full(case['radius'], c.dim)
  exact = gen.exact_lattice(c.case['step'], case['radius'])
  certain, possible = ref.neighbor_sets(c.points, c.ids, cen.points, cen.ids,
                                        radii, exact)
  with sut('Neighborhood'):
    grid = Grid(c.pc, np.array(case['cells'], dtype=np.float32))
    nb = Neighborhood(grid, gen.as_arg(case['radius'], case['radius_as']),
                      cen.pc)
    if case['pdf_first']:
      nb.get_pdf()
    tr = nb.transpose()
  ctx.label('centers=' + cen.kind)
  ctx.label('exact arithmetic', exact)
  ctx.interesting(certain.sum() > 2 and cen.kind in ('subset', 'other') and
                  certain.sum() < certain.size)
  if cen.kind == 'none':
    with sut('sorted indices'):
      perm = grid._sorted_indices.numpy()
    got = _pairs(tr, 'transposed neighborhood of a cloud with itself',
                 c.count, c.count)
    want = _pairs(nb, 'neighborhood', c.count, c.count)
    ref.same(got, want, 'self neighborhood and its transpose')
    # both ids as given: the relation is symmetric
    full = np.zeros_like(got)
    full[perm] = got
    ref.same(full, full.T, 'self neighborhood, exchanged')
    return
  direct = _pairs(nb, 'neighborhood', c.count, cen.count)
  got = _pairs(tr, 'transposed neighborhood', cen.count, c.count)
  bad = (got & ~possible.T) | (certain.T & ~got)
  require(not bad.any(), 'transposed neighborhood: pair (center, neighbor) %s '
          'is wrong', np.argwhere(bad)[:1].tolist())
  if exact:
    ref.same(got, direct.T, 'transposed relation')
  with sut('transpose of the transpose'):
    back = tr.transpose()
  twice = _pairs(back, 'neighborhood transposed twice', c.count, cen.count)
  bad = (twice & ~possible) | (certain & ~twice)
  require(not bad.any(), 'neighborhood transposed twice: pair %s is wrong',
          np.argwhere(bad)[:1].tolist())
  with sut('transpose, again'):
    again = nb.transpose()
  ref.same(_pairs(again, 'second transpose', cen.count, c.count), got,
           'transpose called twice')
  ref.same(_pairs(nb, 'neighborhood', c.count, cen.count), direct,
           'neighborhood after transposition')
  # densities of the transposed neighborhood belong to its own neighbors
  if c.count + cen.count < 80 and direct.any():
    with sut('density of the transposed neighborhood'):
      pdf = tr.get_pdf(bandwidth=0.5)
      ids = tr._original_neigh_ids.numpy()
    cert, poss = ref.neighbor_sets(cen.points, cen.ids, cen.points, cen.ids,
                                   radii, exact)
    if (cert == poss).all():
      ci, ni = np.nonzero(cert)
      dens = ref.gaussian_kde(cen.points, ci, ni, cen.count, radii,
                              [0.5] * c.dim)
      ref.close(pdf, dens[ids[:, 0]], 'density', rtol=1e-3,
                atol=1e-6 + 1e-4 * dens.max(initial=0))


TARGETS = [Target('transpose', _case, _run, quick=1600)]
