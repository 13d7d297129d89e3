"""C08: kernel density estimation."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import Target, require, sut


@st.composite
def _bandwidth(draw, dim):
  one = st.sampled_from([0.1, 0.2, 0.25, 0.5, 1.0, 0.05, 2.0])
  if draw(st.booleans()):
    return [draw(one)]
  return [draw(one) for _ in range(dim)]


@st.composite
def _case(draw):
  cloud = draw(gen.cloud(dims=(2, 3, 3, 4), max_batch=5, large=400, max_size=60,
                         allow_empty=True))
  dim = cloud['dim']
  radius, cells = draw(gen.radius_and_cells(dim, cloud['step'], 0, 4))
  call = st.fixed_dictionaries(dict(
      op=st.sampled_from(['compute', 'compute', 'get', 'get']),
      bandwidth=_bandwidth(dim),
      mode=st.sampled_from(['constant', 'constant', 'constant', 'no_pdf',
                            'default']),
      normalize=st.sampled_from([None, False, True]),
      omit=st.integers(0, 4).map(lambda k: k == 0)))
  return dict(cloud=cloud, radius=radius, cells=cells,
              centers=draw(gen.centers(cloud)),
              arg_as=draw(st.sampled_from(gen.ARG_KINDS)),
              limit=draw(st.sampled_from([0, 0, 1, 2, 5])),
              calls=draw(st.lists(call, min_size=1, max_size=4)))


def _mode(name):
  from pylib.pc import KDEMode
  return dict(constant=KDEMode.constant, no_pdf=KDEMode.no_pdf)[name]


def _densities(c, radii, bandwidth, exact):
  """(densities per input point, neighbor counts) or None if a pair is at the
  radius up to rounding."""
  cert, poss = ref.neighbor_sets(c.points, c.ids, c.points, c.ids, radii, exact)
  if (cert != poss).any():
    return None
  ci, ni = np.nonzero(cert)
  return (ref.gaussian_kde(c.points, ci, ni, c.count, radii,
                           gen.full(bandwidth, c.dim)), cert.sum(axis=1))


def _tolerance(c, radii, bandwidth, dens):
  h = (gen.full(bandwidth, c.dim) * radii).min()
  mag = np.abs(c.points).max(initial=0)
  # offsets are differences of coordinates in units of h in float32
  return dict(rtol=2e-4 + 2e-5 * mag / h,
              atol=1e-7 + 1e-6 * dens.max(initial=0) * (1 + mag / h))


def _run(case, ctx):
  from pylib.pc import Grid, Neighborhood
  c = gen.Cloud(case['cloud'])
  cen = gen.Centers(case['centers'], c)
  radii = gen.full(case['radius'], c.dim)
  exact = gen.exact_lattice(c.case['step'], case['radius'])
  # with a limit on the pairs of a center the densities of the points are still
  # those of all their neighbors (for neighborhoods between two point clouds)
  limit = case.get('limit', 0)
  if cen.kind in ('none', 'same'):
    limit = 0
  with sut('Neighborhood'):
    nb = Neighborhood(Grid(c.pc, np.array(case['cells'], dtype=np.float32)),
                      gen.as_arg(case['radius'], case['arg_as']), cen.pc,
                      *([limit] if limit else []))
    pairs = nb._original_neigh_ids
  pairs = ref.shaped(pairs, [None, 2], 'pairs', 'iu')
  counts = np.bincount(pairs[:, 1], minlength=cen.count)
  current = None
  n_calls = 0
  for call in case['calls']:
    kwargs = dict(bandwidth=gen.as_arg(call['bandwidth'], case['arg_as']))
    if call.get('omit'):
      # the default
      call = dict(call, bandwidth=[0.2])
      kwargs = {}
    if call['mode'] != 'default':
      kwargs['mode'] = _mode(call['mode'])
    if call['normalize'] is not None:
      kwargs['normalize'] = call['normalize']
    fresh = call['op'] == 'compute' or current is None
    with sut('%s(%s)' % (call['op'], call)):
      if call['op'] == 'compute':
        nb.compute_pdf(**kwargs)
        got = nb.get_pdf()
      else:
        got = nb.get_pdf(**kwargs)
    got = ref.shaped(got, [len(pairs)], 'density per pair', 'f')
    if fresh:
      if call['mode'] == 'no_pdf':
        want, tol = np.ones(len(pairs)), dict(rtol=1e-6, atol=0)
      else:
        dens = _densities(c, radii, call['bandwidth'], exact)
        if dens is None:
          ctx.label('ambiguous neighbor')
          return
        want = dens[0][pairs[:, 0]]
        tol = _tolerance(c, radii, call['bandwidth'], dens[0])
      if call['normalize']:
        want = want / counts[pairs[:, 1]]
      current = (want, tol)
    ref.close(got, current[0], 'density after %s (%s)' % (
        call['op'], 'computed' if fresh else 'kept'), **current[1])
    n_calls += 1
  ctx.label('centers=' + cen.kind)
  ctx.label('calls >= 2', n_calls >= 2)
  ctx.label('normalized', any(k['normalize'] for k in case['calls']))
  ctx.label('radius per dimension', len(case['radius']) > 1)
  ctx.label('bandwidth per dimension',
            any(len(k['bandwidth']) > 1 for k in case['calls']))
  ctx.label('no pairs', len(pairs) == 0)
  ctx.label('limit reached', limit > 0 and counts.max(initial=0) == limit)
  ctx.interesting(len(pairs) > cen.count and
                  any(k['mode'] != 'no_pdf' for k in case['calls']))


@st.composite
def _free_case(draw):
  cloud = draw(gen.cloud(dims=(2, 3, 3, 4), max_batch=5, large=400, max_size=60,
                         allow_empty=True))
  dim = cloud['dim']
  return dict(cloud=cloud,
              radius=draw(gen.cell_sizes(dim, cloud['step'], 0, 4)),
              bandwidth=draw(_bandwidth(dim)),
              arg_as=draw(st.sampled_from(gen.ARG_KINDS)),
              mode=draw(st.sampled_from(['constant', 'constant', 'no_pdf'])),
              normalize=draw(st.booleans()),
              omit=draw(st.integers(0, 4)) == 0,
              api=draw(st.sampled_from(['per_point', 'per_point', 'per_pair',
                                        'inside'])),
              pair_seed=draw(st.one_of(st.none(), st.integers(0, 9999))),
              centers=draw(gen.centers(cloud)))


def _run_free(case, ctx):
  if case.get('omit'):
    case = dict(case, bandwidth=[0.2])
  import pylib.pc as P
  from pylib.pc.Neighborhood import (density_estimation,
                                     density_estimation_in_neighborhoods,
                                     compute_neighborhoods)
  c = gen.Cloud(case['cloud'])
  radii = gen.full(case['radius'], c.dim)
  exact = gen.exact_lattice(c.case['step'], case['radius'])
  dens = _densities(c, radii, case['bandwidth'], exact)
  ctx.label('api=' + case['api'])
  ctx.label('mode=' + case['mode'])
  ctx.label('normalized', case['normalize'])
  if dens is None:
    ctx.label('ambiguous neighbor')
    return
  want, counts = dens
  tol = _tolerance(c, radii, case['bandwidth'], want)
  if case['mode'] == 'no_pdf':
    want = np.ones_like(want)
  kwargs = dict(bandwidth=gen.as_arg(case['bandwidth'], case['arg_as']),
                scaling=gen.as_arg(case['radius'], case['arg_as']),
                mode=_mode(case['mode']), normalize=case['normalize'])
  if case.get('omit'):
    del kwargs['bandwidth']
  ctx.interesting(counts.max() > 2 and c.count > counts.max())
  if case['api'] == 'per_point':
    if case['normalize']:
      want = want / counts
    with sut('density_estimation'):
      got = density_estimation(c.pc, **kwargs)
    got = ref.shaped(got, [c.count], 'density per point', 'f')
    ref.close(got, want, 'density per point', **tol)
    return
  spec = case['centers']
  if case['api'] == 'inside' and spec['kind'] == 'same':
    spec = dict(kind='none')
  cen = gen.Centers(spec, c)
  with sut('neighborhood'):
    grid = P.Grid(c.pc, gen.as_arg(case['radius'], case['arg_as']))
  if case['api'] == 'per_pair':
    with sut('compute_neighborhoods'):
      pairs = compute_neighborhoods(
          grid, gen.as_arg(case['radius'], case['arg_as']), cen.pc)
    ids = ref.shaped(pairs, [None, 2], 'pairs', 'iu')
    if len(ids) == 0:
      return
    if case['pair_seed'] is not None:
      # pairs in another order, perhaps not all of them
      rng = np.random.RandomState(case['pair_seed'])
      ids = ids[rng.permutation(len(ids))[:rng.randint(1, len(ids) + 1)]]
      pairs = ids
      ctx.label('pairs in any order')
    with sut('density_estimation_in_neighborhoods'):
      got = density_estimation_in_neighborhoods(c.pc, pairs, **kwargs)
    want = want[ids[:, 0]]
    if case['normalize']:
      want = want / np.bincount(ids[:, 1], minlength=cen.count)[ids[:, 1]]
    got = ref.shaped(got, [len(ids)], 'density per pair', 'f')
    ref.close(got, want, 'density per pair', **tol)
    return
  # density inside of each neighborhood only
  from pylib.pc.custom_ops.custom_ops_tf import (
      compute_pdf_inside_neighborhoods_tf)
  with sut('compute_pdf_inside_neighborhoods'):
    nb = P.Neighborhood(grid, gen.as_arg(case['radius'], case['arg_as']),
                        cen.pc)
    ids = nb._original_neigh_ids.numpy()
    if len(ids) == 0:
      return
    got = compute_pdf_inside_neighborhoods_tf(
        nb, np.array(gen.full(case['bandwidth'], c.dim), dtype=np.float32),
        P.KDEMode.constant)
  want = np.zeros(len(ids))
  for center in np.unique(ids[:, 1]):
    rows = np.nonzero(ids[:, 1] == center)[0]
    own = c.points[ids[rows, 0]]
    a, b = np.meshgrid(np.arange(len(rows)), np.arange(len(rows)))
    want[rows] = ref.gaussian_kde(own, a.reshape(-1), b.reshape(-1), len(rows),
                                  radii, gen.full(case['bandwidth'], c.dim))
  got = ref.shaped(got, [len(ids)], 'density inside of neighborhoods', 'f')
  ref.close(got, want, 'density inside of neighborhoods', rtol=tol['rtol'],
            atol=1e-7 + 1e-6 * want.max(initial=0) * 10)


TARGETS = [Target('neighborhood', _case, _run, quick=1400),
           Target('functions', _free_case, _run_free, quick=1000)]
