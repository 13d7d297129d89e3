"""C21: invariance under point order, batch composition, translations, scale."""
import numpy as np
from hypothesis import strategies as st

from checks.c19 import equal, kernel_points
from pbt import convref, gen, ref
from pbt.core import Target, require, sut

QUANTITIES = ['neighbors', 'density', 'pair_density', 'max', 'mean', 'mc', 'pc',
              'kp', 'kp_deformable', 'cells', 'box']


@st.composite
def _case(draw):
  step = draw(st.sampled_from(gen.DYADIC))
  cloud = draw(gen.cloud(dims=(2, 3, 3, 4), max_batch=5, max_size=36,
                         allow_empty=True, step=step, layouts=('ids',)))
  centers = draw(gen.centers(cloud))
  if centers['kind'] == 'none':
    centers = dict(kind='same')
  dim, batch = cloud['dim'], len(cloud['sizes'])
  how = draw(st.sampled_from(['permute', 'permute', 'alone', 'alone',
                              'translate', 'translate', 'scale', 'axes',
                              'join']))
  far = draw(st.sampled_from([400, 30000, 100000]))
  vectors = draw(st.lists(st.lists(st.integers(-far, far), min_size=dim,
                                   max_size=dim),
                          min_size=batch, max_size=batch))
  # also radii that make the quotients inexact
  part = draw(st.sampled_from([1.0, 1.0, 1.3, 0.7, 1 / 3]))
  one = st.integers(0, 4).map(lambda e: float(2.0 ** e) * step * part)
  iso = draw(st.booleans())
  radii = [draw(one)] * dim if iso else [draw(one) for _ in range(dim)]
  quantities = draw(st.lists(st.sampled_from(QUANTITIES), min_size=1,
                             max_size=3, unique=True))
  if how == 'translate' and far > 400:
    # the precision of the densities shows in clouds far away
    quantities = sorted({'density', 'pair_density'} | set(quantities[:1]))
  return dict(
      cloud=cloud, centers=centers, how=how, vectors=vectors, radii=radii,
      radius=draw(one),
      order=draw(gen.order(sum(cloud['sizes']))),
      center_seed=draw(st.integers(0, 9999)),
      factor=draw(st.sampled_from([0.5, 2.0, 4.0, 64.0])),
      axes=draw(st.permutations(list(range(dim)))),
      signs=draw(st.lists(st.sampled_from([1, -1]), min_size=dim,
                          max_size=dim)),
      features=draw(gen.features(sum(cloud['sizes']), (1, 2, 3))),
      quantities=quantities,
      tf_seed=draw(st.integers(0, 10**6)))


class Scene:
  """Points, centers, features and radii, with the results as numpy arrays."""

  def __init__(self, points, ids, batch, cpoints, cids, feats, radii, radius):
    self.points, self.ids, self.batch = points, ids, batch
    self.cpoints, self.cids, self.feats = cpoints, cids, feats
    self.radii, self.radius = radii, radius

  def clouds(self):
    from pylib.pc import PointCloud
    a = PointCloud(self.points, batch_ids=self.ids, batch_size=self.batch)
    b = PointCloud(self.cpoints, batch_ids=self.cids, batch_size=self.batch)
    return a, b

  def compute(self, names, layers):
    import pylib.pc as P
    from pylib.pc.Neighborhood import density_estimation
    from pylib.pc import layers as L
    a, b = self.clouds()
    radii = np.array(self.radii, dtype=np.float32)
    out = {}
    for name in names:
      if name in ('neighbors', 'pair_density'):
        nb = P.Neighborhood(P.Grid(a, radii), radii, b)
        pairs = nb._original_neigh_ids.numpy()
        mat = np.zeros((len(self.cpoints), len(self.points)))
        if name == 'neighbors':
          np.add.at(mat, (pairs[:, 1], pairs[:, 0]), 1)
        else:
          mat[pairs[:, 1], pairs[:, 0]] = nb.get_pdf(
              bandwidth=0.5, normalize=True).numpy()
        out[name] = mat
      elif name == 'density':
        out[name] = density_estimation(a, bandwidth=0.25,
                                       scaling=radii).numpy()
      elif name == 'max':
        # a center without neighbors gives the lowest number
        val = L.MaxPooling()(self.feats, a, b, radii).numpy()
        out[name] = np.where(np.abs(val) > 1e30, 0, val)
      elif name == 'mean':
        out[name] = L.AveragePooling()(self.feats, a, b, radii).numpy()
      elif name == 'cells':
        s = P.cell_average_sampling(a, cell_sizes=1.5 * radii)
        out[name] = (s._points.numpy(), s._batch_ids.numpy())
      elif name == 'box':
        box = a.get_AABB()
        out[name] = (box._aabb_min.numpy(), box._aabb_max.numpy())
      else:
        out[name] = layers[name](self.feats, a, b, self.radius).numpy()
    return out


def _layers(names, dim, width):
  import tensorflow as tf
  from pylib.pc import layers as L
  made = {}
  for name in names:
    if name == 'mc':
      made[name] = L.MCConv(width, 4, dim, num_mlps=2, mlp_size=[4])
    elif name == 'pc':
      made[name] = L.PointConv(width, 3, dim, size_hidden=8)
      for v in made[name]._weights_pdf + made[name]._biases_pdf:
        v.assign(tf.abs(v) + 0.125)
    elif name.startswith('kp'):
      made[name] = L.KPConv(width, 3, num_kernel_points=6, num_dims=dim,
                            deformable=name != 'kp',
                            custom_kernel_points=kernel_points(dim))
  return made


def _sorted_rows(points, ids):
  rows = np.concatenate([ids[:, None].astype(np.float64),
                         points.astype(np.float64)], axis=1)
  return rows[np.lexsort(rows.T[::-1])] if len(rows) else rows


def _match(got, want, tol, what):
  """Sets of (batch, point) rows up to a tolerance."""
  require(got[0].shape == want[0].shape, '%s: %d instead of %d', what,
          len(got[0]), len(want[0]))
  for b in np.unique(want[1]):
    left = got[0][got[1] == b].astype(np.float64)
    right = want[0][want[1] == b].astype(np.float64)
    require(len(left) == len(right), '%s: %d instead of %d in cloud %d', what,
            len(left), len(right), b)
    free = np.ones(len(right), dtype=bool)
    for row in left:
      dist = np.where(free, np.abs(right - row).max(axis=1), np.inf)
      require(dist.min() <= tol, '%s: %s of cloud %d', what, row.tolist(), b)
      free[int(dist.argmin())] = False


def _run(case, ctx):
  import tensorflow as tf
  tf.random.set_seed(case['tf_seed'])
  c = gen.Cloud(case['cloud'])
  cen = gen.Centers(case['centers'], c)
  dim, how = c.dim, case['how']
  names = list(case['quantities'])
  if how == 'scale':
    # PointConv uses the offsets as they are
    names = [n for n in names if n != 'pc']
  if how == 'axes':
    names = [n for n in names if n in ('neighbors', 'density', 'pair_density',
                                       'max', 'mean', 'box')]
  if how in ('alone', 'join') and 'cells' in names:
    # the number of cells is that of the largest cloud of the batch: a point on
    # the upper side of its box, if that is a cell boundary, belongs to the
    # last cell of the batch's grid or to the one before it
    low, high = ref.boxes(c.points, c.ids, c.batch)
    ext = (high - low) / (1.5 * np.array(case['radii']))
    ext = ext[~np.isnan(ext)]
    if (np.abs(ext - np.round(ext)) < 1e-4)[ext > 1e-4].any():
      ctx.label('box side on a cell boundary')
      names.remove('cells')
  if not names:
    names = ['neighbors']
  feats = np.array(case['features'], dtype=np.float32).reshape(c.count, -1)
  base = Scene(c.points, c.ids, c.batch, cen.points, cen.ids, feats,
               case['radii'], case['radius'])
  with sut('layers'):
    layers = _layers(names, dim, feats.shape[1])
  with sut('results (%s)' % names):
    want = base.compute(names, layers)
  mag = np.abs(c.points).max(initial=0) + c.case['step'] * max(
      [400] + [abs(v) for row in case['vectors'] for v in row])
  tol = 1e-5 + 4e-6 * mag
  rows = np.arange(c.count)
  crows = np.arange(cen.count)
  ctx.label('how=' + how)
  for name in names:
    ctx.label('of=' + name)
  ctx.label('several clouds', c.batch > 1)
  pairs = int((want['neighbors'].sum() if 'neighbors' in want else 0))
  ctx.label('pairs', pairs > cen.count)
  ctx.interesting(c.count > 3 and (c.batch > 1 or how not in ('alone', 'join')))

  def compare(got, want_of, what, move=None, scale=1.0):
    for name in names:
      text = '%s: %s' % (what, name)
      if name in ('neighbors', 'pair_density'):
        mine = want_of[name][np.ix_(crows, rows)]
        if name == 'neighbors':
          ref.same(got[name], mine, text)
        else:
          equal(got[name], mine, text, rtol=1e-3)
      elif name == 'density':
        equal(got[name], want_of[name][rows], text, rtol=1e-3)
      elif name == 'cells':
        pts, ids = want_of[name]
        pts = pts.astype(np.float64) * scale
        if move is not None:
          pts = pts + move[ids]
        _match(got[name], (pts, ids), tol * max(1, scale), text)
      elif name == 'box':
        for side in (0, 1):
          have = got[name][side].astype(np.float64)
          need = want_of[name][side].astype(np.float64) * scale
          if move is not None:
            need = need + move
          keep = [b for b in range(len(need)) if (
              base.ids == b).any()] if len(need) == c.batch else []
          if len(need) == c.batch:
            have, need = have[keep], need[keep]
          # (boxes are a little larger than the points, by a constant)
          ref.close(have, need, text, rtol=1e-5, atol=1e-6)
      elif name in ('max',):
        ref.same(got[name], want_of[name][crows], text)
      else:
        equal(got[name], want_of[name][crows], text, rtol=1e-3)

  if how == 'permute':
    rows = np.array(case['order'], dtype=np.int64).reshape(-1)
    rng = np.random.RandomState(case['center_seed'])
    crows = rng.permutation(cen.count)
    with sut('permuted'):
      got = Scene(c.points[rows], c.ids[rows], c.batch, cen.points[crows],
                  cen.ids[crows], feats[rows], case['radii'],
                  case['radius']).compute(names, layers)
    compare(got, want, 'permuted points')
  elif how == 'translate':
    move = np.array(case['vectors'], dtype=np.float64) * c.case['step']
    with sut('translated'):
      got = Scene((c.points + move[c.ids]).astype(np.float32), c.ids, c.batch,
                  (cen.points + move[cen.ids]).astype(np.float32), cen.ids,
                  feats, case['radii'], case['radius']).compute(names, layers)
    compare(got, want, 'translated clouds', move=move)
  elif how == 'scale':
    s = np.float32(case['factor'])
    with sut('scaled'):
      got = Scene(c.points * s, c.ids, c.batch, cen.points * s, cen.ids, feats,
                  [r * float(s) for r in case['radii']],
                  case['radius'] * float(s)).compute(names, layers)
    compare(got, want, 'scaled clouds', scale=float(s))
  elif how == 'axes':
    axes = list(case['axes'])
    signs = np.array(case['signs'], dtype=np.float32)
    with sut('axes exchanged'):
      got = Scene(c.points[:, axes] * signs, c.ids, c.batch,
                  cen.points[:, axes] * signs, cen.ids, feats,
                  [case['radii'][a] for a in axes], case['radius']).compute(
                      names, layers)
    if 'box' in want:
      low, high = want['box']
      low, high = low[:, axes] * signs, high[:, axes] * signs
      want['box'] = (np.minimum(low, high), np.maximum(low, high))
    compare(got, want, 'exchanged axes')
  elif how == 'join':
    # further clouds (shifted copies) before and after the batch
    n = c.batch
    points = np.concatenate([c.points * 2 + 5, c.points, c.points - 3])
    ids = np.concatenate([c.ids, c.ids + n, c.ids + 2 * n])
    cpoints = np.concatenate([cen.points * 2 + 5, cen.points, cen.points - 3])
    cids = np.concatenate([cen.ids, cen.ids + n, cen.ids + 2 * n])
    fs = np.concatenate([feats + 3, feats, 2 * feats])
    with sut('joined'):
      got = Scene(points, ids, 3 * n, cpoints, cids, fs, case['radii'],
                  case['radius']).compute(names, layers)
    mine = slice(c.count, 2 * c.count)
    cmine = slice(cen.count, 2 * cen.count)
    for name in names:
      val = got[name]
      if name in ('neighbors', 'pair_density'):
        require(not val[cmine, :c.count].any() and
                not val[cmine, 2 * c.count:].any(),
                'pairs across the clouds of a batch')
        got[name] = val[cmine, mine]
      elif name == 'density':
        got[name] = val[mine]
      elif name == 'cells':
        keep = (val[1] >= n) & (val[1] < 2 * n)
        got[name] = (val[0][keep], val[1][keep] - n)
      elif name == 'box':
        got[name] = (val[0][n:2 * n], val[1][n:2 * n])
      else:
        got[name] = val[cmine]
    compare(got, want, 'clouds within a larger batch')
  else:
    for b in range(c.batch):
      rows = np.nonzero(c.ids == b)[0]
      crows = np.nonzero(cen.ids == b)[0]
      if len(rows) == 0 or len(crows) == 0:
        continue
      with sut('cloud %d alone' % b):
        got = Scene(c.points[rows], c.ids[rows] * 0, 1, cen.points[crows],
                    cen.ids[crows] * 0, feats[rows], case['radii'],
                    case['radius']).compute(names, layers)
      part = dict(want)
      if 'cells' in want:
        keep = want['cells'][1] == b
        part['cells'] = (want['cells'][0][keep], want['cells'][1][keep] * 0)
      if 'box' in want:
        part['box'] = (want['box'][0][b:b + 1], want['box'][1][b:b + 1])
        if c.batch == 1:
          part['box'] = want['box']
      # relative tolerance of the values of this cloud alone
      compare(got, part, 'cloud %d alone' % b)


@st.composite
def _far_case(draw):
  case = draw(_case())
  case.update(how='translate',
              quantities=draw(st.sampled_from([
                  ['density', 'pair_density'], ['pair_density'],
                  ['neighbors', 'pair_density'], ['mc'], ['kp']])),
              vectors=[[v * (1 + abs(100000 // max(abs(v), 1)))
                        for v in row] for row in case['vectors']])
  return case


TARGETS = [Target('invariance', _case, _run, quick=440),
           Target('far', _far_case, _run, quick=200)]
