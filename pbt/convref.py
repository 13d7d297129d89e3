"""Reference convolutions in float64, and the cases they share."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, ref
from pbt.core import sut

ACTS = ['relu', 'ReLU', 'lrelu', 'lReLU', 'leaky_relu', 'Leaky_ReLU',
        'leakyrelu', 'elu', 'ELU']


def activation(name):
  name = name.lower()
  if name == 'relu':
    return lambda x: np.maximum(x, 0)
  if name == 'elu':
    return lambda x: np.where(x > 0, x, np.expm1(np.minimum(x, 0)))
  return lambda x: np.where(x > 0, x, 0.2 * x)


@st.composite
def conv_case(draw, dims=(2, 3, 3, 4), max_size=40, max_batch=4,
              channels=(1, 2, 3, 5), low=0, high=4, large=0):
  """Cloud, output points, radius, features and raw bytes for the weights."""
  cloud = draw(gen.cloud(dims=dims, max_batch=max_batch, max_size=max_size,
                         allow_empty=True, large=large))
  one = st.integers(low, high).map(lambda k: float(2.0 ** k))
  if draw(st.integers(0, 3)) == 0:
    one = st.sampled_from([0.9, 1.3, 3.1, 5.0, 9.9])
  centers = draw(gen.centers(cloud))
  if centers['kind'] == 'none':
    centers = dict(kind='same')
  return dict(
      cloud=cloud, centers=centers, radius=draw(one) * cloud['step'],
      features=draw(gen.features(sum(cloud['sizes']), channels)),
      raw=list(draw(st.binary(min_size=12, max_size=12))),
      neighborhood=draw(st.sampled_from(['none', 'none', 'given',
                                         'given_cells'])),
      # (a neighborhood of its own radius defines the pairs)
      inner=draw(st.sampled_from([1.0, 1.0, 0.5, 0.75, 0.6])),
      bandwidth=draw(st.sampled_from([None, 0.2, 0.1, 0.3, 0.5, 1.0])),
      radius_as=draw(st.sampled_from(['float', 'float', 'int', 'numpy',
                                      'double', 'tensor'])))


class ConvCase:
  """Built `conv_case`. `ok` is False if a pair is at the radius up to
  rounding (then there is nothing to compare with)."""

  def __init__(self, case, features=True):
    self.c = gen.Cloud(case['cloud'])
    self.cen = gen.Centers(case['centers'], self.c)
    self.radius = case['radius']
    self.radius_arg = gen.as_arg([self.radius],
                                 case.get('radius_as', 'float'))
    # (neighborhoods can have a radius per axis, layers only have one)
    radii = [case['radius'] * f
             for f in case.get('factors', [1] * self.c.dim)]
    self.r = gen.full(radii, self.c.dim)
    # the radii of the pairs: those of a neighborhood that is passed
    inner = case.get('inner', 1.0) if case['neighborhood'] != 'none' else 1.0
    self.pair_radius = case['radius'] * inner
    radii = [r * inner for r in radii]
    self.pair_r = gen.full(radii, self.c.dim)
    exact = gen.exact_lattice(self.c.case['step'], radii)
    self.exact = exact
    c, cen = self.c, self.cen
    cert, poss = ref.neighbor_sets(c.points, c.ids, cen.points, cen.ids,
                                   self.pair_r, exact)
    own, own_poss = ref.neighbor_sets(c.points, c.ids, c.points, c.ids,
                                      self.pair_r, exact)
    self.ok = (cert == poss).all() and (own == own_poss).all()
    self.ci, self.ni = np.nonzero(cert)
    self.own = np.nonzero(own)
    self.counts = cert.sum(axis=1)
    self.bandwidth = (0.2 if case['bandwidth'] is None else case['bandwidth'])
    if features:
      width = len(case['features'][0])
      self.features = np.array(case['features'],
                               dtype=np.float32).reshape(c.count, width)
      self.width = width
    self.mag = max(np.abs(c.points).max(initial=0),
                   np.abs(cen.points).max(initial=0))
    self.case = case

  def neighborhood(self, points=None, centers=None):
    """The neighborhood to pass to a layer (None to let it compute one)."""
    from pylib.pc import Grid, Neighborhood
    how = self.case['neighborhood']
    if how == 'none':
      return None
    factor = 1.0 if how == 'given' else 1.75
    with sut('Neighborhood'):
      cells = np.full(self.c.dim, self.pair_radius * factor,
                      dtype=np.float32)
      radii = np.full(self.c.dim, self.pair_radius, dtype=np.float32)
      return Neighborhood(Grid(points or self.c.pc, cells), radii,
                          centers or self.cen.pc)

  def density(self, bandwidth=None):
    """Densities of the input points."""
    ci, ni = self.own
    return ref.gaussian_kde(
        self.c.points, ci, ni, self.c.count, self.pair_r,
        np.full(self.c.dim, np.float32(bandwidth or self.bandwidth),
                dtype=np.float64))

  def offsets(self):
    return (self.c.points[self.ni].astype(np.float64) -
            self.cen.points[self.ci].astype(np.float64))

  def rtol(self, sharp=1.0):
    """Relative tolerance: float32 offsets lose digits far from the origin."""
    return 2e-4 + 3e-6 * sharp * self.mag / self.pair_radius


def aggregate(basis, features, ci, ni, num):
  """`[num, C, H]` sums of features times basis, and of absolute values."""
  terms = features[ni].astype(np.float64)[:, :, None] * basis[:, None, :]
  out = np.zeros((num,) + terms.shape[1:])
  mag = np.zeros_like(out)
  np.add.at(out, ci, terms)
  np.add.at(mag, ci, np.abs(terms))
  return out, mag


def mcconv(k, weights, biases, final, act, pdf, features=None):
  """Monte Carlo convolution of a ConvCase; (result, magnitude)."""
  features = k.features if features is None else features
  act = activation(act)
  offs = k.offsets() / k.r
  outs, mags = [], []
  for m in range(final.shape[0]):
    x = offs
    y = np.abs(offs)
    for w, b in zip(weights, biases):
      w, b = w[m].astype(np.float64), b[m].astype(np.float64)
      x = act(x @ w + b)
      y = y @ np.abs(w) + np.abs(b)
    x = x / pdf[k.ni][:, None]
    y = y / pdf[k.ni][:, None]
    agg, _ = aggregate(x, features, k.ci, k.ni, k.cen.count)
    mag, _ = aggregate(y, np.abs(features), k.ci, k.ni, k.cen.count)
    w = final[m].astype(np.float64)
    outs.append(agg.reshape(k.cen.count, -1) @ w)
    mags.append(mag.reshape(k.cen.count, -1) @ np.abs(w))
  return np.concatenate(outs, axis=1), np.concatenate(mags, axis=1)


def pointconv(k, axis, bias, weights, pdf_w, pdf_b, act, pdf, features=None):
  features = k.features if features is None else features
  axis = axis.astype(np.float64)
  offs = k.offsets()
  x = activation(act)(offs @ axis + bias.astype(np.float64))
  y = np.abs(offs) @ np.abs(axis) + np.abs(bias)
  top = np.zeros(k.cen.count)
  np.maximum.at(top, k.ci, pdf[k.ni])
  rel = (pdf[k.ni] / top[k.ci])[:, None]
  hid = np.maximum(rel @ pdf_w[0].astype(np.float64) + pdf_b[0], 0)
  div = hid @ pdf_w[1].astype(np.float64) + pdf_b[1]
  agg, _ = aggregate(x / div, features, k.ci, k.ni, k.cen.count)
  mag, _ = aggregate(y / div, np.abs(features), k.ci, k.ni, k.cen.count)
  w = weights.astype(np.float64)
  return (agg.reshape(k.cen.count, -1) @ w,
          mag.reshape(k.cen.count, -1) @ np.abs(w))


def kp_weight(dist, sigma, kind):
  if kind == 'linear':
    return np.maximum(1 - dist / sigma, 0)
  return np.exp(-(dist / (sigma / 3)) ** 2)


def kpconv(k, kernel, sigma, kind, weights, offset_weights=None,
           features=None):
  """Kernel point convolution: (result, magnitude, loss or None)."""
  features = k.features if features is None else features
  kernel = kernel.astype(np.float64)
  rel = k.offsets() / k.r
  num = k.cen.count
  shifts = np.zeros((num,) + kernel.shape)

  def conv(points_of_center, w):
    diff = rel[:, None] - points_of_center[k.ci]
    dist = np.linalg.norm(diff, axis=2)
    kw = kp_weight(dist, sigma, kind)
    agg, mag = aggregate(kw, features, k.ci, k.ni, num)
    w = w.astype(np.float64)
    return (agg.reshape(num, -1) @ w, mag.reshape(num, -1) @ np.abs(w), dist)

  base = np.broadcast_to(kernel, (num,) + kernel.shape)
  if offset_weights is None:
    out, mag, _ = conv(base, weights)
    return out, mag, None
  shifts = conv(base, offset_weights)[0].reshape((num,) + kernel.shape)
  moved = base + shifts
  out, mag, dist = conv(moved, weights)
  loss = None
  if (k.counts > 0).all():
    best = np.full((num, len(kernel)), np.inf)
    np.minimum.at(best, k.ci, (dist / sigma) ** 2)
    fit = best.sum()
    pair = np.linalg.norm(moved[:, :, None] - moved[:, None], axis=3)
    rep = kp_weight(pair, sigma, kind)
    for j in range(len(kernel)):
      rep[:, j, j] = 0
    loss = fit + rep.sum()
  return out, mag, (loss, np.abs(shifts).max(initial=0))
