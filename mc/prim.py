"""Shared by C08 and C09: the space of primitive enclosures.

A state is (function, degree, a, x0, b); all triples a <= x0 <= b over a
lattice are evaluated in one vectorised call of the implementation.
"""

import math

import numpy as np

from mc import ref
from mc.lib import *  # pylint: disable=wildcard-import
from autobound import primitive_enclosures as pe

EXPONENTS = [-5, -4, -3, -2.5, -2, -1.5, -1, -0.5, 0.5, 1 / 3, 1.5, 2.5, 3.7, 0, 1,
             2, 3, 4, 5, 6, 7, 8, 9]
FUNCTIONS = [('abs', 1), ('exp', 8), ('log', 8), ('sigmoid', 4),
             ('softplus', 5), ('swish', 4), ('cbrt', 5)] + [
                 (('pow', p), 6) for p in EXPONENTS]


def eps():
  return 2.3e-16 if is_x64() else 1.2e-7


def tiny():
  return 1e-290 if is_x64() else 1e-34


def enclosure_fun(fn):
  if isinstance(fn, tuple):
    p = fn[1]
    return lambda *a: pe.pow_enclosure(p, *a)
  if fn == 'cbrt' and not hasattr(pe, 'cbrt_enclosure'):
    return lambda *a: pe.pow_enclosure(1 / 3, *a)
  return getattr(pe, fn + '_enclosure')


def value(fn, x):
  if isinstance(fn, tuple):
    p = fn[1]
    if p == 1 / 3:
      return ref.f_pow(LD(p), x)
    return ref.f_pow(p, x)
  return ref.VALUES[fn](x)


def deriv(fn, k, x):
  with np.errstate(all='ignore'):
    if isinstance(fn, tuple):
      return ref.pow_derivative(fn[1], k, x)
    if fn == 'cbrt':
      return np.where(x < 0, LD(-1)**(k + 1), LD(1)) * ref.pow_derivative(
          1 / 3, k, np.abs(x))
    return ref.derivative(fn, k, x)


def lattice(fn, which):
  """End points and reference points."""
  if which == 'large':
    return {'exp': [-700., -40., -5., 0., 5., 40., 300.],
            'log': [1e-3, 0.1, 1., 30., 1e3, 1e6]}.get(
                fn, [-800., -40., -5., 0., 3., 40., 800.])
  if which == 'coarse':
    base = [-2., -1., -0.5, 0., 0.5, 1., 3.]
  else:
    base = [-4., -3., -2., -1.5, -1., -0.75, -0.5, -0.25, 0., 0.25, 0.5, 0.75,
            1., 1.5, 2., 3., 4., 6.]
  if fn in ('sigmoid', 'softplus', 'swish') and which == 'fine':
    # Every critical point of the derivatives, tabulated or exact.
    crit = set()
    for k in range(0, 6):
      crit |= {float(x) for x, _ in ref.extrema(fn, k)}
    for c in sorted(crit):
      if all(abs(c - p) > 0.06 for p in base):
        base.append(c)
    base += [9., -9.]
  return sorted(base)


def triples(fn, degree, pts):
  """All (a, x0, b), a <= x0 <= b, where f has `degree` derivatives at x0."""
  out = []
  for a in pts:
    for x0 in pts:
      for b in pts:
        if not a <= x0 <= b:
          continue
        if fn == 'log' or fn == ('pow', -0.5):
          if x0 <= 0:
            continue
        if fn == 'cbrt' and x0 == 0 and degree > 0:
          continue
        if isinstance(fn, tuple):
          p = fn[1]
          integer = p == int(p)
          if not integer and (x0 < 0 or (x0 == 0 and p < degree)):
            continue
          if integer and p < 0 and x0 == 0:
            continue
        out.append((a, x0, b))
  t = np.array(out)
  return t[:, 0], t[:, 1], t[:, 2]


def call(fn, degree, a, x0, b, np_, kind=None):
  conv = np_.asarray if kind is None else kind
  with np.errstate(all='ignore'):
    e = enclosure_fun(fn)(conv(x0), (conv(a), conv(b)), degree, np_)
  return e


def decode(ch, e, degree, shape):
  """Checks the structure; returns coefficients and final interval."""
  if not isinstance(e, tuple) or len(e) != degree + 1:
    ch.fail('structure', f'{len(e)} coefficients for degree {degree}')
  for c in e[:-1]:
    if isinstance(c, tuple):
      ch.fail('structure', 'interval coefficient below the last')
  if not isinstance(e[-1], tuple) or len(e[-1]) != 2:
    ch.fail('structure', 'final coefficient is not an interval')
  coeffs = [np.broadcast_to(np.asarray(c), shape) for c in e[:-1]]
  for c in e[:-1]:
    if np.shape(c) not in ((), shape):
      ch.fail('structure', f'coefficient of shape {np.shape(c)}')
  lo, hi = (np.broadcast_to(np.asarray(c), shape) for c in e[-1])
  return coeffs, lo, hi


def reference(fn, degree, x0):
  """Exact Taylor coefficients 0..degree at x0."""
  return [deriv(fn, k, ld(x0)) / LD(math.factorial(k))
          for k in range(degree + 1)]


def ld(x):
  return np.asarray(x, dtype=LD)


def noise(fn, degree, a, x0, b, coeffs):
  """Rounding error of the final interval: remainder/(end-x0)**degree.

  Also returns lanes where the implementation's guard against division by a
  tiny (x-x0)**degree is active.
  """
  tot = np.zeros(np.shape(x0), LD)
  guarded = np.zeros(np.shape(x0), bool)
  for e in (a, b) + ((np.clip(-x0, a, b),) if degree == 2 else ()):
    d = ld(e) - ld(x0)
    ad = np.abs(d)**degree
    with np.errstate(all='ignore'):
      v = value(fn, e)
      m = np.where(np.isfinite(v), np.abs(v), 0)
      for i, c in enumerate(coeffs):
        m = np.maximum(m, np.abs(c) * np.abs(d)**i)
      tot = tot + np.where(d == 0, np.abs(coeffs[degree]), m / ad)
    guarded |= (d != 0) & (ad < 2e-12)
  return 40 * eps() * tot, guarded


def envelope(fn, k, x):
  """Size against which rounding errors of the k-th derivative scale."""
  x = np.asarray(x, dtype=LD)
  if fn in ('sigmoid', 'softplus', 'swish'):
    return (1 + np.abs(x)) * (np.exp(-np.abs(x)) * 5 + (
        ref.f_sigmoid(x) if k < 2 else 0))
  return np.zeros(x.shape) + (1 if fn == 'log' and k == 0 else 0)
