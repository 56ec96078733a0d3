"""Helpers shared by the checks: lattices, exact interval oracles, comparison.

Everything here is independent of the code under test.
"""

import itertools
import os

import numpy as np

LD = np.longdouble


def is_x64():
  return os.environ.get('JAX_ENABLE_X64', '1') == '1'


def backends(names=('np', 'jnp')):
  out = {}
  if 'np' in names:
    out['np'] = np
  if 'jnp' in names:
    import jax.numpy as jnp
    out['jnp'] = jnp
  return out


def ends(c):
  """(lower, upper) of an ndarray or interval, as numpy arrays."""
  if isinstance(c, tuple):
    assert len(c) == 2, f'interval of length {len(c)}'
    return np.asarray(c[0]), np.asarray(c[1])
  a = np.asarray(c)
  return a, a


def shape_of(c):
  return np.shape(c[0]) if isinstance(c, tuple) else np.shape(c)


def is_interval(c):
  return isinstance(c, tuple)


# --- exact interval oracle -------------------------------------------------


def prod_hull(a, b, f):
  """Elementwise hull of f over the four end-point combinations."""
  vals = [f(x, y) for x in ends(a) for y in ends(b)]
  return (np.minimum.reduce(vals), np.maximum.reduce(vals))


def imul(a, b):
  al, ah = ends(a)
  bl, bh = ends(b)
  with np.errstate(invalid='ignore'):
    vals = [al * bl, al * bh, ah * bl, ah * bh]
  return (np.minimum.reduce(vals), np.maximum.reduce(vals))


def iadd(a, b):
  al, ah = ends(a)
  bl, bh = ends(b)
  return (al + bl, ah + bh)


def isub(a, b):
  al, ah = ends(a)
  bl, bh = ends(b)
  return (al - bh, ah - bl)


def ineg(a):
  al, ah = ends(a)
  return (-ah, -al)


def ipow(a, k):
  """Exact range of t**k, k a non-negative integer."""
  al, ah = ends(a)
  if k == 0:
    return (np.ones_like(al), np.ones_like(ah))
  p, q = al**k, ah**k
  lo, hi = np.minimum(p, q), np.maximum(p, q)
  if k % 2 == 0:
    lo = np.where((al <= 0) & (ah >= 0), 0 * lo, lo)
  return (lo, hi)


def idiv(a, b):
  bl, bh = ends(b)
  return imul(a, (1 / bh, 1 / bl))


def contained(inner, outer, tol=0.):
  """Whether inner is a subset of outer, elementwise (NaN in outer: False)."""
  il, ih = ends(inner)
  ol, oh = ends(outer)
  return (ol <= il + tol) & (ih <= oh + tol)


def close(a, b, rtol, atol=0.):
  a, b = np.asarray(a), np.asarray(b)
  with np.errstate(invalid='ignore'):
    ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
  return ok | (a == b) | (np.isnan(a) & np.isnan(b))


def same_interval(a, b, rtol=0., atol=0.):
  al, ah = ends(a)
  bl, bh = ends(b)
  return close(al, bl, rtol, atol) & close(ah, bh, rtol, atol)


def first_bad(ok):
  """Index of the first False of a boolean array."""
  ok = np.asarray(ok)
  if ok.all():
    return None
  return tuple(int(i) for i in np.argwhere(~ok)[0])


# --- evaluation of Taylor enclosures ---------------------------------------


def outer_pow(z, i):
  """z**i as an array of shape z.shape*i (point z)."""
  z = np.asarray(z)
  out = np.ones((), dtype=z.dtype)
  for _ in range(i):
    out = np.multiply.outer(out, z)
  return out


def scale_zero_inf(c, z):
  """c*z with 0*inf == 0."""
  with np.errstate(invalid='ignore'):
    r = c * z
  return np.where(z == 0, 0., r)


def eval_enclosure(coeffs, z, x_ndim, dtype=LD):
  """Exact interval value of an enclosure at a point z (x_ndim 0 or 1).

  Each coefficient entry ranges independently over its interval, so the value
  is the interval sum of entry * monomial.
  """
  z = np.asarray(z, dtype=dtype)
  lo = hi = dtype(0)
  for i, c in enumerate(coeffs):
    m = outer_pow(z, i)
    cl, ch = ends(c)
    cl, ch = cl.astype(dtype), ch.astype(dtype)
    n = i * x_ndim
    if x_ndim == 0:
      p, q = scale_zero_inf(cl, m), scale_zero_inf(ch, m)
      tl, th = np.minimum(p, q), np.maximum(p, q)
    else:
      p, q = scale_zero_inf(cl, m), scale_zero_inf(ch, m)
      tl, th = np.minimum(p, q), np.maximum(p, q)
      axes = tuple(range(tl.ndim - n, tl.ndim)) if n else ()
      if n:
        tl, th = tl.sum(axis=axes), th.sum(axis=axes)
    lo, hi = lo + tl, hi + th
  return lo, hi


def magnitude(coeffs, z, x_ndim):
  """Upper bound on the size of the terms of an enclosure at z (for tolerances)."""
  z = np.abs(np.asarray(z, dtype=LD))
  tot = LD(0)
  for i, c in enumerate(coeffs):
    m = outer_pow(z, i)
    cl, ch = ends(c)
    v = np.maximum(np.abs(cl), np.abs(ch)).astype(LD)
    v = np.where(np.isfinite(v), v, 0) * m
    n = i * x_ndim
    if x_ndim and n:
      v = v.sum(axis=tuple(range(v.ndim - n, v.ndim)))
    tot = tot + v
  return tot


def lattice_box(lo, hi, points):
  """All lattice points of a box [lo, hi] in R^n; `points` per axis."""
  axes = []
  for l, h in zip(np.atleast_1d(lo), np.atleast_1d(hi)):
    axes.append(sorted({float(l + (h - l) * t) for t in points}))
  return [np.array(p) for p in itertools.product(*axes)]


def intervals_of(points):
  pts = sorted(points)
  return [(a, b) for i, a in enumerate(pts) for b in pts[i:]]
