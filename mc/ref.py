"""Reference mathematics in extended precision, independent of the code.

`jet_*` functions map a list of Taylor coefficients (longdouble arrays) of an
argument u(t) to those of f(u(t)).  `f_*` are values.
"""

import math

import numpy as np

LD = np.longdouble


def ld(x):
  return np.asarray(x, dtype=LD)


# --- values -----------------------------------------------------------------


def f_sigmoid(x):
  x = ld(x)
  e = np.exp(-np.abs(x))
  return np.where(x >= 0, 1 / (1 + e), e / (1 + e))


def f_softplus(x):
  x = ld(x)
  return np.log1p(np.exp(-np.abs(x))) + np.maximum(x, 0)


def f_swish(x):
  return ld(x) * f_sigmoid(x)


def f_pow(p, x):
  x = ld(x)
  with np.errstate(all='ignore'):
    if p == int(p):
      return x**int(p) if p >= 0 else 1 / x**int(-p)
    return x**LD(p)


VALUES = {
    'abs': lambda x: np.abs(ld(x)), 'exp': lambda x: np.exp(ld(x)),
    'log': lambda x: np.log(ld(x)), 'sigmoid': f_sigmoid,
    'softplus': f_softplus, 'swish': f_swish,
    'neg': lambda x: -ld(x), 'cbrt': lambda x: np.cbrt(ld(x)),
    'sqrt': lambda x: np.sqrt(ld(x)),
    'rsqrt': lambda x: 1 / np.sqrt(ld(x)),
}


# --- jets -------------------------------------------------------------------


def jet_const(c, n):
  c = ld(c)
  return [c] + [np.zeros_like(c)] * n


def jet_var(x, n):
  x = ld(x)
  out = [x] + [np.zeros_like(x)] * n
  if n:
    out[1] = np.ones_like(x)
  return out


def jet_add(a, b):
  return [x + y for x, y in zip(a, b)]


def jet_sub(a, b):
  return [x - y for x, y in zip(a, b)]


def jet_mul(a, b):
  return [sum(a[i] * b[n - i] for i in range(n + 1)) for n in range(len(a))]


def jet_scale(c, a):
  return [LD(c) * x for x in a]


def jet_exp(u):
  e = [np.exp(u[0])]
  for n in range(1, len(u)):
    e.append(sum(k * u[k] * e[n - k] for k in range(1, n + 1)) / n)
  return e


def jet_log(u):
  l = [np.log(u[0])]
  for n in range(1, len(u)):
    l.append((u[n] - sum(k * l[k] * u[n - k] for k in range(1, n)) / LD(n))
             / u[0])
  return l


def jet_int_pow(u, p):
  if p < 0:
    return jet_recip(jet_int_pow(u, -p))
  r = jet_const(np.ones_like(u[0]), len(u) - 1)
  for _ in range(p):
    r = jet_mul(r, u)
  return r


def jet_recip(u):
  r = [1 / u[0]]
  for n in range(1, len(u)):
    r.append(-sum(u[k] * r[n - k] for k in range(1, n + 1)) / u[0])
  return r


def jet_pow(p, u):
  if p == int(p):
    return jet_int_pow(u, int(p))
  p = LD(p)
  b = [u[0]**p]
  for n in range(1, len(u)):
    b.append(sum((k * p - (n - k)) * u[k] * b[n - k]
                 for k in range(1, n + 1)) / (n * u[0]))
  return b


def jet_sigmoid(u):
  s = [f_sigmoid(u[0])]
  w = [f_sigmoid(u[0]) * f_sigmoid(-u[0])]
  for n in range(1, len(u)):
    s.append(sum(k * u[k] * w[n - k] for k in range(1, n + 1)) / n)
    # w = s - s**2, with 1 - 2*s[0] computed without cancellation
    one_m_2s = f_sigmoid(-u[0]) - f_sigmoid(u[0])
    w.append(s[n] * one_m_2s - sum(s[i] * s[n - i] for i in range(1, n)))
  return s


def jet_softplus(u):
  s = jet_sigmoid(u)
  v = [f_softplus(u[0])]
  for n in range(1, len(u)):
    v.append(sum(k * u[k] * s[n - k] for k in range(1, n + 1)) / n)
  return v


def jet_swish(u):
  return jet_mul(u, jet_sigmoid(u))


def jet_abs(u):
  s = np.where(u[0] < 0, LD(-1), LD(1))
  return [s * c for c in u]


def jet_cbrt(u):
  s = np.where(u[0] < 0, LD(-1), LD(1))
  v = [s * c for c in u]
  p = LD(1) / LD(3)
  b = [np.cbrt(v[0])]
  for n in range(1, len(u)):
    b.append(sum((k * p - (n - k)) * v[k] * b[n - k]
                 for k in range(1, n + 1)) / (n * v[0]))
  return [s * c for c in b]


JETS = {
    'abs': jet_abs, 'exp': jet_exp, 'log': jet_log, 'sigmoid': jet_sigmoid,
    'softplus': jet_softplus, 'swish': jet_swish,
    'neg': lambda u: [-c for c in u], 'cbrt': jet_cbrt,
    'sqrt': lambda u: jet_pow(0.5, u), 'rsqrt': lambda u: jet_pow(-0.5, u),
}


def derivative(name, k, x):
  """k-th derivative of a named function (longdouble)."""
  x = ld(x)
  if name == 'abs':
    return np.abs(x) if k == 0 else np.sign(x) if k == 1 else 0 * x
  with np.errstate(all='ignore'):
    if name == 'log':
      if k == 0:
        return np.log(x)
      return (-1)**(k - 1) * LD(math.factorial(k - 1)) / x**k
    if name == 'exp':
      return np.exp(x)
    return JETS[name](jet_var(x, k))[k] * LD(math.factorial(k))


def pow_derivative(p, k, x):
  """k-th derivative of x**p."""
  c = LD(1)
  if p == 1/3:
    p = LD(1) / 3
  for i in range(k):
    c = c * (LD(p) - i)
  if c == 0:
    return 0 * ld(x)
  return c * f_pow(p - k if p != int(p) else int(p) - k, x)


_EXTREMA = {}


def extrema(name, k):
  """[(x, is_minimum)] : every local extremum of the k-th derivative."""
  if (name, k) in _EXTREMA:
    return _EXTREMA[name, k]
  if name in ('exp', 'log'):
    out = []
  elif name == 'abs':
    out = [(LD(0), True)] if k == 0 else []
  else:
    d = lambda x: derivative(name, k + 1, x)
    grid = ld(np.arange(-30, 30, 1 / 64)) + LD(0.00371)
    v = d(grid)
    out = []
    for i in np.nonzero(v[:-1] * v[1:] < 0)[0]:
      a, b = grid[i], grid[i + 1]
      fa = v[i]
      for _ in range(80):
        m = (a + b) / 2
        fm = d(m)
        if fa * fm <= 0:
          b = m
        else:
          a, fa = m, fm
      r = (a + b) / 2
      if abs(r) < LD(1e-15):
        r = LD(0)
      out.append((r, bool(v[i] < 0)))
  _EXTREMA[name, k] = out
  return out
