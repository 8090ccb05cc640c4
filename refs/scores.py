"""Reference formulas of the metrics, per object or for the ego position."""
import jax.numpy as jnp


def divergence(sx, sy, lx, ly):
  return jnp.sqrt((sx - lx) ** 2 + (sy - ly) ** 2)


def road_side(qx, qy, qz, px, py, pz, dx, dy, ids, ok):
  """True where a query point (..) lies on the wrong side of the nearest edge.

  p*, d*, ids, ok have shape (R,): the points usable as road edge are `ok`.
  """
  d2 = (px - qx[..., None]) ** 2 + (py - qy[..., None]) ** 2 + (2.0 * (pz - qz[..., None])) ** 2
  near = jnp.argmin(jnp.where(ok, d2, jnp.inf), axis=-1)
  prior = jnp.maximum(near - 1, 0)
  ex, ey = qx - px[near], qy - py[near]
  c = ex * dy[near] - ey * dx[near]
  cp = ex * dy[prior] - ey * dx[prior]
  side = jnp.where((ids[near] == ids[prior]) & (cp < c), cp, c)
  return (side > 0) & ((ex != 0) | (ey != 0))


def signed_distance(qx, qy, qz, px, py, pz, dx, dy, ids, ok):
  d2 = (px - qx[..., None]) ** 2 + (py - qy[..., None]) ** 2 + (2.0 * (pz - qz[..., None])) ** 2
  near = jnp.argmin(jnp.where(ok, d2, jnp.inf), axis=-1)
  prior = jnp.maximum(near - 1, 0)
  ex, ey = qx - px[near], qy - py[near]
  c = ex * dy[near] - ey * dx[near]
  cp = ex * dy[prior] - ey * dx[prior]
  side = jnp.where((ids[near] == ids[prior]) & (cp < c), cp, c)
  return jnp.sqrt(ex**2 + ey**2) * jnp.sign(side)


def infeasible(accel, steering):
  return (jnp.abs(accel) > 10.4 + 1e-3) | (jnp.abs(steering) > 0.3 + 1e-3)
