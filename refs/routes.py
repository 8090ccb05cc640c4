"""Reference formulas of the route metrics for one ego position (no batch)."""
import jax.numpy as jnp


def _dist(px, py, ex, ey):
  return jnp.sqrt((px - ex) ** 2 + (py - ey) ** 2)


def wrong_way(ex, ey, px, py, ok):
  """(value, valid): distance to the nearest valid route point beyond 3.5 m."""
  d = jnp.min(jnp.where(ok, _dist(px, py, ex, ey), jnp.inf))
  valid = d < jnp.inf
  return jnp.where(valid & (d >= 3.5), d, 0.0), valid


def off_route(ex, ey, ego_ok, px, py, ok, on):
  """on has shape (paths, 1): whether the path belongs to the logged route."""
  d = jnp.where(ok & ego_ok, _dist(px, py, ex, ey), jnp.inf)
  near_on = jnp.min(jnp.where(on, d, jnp.inf))
  near_off = jnp.min(jnp.where(on, jnp.inf, d))
  off = (near_on > 5) | (near_on - near_off > 2)
  raw = jnp.where(off, near_on, 0.0)
  valid = jnp.isfinite(raw)
  return jnp.where(valid, raw, 0.0), valid


def progression(ex, ey, ego_ok, sx, sy, gx, gy, px, py, arc, ok, on):
  d = jnp.where(ok & on & ego_ok, _dist(px, py, ex, ey), jnp.inf)
  per_path = jnp.min(d, axis=-1)
  k = jnp.argmin(per_path)

  def arc_at(x, y):
    j = jnp.argmin(jnp.where(ok[k], _dist(px[k], py[k], x, y), jnp.inf))
    return arc[k][j]
  a, b, c = arc_at(sx, sy), arc_at(gx, gy), arc_at(ex, ey)
  valid = jnp.isfinite(jnp.min(d))
  p = jnp.where(b == a, 1.0, (c - a) / (b - a))
  return jnp.where(valid, p, 0.0), valid
