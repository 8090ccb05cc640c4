"""Reference geometry of oriented boxes (x, y, length, width, heading)."""
import jax.numpy as jnp


def corner(x, y, l, w, yaw, u, v):
  """The point at u half lengths ahead and v half widths to the left."""
  fx, fy = jnp.cos(yaw), jnp.sin(yaw)
  return x + u * l / 2 * fx - v * w / 2 * fy, y + u * l / 2 * fy + v * w / 2 * fx


ORDER = [(1, -1), (1, 1), (-1, 1), (-1, -1)]


def corners(x, y, l, w, yaw):
  return jnp.stack([jnp.stack(corner(x, y, l, w, yaw, u, v), -1) for u, v in ORDER], -2)


def split(a, b, nx, ny):
  """Whether the projections of boxes a and b on direction n share an interval."""
  pa = [p[0] * nx + p[1] * ny for p in [corner(*a, u, v) for u, v in ORDER]]
  pb = [p[0] * nx + p[1] * ny for p in [corner(*b, u, v) for u, v in ORDER]]
  lo = lambda p: jnp.minimum(jnp.minimum(p[0], p[1]), jnp.minimum(p[2], p[3]))
  hi = lambda p: jnp.maximum(jnp.maximum(p[0], p[1]), jnp.maximum(p[2], p[3]))
  return jnp.minimum(hi(pa), hi(pb)) - jnp.maximum(lo(pa), lo(pb)) > 0


def overlap(ax, ay, al, aw, ayaw, bx, by, bl, bw, byaw):
  a, b = (ax, ay, al, aw, ayaw), (bx, by, bl, bw, byaw)
  out = True
  for yaw in (ayaw, byaw):
    c, s = jnp.cos(yaw), jnp.sin(yaw)
    out = out & split(a, b, c, s) & split(a, b, -s, c)
  return out


def extents(ax, ay, al, aw, ayaw, bx, by, bl, bw, byaw):
  """Boxes of positive size have positive extent along every edge normal."""
  a, b = (ax, ay, al, aw, ayaw), (bx, by, bl, bw, byaw)
  out = []
  for yaw in (ayaw, byaw):
    c, s = jnp.cos(yaw), jnp.sin(yaw)
    for nx, ny in ((c, s), (-s, c)):
      for box in (a, b):
        p = [q[0] * nx + q[1] * ny for q in [corner(*box, u, v) for u, v in ORDER]]
        hi = jnp.maximum(jnp.maximum(p[0], p[1]), jnp.maximum(p[2], p[3]))
        lo = jnp.minimum(jnp.minimum(p[0], p[1]), jnp.minimum(p[2], p[3]))
        out.append(hi > lo)
  return out
