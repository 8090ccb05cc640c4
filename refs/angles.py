"""Reference angle arithmetic."""
import jax.numpy as jnp


def wrap(y):
  return (y + jnp.pi) % (2 * jnp.pi) - jnp.pi
