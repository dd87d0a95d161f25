"""Random states whose draws the simulator decides."""
import numpy as np

from world import Mismatch


class SourceError(OSError):
    """The random source fails."""

    vsim = True


class Stub(np.random.RandomState):
    """A random state that delivers given standard normal draws.

    `values` is a flat list of numbers; draws beyond it are zero. Only standard normal
    draws are available: the library must not use anything else.
    """

    def __init__(self, values=None, fail_at=None):
        np.random.RandomState.__init__(self, 0)
        self.values = np.zeros(0) if values is None else np.asarray(values, dtype=np.float64)
        self.n = 0
        self.blocks = []
        self.fail_at = fail_at

    def _draw(self, shape):
        if self.fail_at is not None and len(self.blocks) == self.fail_at:
            self.fail_at = None
            raise SourceError("the random source failed")
        m = int(np.prod(shape, dtype=int))
        v = np.zeros(m)
        have = self.values[self.n:self.n + m]
        v[:len(have)] = have
        self.n += m
        self.blocks.append(tuple(int(d) for d in shape))
        return v.reshape(shape)

    def randn(self, *shape):
        r = self._draw(shape)
        return r if shape else float(r)

    def standard_normal(self, size=None):
        return self.randn(*(() if size is None else (size,) if np.isscalar(size) else size))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * np.asarray(self.standard_normal(size))


def _forbid(name):
    def f(self, *a, **k):
        raise Mismatch("draw", f"sampling draws with `{name}` rather than standard normal draws")

    return f


for _n in ("rand", "random_sample", "random", "uniform", "randint", "choice", "permutation", "shuffle", "multivariate_normal",
           "bytes", "exponential", "gamma", "seed"):
    setattr(Stub, _n, _forbid(_n))
