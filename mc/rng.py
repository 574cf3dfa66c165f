"""The numpy random generator under harness control.

`controlled(draws)` replaces the module-level generator functions: every unit draw (uniform in [0,1) or
standard normal) is answered from the iterator `draws`, and recorded.
"""

import contextlib

import numpy as np

NAMES = ["uniform", "normal", "random", "rand", "randn", "random_sample", "standard_normal", "multivariate_normal", "ranf", "sample"]


class Feed(object):
    def __init__(self, uniforms, normals):
        self.u, self.z = iter(uniforms), iter(normals)
        self.used_u, self.used_z = [], []

    def unif(self):
        x = next(self.u)
        self.used_u.append(x)
        return x

    def norm(self):
        x = next(self.z)
        self.used_z.append(x)
        return x


class Exhausted(Exception):
    """The generator was asked for more draws than the depth bound."""


def _endless(seq, limit):
    for i, x in enumerate(seq):
        if i >= limit:
            break
        yield x
    raise Exhausted("more than %d draws" % limit)


@contextlib.contextmanager
def controlled(uniforms=(), normals=(), limit=10**6):
    """Answer unit draws from the given sequences (Exhausted beyond the limit)."""

    feed = Feed(_endless(uniforms, limit), _endless(normals, limit))

    def fill(one, size, *args):
        args = [np.asarray(a, dtype="d") for a in args]
        if size is None:
            shape = np.broadcast(*args).shape if args else ()
        else:
            shape = tuple(np.atleast_1d(np.asarray(size, dtype=int)).tolist())
        if shape == ():
            return one()
        ret = np.zeros(shape)
        for i in np.ndindex(*shape):
            ret[i] = one()
        return ret

    def uniform(low=0.0, high=1.0, size=None):
        x = fill(feed.unif, size, low, high)
        y = np.asarray(low) + (np.asarray(high) - np.asarray(low)) * x
        return float(y) if np.ndim(y) == 0 else y

    def normal(loc=0.0, scale=1.0, size=None):
        x = fill(feed.norm, size, loc, scale)
        y = np.asarray(loc) + np.asarray(scale) * x
        return float(y) if np.ndim(y) == 0 else y

    def random(size=None):
        return fill(feed.unif, size)

    def rand(*shape):
        return fill(feed.unif, shape if shape else None)

    def standard_normal(size=None):
        return fill(feed.norm, size)

    def randn(*shape):
        return fill(feed.norm, shape if shape else None)

    def multivariate_normal(mean, cov, size=None, **kw):
        if size is not None:
            raise NotImplementedError
        mean = np.asarray(mean, dtype="d")
        return mean + np.linalg.cholesky(np.asarray(cov)) @ fill(feed.norm, len(mean))

    new = dict(
        uniform=uniform,
        normal=normal,
        random=random,
        random_sample=random,
        ranf=random,
        sample=random,
        rand=rand,
        randn=randn,
        standard_normal=standard_normal,
        multivariate_normal=multivariate_normal,
    )
    old = {k: getattr(np.random, k) for k in new}
    try:
        for k, v in new.items():
            setattr(np.random, k, v)
        yield feed
    finally:
        for k, v in old.items():
            setattr(np.random, k, v)
