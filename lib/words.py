"""Boundary-biased machine words, as byte limbs."""


def limbs(v, n):
    return [(v >> (8 * i)) & 255 for i in range(n)]


def word(rng, n, near=()):
    """A word of n bytes, close to powers of two, to extremes or to the given values half of the time."""
    w = 8 * n
    k = rng.randint(0, 6)
    if k == 0:
        v = rng.choice([0, 1, 2, 3]) * rng.choice([1, -1])
    elif k == 1:
        v = (1 << rng.randint(0, w - 1)) + rng.randint(-2, 2)
    elif k == 2:
        v = (1 << (w - 1)) + rng.randint(-3, 3)
    elif k == 3 and near:
        v = rng.choice(near) + rng.choice([-1, 0, 1, 1 << (w - 1), (1 << (w - 1)) + 1, (1 << (w - 1)) - 1])
    elif k == 4:
        v = rng.getrandbits(rng.randint(1, w))
    else:
        v = rng.getrandbits(w)
    return v % (1 << w)
