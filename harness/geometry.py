"""Shared by C13..C16: integer geometry mapped exactly into doubles."""
import random

import lib

K = 16384
STEPS = [1.0, 1.0, 2.0 ** -6, 2.0 ** -10, 2.0 ** -13, 64.0, 4096.0, 0.1, 1e-4]


class Frame:
    """Affine map of the integer points 0..8 into doubles.  With a dyadic step the doubles are exact,
    otherwise they are accurate to a few units in the last place."""
    def __init__(self, rnd):
        self.step = rnd.choice(STEPS)
        o = rnd.choice([0, 0, 1, 5])
        self.origin = tuple(self.step * rnd.randint(-o * 10, o * 10) for _ in range(3))
        self.keep = []

    def v(self, p):
        import geom
        return geom.Vect(*[self.origin[i] + self.step * p[i] for i in range(3)])

    def tri(self, t):
        import geom
        return geom.Triangle(*[self.v(p) for p in t])

    def seg(self, s):
        import geom
        return geom.Segment(self.v(s[0]), self.v(s[1]))

    def back(self, x):
        """A point of the code as a scaled integer point."""
        r = []
        for i in range(3):
            y = (float(x[i]) - self.origin[i]) / self.step * K
            r.append(1 << 24 if y != y or abs(y) > 1 << 24 else int(round(y)))
        return r

    def num(self, x, scale):
        y = float(x) * scale
        return 1 << 24 if y != y or abs(y) > 1 << 24 else int(round(y))


def point(rnd, m=8):
    return [rnd.randint(0, m) for _ in range(3)]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def degenerate(t):
    return cross(sub(t[1], t[0]), sub(t[2], t[0])) == [0, 0, 0]


def triangle(rnd, m=8):
    while True:
        t = [point(rnd, m) for _ in range(3)]
        if rnd.random() < 0.3:      # in a plane of two axes
            i, v = rnd.randrange(3), rnd.randint(0, m)
            for p in t:
                p[i] = v
        if not degenerate(t):
            return t


PTS = {}


def points_of(t, m=8):
    """Lattice points of the triangle's plane, of the triangle, of its border."""
    key = str(t)
    if key not in PTS:
        n = cross(sub(t[1], t[0]), sub(t[2], t[0]))
        c = dot(n, t[0])
        pl = []
        for x in range(m + 1):
            for y in range(m + 1):
                r = c - n[0] * x - n[1] * y
                if n[2]:
                    if r % n[2] == 0 and 0 <= r // n[2] <= m:
                        pl.append([x, y, r // n[2]])
                elif r == 0:
                    pl += [[x, y, z] for z in range(m + 1)]
        inn = []
        for p in pl:
            s = [dot(cross(sub(t[(k + 1) % 3], t[k]), sub(p, t[k])), n) for k in range(3)]
            if min(s) >= 0:
                inn.append(p)
        if len(PTS) > 200:
            PTS.clear()
        PTS[key] = (pl, inn)
    return PTS[key]


def segment(rnd, t, m=8):
    """A segment related to the triangle in one of many ways."""
    pl, inn = points_of(t, m)
    while True:
        k = rnd.randrange(9)
        if k <= 2:
            s = [point(rnd, m), point(rnd, m)]
        elif k == 3:                # starts in the triangle
            s = [rnd.choice(inn), point(rnd, m)]
        elif k <= 5:                # goes through a point of the triangle
            c, d = rnd.choice(inn), [rnd.randint(-3, 3) for _ in range(3)]
            a, b = rnd.randint(-3, 1), rnd.randint(1, 3)
            s = [[c[i] + a * d[i] for i in range(3)], [c[i] + b * d[i] for i in range(3)]]
        elif k <= 7:                # in the plane
            s = [rnd.choice(pl), rnd.choice(pl)]
        else:                       # parallel to a side
            a, b = rnd.sample(t, 2)
            p, f = point(rnd, m), rnd.choice([1, -1, 2])
            s = [p, [p[i] + f * (b[i] - a[i]) for i in range(3)]]
        if rnd.random() < 0.5:
            s.reverse()
        if s[0] != s[1] and all(0 <= x <= m for p in s for x in p):
            return s
