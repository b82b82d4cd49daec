"""C27: laws of physical quantities over tables."""
import random

import lib

MODEL = 'SPECIFICATION Spec\nINVARIANTS Through NoExtremes Best\nCHECK_DEADLOCK FALSE\nCONSTANT Top = %d\n'
K = 1000


def plan(ctx):
    ctx.model('LawsModel', MODEL % (6 if ctx.thorough else 3), workers=4)
    rnd = random.Random(ctx.seed * 43 + 5)
    return [{'seed': rnd.randrange(1 << 30)} for _ in range(4000 if ctx.thorough else 300)]


def num(x):
    x = float(x)
    return round(x) if x == x and abs(x) < 1 << 30 else 1 << 30


def execute(s):
    import numpy as np
    from phys import laws
    rnd = random.Random(s['seed'])
    recs = []

    def add(ev, fn, **kw):
        o, r = lib.call(fn)
        recs.append(dict(kw, ev=ev, exc=o['exc'], **(r or {})))

    def ask(law, xs):
        """One by one and all together."""
        one = [float(law(x)) for x in xs]
        many = [float(y) for y in np.asarray(law(np.array(xs, dtype=float)))]
        return one, all(abs(a - b) <= 1e-9 * max(1, abs(a)) for a, b in zip(one, many)) and len(many) == len(one)
    n = rnd.choice([rnd.randint(2, 12), rnd.randint(2, 12), rnd.randint(13, 70)])
    X = sorted(rnd.sample(range(-40, 41), n))
    top = rnd.choice([3, 100, 1000])
    Y = [rnd.randint(-top, top) for _ in X]
    sx, sy = 2.0 ** rnd.randint(-6, 4), 2.0 ** rnd.randint(-30, 10)

    def linear():
        law = laws.LinearLaw({'x': [x * sx for x in X], 'y': [y * sy for y in Y]})
        qs = [(x, 1) for x in rnd.sample(X, min(4, n))]
        for _ in range(10):
            q = rnd.choice([2, 3, 4, 7])
            qs.append((rnd.randint(X[0] * q, X[-1] * q), q))
        one, ok = ask(law, [p / q * sx for p, q in qs])
        return {'qs': [{'p': p, 'q': q, 'got': num(v / sy * K), 'ok': ok} for (p, q), v in zip(qs, one)]}
    add('linear', linear, X=X, Y=Y)

    deg = rnd.randint(0, 4)
    c = [rnd.randint(-5, 5) for _ in range(deg + 1)]
    XS = sorted(rnd.sample(range(-8, 9), rnd.choice([rnd.randint(deg + 2, 12), 17])))
    funcs = [lambda x, a: a + 0 * x, lambda x, a, b: a * x + b, lambda x, a, b, c: a * x ** 2 + b * x + c, laws._cubic, laws._quadro]

    def at(x):
        r = 0
        for k in c:
            r = r * x + k
        return r

    sf = 2.0 ** rnd.choice([0, 0, 8, -10, -20, -30])

    def exact():
        law = laws.FuncLaw({'x': [float(x) for x in XS], 'y': [float(at(x)) * sf for x in XS]}, funcs[deg])
        qs = rnd.sample(range(-8, 9), 6)
        one, ok = ask(law, qs)
        return {'qs': [{'x': x, 'got': num(v / sf * K), 'ok': ok} for x, v in zip(qs, one)]}
    add('exact', exact, c=c)

    noise = [rnd.randint(-20, 20) for _ in XS]

    def fit():
        law = laws.FuncLaw({'x': [float(x) for x in XS], 'y': [float(at(x) + e) * sf for x, e in zip(XS, noise)]}, funcs[deg])
        R = [num((law(float(x)) / sf - at(x) - e) * K) for x, e in zip(XS, noise)]
        return {'R': R, 'tol': sum(abs(x) ** deg for x in XS) + 20}
    if deg < 4:
        add('fit', fit, X=XS, n=deg + 1)

    def const():
        v = rnd.randint(-10 ** 8, 10 ** 8)
        law = laws.ConstLaw(v)
        return {'c': v, 'qs': [num(law(x)) for x in (0, 1.5, -1e9, v)]}
    add('const', const)

    name = rnd.choice(sorted(n for n in dir(laws) if n.endswith('_data')))

    def table():
        t = getattr(laws, name)
        x, y = t['x'], t['y']
        law = laws.LinearLaw(t)
        near = [float(law(a)) for a in x]
        mid = [float(law((a + b) / 2)) for a, b in zip(x, x[1:])]
        return {'lens': [len(x), len(y)], 'X': [num(a * 100) for a in x], 'through': all(abs(a - b) <= 1e-9 * max(map(abs, y)) for a, b in zip(near, y)),
                'between': all(abs(2 * m - a - b) <= 1e-9 * max(map(abs, y)) for m, a, b in zip(mid, y, y[1:]))}
    add('table', table, name=name)
    return recs


STAGES = [{'name': 'laws', 'module': 'TraceLaws', 'plan': plan, 'chunks': 6}]
