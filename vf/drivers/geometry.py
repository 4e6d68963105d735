"""Operations of points, sizes and rectangles (spec/Geometry.tla)."""
import math
import random
from nion.utils import Geometry as G
from vf import api

S = 64


class Kind:
    def __init__(self, k):
        self.k = k
        self.P, self.Z, self.R = (G.IntPoint, G.IntSize, G.IntRect) if k == "int" else (G.FloatPoint, G.FloatSize, G.FloatRect)

    def c(self, v):
        """a coordinate of the specification as one of the code"""
        return v if self.k == "int" else v / S

    def n(self, v, exact=True):
        """and back"""
        if isinstance(v, bool):
            return -7777777
        if self.k == "int":
            return v if type(v) is int else -7777777
        if not isinstance(v, float) or v != v or abs(v) > 1e6:
            return -7777777
        v = v * S
        if not exact:
            r = round(v)
            return r if abs(v - r) < 1e-6 else -7777777
        return int(v) if v == int(v) else -7777777

    def point(self, a):
        return self.P(self.c(a[0]), self.c(a[1]))

    def size(self, a):
        return self.Z(self.c(a[0]), self.c(a[1]))

    def rect(self, a):
        return self.R((self.c(a[0]), self.c(a[1])), (self.c(a[2]), self.c(a[3])))

    def back(self, o, exact=True):
        n = lambda v: self.n(v, exact)
        if isinstance(o, self.P):
            return [n(o.y), n(o.x)]
        if isinstance(o, self.Z):
            return [n(o.height), n(o.width)]
        if isinstance(o, self.R):
            return [n(o.top), n(o.left), n(o.height), n(o.width)]
        return [-6666666]


FLOAT = Kind("float")


class Gen:
    def __init__(self, k, rng, span, signed):
        self.kind, self.k, self.rng, self.span = Kind(k), k, rng, span
        self.log = []
        self.signed = signed

    # floats are multiples of 1/4, so that a half of a half is one of 1/16
    def num(self):
        v = self.rng.randint(-self.span, self.span)
        return v if self.k == "int" else v * 16

    def length(self):
        v = self.rng.randint(0, self.span)
        if self.signed and self.rng.random() < 0.1:
            v = -v
        return v if self.k == "int" else v * 16

    def pt(self):
        return [self.num(), self.num()]

    def sz(self):
        return [self.length(), self.length()]

    def near(self, r):
        """a rectangle whose edges often are those of r"""
        def pair(a, n):
            c = [a - 1, a, a + 1, a + n - 1, a + n, a + n + 1, a + self.rng.randint(-self.span, self.span)]
            x, y = self.rng.choice(c), self.rng.choice(c)
            return min(x, y), abs(x - y)
        t, h = pair(r[0], r[2])
        l, w = pair(r[1], r[3])
        if self.k == "float":
            t, h, l, w = (x // 16 * 16 for x in (t, h, l, w))
        return [t, l, h, w]

    def rc(self):
        return self.pt() + [abs(x) for x in self.sz()]

    def put(self, op, a, b, c, res):
        self.log.append({"e": op, "k": self.k, "a": a, "b": b, "c": c, "res": res})

    def do(self, op, fn, a=(), b=(), c=(), exact=True):
        try:
            r = fn()
            if r is True or r is False:
                res = [int(r)]
            elif isinstance(r, list):
                res = r
            else:
                res = self.kind.back(r, exact)
        except api.Machinery:
            raise
        except Exception as e:
            res = [-5555555]
        self.put(op, list(a), list(b), list(c), res)

    def numbers(self, it):
        return [self.kind.n(v) for v in it]

    def step(self):
        k, d, rng = self.kind, self.do, self.rng
        a, b, s, z, r = self.pt(), self.pt(), self.sz(), self.sz(), self.rc()
        q = self.near(r) if rng.random() < 0.7 else self.rc()
        P, Z, R = k.point, k.size, k.rect
        o = rng.randrange(26)
        if o == 0:
            d("p+p", lambda: P(a) + P(b), a, b)
            d("p-p", lambda: P(a) - P(b), a, b)
            d("-p", lambda: -P(a), a)
        elif o == 1:
            d("p+s", lambda: P(a) + Z(s), a, s)
            d("p-s", lambda: P(a) - Z(s), a, s)
        elif o == 2:
            d("s+s", lambda: Z(s) + Z(z), s, z)
            d("s-s", lambda: Z(s) - Z(z), s, z)
            d("s+s", lambda: Z(s) + tuple(Z(z)), s, z)
            d("-s", lambda: -Z(s), s)
        elif o == 3:
            d("p+r", lambda: P(a) + R(r), a, r)
            d("r+p", lambda: R(r) + P(a), r, a)
            d("r-p", lambda: R(r) - P(a), r, a)
            d("p-r", lambda: P(a) - R(r), a, r)
        elif o == 4:
            if self.k == "int":
                m = rng.randint(-5, 5)
                d("*", lambda: Z(s) * m, s, (), [m, 1])
                d("*", lambda: m * Z(s), s, (), [m, 1])
                n = rng.randint(1, 6)
                s = [abs(x) for x in s]
                d("//", lambda: Z(s) // n, s, (), [n])
            else:
                m = rng.randint(-9, 9)
                d("*", lambda: Z(s) * (m / 4), s, (), [m, 4])
                d("*", lambda: (m / 4) * Z(s), s, (), [m, 4])
                d("*", lambda: P(a) * (m / 4), a, (), [m, 4])
                d("*", lambda: (m / 4) * P(a), a, (), [m, 4])
                n = rng.choice([1, 2, 4, 8, -2, -4])
                d("/", lambda: Z(s) / (n / 4), s, (), [n, 4])
                d("/", lambda: P(a) / (n / 4), a, (), [n, 4])
        elif o == 5:
            if rng.random() < 0.5:
                b = list(a) if rng.random() < 0.4 else [a[0], b[1]] if rng.random() < 0.5 else [b[0], a[1]]
            d("eq", lambda: P(a) == P(b), a, b)
            d("ne", lambda: P(a) != P(b), a, b)
            d("eq", lambda: P(a) == tuple(P(b)), a, b)
            d("ne", lambda: P(a) != tuple(P(b)), a, b)
            d("eq", lambda: P(a) == None, a, [])
            d("ne", lambda: P(a) != None, a, [])
        elif o == 6:
            if rng.random() < 0.5:
                z = list(s) if rng.random() < 0.4 else [s[0], z[1]] if rng.random() < 0.5 else [z[0], s[1]]
            d("eq", lambda: Z(s) == Z(z), s, z)
            d("ne", lambda: Z(s) != Z(z), s, z)
            d("eq", lambda: Z(s) == tuple(Z(z)), s, z)
            d("ne", lambda: Z(s) != tuple(Z(z)), s, z)
            d("eq", lambda: Z(s) == None, s, [])
            d("ne", lambda: Z(s) != None, s, [])
        elif o == 7:
            if rng.random() < 0.7:
                q = list(r)
                if rng.random() < 0.7:
                    i = rng.randrange(4)
                    q[i] += 16
            d("eq", lambda: R(r) == R(q), r, q)
            d("ne", lambda: R(r) != R(q), r, q)
            d("eq", lambda: R(r) == tuple(R(q)), r, q)
            d("ne", lambda: R(r) != tuple(R(q)), r, q)
            d("eq", lambda: R(r) == None, r, [])
            d("ne", lambda: R(r) != None, r, [])
        elif o == 8:
            root = lambda x: [int(x) if self.k == "int" else int(x * S)]
            d("abs", lambda: root(abs(P(a))), a)
            d("abs", lambda: root(abs(Z(s))), s)
            d("dist", lambda: root(G.distance(tuple(P(a)), tuple(P(b)))), a, b)
        elif o == 9:
            d("same", lambda: k.P.make(tuple(P(a))), a)
            d("same", lambda: self.numbers(tuple(P(a))), a)
            d("same", lambda: self.numbers([P(a)[0], P(a)[1]]), a)
            d("same", lambda: self.numbers([P(a)[-2], P(a)[-1]]), a)
            d("same", lambda: k.P(x=k.c(a[1]), y=k.c(a[0])), a)
            d("same", lambda: k.P(), [0, 0])
            d("same", lambda: k.P(x=k.c(a[1])), [0, a[1]])
            if self.k == "int":
                d("same", lambda: [int(x) for x in self.float_parts(P(a).to_float_point(), G.FloatPoint)], a)
        elif o == 10:
            d("same", lambda: k.Z.make(tuple(Z(s))), s)
            d("same", lambda: self.numbers(tuple(Z(s))), s)
            d("same", lambda: self.numbers([Z(s)[0], Z(s)[1]]), s)
            d("same", lambda: k.Z(w=k.c(s[1]), h=k.c(s[0])), s)
            d("same", lambda: k.Z(width=k.c(s[1]), height=k.c(s[0])), s)
            d("same", lambda: k.Z(), [0, 0])
            d("same", lambda: k.Z(w=k.c(s[1])), [0, s[1]])
            d("same", lambda: k.Z(height=k.c(s[0])), [s[0], 0])
            if self.k == "int":
                d("same", lambda: [int(x) for x in self.float_parts(Z(s).to_float_size(), G.FloatSize)], s)
        elif o == 11:
            flat = lambda v: self.numbers(list(v[0]) + list(v[1]))
            d("same", lambda: k.R.make(tuple(R(r))), r)
            d("same", lambda: flat(tuple(R(r))), r)
            d("same", lambda: flat([R(r)[0], R(r)[1]]), r)
            d("same", lambda: k.back(R(r).origin) + k.back(R(r).size), r)
            d("same", lambda: k.R(R(r).origin, R(r).size), r)
            if self.k == "int":
                d("same", lambda: [int(x) for x in self.float_parts(R(r).to_float_rect(), G.FloatRect)], r)
                sl = lambda v: [v[0].start, v[0].stop, v[1].start, v[1].stop] if v[0].step in (None, 1) and v[1].step in (None, 1) else [-1]
                d("slice", lambda: sl(R(r).slice), r)
            else:
                d("same", lambda: G.FloatRect.unit_rect(), [0, 0, S, S])
        elif o == 12:
            x = R(r)
            d("parts", lambda: self.numbers([x.top, x.left, x.bottom, x.right, x.height, x.width]) +
              sum([k.back(v) for v in (x.top_left, x.top_right, x.bottom_left, x.bottom_right, x.center)], []), r)
        elif o == 13:
            d("tlbr", lambda: k.R.from_tlbr(*[k.c(v) for v in (a[0], a[1], b[0], b[1])]), a, b)
            d("tlhw", lambda: k.R.from_tlhw(*[k.c(v) for v in (a[0], a[1], s[0], s[1])]), a, s)
            s = [abs(x) for x in s]
            d("center", lambda: k.R.from_center_and_size(P(a), Z(s)), a, s)
            d("center", lambda: k.R.from_center_and_size(tuple(P(a)), tuple(Z(s))), a, s)
        elif o in (14, 15, 16):
            u = 1
            p = [rng.choice([r[i] - u, r[i], r[i] + u, r[i] + r[i + 2] - u, r[i] + r[i + 2], r[i] + r[i + 2] + u, (2 * r[i] + r[i + 2]) // 2]) for i in (0, 1)]
            d("contains", lambda: R(r).contains_point(P(p)), r, p)
            d("contains", lambda: R(r).contains_point(tuple(P(p))), r, p)
        elif o in (17, 18):
            d("intersects", lambda: R(r).intersects_rect(R(q)), r, q)
            d("intersects", lambda: R(q).intersects_rect(R(r)), q, r)
        elif o in (19, 20):
            d("intersect", lambda: R(r).intersect(R(q)), r, q)
            d("intersect", lambda: R(q).intersect(R(r)), q, r)
            d("union", lambda: R(r).union(R(q)), r, q)
            d("union", lambda: R(q).union(R(r)), q, r)
        elif o == 21:
            d("translated", lambda: R(r).translated(P(a)), r, a)
            d("translated", lambda: R(r).translated(tuple(P(a))), r, a)
            d("translated", lambda: R(r).translated(Z(s)), r, s)
            d("inset", lambda: R(r).inset(k.c(a[0]), k.c(a[1])), r, a)
            d("inset", lambda: R(r).inset(k.c(a[0])), r, [a[0], a[0]])
            d("inset", lambda: R(r).inset(k.c(a[0]), k.c(0)), r, [a[0], 0])
            d("inset", lambda: self.numbers(sum(map(list, G.inset_rect(tuple(R(r)), k.c(a[0]))), [])), r, [a[0], a[0]])
        elif o == 22:
            d("mid", lambda: [FLOAT.n(v) for v in G.midpoint(tuple(P(a)), tuple(P(b)))], a, b) if self.k == "float" else None
            if self.k == "float":
                self.aspect()
        elif self.k == "float":
            self.mapping(o, a, s, r)

    def aspect(self):
        rng = self.rng
        h = rng.choice([0, 1, 2, 4, 8, 16]) * 16
        w = rng.randint(0, self.span) * 16
        a = [h, w]
        d = self.do
        d("aspect", lambda: self.numbers([FLOAT.size(a).aspect_ratio]), a)
        d("aspect", lambda: self.numbers([FLOAT.rect([16, 32] + a).aspect_ratio]), a)
        i = [h // 16, w // 16]
        d("aspect", lambda: self.numbers([G.IntSize(*i).aspect_ratio]), a)
        d("aspect", lambda: self.numbers([G.IntRect((3, 4), i).aspect_ratio]), a)

    def mapping(self, o, a, s, r):
        rng, d, k = self.rng, self.do, self.kind
        P, Z, R = k.point, k.size, k.rect
        f = self.pt() + [rng.choice([1, 2, 4]) * S, rng.choice([1, 2, 4]) * S]
        t = self.pt() + [abs(x) for x in self.sz()]
        r = [v // 2 * 2 for v in r]
        if o == 23:
            d("map point", lambda: G.map_point(P(a), R(f), R(t)), a, f, t)
            d("map size", lambda: G.map_size(Z(s), R(f), R(t)), s, f, t)
            d("map rect", lambda: G.map_rect(R(r), R(f), R(t)), r, f, t)
        elif o == 24:
            h = rng.choice([1, 2, 3, 4, 6, 8]) * S
            w = rng.choice([1, 2, 3, 4, 6, 8]) * S
            x = self.pt() + [h, w]
            m, n = rng.choice([(1, 1), (2, 1), (1, 2), (4, 1), (1, 4), (8, 1), (1, 8)])     # width : height
            d("fit", lambda: G.fit_to_aspect_ratio(R(x), m / n), x, (), [m, n])
            d("fit", lambda: G.fit_to_aspect_ratio(tuple(R(x)), m / n), x, (), [m, n])
            d("fit", lambda: G.fit_to_size(R(x), (n * 3, m * 3)), x, (), [m, n])
        else:
            n = rng.randint(-5, 5)
            b = self.pt()
            d("turn", lambda: P(a).rotate(n * math.pi / 2, P(b)), a, b, [n], exact=False)
            d("turn", lambda: P(a).rotate(n * math.pi / 2), a, [0, 0], [n], exact=False)
            d("turn", lambda: Z(s).rotate(n * math.pi / 2), s, [0, 0], [n], exact=False)
            # an angle with a rational cosine and sine
            x, y, h = rng.choice([(3, 4, 5), (5, 12, 13), (8, 15, 17), (7, 24, 25)])
            if rng.random() < 0.5:
                x, y = y, x
            x, y = x * rng.choice([1, -1]), y * rng.choice([1, -1])
            angle = math.atan2(y, x) + rng.choice([0, 0, 2, -2]) * math.pi
            v = [rng.randint(-20, 20) * h, rng.randint(-20, 20) * h]
            w = [v[0] + b[0], v[1] + b[1]]
            d("spin", lambda: P(w).rotate(angle, P(b)), w, b, [x, y, h], exact=False)
            d("spin", lambda: P(v).rotate(angle), v, [0, 0], [x, y, h], exact=False)
            d("spin", lambda: Z(v).rotate(angle), v, [0, 0], [x, y, h], exact=False)

    @staticmethod
    def float_parts(o, cls):
        if not isinstance(o, cls):
            return [-4444444]
        if cls is G.FloatRect:
            v = [o.top, o.left, o.height, o.width]
        elif cls is G.FloatPoint:
            v = [o.y, o.x]
        else:
            v = [o.height, o.width]
        return [x if x == int(x) and isinstance(x, float) else -4444444 for x in v]


def rec(p):
    api.quiet()
    res = []
    for q in p["random"]:
        for n in range(q["n"]):
            rng = random.Random("%s/%s/%s" % (p["seed"], n, api.canon(q)))
            g = Gen(q["kind"], rng, q["span"], q["signed"])
            while len(g.log) < q["events"]:
                g.step()
            res.append({"cfg": {"x": 0}, "evs": g.log})
    return {"traces": res}


def small(p):
    """all small rectangles and points"""
    res = []
    n = p["n"]
    for k in ("int", "float"):
        kind = Kind(k)
        u = 1 if k == "int" else 16
        rects = [[t * u, l * u, h * u, w * u] for t in range(-1, n) for l in range(-1, n) for h in range(0, n + 1) for w in range(0, n + 1)]
        points = [[y * u, x * u] for y in range(-2, 2 * n + 1) for x in range(-2, 2 * n + 1)]
        for r in rects:
            g = Gen(k, None, 0, False)
            x = kind.rect(r)
            for q in points:
                g.do("contains", lambda: x.contains_point(kind.point(q)), r, q)
            for q in rects:
                if p["half"] and (q[0] - r[0] + q[3]) // u % 2:
                    continue
                y = kind.rect(q)
                g.do("intersects", lambda: x.intersects_rect(y), r, q)
                g.do("intersect", lambda: x.intersect(y), r, q)
                g.do("union", lambda: x.union(y), r, q)
                g.do("eq", lambda: x == y, r, q)
            res.append({"cfg": {"x": 0}, "evs": g.log})
    return {"traces": res}
