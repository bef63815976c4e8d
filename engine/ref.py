"""Reference arithmetic (Python integers): field values, affine Edwards points."""
import random


def inv(a, p):
    return pow(a, p - 2, p)


def legendre(a, p):
    a %= p
    return 0 if a == 0 else (1 if pow(a, (p - 1) // 2, p) == 1 else -1)


def sqrt(a, p):
    a %= p
    if a == 0:
        return 0
    if pow(a, (p - 1) // 2, p) != 1:
        return None
    if p % 4 == 3:
        return pow(a, (p + 1) // 4, p)
    assert p % 8 == 5
    r = pow(a, (p + 3) // 8, p)
    if r * r % p != a:
        r = r * pow(2, (p - 1) // 4, p) % p
    return r


def ed_add(P, Q, d, p):
    x1, y1 = P
    x2, y2 = Q
    e = d * x1 * x2 * y1 * y2 % p
    return ((x1 * y2 + x2 * y1) * inv(1 + e, p) % p, (y1 * y2 - x1 * x2) * inv(1 - e, p) % p)


def ed_mul(k, P, d, p):
    # projective, to save inversions
    X, Y, Z = 0, 1, 1
    a, b, c = P[0], P[1], 1
    while k:
        if k & 1:
            X, Y, Z = _padd(X, Y, Z, a, b, c, d, p)
        a, b, c = _padd(a, b, c, a, b, c, d, p)
        k >>= 1
    z = inv(Z, p)
    return (X * z % p, Y * z % p)


def _padd(X1, Y1, Z1, X2, Y2, Z2, d, p):
    A = Z1 * Z2 % p
    B = A * A % p
    C = X1 * X2 % p
    D = Y1 * Y2 % p
    E = d * C * D % p
    F_ = (B - E) % p
    G = (B + E) % p
    X3 = A * F_ * ((X1 + Y1) * (X2 + Y2) - C - D) % p
    Y3 = A * G * (D - C) % p
    return X3, Y3, F_ * G % p


def ed_on(P, d, p):
    x, y = P
    return (x * x + y * y - 1 - d * x * x * y * y) % p == 0


def ed_point(rng, d, p):
    while True:
        x = rng.randrange(p)
        den = (1 - d * x * x) % p
        if den == 0:
            continue
        y = sqrt((1 - x * x) * inv(den, p) % p, p)
        if y is not None:
            if rng.random() < .5:
                y = -y % p
            return x, y


def _pmod(a, b, p):
    a = a[:]
    ib = inv(b[-1], p)
    while len(a) >= len(b):
        k = a[-1] * ib % p
        if k:
            for i in range(len(b)):
                a[len(a) - len(b) + i] = (a[len(a) - len(b) + i] - k * b[i]) % p
        a.pop()
    while a and a[-1] == 0:
        a.pop()
    return a


def _pgcd(a, b, p):
    while b:
        a, b = b, _pmod(a, b, p)
    return a


def _ppow(base, e, m, p):
    r = [1]
    for bit in bin(e)[2:]:
        r = _pmulmod(r, r, m, p)
        if bit == '1':
            r = _pmulmod(r, base, m, p)
    return r


def _pmulmod(a, b, m, p):
    if not a or not b:
        return []
    o = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            o[i + j] = (o[i + j] + x * y) % p
    return _pmod(o, m, p)


def roots(poly, p, rng):
    """some roots of a univariate polynomial {exponent: coefficient} over F_p"""
    poly = {e: c % p for e, c in poly.items() if c % p}
    if not poly or set(poly) == {0}:
        return []
    lo = min(poly)
    out = [0] if lo else []
    poly = {e - lo: c for e, c in poly.items()}
    if len(poly) == 2:
        e = max(poly)
        w = -poly[0] * inv(poly[e], p) % p
        n = p - 1
        while True:
            import math
            g = math.gcd(n, e)
            if g == 1:
                break
            n //= g
        if pow(w, n, p) == 1:
            out.append(pow(w, pow(e, -1, n), p))
            return out
    if max(poly) > 64:
        return out
    f = [poly.get(i, 0) for i in range(max(poly) + 1)]
    if len(f) < 2:
        return out
    # the product of the linear factors
    x = _pmod([0, 1], f, p)
    q = _ppow(x, p, f, p)
    d = q + [0] * max(0, len(x) - len(q))
    for i, c in enumerate(x):
        d[i] = (d[i] - c) % p
    while d and d[-1] == 0:
        d.pop()
    g = _pgcd(f, d, p)
    todo = [g]
    while todo:
        g = todo.pop()
        if len(g) < 2:
            continue
        if len(g) == 2:
            out.append(-g[0] * inv(g[1], p) % p)
            continue
        for _ in range(40):
            h = _ppow(_pmod([rng.randrange(p), 1], g, p), (p - 1) // 2, g, p)
            h = (h or [0])[:]
            h[0] = (h[0] - 1) % p
            while h and h[-1] == 0:
                h.pop()
            h = _pgcd(g, h, p)
            if 1 < len(h) < len(g):
                ih = inv(h[-1], p)
                h = [c * ih % p for c in h]
                # g / h
                quo, r = [], g[:]
                while len(r) >= len(h):
                    k = r[-1]
                    quo.append(k)
                    for i in range(len(h)):
                        r[len(r) - len(h) + i] = (r[len(r) - len(h) + i] - k * h[i]) % p
                    r.pop()
                todo += [h, quo[::-1]]
                break
    return out


def umul(a, b, p):
    o = {}
    for i, x in a.items():
        for j, y in b.items():
            o[i + j] = (o.get(i + j, 0) + x * y) % p
    return {i: c for i, c in o.items() if c}


def uadd(a, b, p, k=1):
    o = dict(a)
    for i, c in b.items():
        o[i] = (o.get(i, 0) + k * c) % p
    return {i: c for i, c in o.items() if c}


def ueval(a, x, p):
    return sum(c * pow(x, i, p) for i, c in a.items()) % p


def curve_roots(poly, d, p, rng):
    """points (x, y) of x^2 + y^2 = 1 + d x^2 y^2 where the polynomial {(i, j): coefficient of x^i y^j} vanishes"""
    n, dn = {0: 1, 2: p - 1}, {0: 1, 2: -d % p}
    m = max(j // 2 for i, j in poly)
    if m > 8:
        return []
    pn, pd = [{0: 1}], [{0: 1}]
    for _ in range(m):
        pn.append(umul(pn[-1], n, p))
        pd.append(umul(pd[-1], dn, p))
    AB = [{}, {}]
    for (i, j), c in poly.items():
        AB[j % 2] = uadd(AB[j % 2], umul({i: c % p}, umul(pn[j // 2], pd[m - j // 2], p), p), p)
    A, B = AB
    out = []
    for x in roots(uadd(umul(umul(A, A, p), dn, p), umul(umul(B, B, p), n, p), p, -1), p, rng):
        a, b, e = ueval(A, x, p), ueval(B, x, p), ueval(dn, x, p)
        if not e:
            continue
        y = -a * inv(b, p) % p if b else sqrt(ueval(n, x, p) * inv(e, p), p)
        if y is not None and ed_on((x, y), d, p):
            out.append((x, y))
    return out
