"""FIPS 204 definitions, transcribed from the standard (not from the code)."""
Q = 8380417
N = 256
D = 13


def params(name):
    # tau, lambda, gamma1, gamma2, k, l, eta, omega
    return {"ml-dsa-44": (39, 128, 2 ** 17, 95232, 4, 4, 2, 80),
            "ml-dsa-65": (49, 192, 2 ** 19, 261888, 6, 5, 4, 55),
            "ml-dsa-87": (60, 256, 2 ** 19, 261888, 8, 7, 2, 75)}[name]


def modpm(m, a):
    """the unique m' = m (mod a) with -ceil(a/2) < m' <= floor(a/2)"""
    r = m % a
    if r > a // 2:
        return r - a
    return r


def power2round(r):
    rp = r % Q
    r0 = modpm(rp, 2 ** D)
    return ((rp - r0) // 2 ** D, r0)


def decompose(r, gamma2):
    rp = r % Q
    r0 = modpm(rp, 2 * gamma2)
    if rp - r0 == Q - 1:
        return (0, r0 - 1)
    return ((rp - r0) // (2 * gamma2), r0)


def highbits(r, gamma2):
    return decompose(r, gamma2)[0]


def lowbits(r, gamma2):
    return decompose(r, gamma2)[1]


def use_hint(h, r, gamma2):
    m = (Q - 1) // (2 * gamma2)
    r1, r0 = decompose(r, gamma2)
    if h == 1 and r0 > 0:
        return (r1 + 1) % m
    if h == 1 and r0 <= 0:
        return (r1 - 1) % m
    return r1
