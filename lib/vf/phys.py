"""Reference physics in plain numpy, written independently of the code under test.

Spins and helicities are integers in units of 1/2 (``two_j``).
"""

from __future__ import annotations

from fractions import Fraction
from functools import lru_cache
from itertools import product
from math import factorial, sqrt

import numpy as np

CYCLIC = {1: (2, 3), 2: (3, 1), 3: (1, 2)}


def projections(two_j: int) -> list[int]:
    return list(range(-two_j, two_j + 1, 2))


@lru_cache(maxsize=None)
def _d_terms(tj: int, tm1: int, tm2: int):
    if abs(tm1) > tj or abs(tm2) > tj or (tj - tm1) % 2 or (tj - tm2) % 2:
        return ()
    a, b, c, d = (tj + tm1) // 2, (tj - tm1) // 2, (tj + tm2) // 2, (tj - tm2) // 2
    norm = sqrt(factorial(a) * factorial(b) * factorial(c) * factorial(d))
    diff = (tm1 - tm2) // 2
    terms = []
    for s in range(max(0, -diff), min(c, b) + 1):
        den = factorial(c - s) * factorial(s) * factorial(diff + s) * factorial(b - s)
        sign = -1 if (diff + s) % 2 else 1
        terms.append((sign * norm / den, tj - diff - 2 * s, diff + 2 * s))
    return tuple(terms)


def wigner_d(tj: int, tm1: int, tm2: int, beta):
    """d^j_{m1,m2}(beta) in the standard (Varshalovich, PDG) convention."""
    beta = np.asarray(beta, dtype=float)
    c, s = np.cos(beta / 2), np.sin(beta / 2)
    out = np.zeros(beta.shape)
    for coef, pc, ps in _d_terms(tj, tm1, tm2):
        out = out + coef * c**pc * s**ps
    return out


@lru_cache(maxsize=None)
def clebsch_gordan(tj1: int, tm1: int, tj2: int, tm2: int, tj: int, tm: int) -> float:
    """<j1 m1 j2 m2 | j m> by Racah's formula."""
    if tm1 + tm2 != tm or abs(tm1) > tj1 or abs(tm2) > tj2 or abs(tm) > tj:
        return 0.0
    if (tj1 - tm1) % 2 or (tj2 - tm2) % 2 or (tj - tm) % 2:
        return 0.0
    if not abs(tj1 - tj2) <= tj <= tj1 + tj2 or (tj1 + tj2 + tj) % 2:
        return 0.0

    def f(x):
        return factorial(x // 2)

    pre = sqrt(
        (tj + 1) * f(tj + tj1 - tj2) * f(tj - tj1 + tj2) * f(tj1 + tj2 - tj)
        / f(tj1 + tj2 + tj + 2)
    )
    pre *= sqrt(
        f(tj + tm) * f(tj - tm) * f(tj1 - tm1) * f(tj1 + tm1) * f(tj2 - tm2) * f(tj2 + tm2)
    )
    total = 0.0
    for k in range((tj1 + tj2 - tj) // 2 + 1):
        a = [
            k,
            (tj1 + tj2 - tj) // 2 - k,
            (tj1 - tm1) // 2 - k,
            (tj2 + tm2) // 2 - k,
            (tj - tj2 + tm1) // 2 + k,
            (tj - tj1 - tm2) // 2 + k,
        ]
        if min(a) < 0:
            continue
        den = 1
        for x in a:
            den *= factorial(x)
        total += (-1) ** k / den
    return pre * total


def recoupling(L: int, tS: int, tJ: int, tj1: int, tl1: int, tj2: int, tl2: int) -> float:
    """Coefficient of an LS coupling in the helicity coupling H(l1, l2) of J -> 1 2."""
    th = tl1 - tl2
    return (
        sqrt((2 * L + 1) / (tJ + 1))
        * clebsch_gordan(tj1, tl1, tj2, -tl2, tS, th)
        * clebsch_gordan(2 * L, 0, tS, th, tJ, th)
    )


def allowed_ls(tJ: int, tj1: int, tj2: int, max_L: int) -> list[tuple[int, int]]:
    """(L, 2S) allowed by angular momentum conservation, sorted."""
    if (tJ + tj1 + tj2) % 2:
        return []
    return [
        (L, tS)
        for L in range(max_L + 1)
        for tS in range(abs(tj1 - tj2), tj1 + tj2 + 1, 2)
        if abs(2 * L - tS) <= tJ <= 2 * L + tS
    ]


def kallen(x, y, z):
    return x * x + y * y + z * z - 2 * x * y - 2 * y * z - 2 * z * x


def breakup_momentum(s, m1, m2):
    """Complex break-up momentum with the sqrt branch of positive imaginary part."""
    q2 = kallen(s, m1**2, m2**2) / (4 * s)
    return np.sqrt(np.asarray(q2, dtype=complex))


class Kinematics:
    """A set of points in the Dalitz plot, with explicit momenta in a plane."""

    def __init__(self, masses, points, pair: int = 3) -> None:
        """`points`: (u, c) in (0,1) x (-1,1), for the pair with number `pair`."""
        self.m = [float(x) for x in masses]
        m0, m = self.m[0], self.m
        k = pair
        i, j = CYCLIC[k]
        u = np.array([p[0] for p in points], dtype=float)
        c = np.array([p[1] for p in points], dtype=float)
        lo, hi = m[i] + m[j], m0 - m[k]
        mk = lo + u * (hi - lo)
        sk = mk**2
        # angle of i in the (ij) rest frame with respect to -p_k
        pi = np.sqrt(kallen(sk, m[i] ** 2, m[j] ** 2)) / (2 * mk)
        pk = np.sqrt(kallen(m0**2, sk, m[k] ** 2)) / (2 * mk)
        ei = np.sqrt(pi**2 + m[i] ** 2)
        ek = np.sqrt(pk**2 + m[k] ** 2)
        sj = m[i] ** 2 + m[k] ** 2 + 2 * (ei * ek + pi * pk * c)
        si = sum(x**2 for x in m) - sk - sj
        self.sigma = {k: sk, j: sj, i: si}
        self._construct()

    def _construct(self) -> None:
        m0, m1, m2, m3 = self.m
        s = self.sigma
        e = {i: (m0**2 + self.m[i] ** 2 - s[i]) / (2 * m0) for i in (1, 2, 3)}
        p = {i: np.sqrt(np.maximum(kallen(m0**2, s[i], self.m[i] ** 2), 0)) / (2 * m0) for i in (1, 2, 3)}
        cos12 = (2 * e[1] * e[2] - (s[3] - m1**2 - m2**2)) / (2 * p[1] * p[2])
        sin12 = np.sqrt(np.maximum(1 - cos12**2, 0))
        zero = np.zeros_like(e[1])
        # (E, x, z): p1 along z, p3 at positive angle (rotation z -> x)
        v1 = np.array([e[1], zero, p[1]])
        v2 = np.array([e[2], -p[2] * sin12, p[2] * cos12])
        v0 = np.array([m0 + zero, zero, zero])
        self.p = {0: v0, 1: v1, 2: v2, 3: v0 - v1 - v2}

    @staticmethod
    def boost_to_rest(v, frame):
        """Components of `v` in the rest frame of `frame`."""
        e, px, pz = frame
        mass = np.sqrt(e**2 - px**2 - pz**2)
        gamma = e / mass
        bx, bz = px / e, pz / e
        b2 = bx**2 + bz**2
        bp = bx * v[1] + bz * v[2]
        with np.errstate(divide="ignore", invalid="ignore"):
            g2 = np.where(b2 > 0, (gamma - 1) / np.where(b2 > 0, b2, 1), 0)
        return np.array([
            gamma * (v[0] - bp),
            v[1] + g2 * bp * bx - gamma * bx * v[0],
            v[2] + g2 * bp * bz - gamma * bz * v[0],
        ])

    @staticmethod
    def signed_angle(a, b):
        """Rotation angle (z -> x positive) from the direction of `a` to that of `b`."""
        return np.arctan2(a[2] * b[1] - a[1] * b[2], a[1] * b[1] + a[2] * b[2])

    def scattering(self, i: int, j: int):
        """Polar angle of i in the rest frame of (ij) from the direction opposite to k."""
        (k,) = {1, 2, 3} - {i, j}
        frame = self.p[i] + self.p[j]
        pi = self.boost_to_rest(self.p[i], frame)
        pk = self.boost_to_rest(self.p[k], frame)
        return np.abs(self.signed_angle(-pk, pi))

    def theta_hat(self, i: int, j: int):
        """Orientation of isobar i with respect to isobar j in the rest frame of 0."""
        if i == j:
            return np.zeros_like(self.p[0][0])
        return self.signed_angle(-self.p[j], -self.p[i])

    def _parent(self, state: int, subsystem: int):
        return self.p[0] if state == subsystem else self.p[0] - self.p[subsystem]

    def zeta(self, state: int, aligned: int, reference: int):
        """Alignment angle of `state` from chain `aligned` to chain `reference`."""
        if state == 0:
            return self.theta_hat(aligned, reference)
        if reference == 0:
            reference = state
        if aligned == reference or self.m[state] == 0:
            # the helicity of a massless particle is invariant
            return np.zeros_like(self.p[0][0])
        frame = self.p[state]
        a = self.boost_to_rest(self._parent(state, aligned), frame)
        r = self.boost_to_rest(self._parent(state, reference), frame)
        return self.signed_angle(a, r)

    def invariant_mass_squared(self, i: int, j: int):
        v = self.p[i] + self.p[j]
        return v[0] ** 2 - v[1] ** 2 - v[2] ** 2


def helicity_combinations(two_spins) -> list[tuple[int, int, int, int]]:
    return list(product(*(projections(t) for t in two_spins)))


def sign(two_n: int) -> int:
    """(-1)**n for n given in units of 1/2."""
    assert two_n % 2 == 0
    return -1 if (two_n // 2) % 2 else 1


def chain_amplitude(kin: Kinematics, two_spins, hel, k, tJ, h_prod, h_dec):
    """DPD amplitude of one chain, with spectator k, without alignment.

    `h_prod(two_lR, two_lk)` and `h_dec(two_li, two_lj)` are helicity couplings.
    """
    i, j = CYCLIC[k]
    tR = hel[0] + hel[k]
    if abs(tR) > tJ or (tJ - tR) % 2:
        return 0.0
    phase = sign(two_spins[k] - hel[k]) * sign(two_spins[j] - hel[j])
    d = wigner_d(tJ, tR, hel[i] - hel[j], kin.scattering(i, j))
    return phase * h_prod(tR, hel[k]) * d * h_dec(hel[i], hel[j])


def align(kin: Kinematics, two_spins, amplitudes: dict, reference: int, hel):
    """Aligned amplitude for outer helicities `hel`; amplitudes[k][hel'] per subsystem."""
    total = 0.0
    for k, amps in amplitudes.items():
        rot = [
            {
                tp: (
                    wigner_d(two_spins[0], hel[0], tp, kin.zeta(0, k, reference))
                    if n == 0
                    else wigner_d(two_spins[n], tp, hel[n], kin.zeta(n, k, reference))
                )
                for tp in projections(two_spins[n])
            }
            for n in range(4)
        ]
        for hp, amp in amps.items():
            if isinstance(amp, float) and amp == 0.0:
                continue
            total = total + amp * rot[0][hp[0]] * rot[1][hp[1]] * rot[2][hp[2]] * rot[3][hp[3]]
    return total


@lru_cache(maxsize=None)
def _blatt_weisskopf_coefficients(L: int) -> list[int]:
    """Coefficients of |x h_L(x)|^2 x^(2 L) in powers of x^2; from a closed form for spherical Hankel functions."""
    f = factorial
    terms = [Fraction(f(2 * L - k) * f(2 * L - 2 * k), f(k) * f(L - k) ** 2 * 4 ** (L - k)) for k in range(L + 1)]
    assert all(t.denominator == 1 for t in terms)
    return [int(t) for t in terms]


def blatt_weisskopf_squared(z, L: int):
    """F_L^2(z) with z = (q d)^2, normalised to 1 at z = 1."""
    coeffs = _blatt_weisskopf_coefficients(L)
    den = sum(c * z**n for n, c in enumerate(coeffs))
    return sum(coeffs) * z**L / den


def form_factor(s, m1, m2, L: int, d):
    q = breakup_momentum(s, m1, m2)
    z = (q * d) ** 2
    return np.sqrt(blatt_weisskopf_squared(z, L))
