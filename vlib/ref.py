"""Reference models, written from the mathematics (not from the code under test)."""
import numpy as np

LD = np.longdouble
TWOPI = LD(2) * np.arccos(LD(-1))


def kepler_E(M, e):
    """Eccentric anomaly in [0, 2 pi] by bisection then Newton, long double. M in [0, 2 pi]."""
    M = np.atleast_1d(np.asarray(M, dtype=LD))
    e = np.broadcast_to(np.asarray(e, dtype=LD), M.shape)
    lo = M - e
    hi = M + e
    for _ in range(40):
        mid = (lo + hi) / 2
        f = mid - e * np.sin(mid) - M
        pos = f > 0
        hi = np.where(pos, mid, hi)
        lo = np.where(pos, lo, mid)
    E = (lo + hi) / 2
    for _ in range(6):
        step = (E - e * np.sin(E) - M) / (1 - e * np.cos(E))
        E = np.clip(E - step, lo, hi)
    return E


def mean_anomaly(t, tp, per):
    ph = (np.asarray(t, dtype=LD) - LD(tp)) / LD(per)
    return TWOPI * (ph - np.floor(ph))


def rv(t, per, tp, e, w, k):
    """Radial velocity of one Keplerian orbit: K [cos(nu+w) + e cos w], from the eccentric anomaly."""
    M = mean_anomaly(np.atleast_1d(t), tp, per)
    E = kepler_E(M, e)
    e = LD(e)
    den = 1 - e * np.cos(E)
    cosnu = (np.cos(E) - e) / den
    sinnu = np.sqrt(1 - e * e) * np.sin(E) / den
    w = LD(w)
    out = LD(k) * (cosnu * np.cos(w) - sinnu * np.sin(w) + e * np.cos(w))
    return out.astype(float)


def true_anomaly(t, tp, per, e):
    M = mean_anomaly(np.atleast_1d(t), tp, per)
    E = kepler_E(M, e)
    e = LD(e)
    return np.arctan2(np.sqrt(1 - e * e) * np.sin(E), np.cos(E) - e).astype(float)


def rv_tol(t, per, tp, e, k):
    """Achievable accuracy in double precision of the documented algorithm (|Kepler residual| <= 1e-12)."""
    t = np.atleast_1d(np.asarray(t, float))
    cyc = np.abs(t - tp) / per + 1.0
    eps = 2.3e-16
    slope = np.sqrt(1 + e) / (1 - e) ** 1.5
    return abs(k) * (5e-12 / (1 - e) * np.sqrt((1 + e) / (1 - e)) + 1e-12
                     + 8 * np.pi * eps * (cyc + abs(tp) / per + np.abs(t) / per) * slope)


def time_of_true_anomaly(nu, per, tp, e):
    """Time since periastron passage tp, in [0, per), at which the true anomaly is nu."""
    nu = LD(nu)
    e = LD(e)
    E = np.arctan2(np.sqrt(1 - e * e) * np.sin(nu), e + np.cos(nu))
    E = E - TWOPI * np.floor(E / TWOPI)
    return LD(tp) + LD(per) / TWOPI * (E - e * np.sin(E))


def tc_from_tp(tp, per, e, w):
    """A time of inferior conjunction (nu + w = pi/2)."""
    return time_of_true_anomaly(TWOPI / 4 - LD(w), per, tp, e)


def tp_from_tc(tc, per, e, w):
    d = time_of_true_anomaly(TWOPI / 4 - LD(w), per, 0.0, e)
    return LD(tc) - d
