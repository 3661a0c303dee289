"""Sanity of the oracles themselves against closed forms (run by setup_cmd)."""
import datetime
import math
import numpy as np
from . import refs as R


def main():
    rng = np.random.default_rng(0)
    th, ph = rng.uniform(1, 179, 5), rng.uniform(-180, 180, 5)
    idx = R.coeff_index(1, 2, 2)
    A = R.surface_design(th, ph, idx).astype(float)
    c, s, p = np.cos(np.radians(th)), np.sin(np.radians(th)), np.radians(ph)
    q = math.sqrt(3)
    want = np.stack([c, s * np.cos(p), s * np.sin(p), 1.5 * c * c - .5,
                     q * s * c * np.cos(p), q * s * c * np.sin(p),
                     q / 2 * s * s * np.cos(2 * p),
                     q / 2 * s * s * np.sin(2 * p)], axis=-1)
    assert np.allclose(A, want, atol=1e-14)
    for source in ('internal', 'external'):
        idx = R.coeff_index(1, 4, 4)
        co = rng.normal(size=24)
        r, t, f, h = 1.3, 40., 75., 1e-5

        def V(r, t, f):
            n = np.array([k[0] for k in idx])
            w = r ** -(n + 1.) if source == 'internal' else r ** (n * 1.)
            return float((R.surface_design(t, f, idx) * (co * w)).sum())
        B = [float(D @ co) for D in R.field_design(r, t, f, idx, source, 1.)]
        d = math.degrees(h)
        num = [-(V(r + h, t, f) - V(r - h, t, f)) / 2 / h,
               -(V(r, t + d, f) - V(r, t - d, f)) / 2 / h / r,
               -(V(r, t, f + d) - V(r, t, f - d)) / 2 / h / r
               / math.sin(math.radians(t))]
        assert np.allclose(B, num, rtol=1e-6, atol=1e-6), (B, num)
    for _ in range(3000):
        o = int(rng.integers(365, 3600000))
        d = datetime.date.fromordinal(o)
        k = R.days_from_civil(d.year, d.month, d.day)
        assert k == o - datetime.date(2000, 1, 1).toordinal()
        assert R.civil_from_days(k) == (d.year, d.month, d.day)
    from scipy.interpolate import BSpline
    for order in range(1, 6):
        kn = np.r_[[0.] * order, 1, 2.5, 2.5 if order > 2 else 2.7, 3,
                   [4.] * order]
        nb = len(kn) - order
        for t in [0., .3, 1, 2.5, 3.9, 4.]:
            for nu in range(order):
                row = R.bspline_row(kn, order, t, nu).astype(float)
                ref = [BSpline(kn, np.eye(nb)[i], order - 1)(t, nu=nu)
                       for i in range(nb)]
                if not (t == 2.5):
                    assert np.allclose(row, ref), (order, t, nu, row, ref)
    # Sun: equinox and solstice 2020 and Greenwich noon
    for mjd, dec in [(7384.16, 0.), (7476.90, 23.44), (7570.56, 0.),
                     (7660.42, -23.44)]:
        assert abs(np.degrees(np.arcsin(float(R.sun_vector(mjd)[2]))) - dec
                   ) < .02
    print('oracle self-test passed')


if __name__ == '__main__':
    main()
