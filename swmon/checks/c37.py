"""Least-squares updates compared with the information (inverse covariance) form of the Gaussian posterior and with the misfit around them, over one and many steps."""
import numpy as np

from swprocess import inversion
from ..gens import choice

RULE = ("a case is a linear or mildly nonlinear problem with full prior and data covariances, updated from one or several starting points; non-trivial = "
        "more than one parameter and correlated covariances")
REQUIRE = {"updates": 600, "over_determined": 60, "under_determined": 20, "misfits_probed": 500, "posteriors": 100, "nonlinear_converged": 20, "at_prior": 20}


def _cov(rng, n, scale, style=None):
    """Positive definite, with a condition number of at most about a thousand before scaling."""
    style = style or choice(rng, ("full", "full", "diagonal", "exponential", "unit"))
    if style == "unit":
        return np.eye(n) * scale ** 2
    s = scale * 10 ** rng.uniform(-0.6, 0.6, n)
    if style == "diagonal":
        return np.diag(s * s)
    if style == "exponential":
        d = np.abs(np.subtract.outer(np.arange(n), np.arange(n)))
        return np.outer(s, s) * np.exp(-d / choice(rng, (rng.uniform(0.3, 3), rng.uniform(8, 30))))
    q, _ = np.linalg.qr(rng.normal(size=(n, n)))
    c = (q * 10 ** rng.uniform(-1, 1, n)) @ q.T
    c = (c + c.T) / 2
    return c * scale ** 2


def _col(v):
    return np.asarray(v, float).reshape(-1, 1)


def _problem(rng):
    j, k = int(rng.integers(1, 9)), int(rng.integers(1, 13))
    ps, ds = 10 ** rng.uniform(-2, 2), 10 ** rng.uniform(-2, 2)
    G = rng.normal(size=(k, j)) * ds / ps * 10 ** rng.uniform(-0.7, 0.7)
    if rng.random() < 0.15:
        G[:, int(rng.integers(j))] = 0                          # a parameter the data says nothing about
    Cp, Cd = _cov(rng, j, ps), _cov(rng, k, ds)
    p0 = _col(rng.normal(size=j) * ps + choice(rng, (0, 3)) * ps)
    d0 = G @ p0 + _col(rng.normal(size=k)) * ds * choice(rng, (0.1, 1, 5))
    return dict(j=j, k=k, ps=ps, ds=ds, G=G, Cp=Cp, Cd=Cd, p0=p0, d0=d0)


def _gain(P):
    """Posterior covariance and (G'Cd^-1) from the sum of information."""
    gtw = np.linalg.solve(P["Cd"], P["G"]).T
    info = gtw @ P["G"] + np.linalg.inv(P["Cp"])
    return np.linalg.inv((info + info.T) / 2), gtw


def _step(mon, P, pm, dm, **kw):
    args = [kw.get(n, P[n]) for n in ("p0",)] + [pm, P["Cp"], kw.get("d0", P["d0"]), dm, P["Cd"], kw.get("G", P["G"])]
    with mon.unchanged("an argument of the update", *args):
        out = inversion.leastsquare_iterativealgorithm(*args)
    mon.event("updates")
    mon.check(out.shape == P["p0"].shape, "shape of the updated parameters", got=out.shape, want=P["p0"].shape)
    return np.array(out)


def _sd(C):
    return np.sqrt(np.diag(C)).reshape(-1, 1)


def _same(mon, got, want, P, what, tol=1e-8, extra=0.0):
    scale = _sd(P["Cp"]) + np.abs(P["p0"]) + np.max(np.abs(want)) + extra
    err = np.max(np.abs(got - want) / scale)
    mon.check(bool(err < tol), what, error=err, got=got.ravel(), want=want.ravel())


def linear(rng, mon):
    P = _problem(rng)
    j, k, G = P["j"], P["k"], P["G"]
    mon.event("over_determined", k > j)
    mon.event("under_determined", k < j)
    post, gtw = _gain(P)
    want = P["p0"] + post @ gtw @ (P["d0"] - G @ P["p0"])
    for style in ("prior", "zero", "near", "far"):
        pm = {"prior": P["p0"].copy(), "zero": np.zeros((j, 1)), "near": P["p0"] + _col(rng.normal(size=j)) * P["ps"],
              "far": _col(rng.normal(size=j)) * P["ps"] * 100}[style]
        got = _step(mon, P, pm, G @ pm)
        _same(mon, got, want, P, f"one step of a linear problem starting at {style}", extra=np.max(np.abs(pm)))
    again = got
    for _ in range(3):
        again = _step(mon, P, again, G @ again)
        _same(mon, again, want, P, "iterating a linear problem")

    def misfit(p):
        r, q = P["d0"] - G @ p, p - P["p0"]
        return float((r.T @ np.linalg.solve(P["Cd"], r) + q.T @ np.linalg.solve(P["Cp"], q))[0, 0])
    m = misfit(got)
    for _ in range(8):
        probe = got + _col(rng.normal(size=j)) * _sd(post) * 10 ** rng.uniform(-2, 1)
        mon.check(misfit(probe) >= m * (1 - 1e-7), "the update is not the most probable model", at_update=m, at_probe=misfit(probe))
        mon.event("misfits_probed")
    mon.describe(nontrivial=j > 1 and k > 1, j=j, k=k, first=float(P["d0"][0, 0]))


def at_prior(rng, mon):
    """Data that the prior predicts already."""
    P = _problem(rng)
    P["d0"] = P["G"] @ P["p0"]
    for f in (0, 1, 30):
        pm = P["p0"] + _col(rng.normal(size=P["j"])) * P["ps"] * f
        _same(mon, _step(mon, P, pm, P["G"] @ pm), P["p0"], P, "data equal to the prior prediction", extra=np.max(np.abs(pm)))
    mon.event("at_prior")
    mon.describe(nontrivial=P["j"] > 1, j=P["j"], k=P["k"], first=float(P["d0"][0, 0]))


def posterior(rng, mon):
    P = _problem(rng)
    with mon.unchanged("an argument of the posterior", P["Cp"], P["Cd"], P["G"]):
        got = np.array(inversion.leastsquare_posterioricovmatrix(P["Cp"], P["Cd"], P["G"]))
    want, _ = _gain(P)
    s = _sd(P["Cp"])
    w = s @ s.T
    mon.check(got.shape == P["Cp"].shape, "shape of the posterior covariance", got=got.shape)
    mon.check(bool(np.max(np.abs(got - want) / w) < 1e-8), "posterior covariance is not the inverse of the summed information",
              error=np.max(np.abs(got - want) / w), got=got, want=want)
    mon.check(bool(np.max(np.abs(got - got.T) / w) < 1e-9), "posterior covariance is not symmetric")
    mon.check(bool(np.min(np.linalg.eigvalsh((got + got.T) / 2 / w)) > -1e-9), "posterior covariance is not positive definite")
    mon.check(bool(np.min(np.linalg.eigvalsh((P["Cp"] - (got + got.T) / 2) / w)) > -1e-9), "posterior covariance exceeds the prior covariance")
    mon.event("posteriors")
    mon.describe(nontrivial=P["j"] > 1 and P["k"] > 1, j=P["j"], k=P["k"], first=float(P["d0"][0, 0]))


def nonlinear(rng, mon):
    """Every step is the Gauss-Newton step about the current model; where the iteration settles the posterior is stationary."""
    P = _problem(rng)
    a, b = P["ps"], rng.uniform(0.02, 0.3)
    G0, phase = P["G"], rng.uniform(0, 6, (P["k"], 1))

    def g(p):
        return G0 @ p + b * P["ds"] * np.sin(G0 @ p / P["ds"] + phase)

    def dg(p):
        return G0 * (1 + b * np.cos(G0 @ p / P["ds"] + phase))
    P["d0"] = g(P["p0"] + _col(rng.normal(size=P["j"])) * a) + _col(rng.normal(size=P["k"])) * P["ds"] * 0.2
    p = P["p0"] + _col(rng.normal(size=P["j"])) * a * choice(rng, (0, 0.5))
    for it in range(40):
        G = dg(p)
        dm = g(p)
        new = _step(mon, P, p, dm, G=G)
        post, gtw = _gain({**P, "G": G})
        want = P["p0"] + post @ gtw @ (P["d0"] - dm + G @ (p - P["p0"]))
        _same(mon, new, want, P, "a step of a nonlinear problem", extra=np.max(np.abs(p)))
        moved = np.max(np.abs(new - p) / _sd(P["Cp"]))
        p = new
        if moved < 1e-12:
            break
    if moved < 1e-9:
        mon.event("nonlinear_converged")
        J = dg(p)
        grad = J.T @ np.linalg.solve(P["Cd"], g(p) - P["d0"]) + np.linalg.solve(P["Cp"], p - P["p0"])
        size = np.abs(J.T) @ np.abs(np.linalg.solve(P["Cd"], g(p) - P["d0"])) + 1 / P["ps"]
        mon.check(bool(np.max(np.abs(grad) / size) < 1e-5), "the iteration settled where the posterior is not stationary", gradient=grad.ravel())
    mon.describe(nontrivial=P["j"] > 1, j=P["j"], k=P["k"], first=float(P["d0"][0, 0]), steps=it)


SCENARIOS = {"linear": (linear, 150, 6000), "at_prior": (at_prior, 60, 2000), "posterior": (posterior, 150, 6000), "nonlinear": (nonlinear, 60, 2500)}
