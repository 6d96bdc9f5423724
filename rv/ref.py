"""Independent references, written from the papers and the documentation, in the plainest way."""
from __future__ import annotations

import numpy as np
from scipy.optimize import minimize_scalar
from scipy.stats import chi2, gamma, norm


# ------------------------------------------------------------------ univariate
def qn_raw(x):
    """k-th smallest of the pairwise differences."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    h = n // 2 + 1
    k = h * (h - 1) // 2
    i, j = np.triu_indices(n, 1)
    d = np.abs(x[i] - x[j])
    return np.partition(d, k - 1)[k - 1]


QN_DN = {2: 0.399, 3: 0.994, 4: 0.512, 5: 0.844, 6: 0.611, 7: 0.857, 8: 0.669, 9: 0.872}


def qn_factor(n, finite=True, consistent=True):
    f = 1.0
    if finite:
        f *= QN_DN[n] if n <= 9 else (n / (n + 1.4) if n % 2 else n / (n + 3.8))
    if consistent:
        f *= 2.219144
    return f


def mad(x, normal=True):
    x = np.asarray(x, dtype=float)
    m = np.median(np.abs(x - np.median(x, axis=0)), axis=0)
    return m / norm.ppf(0.75) if normal else m


def uni_h(n, alpha):
    if alpha is None:
        return n // 2 + 1
    if isinstance(alpha, int) and alpha != 1:
        return max(alpha, n // 2 + 1)
    return max(int(alpha * n), n // 2 + 1)


def uni_mcd_candidates(x, h):
    """(variances, means) of all contiguous subsets of size h of the sorted data."""
    s = np.sort(np.asarray(x, dtype=float))
    w = np.lib.stride_tricks.sliding_window_view(s, h)
    m = w.mean(axis=1)
    return ((w - m[:, None]) ** 2).mean(axis=1), m


def uni_mcd_factor(frac):
    """1 / E[x^2 | the central `frac` of a normal]; closed form instead of a chi2 cdf."""
    q = norm.ppf((1 + frac) / 2)
    return 1.0 / (1.0 - 2 * q * norm.pdf(q) / frac)


def uni_mcd_reweight(x, raw_loc, raw_var, consistent=True):
    x = np.asarray(x, dtype=float)
    if raw_var == 0:
        return raw_loc, 0.0, None
    d = (x - raw_loc) ** 2 / raw_var
    m = d < chi2.ppf(0.975, 1)
    loc, var = x[m].mean(), x[m].var()
    if consistent:
        delta = m.mean()
        if delta < 1:
            var = var * uni_mcd_factor(delta)
    return loc, var, np.min(np.abs(d - chi2.ppf(0.975, 1)))


def huber_psi(u, b):
    return np.clip(u, -b, b)


def bisq_w(u, c):
    return np.where(np.abs(u) <= c, (1 - (u / c) ** 2) ** 2, 0.0)


def bisq_rho(u, c):
    v = np.minimum(np.abs(u), c)
    return v**2 / 2 - v**4 / (2 * c**2) + v**6 / (6 * c**4)


def tau(x, c1=4.5, c2=3.0, consistent=True):
    x = np.asarray(x, dtype=float)
    s0 = mad(x, normal=False)
    med = np.median(x)
    if s0 == 0:
        return med, 0.0
    w = bisq_w((x - med) / s0, c1)
    loc = np.sum(w * x) / np.sum(w)
    s = s0 * np.sqrt(np.mean(np.minimum(((x - loc) / s0) ** 2, c2**2)))
    if consistent:
        b = c2 * norm.ppf(0.75)
        # E min((Z / q)^2, c2^2) q^2 for Z standard normal and q = 0.6745
        corr = (norm.cdf(b) - norm.cdf(-b) - 2 * b * norm.pdf(b)) + b**2 * 2 * norm.sf(b)
        s = s / np.sqrt(corr)
    return loc, s


def one_step_m(x, kind):
    """kind 'huber' (1.5, 1.5) or 'cellwise' (bisquare 3, Huber 2.5)."""
    x = np.asarray(x, dtype=float)
    med, m = np.median(x), mad(x)
    s = 1.0 if m < 1e-12 else m
    u = (x - med) / s
    if kind == "huber":
        w = np.minimum(1.0, 1.5 / np.maximum(np.abs(u), 1e-300))
        b, delta = 1.5, 0.7784655
    else:
        w = bisq_w(u, 3.0)
        b, delta = 2.5, 0.845
    loc = np.sum(w * x) / np.sum(w)
    scale = 0.0 if m < 1e-12 else m * np.sqrt(np.mean(np.clip(u, -b, b) ** 2) / delta)
    return loc, scale


def tanh_weight(u):
    a = np.abs(u)
    A, B, k, b, c = 0.7532528, 0.8430849, 4.1517212, 1.5, 4.0
    with np.errstate(divide="ignore", invalid="ignore"):
        t = np.sqrt(A * (k - 1)) * np.tanh(0.5 * np.sqrt((k - 1) * B**2 / A) * (c - a)) / a
    return np.where(a < b, 1.0, np.where(a > c, 0.0, t))


def wrap_psi(z, b=1.5, c=4.0, q1=1.540793, q2=0.8622731):
    a = np.abs(z)
    return np.where(a < b, z, np.where(a <= c, q1 * np.tanh(q2 * (c - a)) * np.sign(z), 0.0))


def uni_mcd(x, alpha=None, consistent=True):
    """(location, scale, margin) with ties between subsets resolved by the first."""
    x = np.asarray(x, dtype=float)
    n = len(x)
    h = uni_h(n, alpha)
    if h == n:
        return x.mean(), x.std(), np.inf
    v, m = uni_mcd_candidates(x, h)
    i = int(np.argmin(v))
    raw_var, raw_loc = v[i], m[i]
    if consistent:
        raw_var = raw_var * uni_mcd_factor(h / n)
    loc, var, margin = uni_mcd_reweight(x, raw_loc, raw_var, consistent)
    return loc, np.sqrt(var), margin


def one_step_wrapping(x):
    x = np.asarray(x, dtype=float)
    loc, scale, margin = uni_mcd(x)
    if scale == 0:
        return loc, scale, margin
    w = tanh_weight((x - loc) / scale)
    return np.sum(w * x) / np.sum(w), scale, margin


# ------------------------------------------------------------------ multivariate
def cov_of(X):
    """Classical covariance of rows, p x p also for p = 1."""
    return np.atleast_2d(np.cov(np.asarray(X).T))


def mahal2(X, loc, cov):
    D = X - loc
    return np.einsum("ij,ij->i", D, np.linalg.solve(cov, D.T).T)


def mcd_h(n, p, alpha):
    low = int((n + p + 1) / 2)
    if alpha is None:
        return low
    if isinstance(alpha, int) and alpha != 1:
        return max(alpha, low)
    return max(int(alpha * n), low)


def reweight_factor(p):
    """Consistency factor of the covariance of the observations within the 97.5% ellipsoid."""
    return 0.975 / gamma.cdf(chi2.ppf(0.975, p) / 2, p / 2 + 1)


def c_steps(X, idx, h, tol=0.0, limit=500):
    """Concentration steps from the subset `idx` until the determinant no longer decreases by more than tol."""
    loc, cov = X[idx].mean(axis=0), cov_of(X[idx])
    idx = np.argsort(mahal2(X, loc, cov), kind="stable")[:h]
    det = np.linalg.det(cov_of(X[idx]))
    for _ in range(limit):
        loc, cov = X[idx].mean(axis=0), cov_of(X[idx])
        new = np.argsort(mahal2(X, loc, cov), kind="stable")[:h]
        d = np.linalg.det(cov_of(X[new]))
        if set(new.tolist()) == set(idx.tolist()) or det - d <= tol:
            break
        idx, det = new, d
    return idx, det


def detmcd_starts(X):
    """The six initial half-subsets of Hubert, Rousseeuw & Verdonck (2012)."""
    from scipy.stats import rankdata

    n, p = X.shape
    qn = lambda v: qn_raw(v) * qn_factor(len(v))  # noqa: E731
    sc = np.array([qn(X[:, j]) if n < 1000 else tau(X[:, j])[1] for j in range(p)])
    Z = (X - np.median(X, axis=0)) / sc
    R = np.column_stack([rankdata(Z[:, j]) for j in range(p)])
    nz = np.linalg.norm(Z, axis=1)
    u = Z[nz > 0] / nz[nz > 0, None]
    half = np.argsort(nz, kind="stable")[: -(-n // 2)]
    starts = [
        np.atleast_2d(np.corrcoef(np.tanh(Z).T)),
        np.atleast_2d(np.corrcoef(R.T)),
        np.atleast_2d(np.corrcoef(norm.ppf((R - 1 / 3) / (n + 1 / 3)).T)),
        u.T @ u / n,
        cov_of(Z[half]),
        ogk_cov(Z, qn, 2),
    ]
    out = []
    for S in starts:
        _, E = np.linalg.eigh(S)
        lam = np.array([qn(Z @ E[:, k]) for k in range(p)])
        root, inv = (E * lam) @ E.T, (E / lam) @ E.T
        mu = root @ np.median(Z @ inv, axis=0)
        d = np.sum(((Z - mu) @ inv) ** 2, axis=1)
        out.append(np.argsort(d, kind="stable")[: -(-n // 2)])
    return out


def ogk_cov(X, scale, iters, loc=None):
    p = X.shape[1]
    T, Z = np.eye(p), X
    for _ in range(iters):
        d = np.array([float(scale(Z[:, j])) for j in range(p)])
        Y = Z / d
        U = np.eye(p)
        for j in range(p):
            for k in range(j + 1, p):
                a, b = float(scale(Y[:, j] + Y[:, k])) ** 2, float(scale(Y[:, j] - Y[:, k])) ** 2
                U[j, k] = U[k, j] = (a - b) / (a + b)
        _, E = np.linalg.eigh(U)
        Z = Y @ E
        T = T @ (d[:, None] * E)
    g = np.array([float(scale(Z[:, j])) ** 2 for j in range(p)])
    cov = (T * g) @ T.T
    if loc is None:
        return cov
    return T @ np.array([float(loc(Z[:, j])) for j in range(p)]), cov


# ------------------------------------------------------------------ power transforms
def boxcox(x, lam):
    x = np.asarray(x, dtype=float)
    return np.log(x) if lam == 0 else (x**lam - 1) / lam


def yeojohnson(x, lam):
    x = np.asarray(x, dtype=float)
    out = np.empty_like(x)
    pos = x >= 0
    out[pos] = np.log1p(x[pos]) if lam == 0 else ((1 + x[pos]) ** lam - 1) / lam
    out[~pos] = -np.log1p(-x[~pos]) if lam == 2 else -((1 - x[~pos]) ** (2 - lam) - 1) / (2 - lam)
    return out


def boxcox_inv(z, lam):
    return np.exp(z) if lam == 0 else (z * lam + 1) ** (1 / lam)


def yeojohnson_inv(z, lam):
    z = np.asarray(z, dtype=float)
    pos = z >= 0
    with np.errstate(all="ignore"):
        up = np.expm1(z) if lam == 0 else (lam * z + 1) ** (1 / lam) - 1
        down = -np.expm1(-z) if lam == 2 else 1 - (1 + (lam - 2) * z) ** (1 / (2 - lam))
    return np.where(pos, up, down)


def rectified(x, lam, method):
    """x sorted. The map is linear beyond the changepoint, on the side where it is steep or saturates."""
    f, inv = (boxcox, boxcox_inv) if method == "boxcox" else (yeojohnson, yeojohnson_inv)
    if lam == 1:
        return f(x, 1.0)
    n = len(x)
    k = int(np.ceil(n / 4))
    q = x[n - k] if lam < 1 else x[k - 1]
    c = float(f(np.array([q]), lam)[0]) * 1.5
    if lam < 0:
        c = min(c, 1 / abs(lam) - 1e-5)
    elif method == "boxcox" and lam > 0:
        c = max(c, -1 / lam + 1e-5)
    elif method != "boxcox" and lam > 2:
        c = max(c, 1 / (2 - lam) + 1e-5)
    c = float(np.clip(inv(np.array([c]), lam)[0], x[0], x[-1]))
    slope = c ** (lam - 1) if method == "boxcox" else (1 + abs(c)) ** ((lam - 1) if lam < 1 else (1 - lam))
    with np.errstate(all="ignore"):
        return np.where((x > c) if lam < 1 else (x < c), float(f(np.array([c]), lam)[0]) + (x - c) * slope, f(x, lam))


def normality(z):
    """Equation (5) of Raymaekers & Rousseeuw (2024) for sorted, transformed values."""
    n = len(z)
    loc, scale = one_step_m(z, "huber")
    q = norm.ppf((np.arange(1, n + 1) - 1 / 3) / (n + 1 / 3))
    return float(np.sum(bisq_rho((z - loc) / (scale if scale else 1.0) - q, 0.5)))


def power_ml(x, method, lo, hi):
    """Maximum likelihood lambda: grid, then golden section around the best."""
    if method == "boxcox":
        jac, log, pos = np.sum(np.log(x)), np.log(x), np.ones(len(x), bool)
    else:
        log, pos = np.log1p(np.abs(x)), x >= 0
        jac = np.sum(np.sign(x) * log)

    def power(u, lam):
        return u if abs(lam) < 1e-12 else np.expm1(lam * u) / lam

    def f(x, lam):
        return np.where(pos, power(log, lam), -power(log, 2 - lam))

    def obj(lam):
        with np.errstate(all="ignore"):
            v = f(x, lam)
            return len(x) / 2 * np.log(np.mean((v - v.mean()) ** 2)) - (lam - 1) * jac

    grid = np.linspace(lo, hi, 201)
    k = int(np.nanargmin([obj(g) for g in grid]))
    a, b = grid[max(k - 1, 0)], grid[min(k + 1, 200)]
    g = (np.sqrt(5) - 1) / 2
    while b - a > 1e-9:
        c, d = b - g * (b - a), a + g * (b - a)
        if obj(c) < obj(d):
            b = d
        else:
            a = c
    return (a + b) / 2


def power_fit(x, method, standardize=True, lambda_range=(-4.0, 6.0), quantile=0.99, nsteps=2):
    """Reweighted maximum likelihood of Raymaekers & Rousseeuw (2024). Also the smallest distance of a |z| to the cutoff."""
    x = np.sort(np.asarray(x, dtype=float))
    if standardize:
        x = x / np.median(x) if method == "boxcox" else (x - np.median(x)) / mad(x)
    f = boxcox if method == "boxcox" else yeojohnson
    cut = np.sqrt(chi2.ppf(quantile, 1))
    lo, hi = map(float, lambda_range)
    for ext in range(30):
        raw = minimize_scalar(lambda lam: normality(rectified(x, lam, method)), bounds=(lo, hi), method="bounded").x
        v, gap = rectified(x, raw, method), np.inf
        for _ in range(nsteps):
            loc, scale = one_step_m(v, "huber")
            z = np.abs((v - loc) / scale)
            gap = min(gap, np.min(np.abs(z - cut)))
            w = z <= cut
            lam = power_ml(x[w], method, lo, hi)
            v = f(x, lam)
        d = np.array([lam - lo, hi - lam])
        if d.min() > 0.05 * (hi - lo):
            break
        if d[0] <= d[1]:
            lo = 1 + (lo - 1) * 2
        if d[1] <= d[0]:
            hi = 1 + (hi - 1) * 2
    return dict(lam=lam, loc=v[w].mean(), scale=v[w].std(), raw=raw, gap=gap, kept=int(w.sum()), extended=ext,
                edge=abs(d.min() / (hi - lo) - 0.05), crit=normality(v), range=(lo, hi))


# ------------------------------------------------------------------ cellwise MCD
def cond_moments(mu, S, x, obs, targets):
    """Conditional mean and variance of every target given the observed variables other than it."""
    mean, var = np.empty(len(targets)), np.empty(len(targets))
    for a, j in enumerate(targets):
        o = [k for k in obs if k != j]
        if not o:
            mean[a], var[a] = mu[j], S[j, j]
            continue
        b = np.linalg.solve(S[np.ix_(o, o)], S[o, j])
        mean[a] = mu[j] + b @ (x[o] - mu[o])
        var[a] = S[j, j] - b @ S[o, j]
    return mean, var


def cell_objective(X, W, mu, S):
    tot = 0.0
    for i in range(len(X)):
        o = np.flatnonzero(W[i])
        if len(o):
            So = S[np.ix_(o, o)]
            d = X[i, o] - mu[o]
            tot += d @ np.linalg.solve(So, d) + np.linalg.slogdet(So)[1] + np.log(2 * np.pi) * len(o)
    return tot


def truncate_eig(S, low):
    ev, E = np.linalg.eigh((S + S.T) / 2)
    return (E * np.maximum(ev, low)) @ E.T


def cell_delta(X, W, mu, S, j):
    """Gain in the objective of keeping cell (i, j), without the penalty (eq. 20)."""
    n, p = X.shape
    delta = np.full(n, np.inf)
    cache = {}
    for i in range(n):
        if not np.isfinite(X[i, j]):
            continue
        o = tuple(k for k in np.flatnonzero(W[i]) if k != j)
        if o not in cache:
            oo = list(o)
            b = np.linalg.solve(S[np.ix_(oo, oo)], S[oo, j]) if oo else np.zeros(0)
            cache[o] = (oo, b, S[j, j] - (b @ S[oo, j] if oo else 0.0))
        oo, b, c = cache[o]
        xhat = mu[j] + (b @ (X[i, oo] - mu[oo]) if oo else 0.0)
        delta[i] = (X[i, j] - xhat) ** 2 / c + np.log(c) + np.log(2 * np.pi)
    return delta


def cellmcd(X, loc, cov, alpha, quantile, crit, max_steps, low):
    """C-steps of Raymaekers & Rousseeuw (2024) on standardised data from given initial estimates."""
    n, p = X.shape
    h = round(max(alpha, (n // 2 + 1) / n) * n)
    W = np.isfinite(X).astype(float)
    q = chi2.ppf(quantile, 1) - np.log(np.diag(np.linalg.inv(cov))) + np.log(2 * np.pi)
    obj = cell_objective(X, W, loc, cov) + q @ (1 - W).sum(axis=0)
    margin, objs, rejected = np.inf, [obj], False
    for _ in range(max_steps):
        V = W.copy()
        for j in np.argsort(V.sum(axis=0), kind="stable"):
            d = cell_delta(X, V, loc, cov, j)
            margin = min(margin, np.min(np.abs(d[np.isfinite(d)] - q[j])))
            keep = d <= q[j]
            if keep.sum() < h:
                s = np.sort(d)
                margin = min(margin, s[h] - s[h - 1] if h < n and np.isfinite(s[h]) else np.inf)
                keep = np.zeros(n, bool)
                keep[np.argsort(d, kind="stable")[:h]] = True
            V[:, j] = keep
        Z, B = X.copy(), np.zeros((p, p))
        for i in range(n):
            m, o = np.flatnonzero(V[i] == 0), np.flatnonzero(V[i])
            if len(m) == 0:
                continue
            if len(o) == 0:
                Z[i], B = loc, B + cov
                continue
            C = np.linalg.solve(cov[np.ix_(o, o)], cov[np.ix_(o, m)])
            Z[i, m] = loc[m] + (X[i, o] - loc[o]) @ C
            B[np.ix_(m, m)] += cov[np.ix_(m, m)] - cov[np.ix_(m, o)] @ C
        new_loc = Z.mean(axis=0)
        S = np.atleast_2d(np.cov(Z.T, bias=True)) + B / n
        change = np.max(np.abs(S - cov))
        margin = min(margin, abs(change - crit) / max(crit, 1e-300) if crit else np.inf)
        S = truncate_eig(S, low)
        new = cell_objective(X, V, new_loc, S) + q @ (1 - V).sum(axis=0)
        if new > obj:
            margin = min(margin, (new - obj) / abs(obj) * 1e3)
            rejected = bool((V != W).any())
            break
        margin = min(margin, (obj - new) / abs(obj) * 1e3) if new < obj else margin
        W, loc, cov, obj = V, new_loc, S, new
        objs.append(obj)
        if change <= crit:
            break
    return dict(W=W, loc=loc, cov=cov, objs=objs, margin=margin, h=h, rejected=rejected)


# ------------------------------------------------------------------ detecting deviating cells
class DDCRef:
    """Rousseeuw & Van den Bossche (2018), written cell by cell; tracks the distance to the closest cutoff."""

    def __init__(self, X, quantile=0.99, min_corr=0.5, locscale=lambda v: one_step_m(v, "cellwise")):
        X = np.where(np.isinf(X), np.nan, X)
        self.q, self.mc, self.margin = np.sqrt(chi2.ppf(quantile, 1)), min_corr, np.inf
        n, p = X.shape
        ls = [locscale(X[~np.isnan(X[:, j]), j]) for j in range(p)]
        self.loc, self.scale = np.array([a for a, *_ in ls]), np.array([b for _, b, *_ in ls])
        Z = (X - self.loc) / self.scale
        U = self.clean(Z)
        self.corr, self.slopes = np.eye(p), np.full((p, p), np.nan)
        for i in range(p):
            for j in range(p):
                if i < j:
                    self.corr[i, j] = self.corr[j, i] = self.pair_corr(U[:, i], U[:, j])
        off = ~np.eye(p, dtype=bool)
        if p > 1:
            self.near(np.abs(self.corr[off]), self.mc)
        for i in range(p):
            for j in range(p):
                if i != j and abs(self.corr[i, j]) >= self.mc:
                    m = ~(np.isnan(U[:, i]) | np.isnan(U[:, j]))
                    self.slopes[i, j] = self.slope(U[m, i], U[m, j])
        raw = self.raw_predict(U)
        self.shrink = np.array([self.slope(raw[~np.isnan(Z[:, j]), j], Z[~np.isnan(Z[:, j]), j]) for j in range(p)])
        self.pred = raw * self.shrink
        R = Z - self.pred
        self.rscale = np.array([max(one_step_m(np.r_[R[~np.isnan(R[:, j]), j], -R[~np.isnan(R[:, j]), j]], "cellwise")[1], 1e-12) for j in range(p)])
        self.res, self.flags = self.residuals(Z, self.pred)
        t = self.tvalues(self.res)
        self.tloc, self.tscale = one_step_m(t[~np.isnan(t)], "cellwise")
        self.rows = self.rowwise(t)

    def near(self, v, c):
        v = np.asarray(v, dtype=float)
        v = v[np.isfinite(v)]
        if v.size:
            self.margin = min(self.margin, np.min(np.abs(v - c)) / max(1.0, abs(c)))

    def clean(self, Z):
        self.near(np.abs(Z), self.q)
        with np.errstate(invalid="ignore"):
            return np.where(np.abs(Z) > self.q, np.nan, Z)

    def pair_corr(self, x, y):
        m = ~(np.isnan(x) | np.isnan(y))
        if not m.any():
            return 0.0
        x, y = x[m], y[m]
        r = (one_step_m(x + y, "cellwise")[1] ** 2 - one_step_m(x - y, "cellwise")[1] ** 2) / 4
        r = min(max(r, -0.99), 0.99)
        d = np.sqrt((x**2 - 2 * r * x * y + y**2) / (1 - r**2))
        self.near(d, self.q)
        k = d < self.q
        return np.corrcoef(x[k], y[k])[0, 1]

    def slope(self, x, y):
        if not np.any(x != 0):
            return 0.0
        b = np.median(y[x != 0] / x[x != 0])
        r = y - b * x
        c = self.q * max(one_step_m(np.r_[r, -r], "cellwise")[1], 1e-12)
        if c > 0:
            self.near(np.abs(r) / c, 1.0)
        k = np.abs(r) <= c
        return np.sum(x[k] * y[k]) / np.sum(x[k] ** 2)

    def raw_predict(self, U):
        n, p = U.shape
        out = np.zeros((n, p))
        for i in range(n):
            for j in range(p):
                num = den = 0.0
                for k in range(p):
                    if k != j and abs(self.corr[k, j]) >= self.mc and not np.isnan(U[i, k]):
                        num += abs(self.corr[k, j]) * self.slopes[k, j] * U[i, k]
                        den += abs(self.corr[k, j])
                out[i, j] = num / den if den else 0.0
        return out

    def residuals(self, Z, pred):
        r = (Z - pred) / self.rscale
        self.near(np.abs(r), self.q)
        with np.errstate(invalid="ignore"):
            return r, np.abs(r) > self.q

    @staticmethod
    def tvalues(res):
        t = np.full(len(res), np.nan)
        for i, r in enumerate(res):
            r = r[~np.isnan(r)]
            if len(r):
                t[i] = np.mean(chi2.cdf(r**2, 1))
        return t

    def rowwise(self, t):
        u = (t - self.tloc) / self.tscale
        self.near(u, self.q)
        with np.errstate(invalid="ignore"):
            return u > self.q

    def predict(self, X):
        X = np.where(np.isinf(X), np.nan, X)
        Z = (X - self.loc) / self.scale
        pred = self.raw_predict(self.clean(Z)) * self.shrink
        res, flags = self.residuals(Z, pred)
        return flags, res, self.rowwise(self.tvalues(res)), pred * self.scale + self.loc


# ------------------------------------------------------------------ regression
LTS_RAW = dict(
    p1=((0.630869217886906, 0.650789250442946), (0.565065391014791, 1.03044199012509)),
    p2=(((-0.746945886714663, 0.56264937192689), (-0.535478048924724, 0.543323462033445)),
        ((-0.458580153984614, 1.12236071104403), (-0.267178168108996, 1.1022478781154))),
)  # fmt: skip
LTS_REW = dict(
    p1=((1.58609654199605, 1.46340162526468), (0.391653958727332, 1.03167487483316)),
    p2=(((-0.773365715932083, 2.02013996406346), (-0.337571678986723, 2.02037467454833)),
        ((-0.474174840843602, 1.39681715704956), (-0.276640353112907, 1.42543242287677))),
)  # fmt: skip


def lts_correction(p, n, alpha, table):
    """Pison, Van Aelst & Willems (2002), constants of robustbase (R)."""
    f = []
    for k in (0, 1):  # alpha = 0.5 and 0.875
        if p == 1:
            a, b = table["p1"][k]
        else:
            (g3, e3), (g5, e5) = table["p2"][k]
            # straight line through the values for q = 3 and q = 5 on the log-log scale
            y3, y5 = np.log(-g3 / p**e3), np.log(-g5 / p**e5)
            b = (y3 - y5) / (np.log(5 * p**2) - np.log(3 * p**2))
            a = y3 + b * np.log(3 * p**2)
        f.append(1 - np.exp(a) / n**b)
    if alpha <= 0.875:
        v = f[0] + (f[1] - f[0]) * (alpha - 0.5) / 0.375
    else:
        v = f[1] + (1 - f[1]) * (alpha - 0.875) / 0.125
    return 1 / v


def ls(X, y, w=None):
    """Least squares with intercept: (intercept, slopes)."""
    A = np.column_stack([np.ones(len(X)), X])
    sw = np.ones(len(X)) if w is None else np.sqrt(w)
    b = np.linalg.lstsq(A * sw[:, None], y * sw, rcond=None)[0]
    return b


def lin(b, X):
    return b[0] + X @ b[1:]


def lts_steps(X, y, b, h, tol=0.0, limit=500):
    """Concentration steps from the coefficients b: (b, subset, loss)."""
    prev, idx = np.inf, None
    for _ in range(limit):
        idx = np.argsort(np.abs(y - lin(b, X)), kind="stable")[:h]
        b = ls(X[idx], y[idx])
        loss = np.mean((y[idx] - lin(b, X[idx])) ** 2)
        if prev - loss <= tol:
            break
        prev = loss
    return b, idx, loss


def m_scale(r, rho, b, s0=None):
    """Solution of mean(rho(r / s)) = b by bisection."""
    r = np.asarray(r, dtype=float)
    lo, hi = 1e-12 * np.max(np.abs(r)) + 1e-300, 1e3 * np.max(np.abs(r)) + 1e-300
    f = lambda s: np.mean(rho(r / s)) - b  # noqa: E731
    for _ in range(300):
        mid = np.sqrt(lo * hi)
        if f(mid) > 0:
            lo = mid
        else:
            hi = mid
        if hi / lo < 1 + 1e-15:
            break
    return np.sqrt(lo * hi)
