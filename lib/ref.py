"""Reference semantics, written from the published definitions, independent of the code."""
import itertools
import math


# ---------------------------------------------------- interaction coefficients
def _data(nu_r, nu_p, q):
    n = len(nu_r)
    m = len(q)
    net = [[nu_p[i][j] - nu_r[i][j] for j in range(m)] for i in range(n)]
    inv = [[bool(nu_p[i][j] or nu_r[i][j]) for j in range(m)] for i in range(n)]
    return n, m, net, inv


def drg(nu_r, nu_p, q):
    n, m, net, inv = _data(nu_r, nu_p, q)
    out = [[0.0] * n for _ in range(n)]
    for a in range(n):
        den = math.fsum(abs(net[a][j] * q[j]) for j in range(m))
        for b in range(n):
            if a != b and den > 0:
                out[a][b] = math.fsum(abs(net[a][j] * q[j]) for j in range(m) if inv[b][j]) / den
    return out


def drgep(nu_r, nu_p, q):
    n, m, net, inv = _data(nu_r, nu_p, q)
    out = [[0.0] * n for _ in range(n)]
    for a in range(n):
        pro = math.fsum(max(0.0, net[a][j] * q[j]) for j in range(m))
        con = math.fsum(max(0.0, -net[a][j] * q[j]) for j in range(m))
        den = max(pro, con)
        for b in range(n):
            if a != b and den > 0:
                out[a][b] = abs(math.fsum(net[a][j] * q[j] for j in range(m) if inv[b][j])) / den
    return out


def pfa(nu_r, nu_p, q):
    n, m, net, inv = _data(nu_r, nu_p, q)
    rp = [[0.0] * n for _ in range(n)]
    rc = [[0.0] * n for _ in range(n)]
    for a in range(n):
        pro = math.fsum(max(0.0, net[a][j] * q[j]) for j in range(m))
        con = math.fsum(max(0.0, -net[a][j] * q[j]) for j in range(m))
        den = max(pro, con)
        for b in range(n):
            if a != b and den > 0:
                rp[a][b] = math.fsum(max(0.0, net[a][j] * q[j]) for j in range(m) if inv[b][j]) / den
                rc[a][b] = math.fsum(max(0.0, -net[a][j] * q[j]) for j in range(m) if inv[b][j]) / den
    out = [[0.0] * n for _ in range(n)]
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            second = math.fsum(rp[a][k] * rp[k][b] + rc[a][k] * rc[k][b] for k in range(n) if k not in (a, b))
            out[a][b] = rp[a][b] + rc[a][b] + second
    return out


MATRIX = {"DRG": drg, "DRGEP": drgep, "PFA": pfa}


# ----------------------------------------------------------------- selections
def reachable(matrix, names, targets, threshold):
    """Species reachable from a target along edges with a coefficient >= threshold (and > 0)."""
    idx = {s: i for i, s in enumerate(names)}
    seen = set(targets)
    todo = list(targets)
    while todo:
        a = todo.pop()
        for b in names:
            w = matrix[idx[a]][idx[b]]
            if b not in seen and w > 0 and w >= threshold:
                seen.add(b)
                todo.append(b)
    return seen


def importance(matrix, names, targets):
    """Maximum over all simple paths of the product of coefficients (brute force)."""
    idx = {s: i for i, s in enumerate(names)}
    best = {s: 0.0 for s in names}

    def walk(a, value, visited):
        best[a] = max(best[a], value)
        for b in names:
            w = matrix[idx[a]][idx[b]]
            if b not in visited and w > 0:
                walk(b, value * w, visited | {b})

    for t in targets:
        walk(t, 1.0, {t})
    return best


def retained(method, matrices, names, targets, threshold):
    """Species the method keeps at a threshold (without protected ones)."""
    if method == "DRGEP":
        imp = {s: 0.0 for s in names}
        for m in matrices:
            for s, v in importance(m, names, targets).items():
                imp[s] = max(imp[s], v)
        return {s for s in names if imp[s] >= threshold} | set(targets)
    out = set()
    for m in matrices:
        out |= reachable(m, names, targets, threshold)
    return out


# -------------------------------------------------------- sensitivity analysis
def sensitivity(start, start_error, error_of, limit, limbo, protected, kind):
    """All possible results (set, error) of the documented procedure; ties are open."""
    considered = [s for s in (limbo or sorted(start)) if s not in protected]
    results = set()

    def step(current, cur_err, remaining, errors):
        if not remaining:
            results.add((current, cur_err))
            return
        best = min(abs(errors[s] - cur_err) for s in remaining)
        for s in remaining:
            if abs(errors[s] - cur_err) != best:
                continue
            cand = current - {s}
            e = error_of(cand)
            if e > limit:
                results.add((current, cur_err))
                continue
            rest = [x for x in remaining if x != s]
            errs = errors
            if kind == "greedy":
                errs = {x: error_of(cand - {x}) for x in rest}
                if rest and min(errs.values()) > limit:
                    results.add((cand, e))
                    continue
            step(cand, e, rest, errs)

    step(frozenset(start), start_error, considered, {s: error_of(frozenset(start) - {s}) for s in considered})
    return results


# ------------------------------------------------------------------ toy rates
def toy_stoich(t):
    names = t["species"]
    nu_r = [[0.0] * len(t["reactions"]) for _ in names]
    nu_p = [[0.0] * len(t["reactions"]) for _ in names]
    for j, r in enumerate(t["reactions"]):
        left, right = r["eq"].replace("<=>", "=>").split("=>")
        for side, nu in ((left, nu_r), (right, nu_p)):
            for term in side.split("+"):
                w = term.split()
                c, s = (float(w[0]), w[1]) if len(w) == 2 else (1.0, w[0])
                nu[names.index(s)][j] += c
    return nu_r, nu_p


def toy_rates(t, y, T, P, R=8.31446261815324):
    """Forward rates of irreversible, temperature-independent toy reactions (mol/cm3/s);
    all species of a toy have the same molar mass."""
    c = P / (R * T) * 1e-6  # mol/cm3
    nu_r, _ = toy_stoich(t)
    out = []
    for j, r in enumerate(t["reactions"]):
        q = r["k"]
        for i in range(len(t["species"])):
            if nu_r[i][j]:
                q *= (y[i] * c) ** nu_r[i][j]
        out.append(q)
    return out


def profile_samples(T, n=20):
    """Indices of the sampled points: for each fraction k/n of the total rise, the set of
    points allowed (one, or two if roundoff of the fraction can decide a tie)."""
    T0, rise = T[0], T[-1] - T[0]
    out = []
    for k in range(1, n + 1):
        level = T0 + (k * rise) / n if k < n else T[-1]
        eps = 1e-10 * (abs(T[0]) + abs(T[-1])) if k < n else 0.0
        first = next(i for i, x in enumerate(T) if x >= level - eps)
        sure = next(i for i, x in enumerate(T) if x >= level + eps) if k < n else first
        out.append({sure} | {i for i in range(first, sure) if T[i] >= level - eps})
    return out
