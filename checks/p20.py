"""P20: mixing algorithms only produce distributions, the same ones for the same history, also across checkpoints and crashes."""
import itertools

import numpy as np

from checks import common as c
from checks import p08
from sim import kernel
from sim.runner import Scenario
from sim.world import Violation, check

PROP = "P20"


class Found:
    def __init__(self, x, fun, success):
        self.x, self.fun, self.success = x, fun, success


def cheap_minimize(fun, x0, args=(), **_kw):
    """Stand-in for SciPy's optimizer, which needs a minute per fit: deterministic, a pure function of its arguments."""
    lb, le, a = (float(v) for v in x0)
    if int(round(a * 10)) % 3 != 1 or int(round(lb)) % 4 or abs(le) != 1.0:
        return Found(np.array(x0, dtype=float), np.inf, False)
    best = None
    for x in ((lb, le, a), (lb * 0.75 + 0.31, max(le, 0.51 + 0.07 * abs(le)), min(0.79, a + 0.013 * lb))):
        v = float(fun(x, *args))
        if best is None or v < best[0]:
            best = (v, x)
    return Found(np.array(best[1]), best[0], True)


def setup():
    """Called once before the runs: the expensive optimizer is replaced wherever the algorithms got it from."""
    import sys

    from scipy import optimize

    import mixtera.core.algo.ado.ado  # noqa: F401

    kernel.QUIET = ("/algo/ado/",)
    real = optimize.minimize
    optimize.minimize = cheap_minimize
    for name, m in list(sys.modules.items()):
        if name.startswith("mixtera.") and m is not None:
            for a, v in list(vars(m).items()):
                if v is real:
                    setattr(m, a, cheap_minimize)
    # what the libraries only load on first use is loaded once, not in every run
    ref = RefAdo(2, [0.5, 0.5], variant="vanilla", gamma1=0.1, gamma2=0.1, s=0.5, delta_min=0.01, scaling_law_update_interval=1, subsampling_interval=1,
                 ignore_initial_steps=0, start_step=1, savgol=True, use_same_step_size=True, count_normalizer=None)
    for _ in range(8):
        ref.report(np.array([32, 64], dtype=np.float32), np.array([16, 16]), 0)
    mixtera.core.algo.ado.ado.AdoDynamicMixing.scaling_law_loss((1.0, 1.0, 0.4), np.array([16, 32]), np.array([2.0, 1.5]))
    import dill

    dill.loads(dill.dumps(ref))


# ------------------------------------------------------------------------------------------------ reference algorithms
class RefAverage:
    def __init__(self, n, _init):
        self.l, self.c = np.zeros(n), np.zeros(n)

    def report(self, losses, counts, _mid):
        self.l[: len(losses)] += losses
        self.c[: len(counts)] += counts
        m = self.c > 0
        if not m.any():
            return None
        avg = np.where(m, self.l / np.where(m, self.c, 1), 0.0)
        return avg / avg.sum() if avg.sum() > 0 else m / m.sum()


class RefAdo:
    """ADO (arXiv 2410.11820) with the differences documented in the implementation."""

    def __init__(self, n, init, **cfg):
        self.n, self.mu, self.cfg = n, np.array(init, dtype=float), cfg
        self.c = np.zeros(n)
        self.cs, self.ls = [], []
        self.t, self.seen, self.last = 0, -1, 0
        self.h = self.bar = self.par = self.cont = None
        self.first = False

    def report(self, losses, counts, mid):
        g = self.cfg
        new = mid > self.seen
        self.seen = max(self.seen, mid)
        cnt, ls = np.zeros(self.n), np.zeros(self.n, dtype=np.float32)
        cnt[: len(counts)] = counts
        ls[: len(losses)] = losses
        self.c += cnt
        self.ls.append(np.where(cnt > 0, ls / np.where(cnt > 0, cnt, 1), 0).astype(np.float32))
        self.cs.append(np.where(self.c > 0, cnt.sum(), 0) if g["use_same_step_size"] else cnt)
        self.t += 1
        if self.t < g["start_step"]:
            return None
        if self.h is None:
            self.h = self.mu.copy()
        fit = (self.t - g["start_step"]) % g["scaling_law_update_interval"] == 0
        if fit:
            self.par = np.array([self.fit(d) for d in range(self.n)])
        if g["variant"] == "adjusted_v3" and self.first:
            if new:
                self.cont = self.t + 15
            if not fit and self.cont != self.t:
                return None
        self.first = True
        n = np.sum(self.cs, axis=0) if g["use_same_step_size"] else self.c.copy()
        if (g["count_normalizer"] or 0) > 1:
            n = n / g["count_normalizer"]
        lb, _, al = self.par.T
        neg = np.array([al[d] * np.exp(lb[d]) * n[d] ** (-al[d]) / n[d] if n[d] > 0 else 0.0 for d in range(self.n)])
        rho = np.maximum(self.mu * self.h ** g["s"] * neg, 0)
        rho = rho / rho.sum() if rho.sum() > 0 else self.mu / self.n
        if self.bar is None:
            self.bar = self.mu.copy()
        pi = g["gamma2"] * rho + (1 - g["gamma2"]) * self.bar
        pi /= pi.sum()
        pi = np.where(self.c > 0, np.maximum(pi, g["delta_min"]), pi)
        pi /= pi.sum()
        if g["variant"] in ("vanilla", "adjusted_v3") or new:
            g1 = g["gamma1"]
            if g["variant"] == "adjusted_v2" and self.t - self.last > 1:
                g1 = 1 - (1 - g1) ** (self.t - self.last)
            self.h = g1 * pi + (1 - g1) * self.h
            self.last = self.t
        wt = 1 / (self.t + 1)
        self.bar = wt * rho + (1 - wt) * self.bar
        self.bar /= self.bar.sum()
        return pi

    def fit(self, d):
        from scipy.signal import savgol_filter

        g = self.cfg
        cs, ls = np.array(self.cs)[:, d], np.array(self.ls)[:, d].copy()
        st = np.arange(len(cs))
        cum = np.cumsum(cs)
        if g["use_same_step_size"]:
            for t in range(1, len(ls)):
                if ls[t] == 0:
                    ls[t] = ls[t - 1]
        else:
            ok = ls > 0
            cum, ls, st = cum[ok], ls[ok], st[ok]
        if g["savgol"]:
            win = min(101, len(ls))
            win -= win % 2 == 0
            if win > 3:
                ls = savgol_filter(ls.copy(), window_length=win, polyorder=3)
        ok = cum > 0
        cum, ls, st = cum[ok], ls[ok], st[ok]
        ok = st > g["ignore_initial_steps"]
        cum, ls = cum[ok], ls[ok]
        if g["subsampling_interval"] > 1:
            cum, ls = cum[:: g["subsampling_interval"]], ls[:: g["subsampling_interval"]]
        if not len(cum):
            return (-1, -1, -1)
        if (g["count_normalizer"] or 0) > 1:
            cum = cum / float(g["count_normalizer"])
        best = None
        for a, b, e in itertools.product([0.1 * i for i in range(8)], range(-2, 6), (-2.0, -1.5, -1.0, -0.5, 1.0, 1.5)):
            r = cheap_minimize(law, (b, e, a), args=(cum, ls))
            if r.success and (best is None or r.fun < best.fun) and r.fun < np.inf:
                best = r
        assert best is not None and not np.isnan(np.log(ls)).any()
        return best.x


def law(p, n, y):
    lb, le, a = p
    diff = np.abs(np.logaddexp(lb - a * np.log(n), le) - np.log(y))
    sq = np.where(diff <= 1e-3, 0.5 * diff**2, 1e-3 * (diff - 0.5e-3))
    return np.mean(sq) + 1e3 * (max(0, a - 0.8) + max(0, 0.001 - a) + max(0, lb - 6.5) + max(0, 0.5 - le))


# ---------------------------------------------------------------------------------------------------------- generators
def gen_ado(w, short):
    ign = w.ch(3)
    return dict(
        variant=w.pick(("vanilla", "adjusted_v1", "adjusted_v2", "adjusted_v3")), gamma1=(0.1, 0.3, 0.9)[w.ch(3)], gamma2=(0.1, 0.5, 1.0)[w.ch(3)],
        s=(0.5, 1.0)[w.ch(2)], delta_min=(0.01, 0.0, 0.1)[w.ch(3)], scaling_law_update_interval=1 + w.ch(6 if short else 9), subsampling_interval=(1, 1, 2, 10)[w.ch(4)],
        ignore_initial_steps=ign, start_step=ign + 1 + w.ch(4), savgol=w.flip(), use_same_step_size=w.flip(), count_normalizer=(None, 1, 16)[w.ch(3)])


def gen_history(w, n, reports):
    """Losses of a training: per token 1..12, falling, noisy; domains appear and disappear, numbers of domains reported vary."""
    out = []
    base = [2 + w.ch(8) for _ in range(n)]
    start = [0 if w.flip() else w.ch(reports) for _ in range(n)]
    full = w.flip(1, 3)
    mid = 0
    for t in range(reports):
        nd = n if full else 1 + w.ch(n)
        cs = np.array([16 * w.ch(9) if t >= start[i] else 0 for i in range(nd)], dtype=np.int64)
        ls = np.array([cs[i] * (1 + base[i] / (1 + 0.2 * t) + 0.125 * w.ch(5)) for i in range(nd)], dtype=np.float32)
        mid = max(0, mid + (0, 0, 1, 2, -1)[w.ch(5)])
        out.append((ls, cs, mid))
        if w.flip(1, 8):
            out.append(out[-1])  # delivered twice
    return out


def valid(res, n, what):
    check(isinstance(res, np.ndarray) and res.ndim == 1 and len(res) <= n, "not-a-mixture", lambda: f"{res!r} for {n} domains; {what}")
    check(np.isfinite(res).all() and (res >= 0).all(), "invalid-weights", lambda: f"{res!r}; {what}")
    check(abs(res.sum() - 1) < 1e-5, "weights-do-not-sum-to-1", lambda: f"{res!r} sums to {res.sum()}; {what}")


def rows_ok(mix, size, known, what):
    rows = mix.mixture_in_rows()
    check(set(rows) <= known, "unknown-component", lambda: f"{rows} of {known}; {what}")
    check(all(v >= 0 for v in rows.values()) and sum(rows.values()) == size, "invalid-rows", lambda: f"{rows} for chunks of {size}; {what}")
    return rows


def history(w):
    """The algorithms alone: reference, twins with other processes, copies as the mixture log and checkpoints make them."""
    import copy
    import pickle

    import dill

    from mixtera.core.algo.ado.ado import AdoDynamicMixing
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
    from mixtera.core.query.mixture import StaticMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture
    from mixtera.network.client.client_feedback import ClientFeedback

    k = w.k
    n = 1 + w.ch(5)
    ado = w.flip(3, 4)
    cfg = gen_ado(w, True) if ado else {}
    hist = gen_history(w, n, 2 + w.ch(24))
    size = (10, 7, 100, 33)[w.ch(4)]
    keys = [c.mixkey(lang=f"l{i}") for i in range(n)]
    wt = [w.ch(5) for _ in range(n)]
    wt[w.ch(n)] += 1
    strict = w.flip()
    log = w.flip(1, 4)
    kill = ado and w.flip(1, 6)
    what = f"{'ADO ' + str(cfg) if ado else 'averaging'} initial {wt} chunk {size}"
    make = (lambda: AdoDynamicMixing(**cfg, **(dict(logging_path=str(w.path("ado.json"))) if log else {}))) if ado else SimpleAveragingAlgorithm

    def mixture():
        m = DynamicMixture(size, StaticMixture(size, {q: x / sum(wt) for q, x in zip(keys, wt)}, strict=strict), make(), strict=strict)
        m.process_id_map({q: i for i, q in enumerate(keys)})
        return m

    init = StaticMixture(size, {q: x / sum(wt) for q, x in zip(keys, wt)}).mixture_in_rows()
    init = np.array([init[q] for q in keys]) / size

    def told(m, rec):
        fb = ClientFeedback(training_steps=rec[3], losses=rec[0].copy(), counts=rec[1].copy(), mixture_id=rec[2])
        m.process_client_feedback(fb)
        check((fb.losses == rec[0]).all() and (fb.counts == rec[1]).all(), "report-modified", lambda: f"{fb}; {what}")

    recs = [r + (i,) for i, r in enumerate(hist)]
    out = {}

    def plain():
        """Uninterrupted, every result against the reference."""
        alg = make()
        alg.initial_mixture = init.astype(np.float32)
        ref = RefAdo(n, init.astype(np.float32).astype(float), **cfg) if ado else RefAverage(n, init)
        res = out["plain"] = []
        for i, (ls, cs, mid) in enumerate(hist):
            got = alg.process_losses(ls.copy(), cs.copy(), mid)
            exp = ref.report(ls, cs, mid)
            check((got is None) == (exp is None), "update-or-not", lambda: f"report {i}: {got}, reference {exp}; {what}; {hist[:i + 1]}")
            if got is not None:
                valid(got, n, f"report {i}; {what}")
                g = np.zeros(n)
                g[: len(got)] = got
                check(np.allclose(g, exp, rtol=1e-4, atol=1e-6), "differs-from-reference", lambda: f"report {i}: {got}, reference {exp}; {what}; {hist[:i + 1]}")
                res.append(g)
            else:
                res.append(None)

    def chain():
        """As part of a mixture which is copied, pickled and restored between the reports; stale copies go on with other reports."""
        m = mixture()
        rows = out["chain"] = []
        for i, rec in enumerate(recs):
            how = w.ch(8)
            if how == 1:
                m, old = copy.deepcopy(m), m
                told(old, recs[w.ch(len(recs))])
                rows_ok(old, size, set(keys), what)
            elif how == 2:
                old = copy.deepcopy(m)
                told(old, recs[w.ch(len(recs))])
            elif how == 3:
                m = dill.loads(dill.dumps(m))
            elif how == 4:
                m = pickle.loads(pickle.dumps(m))
            elif how == 5:
                told(mixture(), recs[w.ch(len(recs))])
            elif how == 6:
                m.process_id_map({q: j for j, q in enumerate(keys)})
            told(m, rec)
            rows.append(dict(rows_ok(m, size, set(keys), f"report {i}; {what}")))
            if log and w.flip(1, 5):
                m.write_logs()

    def again():
        m = mixture()
        rows = out["again"] = []
        for rec in recs:
            told(m, rec)
            rows.append(dict(m.mixture_in_rows()))

    def killed():
        """A worker process of a fit dies: the report fails or succeeds, and what follows is still valid."""
        m = mixture()
        victim = 1 + w.ch(4)
        seen = [0]

        def hook(proc, mpproc):
            seen[0] += 1
            if seen[0] == victim:
                delay = w.ch(6)
                p = mpproc._p

                def assassin():
                    for _ in range(delay):
                        k.yield_("assassin")
                    if p.alive:
                        k.kill(p)

                w.thread(assassin, "assassin")

        k.cfg["on_mp_start"] = hook
        for i, rec in enumerate(recs):
            t = k.now
            try:
                told(m, rec)
            except Violation:
                raise
            except Exception:  # noqa: BLE001, the report failed, nothing more is known
                pass
            check(k.now - t < 60, "report-blocked", lambda: f"report {i} took {k.now - t} s; {what}")
            rows_ok(m, size, set(keys), f"report {i} after a killed worker; {what}")
        k.cfg.pop("on_mp_start", None)

    hs = [w.proc("plain", plain, cpu=1 + w.ch(8)), w.proc("chain", chain, cpu=1 + w.ch(8))]
    if w.flip():
        for h in hs:
            w.join(h)
    h = w.proc("again", again, cpu=1 + w.ch(8))
    for x in hs + [h]:
        w.join(x)
    if kill:
        w.join(w.proc("killed", killed))
    check(out["chain"] == out["again"], "copies-differ", lambda: f"{first(out['chain'], out['again'])}; {what}")
    cur = StaticMixture(size, {q: x for q, x in zip(keys, init)}).mixture_in_rows()
    for i, r in enumerate(out["plain"]):
        got = out["again"][i]
        if r is None:
            check({q: v for q, v in got.items() if v} == {q: v for q, v in cur.items() if v}, "changed-without-update", lambda: f"report {i}: {got}, before {cur}; {what}")
        else:
            for q, x in zip(keys, r):
                check(abs(got.get(q, 0) - size * x) < 1 + 1e-3, "rows-differ-from-weights", lambda: f"report {i}: {got} for weights {r} of {size}; {what}")
        cur = got
    nt = sum(r is not None for r in out["plain"])
    return dict(what=f"{what}: {len(hist)} reports, {nt} updates", nontrivial=nt > 0)


def first(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"report {i}: {x} / {y}"
    return f"{len(a)} / {len(b)} reports"


def losses(items, n):
    """Losses as in a training: per token, falling, with little noise."""
    num = 1 + max(i[1] for i in items)
    ls, cs = np.zeros(num, dtype=np.float32), np.zeros(num, dtype=np.int64)
    for _, kid, s in items:
        ls[kid] += 16 * (1 + (2 + kid) / (1 + n / 64) + (len(s) * 7 + kid * 3 + n) % 5 / 8)
        cs[kid] += 16
    return ls, cs


def job(w):
    """Jobs with ADO or averaging whose training checkpoints, crashes and restores: same data as the uninterrupted job."""
    from mixtera.core.algo.ado.ado import AdoDynamicMixing
    from mixtera.core.algo.loss_avg.loss_avg import SimpleAveragingAlgorithm
    from mixtera.core.query.mixture import InferringMixture, StaticMixture
    from mixtera.core.query.mixture.dynamic_mixture import DynamicMixture

    chunk = (4, 6, 10)[w.ch(3)]
    strict = w.flip(1, 3)
    infer = w.flip()
    cfg = gen_ado(w, False) if w.flip(3, 4) else None
    if cfg:
        cfg["start_step"] = min(cfg["start_step"], cfg["ignore_initial_steps"] + 2)
        cfg["gamma2"] = (0.5, 1.0)[w.ch(2)]

    def factory():
        m = InferringMixture(chunk, strict=strict) if infer else StaticMixture(chunk, {c.mixkey(lang="en"): 0.5, c.mixkey(lang="de"): 0.25, c.mixkey(lang="fr"): 0.25}, strict=strict)
        return DynamicMixture(chunk, m, AdoDynamicMixing(**cfg) if cfg else SimpleAveragingAlgorithm(), strict=strict)

    return p08.steered(w, (factory, f"{'ADO ' + str(cfg) if cfg else 'averaging'} infer {infer} chunk {chunk} strict {strict}"), losses)


SCENARIOS = [Scenario("history", history, 3), Scenario("job", job, 3)]
QUICK = dict(runs=700, secs=34.0)
THOROUGH = dict(runs=20000, secs=700.0)
