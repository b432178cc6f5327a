"""Single-publisher reach curves to monitor, and reference distributions."""

import math
from unittest import mock

import numpy as np
from scipy import stats

from wfa_planning_evaluation_framework.models import gamma_poisson_model
from wfa_planning_evaluation_framework.models import kinflated_gamma_poisson_model
from wfa_planning_evaluation_framework.models.dirac_mixture_single_publisher_model import (
    DiracMixtureSinglePublisherModel,
)
from wfa_planning_evaluation_framework.models.goerg_model import GoergModel
from wfa_planning_evaluation_framework.models.reach_point import ReachPoint

GammaPoissonModel = gamma_poisson_model.GammaPoissonModel
KInflatedGammaPoissonModel = kinflated_gamma_poisson_model.KInflatedGammaPoissonModel
KGPDistribution = kinflated_gamma_poisson_model.KInflatedGammaPoissonDistribution


# ---------------------------------------------------------------- reference ----
def nb_pmf(k, alpha, beta):
    """P(X = k), X ~ Poisson(lambda), lambda ~ Gamma(shape alpha, scale beta)."""
    if k < 0:
        return 0.0
    if beta == 0:
        return 1.0 if k == 0 else 0.0
    return math.exp(
        math.lgamma(k + alpha) - math.lgamma(alpha) - math.lgamma(k + 1)
        + k * (math.log(beta) - math.log1p(beta)) - alpha * math.log1p(beta)
    )


def gp_thinned_pmf(k, q, alpha, beta):
    """P(k impressions shown) when a share q of a 1 + Gamma-Poisson inventory is.

    Thinning: the '+1' is shown with probability q, the Gamma-Poisson part stays
    Gamma-Poisson with scale q * beta.
    """
    return (1 - q) * nb_pmf(k, alpha, q * beta) + q * nb_pmf(k - 1, alpha, q * beta)


def gp_kplus(N, q, alpha, beta, F):
    out, below = [], gp_thinned_pmf(0, q, alpha, beta)
    for k in range(1, F + 1):
        out.append(N * (1 - below))
        below += gp_thinned_pmf(k, q, alpha, beta)
    return out


def kgp_pmf(alpha, beta, a, size=1000):
    """Reference pmf (index = inventory) of the k-inflated distribution."""
    a = list(a)
    if sum(a) > 1:
        t = sum(a)
        a = [x / t for x in a]
    n, s = len(a), sum(a)
    t = sum(nb_pmf(i - 1, alpha, beta) for i in range(1, n + 1))
    tail = [nb_pmf(i - 1, alpha, beta) for i in range(n + 1, size)]
    f = 0.0 if t >= 1 else (1 - s) / (1 - t)
    out = [0.0] + a + [f * x for x in tail]
    out[-1] = 1.0 - math.fsum(out[:-1])
    return out


def thin(pmf, p, k):
    """P(k shown) when each impression is shown independently with prob. p."""
    pmf = np.asarray(pmf)
    return float(np.sum(pmf * stats.binom.pmf(k, np.arange(len(pmf)), p)))


# ---------------------------------------------------------------- workloads ----
def training_point(rng, nprng, F=None, N=None, universe=True, spend=None, cpi=None, scale=1):
    """A reach point as a campaign would produce it, and what generated it."""
    N = N or rng.choice([50, 200, 1000, 5000])
    for _ in range(50):
        alpha, beta = rng.uniform(0.3, 4), rng.uniform(0.3, 3)
        q = rng.uniform(0.05, 0.95)
        inv = 1 + nprng.poisson(nprng.gamma(alpha, beta, size=N))
        seen = nprng.binomial(inv, q)
        I = int(seen.sum())
        R = int((seen >= 1).sum())
        if R >= 5 and I > R:
            break
    if scale > 1:  # every user stands for many: audiences of a country or the world
        N, I, R = N * scale, I * scale, R * scale
    F = F or rng.choice([1, 2, 3, 5, 10])
    kp = [int((seen >= k).sum()) * scale for k in range(1, F + 1)]
    has_spend = rng.random() < 0.8 if spend is None else spend
    cpi = (cpi or rng.choice([0.1, 1.0, 0.004, 2.5, 10 ** rng.uniform(-7, 4)])) if has_spend else None
    pt = ReachPoint([I], kp, [I * cpi] if has_spend else None, 2 * N if universe else None)
    return pt, {"N": N, "alpha": alpha, "beta": beta, "q": q, "I": I, "kplus": kp, "cpi": cpi,
                "F": F}


SCALES = [1, 1, 1, 1, 100, 10 ** 4, 10 ** 6]


def goerg(rng, nprng):
    pt, info = training_point(rng, nprng, scale=rng.choice(SCALES))
    c = GoergModel([pt])
    info.update(kind="goerg", bound=c.max_reach, rounding=0)
    return c, pt, info


def gamma_poisson_injected(rng, nprng):
    """A Gamma-Poisson curve whose fit is replaced by given parameters."""
    pt, info = training_point(rng, nprng)
    N = info["N"] * rng.uniform(1, 3)
    # keep the inventory well inside the model's computational frequency range
    alpha, beta = rng.choice([0.3, 1.0, 2.5, 5.0]), rng.choice([0.2, 1.0, 3.0, 8.0])
    imax = N * (1 + alpha * beta)
    fixed = rng.random() < 0.5
    if fixed:
        c = GammaPoissonModel([pt], max_reach=N)
        with mock.patch.object(GammaPoissonModel, "_fit_histogram_fixed_N",
                               return_value=(imax, alpha, beta)):
            c._fit()
    else:
        c = GammaPoissonModel([pt])
        with mock.patch.object(GammaPoissonModel, "_fit_histogram_chi2_distance",
                               return_value=(imax, N, alpha, beta)):
            c._fit()
    info.update(kind="gamma_poisson", bound=N, mN=N, malpha=alpha, mbeta=beta, imax=imax,
                rounding=0)
    return c, pt, info


def kgp_injected(rng, nprng):
    pt, info = training_point(rng, nprng)
    N = info["N"] * rng.uniform(1, 3)
    alpha, beta = rng.choice([0.3, 1.0, 2.5, 5.0]), rng.choice([0.2, 1.0, 3.0, 8.0])
    a = rng.choice([[], [0.5], [0.2, 0.3], [0.1, 0.0, 0.4], [0.7, 0.3]])
    with mock.patch.object(KInflatedGammaPoissonModel, "_fit_point",
                           return_value=(N, KGPDistribution(alpha, beta, a))):
        c = KInflatedGammaPoissonModel([pt])
        c._fit()
    info.update(kind="kinflated", bound=N, mN=N, malpha=alpha, mbeta=beta, a=a, rounding=0)
    return c, pt, info


def kgp_frequency_one(rng, nprng):
    """Really fitted k-inflated curve on a point with only 1+ reach."""
    pt, info = training_point(rng, nprng, F=1, scale=rng.choice(SCALES))
    c = KInflatedGammaPoissonModel([pt])
    c._fit()
    info.update(kind="kinflated_f1", bound=c.max_reach, rounding=0)
    return c, pt, info


def kgp_fitted(rng, nprng):
    pt, info = training_point(rng, nprng, F=rng.choice([2, 3, 5]))
    kmax = rng.choice([0, 2])
    c = KInflatedGammaPoissonModel(
        [pt], kmax=kmax, extrapolation_multiplier=rng.choice([1.0, 1.0, 2.0]))
    c._fit()
    info.update(kind="kinflated_fit", bound=c.max_reach, kmax=kmax, rounding=0)
    return c, pt, info


def gamma_poisson_fitted(rng, nprng):
    pt, info = training_point(rng, nprng, F=rng.choice([2, 3, 5]), N=rng.choice([200, 1000]))
    N = info["N"] * rng.uniform(1.0, 1.5)
    c = GammaPoissonModel([pt], max_reach=N)
    c._fit()
    info.update(kind="gamma_poisson_fit", bound=N, mN=N, rounding=0)
    return c, pt, info


def dirac(rng, nprng):
    pt, info = training_point(rng, nprng, scale=rng.choice(SCALES))
    nc = rng.choice([10, 30, 60])
    c = DiracMixtureSinglePublisherModel([pt], ncomponents=nc)
    if rng.random() < 0.5:
        c._fit()
    info.update(kind="dirac", bound=2 * info["N"], ncomponents=nc, rounding=1)
    return c, pt, info


CHEAP = [goerg, gamma_poisson_injected, kgp_injected, kgp_frequency_one, dirac]
