"""P20: co-kriging equals the autoregressive two-fidelity posterior"""
from harness.posterior import posterior_cases, posterior_run

RULE = ("a case trains one co-kriging model (random data, noise setting, "
        "scale factor; scripted or default search) and compares both "
        "predictors with the dense joint-Gaussian reference at random, "
        "corner, training and near-training points; non-trivial: each "
        "(dimension, noise setting, optimizer, design relation) with a "
        "usable tolerance")
MIN = {"points compared": 6000, "low-fidelity points compared": 6000,
       "default optimizer": 50, "noise est": 120, "noise given": 120,
       "noise free": 120}


def cases(tier, rng):
    return posterior_cases(tier, "CK")


def run(spec, mon):
    posterior_run(spec, mon)
