"""P18: hierarchical kriging equals its two-level kriging posterior"""
from harness.posterior import posterior_cases, posterior_run

RULE = ("a case trains one hierarchical model (random data, noise setting; "
        "scripted or default search) and compares both predictors with the "
        "dense two-level reference at random, corner, training and "
        "near-training points; non-trivial: each (dimension, noise setting, "
        "optimizer, design relation) with a usable tolerance")
MIN = {"points compared": 6000, "low-fidelity points compared": 6000,
       "default optimizer": 60, "noise est": 120, "noise given": 120,
       "noise free": 120}


def cases(tier, rng):
    return posterior_cases(tier, "HK")


def run(spec, mon):
    posterior_run(spec, mon)
