"""Rule obligations that are not reference comparisons (panic freedom, termination, effects)."""
REG = {}


def jobs(prop, tier):
    return sorted(REG.get(prop, {}))


def run(prop, job, repo, seed, tier):
    return REG[prop][job](repo, seed, tier)
