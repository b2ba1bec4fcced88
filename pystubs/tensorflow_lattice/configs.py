"""Stand-in: configurations keep what they are given."""


class _Config:
    def __init__(self, **kw):
        self.kw = kw

    def __getattr__(self, n):
        if n.startswith("__") or n == "kw":
            raise AttributeError(n)
        return self.kw.get(n)


class FeatureConfig(_Config):
    pass


class RegularizerConfig(_Config):
    pass


class CalibratedLinearConfig(_Config):
    pass


class CalibratedLatticeEnsembleConfig(_Config):
    pass


class CalibratedLatticeConfig(_Config):
    pass


def apply_updates(config, updates):
    for k, v in updates:
        config.kw[k] = v
