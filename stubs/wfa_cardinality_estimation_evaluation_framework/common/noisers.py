"""Stand-in for common.noisers."""


class LaplaceMechanism:
    def __init__(self, *args, **kwargs):
        pass

    def __call__(self, x):
        return x
