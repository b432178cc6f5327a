"""Stand-in for simulations.set_generator_base."""


class SetGeneratorBase:
    def __iter__(self):
        raise NotImplementedError()
