"""Stand-in for apache_beam.options.pipeline_options."""


class PipelineOptions:
    def __init__(self, flags=None, **kwargs):
        # the real class lists every known option, unset ones as None
        self._options = {"runner": None, "temp_location": None, "region": None, "project": None}
        for flag in flags or []:
            if flag.startswith("--") and "=" in flag:
                key, value = flag[2:].split("=", 1)
                self._options[key] = value
        self._options.update(kwargs)

    @classmethod
    def from_dictionary(cls, options):
        return cls(**options)

    def get_all_options(self, *args, **kwargs):
        return dict(self._options)
