"""Stand-in for yaspin."""


class _Spinner(object):
    def __init__(self):
        self.text = ""

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass

    def write(self, *args, **kwargs):
        pass

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *args, **kwargs: self

    def ok(self, *args, **kwargs):
        pass

    fail = start = stop = ok


def yaspin(*args, **kwargs):
    return _Spinner()
