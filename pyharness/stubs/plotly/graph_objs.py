from ._record import Figure, trace


def Layout(*args, **kwargs):
    return dict(kwargs)


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)
    return trace(name.lower())
