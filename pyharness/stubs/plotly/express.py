from ._record import Figure, plain


def __getattr__(name):
    if name.startswith("_"):
        raise AttributeError(name)

    def plot(data_frame=None, **kwargs):
        known = {}
        for key, value in kwargs.items():
            known[key] = data_frame[value] if data_frame is not None and isinstance(value, str) and value in list(data_frame.columns) else value
        title = known.pop("title", None)
        return Figure([dict(known, type=name)], {"title": title} if title else None)
    return plot
