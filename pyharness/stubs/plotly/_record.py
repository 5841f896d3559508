import json

import numpy as np
import pandas as pd

SHOWN = []


def plain(obj):
    if isinstance(obj, dict):
        return {str(k): plain(v) for k, v in obj.items()}
    if isinstance(obj, pd.Series):
        return [plain(x) for x in obj.tolist()]
    if isinstance(obj, np.ndarray):
        return plain(obj.tolist())
    if isinstance(obj, (list, tuple, range, set)):
        return [plain(x) for x in obj]
    if isinstance(obj, (int, float, str, bool, type(None))):
        return obj
    if isinstance(obj, Figure):
        return {"data": obj.data, "layout": obj.layout}
    return str(obj)


class Figure(object):
    def __init__(self, data=(), layout=None):
        data = [data] if isinstance(data, dict) else list(data)
        self.data = [plain(x) for x in data]
        self.layout = plain(dict(layout or {}))

    def add_trace(self, trace, row=None, col=None, **_):
        trace = plain(trace)
        if row is not None:
            trace = dict(trace, row=row, col=col)
        self.data.append(trace)
        return self

    def add_traces(self, traces, **_):
        for trace in traces:
            self.add_trace(trace)
        return self

    def update_layout(self, *args, **kwargs):
        for new in args + (kwargs,):
            self.layout.update(plain(dict(new)))
        return self

    def __getattr__(self, name):
        if name.startswith("update_") or name.startswith("add_"):
            return lambda *args, **kwargs: self
        raise AttributeError(name)

    def write_html(self, path, **_):
        with open(str(path), "w") as f:
            json.dump({"data": self.data, "layout": self.layout}, f)

    def to_html(self, **_):
        return json.dumps({"data": self.data, "layout": self.layout})

    write_image = write_html

    def show(self, **_):
        SHOWN.append({"data": self.data, "layout": self.layout})


def trace(kind):
    def build(*args, **kwargs):
        return dict(kwargs, type=kind)
    return build
