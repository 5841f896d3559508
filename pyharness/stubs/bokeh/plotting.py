import json

import numpy as np
import stubgap

__getattr__ = stubgap.guard("bokeh.plotting")
_output = {}


def plain(obj):
    if isinstance(obj, Figure) or hasattr(type(obj), "bokeh"):
        return obj.bokeh()
    if isinstance(obj, dict):
        return {str(k): plain(v) for k, v in obj.items()}
    if isinstance(obj, np.ndarray):
        return plain(obj.tolist())
    if isinstance(obj, (list, tuple, range, set)) or hasattr(obj, "tolist"):
        return [plain(x) for x in (obj.tolist() if hasattr(obj, "tolist") else obj)]
    if isinstance(obj, (int, float, str, bool, type(None))):
        return obj
    return str(obj)


class _Legend(object):
    location = click_policy = orientation = label_text_font_size = None


class _Part(object):
    """An axis, a grid or a range, whose looks do not matter here."""


class Figure(object):
    def __init__(self, **kwargs):
        for name in "x_range y_range xaxis yaxis xgrid ygrid title toolbar".split():
            setattr(self, name, kwargs.get(name) if hasattr(kwargs.get(name), "__dict__") else _Part())
        self.options, self.drawn, self.renderers, self.legend = kwargs, [], [], _Legend()

    def bokeh(self):
        return {"kind": "figure", "options": plain({k: v for k, v in self.options.items() }),
                "drawn": plain(self.drawn), "renderers": plain(self.renderers)}

    def _draw(kind, *names):
        def fun(self, *args, **kwargs):
            glyph = dict(zip(names, args))
            glyph.update(kwargs, kind=kind)
            self.drawn.append(glyph)
            return glyph
        return fun
    line, vbar, quad = _draw("line", "x", "y"), _draw("vbar", "x", "width", "top", "bottom"), _draw("quad", "left", "right", "top", "bottom")
    hbar, circle, scatter = _draw("hbar", "y", "height", "right", "left"), _draw("circle", "x", "y"), _draw("scatter", "x", "y")
    wedge, vbar_stack = _draw("wedge", "x", "y"), _draw("vbar_stack", "stackers")

    def add_layout(self, part, *place):
        self.renderers.append(part)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        stubgap.gap("bokeh.plotting.Figure." + name)


def figure(**kwargs):
    return Figure(**kwargs)


def output_file(path, title=None, **kwargs):
    _output.update(path=str(path), title=title)


def save(obj, filename=None, **kwargs):
    with open(filename or _output["path"], "w") as f:
        json.dump({"title": _output.get("title"), "page": plain(obj)}, f)


def show(obj, **kwargs):
    save(obj)
