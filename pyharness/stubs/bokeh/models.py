from .plotting import plain


class Model(object):
    def __init__(self, *args, **kwargs):
        self.args, self.options = args, kwargs

    def bokeh(self):
        return {"kind": type(self).__name__, "args": plain(list(self.args)), "options": plain(self.options)}


class Span(Model):
    pass


class LabelSet(Model):
    pass


class ColumnDataSource(Model):
    def __init__(self, data=None, **kwargs):
        super().__init__(data=data if data is not None else kwargs)
        self.data = data if data is not None else kwargs


class BoxZoomTool(Model):
    pass


class PanTool(Model):
    pass


class ResetTool(Model):
    pass


class SaveTool(Model):
    pass


class FactorRange(Model):
    def __init__(self, *args, **kwargs):
        super().__init__(*args, **kwargs)
        self.factors = list(kwargs.get("factors", args))
        self.range_padding = self.start = self.end = None
