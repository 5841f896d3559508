from .plotting import plain


class Box(object):
    def __init__(self, kind, children):
        self.kind = kind
        self.children = list(children[0]) if len(children) == 1 and isinstance(children[0], (list, tuple)) else list(children)

    def bokeh(self):
        return {"kind": self.kind, "children": plain(self.children)}


def column(*children, **kwargs):
    return Box("column", children)


def row(*children, **kwargs):
    return Box("row", children)
