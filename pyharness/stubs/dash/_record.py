"""Components keep what they are given."""


class Component(object):
    def __init__(self, kind, args, kwargs):
        self.kind, self.args, self.kwargs = kind, args, kwargs

    def parts(self):
        return list(self.args) + list(self.kwargs.values())


def walk(obj):
    """Every component below obj, in order."""
    if isinstance(obj, Component):
        yield obj
        for part in obj.parts():
            yield from walk(part)
    elif isinstance(obj, (list, tuple)):
        for part in obj:
            yield from walk(part)


def kind(name):
    def build(*args, **kwargs):
        return Component(name, args, kwargs)
    return build


def library(space, module):
    made = {}

    def __getattr__(name):
        if name.startswith("__"):
            raise AttributeError(name)
        return made.setdefault(name, kind(module + "." + name))
    space["__getattr__"] = __getattr__
