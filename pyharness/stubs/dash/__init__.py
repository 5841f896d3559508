"""Stand-in for Dash: an application keeps its layout, callbacks and routes; nothing is served."""
from . import dependencies
from .dependencies import Input, Output, State
from ._record import Component, walk

APPS = []


class Falsy(list):
    """What Dash gives as trigger when a page is opened."""

    def __bool__(self):
        return False


class Context(object):
    triggered = Falsy([{"prop_id": ".", "value": None}])


callback_context = ctx = Context()


class no_update(object):
    pass


class Server(object):
    def __init__(self):
        self.routes = {}

    def route(self, path, **_):
        def deco(fun):
            self.routes[path] = fun
            return fun
        return deco


class Dash(object):
    def __init__(self, name=None, **kwargs):
        self.name, self.options, self.server, self.layout, self.callbacks, self.served = name, kwargs, Server(), None, [], None
        APPS.append(self)

    def callback(self, *args, **_):
        outs, ins, states, single = [], [], [], None
        for arg in args:
            if isinstance(arg, Output) and single is None:
                single = True
            for dep in arg if isinstance(arg, (list, tuple)) else [arg]:
                (outs if isinstance(dep, Output) else ins if isinstance(dep, Input) else states).append(dep.key)

        def deco(fun):
            self.callbacks.append({"outputs": outs, "inputs": ins, "states": states, "single": bool(single), "run": fun})
            return fun
        return deco

    def run_server(self, **kwargs):
        self.served = kwargs

    run = run_server
