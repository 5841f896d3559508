"""Stand-in for flask: routes are kept and called without a network; a response is what the handler returns."""
import json
import os
import re

RUNNING = []


def send_file(path, **kwargs):
    """The response holds what the file holds when it is sent."""
    with open(path, newline="") as f:
        return dict(kwargs, path=path, content=f.read())


class _Request(object):
    args, data, method = {}, b"", "GET"


request = _Request()
CONVERTERS = {"string": (r"[^/]+", str), "int": (r"\d+", int), "float": (r"\d+\.\d+", float), "path": (r".+", str)}


def jsonify(*args, **kwargs):
    return json.loads(json.dumps(args[0] if args else kwargs))


class NotFound(LookupError):
    """No route takes the request (status 404 or 405)."""


class Flask(object):
    def __init__(self, name, static_folder=None, **kwargs):
        self.name, self.static_folder, self.routes = name, static_folder, []

    def route(self, rule, methods=("GET",), **kwargs):
        kinds, out, at = [], "", 0
        for m in re.finditer(r"<(?:(\w+):)?(\w+)>", rule):
            pattern, cast = CONVERTERS[m.group(1) or "string"]
            out += re.escape(rule[at:m.start()]) + "(?P<%s>%s)" % (m.group(2), pattern)
            kinds.append((m.group(2), cast))
            at = m.end()
        whole = re.compile(out + re.escape(rule[at:]) + "$")

        def deco(fun):
            # a rule with fewer variables is more specific
            self.routes.append((len(kinds), whole, kinds, [m.upper() for m in methods], fun))
            self.routes.sort(key=lambda r: r[0])
            return fun
        return deco

    def ask(self, method, path, args=None, data=b""):
        for _, whole, kinds, methods, fun in self.routes:
            m = whole.match(path)
            if m and method in methods:
                request.args, request.data, request.method = dict(args or {}), data, method
                return fun(**{name: cast(m.group(name)) for name, cast in kinds})
        raise NotFound("%s %s" % (method, path))

    def send_static_file(self, name):
        with open(os.path.join(self.static_folder, name)) as f:
            return f.read()

    def run(self, *args, **kwargs):
        RUNNING.append(self)
