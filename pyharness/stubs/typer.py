"""Stand-in for typer: commands with a list of arguments and options with defaults."""
import enum
import inspect
import sys


class Typer(object):
    def __init__(self, *args, **kwargs):
        self.commands = {}

    def command(self, name=None, **_):
        def deco(fun):
            self.commands[name or fun.__name__.replace("_", "-")] = fun
            return fun
        return deco

    def __call__(self, prog_name=None, **_):
        args = sys.argv[1:]
        fun = self.commands[args.pop(0)] if len(self.commands) > 1 else next(iter(self.commands.values()))
        params = inspect.signature(fun).parameters
        values, rest = {}, []
        while args:
            arg = args.pop(0)
            if not arg.startswith("--"):
                rest.append(arg)
                continue
            key = arg[2:].replace("-", "_")
            if key not in params and key.startswith("no_"):
                values[key[3:]] = False
                continue
            default = params[key].default
            if isinstance(default, bool):
                values[key] = True
            elif isinstance(default, enum.Enum):
                values[key] = type(default)(args.pop(0))
            else:
                values[key] = type(default)(args.pop(0))
        for name, param in params.items():
            if param.default is inspect.Parameter.empty:
                if "List" in str(param.annotation) or "list" in str(param.annotation):
                    values[name], rest = rest, []
                else:
                    values[name] = rest.pop(0)
        fun(**values)
        sys.exit(0)
