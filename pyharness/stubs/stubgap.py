"""What a stand-in library does when it is asked for something it does not have: the case tells nothing."""
import os


class StubGap(BaseException):
    """Not an Exception, so that the code under test cannot take it for an answer."""


def gap(name):
    log = os.environ.get("STUB_GAP")
    if log:
        with open(log, "a") as f:
            f.write(name + "\n")
    raise StubGap(name)


def guard(library, names=None):
    """A module's or class's __getattr__ for the names (all public ones by default) it does not have."""
    wanted = set(names.split()) if names else None

    def missing(name):
        if not name.startswith("_") and (wanted is None or name in wanted):
            gap(library + "." + name)
    return missing
