class _Any(object):
    def __getattr__(self, name):
        return name


Spinners = _Any()
