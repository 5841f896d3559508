class _Codes(object):
    def __getattr__(self, name):
        return ""


Fore = Back = Style = _Codes()


def init(*args, **kwargs):
    pass
