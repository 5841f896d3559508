class exceptions(object):
    class InsecureRequestWarning(Warning):
        pass


class Timeout(object):
    DEFAULT_TIMEOUT = None

    def __init__(self, *args, **kwargs):
        pass


class Retry(object):
    def __init__(self, *args, **kwargs):
        pass


class PoolManager(object):
    def __init__(self, *args, **kwargs):
        pass


def disable_warnings(*args, **kwargs):
    pass
