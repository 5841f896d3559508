def init(*args, **kwargs):
    pass
