"""Stand-in for tqdm: hands the iterable through."""


class tqdm(object):
    def __init__(self, iterable=None, *args, **kwargs):
        self.iterable = iterable
        self.n = 0

    def __iter__(self):
        for elm in self.iterable:
            yield elm

    def __len__(self):
        return len(self.iterable)

    def reset(self, total=None):
        self.n, self.total = 0, total

    def update(self, n=1):
        self.n += n

    def set_description(self, *args, **kwargs):
        pass

    def write(self, *args, **kwargs):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def trange(*args, **kwargs):
    return tqdm(range(*args))
