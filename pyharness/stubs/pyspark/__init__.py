"""Stand-in for the part of Spark the stages use: a local parallelize/map/collect."""
import pickle

from stubgap import guard

_gap, _gap_rdd, _gap_context = guard("pyspark"), guard("RDD"), guard("SparkContext")


def __getattr__(name):
    _gap(name)
    raise AttributeError(name)


class SparkConf(object):
    def __init__(self):
        self.values = {}

    def setMaster(self, value):
        self.values['master'] = value

    def setAppName(self, value):
        self.values['app'] = value

    def set(self, name, value):
        self.values[name] = value

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *args, **kwargs: self


class _RDD(object):
    def __init__(self, data):
        self._data = data

    def __getattr__(self, name):
        _gap_rdd(name)
        raise AttributeError(name)

    def map(self, function):
        return _RDD([pickle.loads(pickle.dumps(function(elm))) for elm in self._data])

    def flatMap(self, function):
        return _RDD([x for elm in self._data for x in function(elm)])

    def collect(self):
        return list(self._data)


class SparkContext(object):
    parallelism = 4
    current = None

    def __init__(self, conf=None):
        self.conf = conf

    def __getattr__(self, name):
        _gap_context(name)
        raise AttributeError(name)

    @property
    def defaultParallelism(self):
        return SparkContext.parallelism

    @classmethod
    def getOrCreate(cls, conf=None):
        cls.current = cls(conf)
        return cls.current

    def parallelize(self, data, slices=None):
        return _RDD(pickle.loads(pickle.dumps(list(data))))
