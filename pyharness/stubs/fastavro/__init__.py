"""Stand-in for fastavro: reads and writes the Avro object container format (no compression)."""
import io
import json
import os
import struct

from stubgap import guard

_gap = guard("fastavro")


def __getattr__(name):
    _gap(name)
    raise AttributeError(name)

MAGIC = b"Obj\x01"
_DEFAULT_SYNC = 16


class SchemaParseException(Exception):
    pass


def parse_schema(schema, *args, **kwargs):
    _check(schema, set())
    return schema


PRIMITIVES = ("null", "boolean", "int", "long", "float", "double", "bytes", "string")


def _check(schema, names):
    if isinstance(schema, list):
        for s in schema:
            _check(s, names)
        return
    if isinstance(schema, str):
        if schema not in PRIMITIVES and schema not in names:
            raise SchemaParseException("unknown type %r" % schema)
        return
    kind = schema["type"]
    if kind == "array":
        _check(schema["items"], names)
    elif kind == "map":
        _check(schema["values"], names)
    elif kind == "record":
        name = schema.get("namespace", "") + "." + schema["name"]
        if name in names:
            raise SchemaParseException("redefined named type: " + name)
        names.add(name)
        names.add(schema["name"])
        for field in schema["fields"]:
            _check(field["type"], names)
    elif isinstance(kind, (dict, list)):
        _check(kind, names)
    elif kind not in PRIMITIVES:
        raise SchemaParseException("unknown type %r" % (kind,))


def _write_long(fo, n):
    n = int(n)
    if not -(1 << 63) <= n < (1 << 63):
        raise OverflowError("int too big to convert")
    n = (n << 1) ^ (n >> 63)
    while n & ~0x7F:
        fo.write(bytes([(n & 0x7F) | 0x80]))
        n >>= 7
    fo.write(bytes([n]))


def _read_long(fo):
    shift = value = 0
    while True:
        b = fo.read(1)
        if not b:
            raise EOFError
        value |= (b[0] & 0x7F) << shift
        if not b[0] & 0x80:
            return (value >> 1) ^ -(value & 1)
        shift += 7


def _write_bytes(fo, data):
    _write_long(fo, len(data))
    fo.write(data)


def _read_bytes(fo):
    return fo.read(_read_long(fo))


def _matches(datum, schema):
    kind = schema["type"] if isinstance(schema, dict) else schema
    if isinstance(kind, (dict, list)):
        return _matches(datum, kind)
    return {"null": datum is None, "boolean": isinstance(datum, bool),
            "int": isinstance(datum, int), "long": isinstance(datum, int),
            "float": isinstance(datum, (int, float)), "double": isinstance(datum, (int, float)),
            "bytes": isinstance(datum, bytes), "string": isinstance(datum, str),
            "array": isinstance(datum, (list, tuple)), "map": isinstance(datum, dict),
            "record": isinstance(datum, dict)}.get(kind, True)


def _write(fo, datum, schema):
    if isinstance(schema, list):
        for n, s in enumerate(schema):
            if _matches(datum, s):
                _write_long(fo, n)
                return _write(fo, datum, s)
        raise ValueError("%r is in no branch of %r" % (datum, schema))
    kind = schema["type"] if isinstance(schema, dict) else schema
    if isinstance(kind, (dict, list)):
        return _write(fo, datum, kind)
    if kind == "null":
        return
    if kind == "boolean":
        fo.write(b"\x01" if datum else b"\x00")
    elif kind in ("int", "long"):
        _write_long(fo, datum)
    elif kind == "float":
        fo.write(struct.pack("<f", datum))
    elif kind == "double":
        fo.write(struct.pack("<d", datum))
    elif kind == "bytes":
        _write_bytes(fo, datum)
    elif kind == "string":
        _write_bytes(fo, datum.encode("utf-8"))
    elif kind == "array":
        if len(datum):
            _write_long(fo, len(datum))
            for x in datum:
                _write(fo, x, schema["items"])
        _write_long(fo, 0)
    elif kind == "map":
        if len(datum):
            _write_long(fo, len(datum))
            for k, v in datum.items():
                _write_bytes(fo, k.encode("utf-8"))
                _write(fo, v, schema["values"])
        _write_long(fo, 0)
    elif kind == "record":
        for field in schema["fields"]:
            name = field["name"]
            if name not in datum and "default" not in field and not _matches(None, field["type"]):
                raise ValueError("no value and no default for %s" % name)
            _write(fo, datum.get(name, field.get("default")), field["type"])


def _read(fo, schema):
    if isinstance(schema, list):
        return _read(fo, schema[_read_long(fo)])
    kind = schema["type"] if isinstance(schema, dict) else schema
    if isinstance(kind, (dict, list)):
        return _read(fo, kind)
    if kind == "null":
        return None
    if kind == "boolean":
        return fo.read(1) == b"\x01"
    if kind in ("int", "long"):
        return _read_long(fo)
    if kind == "float":
        return struct.unpack("<f", fo.read(4))[0]
    if kind == "double":
        return struct.unpack("<d", fo.read(8))[0]
    if kind == "bytes":
        return _read_bytes(fo)
    if kind == "string":
        return _read_bytes(fo).decode("utf-8")
    if kind in ("array", "map"):
        out = [] if kind == "array" else {}
        while True:
            n = _read_long(fo)
            if n == 0:
                return out
            if n < 0:
                n = -n
                _read_long(fo)
            for _ in range(n):
                if kind == "array":
                    out.append(_read(fo, schema["items"]))
                else:
                    key = _read_bytes(fo).decode("utf-8")
                    out[key] = _read(fo, schema["values"])
    if kind == "record":
        return {field["name"]: _read(fo, field["type"]) for field in schema["fields"]}


def _read_header(fo):
    if fo.read(4) != MAGIC:
        raise ValueError("cannot read header - is it an avro file?")
    meta = {}
    while True:
        n = _read_long(fo)
        if n == 0:
            break
        for _ in range(n):
            key = _read_bytes(fo).decode("utf-8")
            meta[key] = _read_bytes(fo)
    return json.loads(meta["avro.schema"]), fo.read(16)


def _appendable(fo):
    if fo.seekable() and fo.tell() != 0:
        if fo.readable():
            return True
        raise ValueError('When appending to an avro file you must use the "a+" mode, not just "a"')
    return False


def writer(fo, schema, records, codec="null", *args, **kwargs):
    if isinstance(records, dict):
        raise ValueError('"records" argument should be an iterable, not dict')
    if _appendable(fo):
        fo.seek(0)
        schema, sync = _read_header(fo)
        fo.seek(0, 2)
    else:
        sync = os.urandom(16)
        fo.write(MAGIC)
        _write_long(fo, 2)
        for key, value in (("avro.schema", json.dumps(schema).encode()), ("avro.codec", b"null")):
            _write_bytes(fo, key.encode())
            _write_bytes(fo, value)
        _write_long(fo, 0)
        fo.write(sync)
    block, n = io.BytesIO(), 0

    def flush():
        nonlocal block, n
        if n:
            _write_long(fo, n)
            _write_bytes(fo, block.getvalue())
            fo.write(sync)
        block, n = io.BytesIO(), 0
    for record in records:
        _write(block, record, schema)
        n += 1
        if block.tell() >= 1000 * 16:
            flush()
    flush()
    fo.flush()


class reader(object):
    def __init__(self, fo, *args, **kwargs):
        self._fo = fo
        self.schema, self._sync = _read_header(fo)
        self.writer_schema = self.schema
        self._iter = self._records()

    def _records(self):
        while True:
            try:
                n = _read_long(self._fo)
            except EOFError:
                return
            block = io.BytesIO(_read_bytes(self._fo))
            if self._fo.read(16) != self._sync:
                raise ValueError("expected sync marker not found")
            for _ in range(n):
                yield _read(block, self.schema)

    def __iter__(self):
        return self._iter

    def __next__(self):
        return next(self._iter)

    next = __next__
