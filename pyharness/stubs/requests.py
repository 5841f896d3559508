"""Stand-in for requests over http.client (plain http)."""
import base64
import http.client
import json as _json
import urllib.parse

from stubgap import guard

_gap = guard("requests")


def __getattr__(name):
    _gap(name)
    raise AttributeError(name)


class RequestException(IOError):
    pass


class Response(object):
    def __init__(self, status, headers, content):
        self.status_code, self.headers, self.content = status, headers, content
        self.reason = http.client.responses.get(status, "")

    @property
    def ok(self):
        return self.status_code < 400

    @property
    def text(self):
        return self.content.decode("utf-8", "replace")

    def json(self):
        return _json.loads(self.text)

    def iter_content(self, chunk_size=1):
        for pos in range(0, len(self.content), chunk_size or len(self.content)):
            yield self.content[pos:pos + chunk_size]

    def raise_for_status(self):
        if self.status_code >= 400:
            raise RequestException(self.status_code)


def request(method, url, params=None, data=None, json=None, headers=None, auth=None, verify=True,
            allow_redirects=True, stream=False, timeout=None, **kwargs):
    parts = urllib.parse.urlsplit(url)
    query = parts.query
    if params:
        extra = urllib.parse.urlencode({k: v for k, v in params.items() if v is not None})
        query = query + "&" + extra if query else extra
    target = urllib.parse.quote(parts.path or "/", safe="/%:=@!$&'()*+,;~-._") + ("?" + query if query else "")
    headers = dict(headers or {})
    if json is not None:
        data = _json.dumps(json)
        headers.setdefault("Content-Type", "application/json")
    if hasattr(data, "read"):
        data = data.read()
    if isinstance(data, dict):
        data = urllib.parse.urlencode(data)
    if isinstance(data, str):
        data = data.encode("utf-8")
    if auth and (auth[0] is not None or auth[1] is not None):
        token = base64.b64encode(("%s:%s" % tuple(auth)).encode("latin1")).decode()
        headers["Authorization"] = "Basic " + token
    conn = http.client.HTTPConnection(parts.hostname, parts.port, timeout=30)
    try:
        conn.request(method, target, body=data, headers=headers)
        res = conn.getresponse()
        return Response(res.status, dict(res.getheaders()), res.read())
    finally:
        conn.close()


def get(url, **kwargs): return request("GET", url, **kwargs)
def put(url, data=None, **kwargs): return request("PUT", url, data=data, **kwargs)
def post(url, data=None, **kwargs): return request("POST", url, data=data, **kwargs)
def delete(url, **kwargs): return request("DELETE", url, **kwargs)
def head(url, **kwargs): return request("HEAD", url, **kwargs)


class Session(object):
    """Requests with common headers and credentials."""

    def __init__(self):
        self.headers, self.params, self.auth, self.verify = {}, {}, None, True

    def request(self, method, url, **kwargs):
        kwargs["headers"] = {**self.headers, **(kwargs.get("headers") or {})}
        kwargs["params"] = {**self.params, **(kwargs.get("params") or {})}
        kwargs["auth"] = kwargs.get("auth") or self.auth
        return request(method, url, **kwargs)

    def get(self, url, **kwargs): return self.request("GET", url, **kwargs)
    def put(self, url, data=None, **kwargs): return self.request("PUT", url, data=data, **kwargs)
    def post(self, url, data=None, **kwargs): return self.request("POST", url, data=data, **kwargs)
    def delete(self, url, **kwargs): return self.request("DELETE", url, **kwargs)
    def head(self, url, **kwargs): return self.request("HEAD", url, **kwargs)
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *args): pass


session = Session
