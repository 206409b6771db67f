"""A stand-in for the network below the requests library: every HTTP request of
the process is answered by a function of the prepared request; nothing leaves."""
import datetime as _dt
import os
for _v in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
    os.environ.pop(_v, None)
import requests
from requests.adapters import HTTPAdapter

REASONS = {200: "OK", 204: "No Content", 206: "Partial Content", 302: "Found", 400: "Bad Request", 403: "Forbidden", 404: "Not Found", 500: "Internal Server Error",
           502: "Bad Gateway", 503: "Service Unavailable"}


class Net:
    def __init__(self):
        self.seen = []
        self.answer = lambda req: (404, "text/plain", b"")

    def send(self, adapter, request, **kw):
        self.seen.append(request)
        a = self.answer(request)
        if isinstance(a, Exception):
            raise a
        status, ctype, content = a
        r = requests.Response()
        r.status_code, r.reason, r.url, r.request = status, REASONS.get(status, ""), request.url, request
        r.headers["Content-Type"] = ctype
        r._content = content
        r._content_consumed = True
        r.encoding = "utf-8"
        r.elapsed = _dt.timedelta(0)
        return r

    def install(self):
        net = self
        HTTPAdapter.send = lambda adapter, request, **kw: net.send(adapter, request, **kw)
        return self


NET = Net().install()
