"""Replay histories of endpoints against a server on the loopback: rec_http.py OUT HISTORIES"""
import os, sys
for _v in ("http_proxy", "https_proxy", "HTTP_PROXY", "HTTPS_PROXY", "all_proxy", "ALL_PROXY"):
    os.environ.pop(_v, None)
os.environ["NO_PROXY"] = "*"
import base64, http.client, re, socket, threading, urllib.parse
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer
from hlib import *

REASON = http.client.responses
state = dict(reply="ok", tag="", seen=[], sent=b"")
MSG = {"s401html": "Unauthorized", "s404html": "Not Found", "s503html": "Service Unavailable", "movedbad": "nothing here"}


class Handler(BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.1"
    wbufsize = 1 << 16
    disable_nagle_algorithm = True

    def log_message(self, *a):
        pass

    def handle_any(self):
        u = urllib.parse.urlsplit(self.path)
        auth = self.headers.get("Authorization", "")
        if auth.startswith("Basic "):
            auth = base64.b64decode(auth[6:]).decode()
        agent = self.headers.get("User-Agent", "")
        reply, moved = state["reply"], u.path == "/moved"
        state["seen"].append(dict(method=self.command, path=u.path, moved=moved, query=[list(x) for x in urllib.parse.parse_qsl(u.query, keep_blank_values=True)],
                                  auth=auth, agent="pyrtlib" in agent and state["version"] in agent,
                                  cookies=sorted(x.split("=")[0].strip() for x in self.headers.get("Cookie", "").split(";") if x.strip())))
        head = []
        if reply == "drop":
            self.close_connection = True
            self.connection.shutdown(socket.SHUT_RDWR)
            return
        body, status, ctype = b"<p>page</p>\n" * 3 + bytes(range(256)), 200, "application/octet-stream"
        if reply == "empty":
            body = b""
        elif reply == "html":
            ctype = "text/html; charset=utf-8"
        elif reply == "cookie":
            head.append(("Set-Cookie", state["tag"] + "=1; Path=/"))
        elif reply in ("movedok", "movedbad") and not moved:
            status, body = 302, b""
            head.append(("Location", "/moved"))
        elif reply == "movedbad":
            status, body, ctype = 404, b"nothing here", "text/plain"
        elif reply[0] == "s" and reply[1:4].isdigit():
            status = int(reply[1:4])
            html = reply.endswith("html")
            body, ctype = (f"<html><h1>long page of {reply}</h1></html>" if html else "reply " + reply).encode(), "text/html" if html else "text/plain"
            if status in (204, 304):
                body = b""
        state["sent"] = body
        self.send_response(status, REASON[status])
        self.send_header("Content-Type", ctype)
        for h in head:
            self.send_header(*h)
        if reply == "cut":
            self.send_header("Content-Length", str(len(body) + 100))
            self.close_connection = True
        elif status not in (204, 304):
            self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        self.wfile.write(body)
        self.wfile.flush()
        if reply == "cut":
            self.connection.shutdown(socket.SHUT_RDWR)

    do_GET = do_POST = do_HEAD = do_PUT = handle_any


class Quiet(ThreadingHTTPServer):
    daemon_threads = True

    def handle_error(self, *a):
        pass


root = ""


def serve():
    """A server of this process."""
    global root
    if not root:
        srv = Quiet(("127.0.0.1", 0), Handler)
        threading.Thread(target=srv.serve_forever, daemon=True).start()
        root = f"http://127.0.0.1:{srv.server_port}"


import pyrtlib.apiwebservices.webservices as W
from pyrtlib.version import __version__
state["version"] = __version__


def options(o):
    kw = {}
    if o["auth"]:
        kw["auth"] = tuple(o["auth"].split(":"))
    if o["params"]:
        kw["params"] = {k: v for k, v in o["params"]}
    return kw


def replay(h):
    serve()
    W.session_manager.set_session_options()
    eps, evs = [], []
    for e in h:
        e = dict(e)
        isreq = "reply" in e
        state.update(reply=e.get("reply", "ok"), tag=e.get("tag", ""), seen=[], sent=b"")
        q = {k: v for k, v in e["query"]} if e.get("query") else None
        r, err = None, None
        try:
            if e["op"] == "options":
                W.session_manager.set_session_options(**options(e["opts"]))
            elif e["op"] == "open":
                eps.append(W.HTTPEndPoint(root + e["base"]["dir"] + ("/" if e["base"]["slash"] else "")))
            elif e["op"] == "close":
                eps[e["ep"] - 1]._session.close()
            elif e["op"] == "manager":      # another manager has options of its own
                m = W.HTTPSessionManager()
                m.set_session_options(auth=("eve", "e"))
                m.create_session().close()
            elif e["op"] == "path":
                p = eps[e["ep"] - 1]
                r = p._get_path(e["path"], q) if q else p._get_path(e["path"])
            elif e["op"] == "query":
                r = eps[e["ep"] - 1]._get_query(q or {})
            elif e["op"] == "get":
                r = eps[e["ep"] - 1]._get(root + "/elsewhere/" + e["path"], q) if q else eps[e["ep"] - 1]._get(root + "/elsewhere/" + e["path"])
            elif e["op"] == "urlopen":
                r = W.session_manager.urlopen(root + "/elsewhere/" + e["path"], params=q) if q else W.session_manager.urlopen(root + "/elsewhere/" + e["path"])
            body = r.read() if e["op"] == "urlopen" else r.content if r is not None else b""
        except Exception as x:
            err, body = x, b""
        text = "" if err is None else str(err)
        msg = MSG.get(e.get("reply"), "" if e.get("reply") in ("s204", "s304") else "reply " + str(e.get("reply")))
        e.update(isreq=isreq, seen=state["seen"], exc="" if err is None else exc_name(err), ishttp=isinstance(err, W.HTTPError), words=re.findall(r"\d+", re.sub(r"https?://\S+", "", text)),
                 hasmsg=msg in text, body=body.hex() if len(body) < 40 else hash_(body), sent=state["sent"].hex() if len(state["sent"]) < 40 else hash_(state["sent"]))
        e.setdefault("reply", "")
        evs.append(e)
    W.session_manager.set_session_options()
    return evs


def hash_(b):
    import hashlib
    return hashlib.sha1(b).hexdigest()


out = Out(sys.argv[1])
for evs in parallel(replay, [json.loads(line) for line in open(sys.argv[2])]):
    out.put(evs=evs, label="endpoints")
out.close()
