"""Calling an ASGI application without a server, and a small real HTTP server in front of one."""
import json
import threading
import urllib.parse
from http.server import BaseHTTPRequestHandler, ThreadingHTTPServer


def inline_threads():
    """Worker threads of the web framework (files are read there) would wait in real time: run their functions at once."""
    import anyio.to_thread

    async def run_sync(f, *args, **kw):
        return f(*args)
    anyio.to_thread.run_sync = run_sync


class Reply:
    def __init__(self, status, headers, body):
        self.status, self.headers, self.body = status, headers, body

    @property
    def text(self):
        return self.body.decode("utf-8", "replace")

    def json(self):
        return json.loads(self.body)

    def header(self, name):
        return next((v.decode("latin-1") for k, v in self.headers if k.lower() == name.lower().encode()), None)

    def all(self, name):
        return [v.decode("latin-1") for k, v in self.headers if k.lower() == name.lower().encode()]


async def acall(app, method, target, headers=(), body=b""):
    """One request; target is what stands in the request line: a quoted path and an optional query."""
    raw, _, query = target.partition("?")
    scope = {"type": "http", "asgi": {"version": "3.0", "spec_version": "2.3"}, "http_version": "1.1", "method": method, "scheme": "http",
             "path": urllib.parse.unquote(raw), "raw_path": raw.encode("ascii"), "query_string": query.encode("ascii"), "root_path": "",
             "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in [("host", "testserver"), *headers, *([("content-length", str(len(body)))] if body else [])]],
             "client": ("127.0.0.1", 50000), "server": ("testserver", 80), "state": {}, "extensions": {}}
    out, sent = {"status": None, "headers": [], "body": b""}, [False]

    async def receive():
        if sent[0]:
            return {"type": "http.disconnect"}
        sent[0] = True
        return {"type": "http.request", "body": body, "more_body": False}

    async def send(m):
        if m["type"] == "http.response.start":
            out["status"], out["headers"] = m["status"], list(m.get("headers", ()))
        elif m["type"] == "http.response.body":
            out["body"] += m.get("body", b"")

    try:
        await app(scope, receive, send)
    except Exception as exc:
        # a server answers 500 when the application fails before it answered
        if out["status"] is None:
            r = Reply(500, [(b"content-type", b"text/plain")], b"Internal Server Error")
            r.error = exc
            return r
    return Reply(out["status"], out["headers"], out["body"])


def call(app, method, target, headers=(), body=b""):
    """The same from synchronous code: the application must not wait for anything."""
    co = acall(app, method, target, headers, body)
    try:
        co.send(None)
    except StopIteration as stop:
        return stop.value
    raise RuntimeError("the application waits for something")


class HttpServer:
    """A real server on the loopback network."""

    def __init__(self, app):
        class H(BaseHTTPRequestHandler):
            def handle_any(self):
                n = int(self.headers.get("content-length") or 0)
                body = self.rfile.read(n) if n else b""
                r = call(app, self.command, self.path, [(k, v) for k, v in self.headers.items() if k.lower() not in ("host", "content-length")], body)
                self.send_response(r.status)
                for k, v in r.headers:
                    if k.lower() not in (b"content-length", b"date", b"server"):
                        self.send_header(k.decode("latin-1"), v.decode("latin-1"))
                self.send_header("content-length", str(len(r.body)))
                self.end_headers()
                self.wfile.write(r.body)

            do_GET = do_POST = do_PATCH = do_PUT = do_DELETE = handle_any

            def log_message(self, *a):
                pass

        self.httpd = ThreadingHTTPServer(("127.0.0.1", 0), H)
        self.httpd.daemon_threads = True
        self.url = f"http://127.0.0.1:{self.httpd.server_address[1]}"
        self.t = threading.Thread(target=self.httpd.serve_forever, kwargs=dict(poll_interval=0.02), daemon=True)
        self.t.start()

    def close(self):
        self.httpd.shutdown()
        self.httpd.server_close()
        self.t.join(10)
