"""
The web application in this process, without sockets or threads: requests go
straight to the WSGI application that the real start-up code mounts.
"""

import contextlib
import io
import logging
from urllib.parse import urlencode, urlsplit

import mc.env  # noqa: F401
import cherrypy

from hyperreal import server


class _NoEngine:
    """Stands in for the calls that would open sockets and wait."""

    def __getattr__(self, name):
        return _NoEngine()

    def __call__(self, *args, **kwargs):
        return None


@contextlib.contextmanager
def application(index_server):
    """The mounted application as a function (method, url, form) -> Response."""
    engine, config = cherrypy.engine, dict(cherrypy.config)
    apps = dict(cherrypy.tree.apps)
    cherrypy.tree.apps.clear()
    patched = {}
    for name in ("start", "wait", "block"):
        patched[name] = getattr(engine, name)
        setattr(engine, name, lambda *a, **k: None)
    subscribe = engine.signals.subscribe
    engine.signals.subscribe = lambda *a, **k: None
    try:
        server.launch_web_server(index_server, port=0)
        for log in (cherrypy.log.access_log, cherrypy.log.error_log):
            log.setLevel(logging.CRITICAL + 1)
            log.propagate = False
        cherrypy.log.screen = False
        apps_now = list(cherrypy.tree.apps.values())
        for app in apps_now:
            app.log.screen = False
            for log in (app.log.access_log, app.log.error_log):
                log.setLevel(logging.CRITICAL + 1)
        yield ask
    finally:
        for name, f in patched.items():
            setattr(engine, name, f)
        engine.signals.subscribe = subscribe
        cherrypy.tree.apps.clear()
        cherrypy.tree.apps.update(apps)
        cherrypy.config.clear()
        cherrypy.config.update(config)


class Response:
    def __init__(self, status, headers, body):
        self.status = int(status.split()[0])
        self.headers = {k.lower(): v for k, v in headers}
        self.raw = body
        self.error = None

    @property
    def text(self):
        return self.raw.decode("utf-8")

    @property
    def location(self):
        """Path and query a redirect leads to."""
        where = self.headers.get("location")
        if where is None:
            return None
        parts = urlsplit(where)
        return parts.path + ("?" + parts.query if parts.query else "")


def ask(method, url, form=None, steps=None):
    """
    One request. form: list of (name, value) pairs sent as the body of a POST.
    steps: stop reading the response after so many pieces, as a client that
    hangs up does.
    """
    path, _, query = url.partition("?")
    body = b"" if form is None else urlencode(form).encode()
    environ = {
        "REQUEST_METHOD": method,
        "SCRIPT_NAME": "",
        "PATH_INFO": path,
        "QUERY_STRING": query,
        "SERVER_NAME": "localhost",
        "SERVER_PORT": "80",
        "SERVER_PROTOCOL": "HTTP/1.1",
        "HTTP_HOST": "localhost",
        "REMOTE_ADDR": "127.0.0.1",
        "REMOTE_PORT": "1",
        "wsgi.version": (1, 0),
        "wsgi.url_scheme": "http",
        "wsgi.input": io.BytesIO(body),
        "wsgi.errors": io.StringIO(),
        "wsgi.multithread": False,
        "wsgi.multiprocess": False,
        "wsgi.run_once": False,
    }
    if form is not None:
        environ["CONTENT_TYPE"] = "application/x-www-form-urlencoded"
        environ["CONTENT_LENGTH"] = str(len(body))
    started = []

    def start_response(status, headers, exc_info=None):
        started[:] = [status, headers]
        return None

    result = cherrypy.tree(environ, start_response)
    pieces = []
    error = None
    try:
        for n, piece in enumerate(result):
            if steps is not None and n >= steps:
                break
            pieces.append(piece)
    except Exception as e:
        error = e
    finally:
        if hasattr(result, "close"):
            result.close()
    response = Response(started[0], started[1], b"".join(pieces))
    response.error = error
    return response
