"""In-process transport between VENs and VTNs: replaces aiohttp.ClientSession, so that every request a
client makes is handed to the aiohttp application of the server it addresses, under full control of the
test driver (faults, delays, TLS identities, recording)."""
import asyncio
import aiohttp
from aiohttp import web
from aiohttp.test_utils import make_mocked_request
from aiohttp.streams import StreamReader
from aiohttp.base_protocol import BaseProtocol
from urllib.parse import urlsplit

_REAL_SESSION = aiohttp.ClientSession


class FakeSSL:
    def __init__(self, der):
        self.der = der

    def getpeercert(self, binary_form=False):
        return self.der if binary_form else {}


class FakeTransport:
    def __init__(self, der, secure):
        self.info = {'ssl_object': FakeSSL(der) if secure else None,
                     'sslcontext': object() if secure else None, 'peername': ('127.0.0.1', 1)}

    def get_extra_info(self, key, default=None):
        v = self.info.get(key)
        return default if v is None else v

    def is_closing(self):
        return False


class Reply:
    def __init__(self, status, body, content_type='application/xml'):
        self.status, self.body, self.content_type = status, body, content_type
        self.headers = {'content-type': content_type}
        self.ok, self.reason = status < 400, 'status %d' % status

    async def read(self):
        return self.body

    async def text(self):
        return self.body.decode('utf-8')

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return False

    def release(self):
        pass


class Net:
    """Who answers for a host: async callable(req) -> Reply; may raise"""
    hosts = {}


async def serve(app, path, body, headers=None, secure=False, der=None, method='POST'):
    """Give one HTTP request to an aiohttp application; returns Reply.  Like aiohttp's own server it
    turns an exception that escapes a handler into a 500 reply."""
    loop = asyncio.get_running_loop()
    if isinstance(body, str):
        body = body.encode('utf-8')
    proto = BaseProtocol(loop)
    stream = StreamReader(proto, 2 ** 20, loop=loop)
    stream.feed_data(body)
    stream.feed_eof()
    tr = FakeTransport(der, secure)
    req = make_mocked_request(method, path, headers=headers if headers is not None
                              else {'content-type': 'application/xml'},
                              transport=tr, payload=stream, sslcontext=object() if secure else None, app=app,
                              client_max_size=2 ** 30)
    match = await app.router.resolve(req)
    match.add_app(app)
    req._match_info = match
    try:
        resp = await match.handler(req)
    except web.HTTPException as e:
        return Reply(e.status, (e.text or '').encode(), 'text/plain')
    except asyncio.CancelledError:
        raise
    except Exception as e:
        r = Reply(500, b'500 Internal Server Error\n\nServer got itself in trouble', 'text/plain')
        r.escaped = e
        return r
    b = resp.body
    if b is None:
        b = b''
    if not isinstance(b, (bytes, bytearray)):
        b = resp.text.encode('utf-8')
    return Reply(resp.status, bytes(b), resp.content_type)


class Request:
    def __init__(self, session, url, data, headers):
        self.session, self.url, self.headers = session, url, headers
        self.data = data.encode('utf-8') if isinstance(data, str) else data
        parts = urlsplit(url)
        self.netloc, self.path, self.secure = parts.netloc, parts.path, parts.scheme == 'https'
        self.service = parts.path.rsplit('/', 1)[-1]
        self.owner = None


def connection_error():
    import collections
    key = collections.namedtuple('K', 'host port ssl is_ssl')('vtn', 80, True, False)
    return aiohttp.ClientConnectorError(key, OSError(111, 'Connection refused'))


class _Post:
    def __init__(self, coro_fn):
        self.fn = coro_fn

    def __await__(self):
        return self.fn().__await__()

    async def __aenter__(self):
        return await self.fn()

    async def __aexit__(self, *a):
        return False


class FakeSession:
    def __init__(self, *args, connector=None, headers=None, timeout=None, **kw):
        self.headers = dict(headers or {})
        self.connector = connector
        self.timeout = timeout
        self.closed = False

    def post(self, url, data=None, headers=None, **kw):
        h = dict(self.headers)
        h.update(headers or {})
        req = Request(self, str(url), data, h)

        async def go():
            if self.closed:
                raise RuntimeError('Session is closed')
            if req.netloc not in Net.hosts:
                raise connection_error()
            return await Net.hosts[req.netloc](req)
        return _Post(go)

    def request(self, method, url, **kw):
        assert method.upper() == 'POST', method
        return self.post(url, **kw)

    async def close(self):
        self.closed = True
        c = self.connector
        if c is not None:
            r = c.close()
            if r is not None and hasattr(r, '__await__'):
                await r

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.close()


def install():
    aiohttp.ClientSession = FakeSession
