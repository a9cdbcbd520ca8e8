"""a web in which the name of the host says what happens"""
import types  # noqa


class RequestException(IOError):
    pass


class ConnectionError(RequestException):  # noqa
    pass


class HTTPError(RequestException):
    pass


class Timeout(RequestException):
    pass


class ConnectTimeout(ConnectionError, Timeout):
    pass


class ReadTimeout(Timeout):
    pass


class TooManyRedirects(RequestException):
    pass


class SSLError(ConnectionError):
    pass


class InvalidURL(RequestException, ValueError):
    pass


class MissingSchema(RequestException, ValueError):
    pass


exceptions = types.SimpleNamespace(**{k: v for k, v in list(globals().items()) if isinstance(v, type)})
codes = types.SimpleNamespace(ok=200, not_found=404)


class Response:
    def __init__(self, code):
        self.status_code = code
        self.ok = code < 400

    def __bool__(self):
        return self.ok

    def raise_for_status(self):
        if self.status_code >= 400:
            raise HTTPError(str(self.status_code))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        pass


def get(url, **k):
    if "gone" in url:
        raise ConnectionError("refused")
    if "missing" in url:
        return Response(404)
    if "broken" in url:
        return Response(503)
    return Response(200)


head = get



def request(method, url, **k):
    return get(url, **k)


class Session:
    def __init__(self):
        self.headers = {}

    def request(self, method, url, **k):
        return get(url, **k)

    def get(self, url, **k):
        return get(url, **k)

    head = get

    def mount(self, *a):
        pass

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


session = Session
