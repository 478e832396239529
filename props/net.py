"""Run-time stand-in for the network: requests' transport adapter answers from memory and records every request."""
import io
import tarfile


def tarball(files, links=()):
    b = io.BytesIO()
    with tarfile.open(fileobj=b, mode="w:gz") as t:
        for name, text in files.items():
            i = tarfile.TarInfo(name)
            i.size = len(text)
            t.addfile(i, io.BytesIO(text))
    return b.getvalue()


class Raw:
    """The body as urllib3 streams it: in pieces, with empty ones, or breaking off after some of them."""

    def __init__(self, pieces, fail_at=None):
        self.pieces, self.fail_at = pieces, fail_at

    def stream(self, amt=None, decode_content=None):
        import urllib3
        for k, p in enumerate(self.pieces):
            if self.fail_at == k:
                raise urllib3.exceptions.ProtocolError("connection broken")
            yield p
        if self.fail_at == len(self.pieces):
            raise urllib3.exceptions.ProtocolError("connection broken")

    def read(self, *a, **k):
        return b"".join(self.stream())

    def close(self): pass
    def release_conn(self): pass


class FakeNet:
    """answer(url) -> dict(status=, pieces=, fail_at=, length=) or an exception to raise on connecting."""

    def __init__(self, answer):
        self.answer, self.urls = answer, []

    def __enter__(self):
        import requests
        self.cls = requests.adapters.HTTPAdapter
        self.saved = self.cls.send
        net = self

        def send(adapter, request, **kw):
            net.urls.append(request.url)
            a = net.answer(request.url)
            if isinstance(a, Exception):
                raise a
            r = requests.models.Response()
            r.status_code = a.get("status", 200)
            r.url, r.request = request.url, request
            if a.get("length", True):
                r.headers["content-length"] = str(sum(map(len, a["pieces"])))
            r.raw = Raw(a["pieces"], a.get("fail_at"))
            return r
        self.cls.send = send
        return self

    def __exit__(self, *a):
        self.cls.send = self.saved
        return False


def cut(rng_sizes, data):
    """Split data at the given fractions; a fraction of 0 gives an empty piece."""
    out, pos = [], 0
    for f in rng_sizes:
        n = int(f * len(data))
        out.append(data[pos:pos + n])
        pos += n
    out.append(data[pos:])
    return out
