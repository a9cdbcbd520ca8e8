"""a web kept in a file; each url counts how often it is read"""
import builtins
import io
import json
import os


class HttpFs:
    def exists(self, url, **k):
        return url in json.load(builtins.open(os.path.join(os.environ["SIM_ROOT"], "web.json")))

    def open(self, url, mode="rb", **k):
        web = json.load(builtins.open(os.path.join(os.environ["SIM_ROOT"], "web.json")))
        if url not in web:
            raise FileNotFoundError(url)
        if web[url] == "down":
            raise ConnectionError("Server disconnected")
        fd = os.open(os.path.join(os.environ["SIM_ROOT"], "web.log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        os.write(fd, (url + "\n").encode())
        os.close(fd)
        b = json.dumps(web[url]).encode()
        return io.BytesIO(b) if "b" in mode else io.StringIO(b.decode())

    def cat_file(self, url, **k):
        return self.open(url).read()

    cat = read_bytes = cat_file
    isfile = exists

    def get_file(self, url, path, **k):
        b = self.open(url).read()
        with builtins.open(path, "wb") as f:
            f.write(b)

    get = download = get_file


def filesystem(proto, **k):
    return HttpFs()


def open(url, mode="rb", **k):  # noqa
    return HttpFs().open(url, mode)
