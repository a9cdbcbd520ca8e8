"""Stand-ins for the services and third-party modules the Python tools use. Services (Elasticsearch, object storage, the web, dataset
streams) keep their state in World.svc, so it outlives a crash of the program."""
import copy, gzip, io, itertools, json, re, types, pickle, os
import kernel, frames


def W():
    return kernel.WORLD


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__path__ = []
    return m


# ------------------------------------------------------------------ tqdm, smart_open, ...

class Tqdm:
    def __init__(self, iterable=None, *a, **k):
        self.it = iterable
        self.n = 0

    def __iter__(self):
        return iter(self.it)

    def __len__(self):
        return len(self.it)

    def update(self, n=1):
        self.n += n

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _no(self, *a, **k):
        pass
    set_description = set_postfix = set_description_str = set_postfix_str = close = refresh = reset = clear = _no
    write = staticmethod(lambda *a, **k: None)


def tqdm_mods():
    ms = {}
    for n in ("tqdm", "tqdm.auto", "tqdm.autonotebook", "tqdm.notebook", "tqdm.std"):
        ms[n] = mod(n, tqdm=Tqdm, trange=lambda *a, **k: Tqdm(range(*a)))
    for n in ("auto", "autonotebook", "notebook", "std"):
        setattr(ms["tqdm"], n, ms["tqdm." + n])
    return ms


def smart_open_open(uri, mode="r", buffering=-1, encoding=None, errors=None, newline=None, **k):
    p = os.fspath(uri)
    if p.endswith(".gz") and k.get("compression", "infer_from_extension") == "infer_from_extension":
        text = "b" not in mode
        m = mode.replace("t", "")
        return gzip.open(p, (m.replace("b", "") + ("t" if text else "b")), encoding=(encoding or "utf-8") if text else None, errors=errors if text else None,
                         newline=newline if text else None)
    return kernel.sim_open(p, mode, buffering, encoding, errors, newline)


def smart_open_mods():
    return {"smart_open": mod("smart_open", open=smart_open_open, smart_open=smart_open_open)}


def chunked(it, n, strict=False):
    it = iter(it)
    while True:
        xs = []
        for x in it:
            xs.append(x)
            if len(xs) == n:
                break
        if not xs:
            return
        yield xs


# ------------------------------------------------------------------ Elasticsearch

class ApiError(Exception):
    def __init__(self, message="", meta=None, body=None, status=500):
        super().__init__(message)
        self.message, self.body, self.status_code = message, body, status
        self.error = message
        self.info = body or {}
        self.meta = types.SimpleNamespace(status=status)

    def __str__(self):
        return f"{type(self).__name__}({self.status_code}, {self.message})"


class NotFoundError(ApiError):
    pass


class ConflictError(ApiError):
    pass


class BadRequestError(ApiError):
    pass


class TransportError(Exception):
    status_code = "N/A"

    def __init__(self, message="", errors=()):
        super().__init__(message)
        self.message, self.errors = message, errors


class ESConnectionError(TransportError):
    pass


class ConnectionTimeout(TransportError):
    pass


class BulkIndexError(Exception):
    @property
    def errors(self):
        return self.args[1]


def tokens(text):
    return re.findall(r"\w+", text.lower()) if isinstance(text, str) else []


def sloppy(have, want, slop=0):
    """Lucene's rule: the terms can be shifted onto the phrase by at most slop positions in total spread"""
    if slop == 0:
        return bool(want) and any(have[i:i + len(want)] == want for i in range(len(have)))
    ps = [[j - i for j, t in enumerate(have) if t == w] for i, w in enumerate(want)]
    return any(max(c) - min(c) <= slop and len({x + i for i, x in enumerate(c)}) == len(c) for c in itertools.product(*ps))


def tracked(n, how, as_int):
    """the total of a response: Elasticsearch counts up to 10000 hits unless told otherwise; the simulated indices are small, so
    that limit is scaled down by 2500"""
    if how is False:
        return {"total": -1} if as_int else {}
    most = n if how is True else max(1, (10000 if how is None else int(how)) // 2500)
    return {"total": min(n, most)} if as_int else {"total": {"value": min(n, most), "relation": "eq" if n <= most else "gte"}}


def route(doc_id, n):
    return kernel.mix("route", doc_id) % n


class Cluster:
    """a cluster's state: indices of shards of documents, with replicas that order ties as they like"""

    def __init__(self):
        self.indices = {}
        self.pits = {}
        self.npit = 0
        self.log = []     # acknowledged creates
        self.on_page = None

    def create_index(self, name, shards=1, replicas=0):
        self.indices[name] = {"shards": [dict() for _ in range(shards)], "replicas": replicas}

    def put(self, index, doc_id, src):
        ix = self.indices[index]
        sh = ix["shards"][route(doc_id, len(ix["shards"]))]
        if doc_id in sh:
            return False
        sh[doc_id] = src
        return True

    def docs(self, index):
        return {i: d for sh in self.indices[index]["shards"] for i, d in sh.items()}

    # --- queries
    def hit(self, q, d, doc_id=None):
        if q is None or q == {}:
            return True
        if not isinstance(q, dict) or len(q) != 1:
            raise BadRequestError(f"[query] malformed query: {q}", status=400)
        (k, v), = q.items()
        if k == "match_all":
            return True
        if k == "bool":
            for c in v:
                if c not in ("filter", "must", "should", "must_not", "minimum_should_match", "boost"):
                    raise BadRequestError(f"[bool] query does not support [{c}]", status=400)

            def ls(x):
                x = v.get(x)
                return [] if x is None else (x if isinstance(x, list) else [x])
            if not all([self.hit(x, d, doc_id) for x in ls("filter") + ls("must")]):
                return False
            if any([self.hit(x, d, doc_id) for x in ls("must_not")]):
                return False
            n = sum([self.hit(x, d, doc_id) for x in ls("should")])
            need = v.get("minimum_should_match")
            if need is None:
                need = 1 if ls("should") and not ls("filter") and not ls("must") else 0
            return n >= int(need)
        if k in ("match_phrase", "match", "term", "terms", "regexp", "exists", "range", "ids"):
            if k == "exists":
                return v["field"] in d
            (f, x), = v.items()
            val = d.get(f)
            if k == "match_phrase":
                want, slop = (x["query"], x.get("slop", 0)) if isinstance(x, dict) else (x, 0)
                have, want = tokens(val), tokens(want)
                if not want:
                    return False
                return sloppy(have, want, slop)
            if k == "match":
                x = x["query"] if isinstance(x, dict) else x
                return any(t in tokens(val) for t in tokens(x))
            if k == "range":
                if val is None:
                    return False
                return all({"gt": val > y, "gte": val >= y, "lt": val < y, "lte": val <= y}[o] for o, y in x.items() if o in ("gt", "gte", "lt", "lte"))
            if k == "ids":
                return doc_id in x
            if k == "term":
                x = x["value"] if isinstance(x, dict) else x
                return val == x or (isinstance(val, str) and f == "text" and x in tokens(val))
            if k == "terms":
                return val in x
            if k == "regexp":
                ci = isinstance(x, dict) and x.get("case_insensitive")
                x = x["value"] if isinstance(x, dict) else x
                return any(re.fullmatch(x, t, re.I if ci else 0) for t in tokens(val))
        raise BadRequestError(f"unknown query [{k}]", status=400)


class Body(dict):
    """an API response"""
    body = property(lambda self: dict(self))
    meta = types.SimpleNamespace(status=200)


class _Ns:
    def __init__(self, es):
        self.es = es


class _Cat(_Ns):
    def indices(self, *a, **k):
        self.es.call("cat")
        c = self.es.c
        return [{"index": n, "docs.count": str(len(c.docs(n)))} for n in W().shuffle("cat", sorted(c.indices))]

    def shards(self, index=None, **k):
        self.es.call("cat")
        ix = self.es.c.index(index)
        return [{"index": index, "shard": str(i), "prirep": "p" if r == 0 else "r"} for i in range(len(ix["shards"])) for r in range(ix["replicas"] + 1)]


class _Indices(_Ns):
    def create(self, index, settings=None, mappings=None, **k):
        self.es.call("create_index")
        c = self.es.c
        if index in c.indices:
            raise BadRequestError("resource_already_exists_exception", status=400)
        s = settings or {}
        n = s.get("index.number_of_shards", s.get("number_of_shards", (s.get("index") or {}).get("number_of_shards", 1) if isinstance(s.get("index"), dict) else 1))
        c.create_index(index, int(n))
        return Body(acknowledged=True)

    def exists(self, index, **k):
        self.es.call("cat")
        return index in self.es.c.indices

    def get(self, index="*", **k):
        self.es.call("cat")
        return Body({n: {} for n in self.es.c.indices})

    def get_mapping(self, index=None, **k):
        self.es.call("cat")
        names = index if isinstance(index, list) else [index]
        return Body({n: {"mappings": {"properties": {f: {} for d in self.es.c.docs(n).values() for f in d}} if self.es.c.docs(n) else {}} for n in names})

    def get_alias(self, index="*", **k):
        return self.get(index)

    def refresh(self, *a, **k):
        self.es.call("cat")
        return Body()


class Elasticsearch:
    def __init__(self, *a, **k):
        self.k = k
        self.c = W().svc["es"]
        self.retries = 3 if k.get("retry_on_timeout") else 0
        self.cat = _Cat(self)
        self.indices = _Indices(self)

    def options(self, **k):
        return self

    def close(self):
        pass

    def call(self, op, path="", apply=None, retried=True):
        """one request: the fault plan can lose it (before or after it took effect) or answer with an error"""
        for attempt in range(self.retries + 1):
            f = W().io("es:" + op, path)
            if f is None:
                return apply() if apply else None
            a = f["action"]
            if a == "timeout":              # lost on the way there, or the answer is lost
                if f.get("arg") and apply:
                    apply()
                W().now += 30
                if attempt == self.retries:
                    raise ConnectionTimeout("Connection timed out")
                continue
            if a == "conn":
                raise ESConnectionError("Connection refused")
            if a == "http":
                raise ApiError("es_rejected_execution_exception", status=f.get("arg", 503))
            if a in ("partial", "timed_out", "item"):
                return apply(f) if apply else None
            W().act(f, path)
        raise ConnectionTimeout("Connection timed out")

    # --- documents
    def bulk(self, operations=None, body=None, **k):
        ops = operations if operations is not None else body

        def apply(f=None):
            items = []
            it = iter(ops)
            n = 0
            err = False
            for head in it:
                (op, meta), = head.items()
                src = next(it) if op != "delete" else None
                ix, i = meta["_index"], meta["_id"]
                if f is not None and f["action"] == "item" and n % max(1, f.get("every", 1)) == 0:
                    items.append({op: {"_index": ix, "_id": i, "status": f.get("arg", 429), "error": {"type": "es_rejected_execution_exception"}}})
                    err = True
                elif self.c.indices.get(ix) is None:
                    self.c.create_index(ix)
                    self.c.put(ix, i, copy.deepcopy(src))
                    items.append({op: {"_index": ix, "_id": i, "status": 201, "result": "created"}})
                elif op == "index":
                    sh = self.c.indices[ix]["shards"]
                    s = sh[route(i, len(sh))]
                    items.append({op: {"_index": ix, "_id": i, "status": 200 if i in s else 201}})
                    s[i] = copy.deepcopy(src)
                elif self.c.put(ix, i, copy.deepcopy(src)):
                    items.append({op: {"_index": ix, "_id": i, "status": 201, "result": "created"}})
                else:
                    items.append({op: {"_index": ix, "_id": i, "status": 409, "error": {"type": "version_conflict_engine_exception"}}})
                    err = True
                n += 1
            return Body(errors=err, items=items)
        return self.call("bulk", "", apply)

    def create(self, index, id, document=None, body=None, **k):
        def apply(f=None):
            if not self.c.put(index, id, copy.deepcopy(document or body)):
                raise ConflictError("version_conflict_engine_exception", status=409)
            return Body(result="created", _id=id)
        return self.call("bulk", "", apply)

    def mget(self, index=None, ids=None, **k):
        self.call("get")
        d = self.c.docs(index)
        return Body(docs=[{"_id": i, "found": i in d, **({"_source": d[i]} if i in d else {})} for i in ids])

    def get(self, index=None, id=None, **k):
        def apply(f=None):
            d = self.c.docs(index) if index in self.c.indices else self.c.index(index)
            if id not in d:
                raise NotFoundError("document_missing_exception", status=404)
            return Body(_index=index, _id=id, found=True, _source=copy.deepcopy(d[id]))
        return self.call("get", "", apply)

    def exists(self, index=None, id=None, **k):
        self.call("get")
        return id in self.c.docs(index)

    def index(self, index=None, id=None, document=None, op_type=None, **k):
        if op_type == "create":
            return self.create(index, id, document)

        def apply(f=None):
            sh = self.c.index(index)["shards"]
            sh[route(id, len(sh))][id] = copy.deepcopy(document)
            return Body(result="updated", _id=id)
        return self.call("bulk", "", apply)

    # --- search
    def count(self, index=None, query=None, body=None, **k):
        query = (body or {}).get("query", query)

        def apply(f=None):
            ix = self.c.index(index)
            sh = ix["shards"]
            down = set()
            if f is not None:
                down = {f.get("arg", 0) % len(sh)}
            n = sum(self.c.hit(query, d) for i, s in enumerate(sh) if i not in down for d in s.values())
            for d in [{}]:
                self.c.hit(query, d)
            return Body(count=n, _shards=shards_info(len(sh), len(down)))
        return self.call("count", "", apply)

    def open_point_in_time(self, index=None, keep_alive=None, **k):
        def apply(f=None):
            self.c.index(index)
            self.c.npit += 1
            i = f"pit{self.c.npit}"
            self.c.pits[i] = {"index": index, "shards": copy.deepcopy(self.c.indices[index]["shards"]), "until": W().now + secs(keep_alive)}
            return Body(id=i)
        return self.call("pit", "", apply)

    def close_point_in_time(self, id=None, **k):
        def apply(f=None):
            if self.c.pits.pop(id, None) is None:
                raise NotFoundError("search_context_missing_exception", status=404)
            return Body(succeeded=True)
        return self.call("closepit", "", apply)

    def search(self, index=None, query=None, size=10, sort=None, search_after=None, pit=None, preference=None, from_=0, body=None, track_total_hits=None, rest_total_hits_as_int=False, **k):
        if body:
            track_total_hits = body.get("track_total_hits", track_total_hits)
            query, size, sort = body.get("query", query), body.get("size", size), body.get("sort", sort)
            search_after, pit = body.get("search_after", search_after), body.get("pit", pit)
        if self.c.on_page:
            self.c.on_page()

        def apply(f=None):
            c = self.c
            if pit is not None:
                if index is not None:
                    raise BadRequestError("[indices] cannot be used with point in time", status=400)
                p = c.pits.get(pit["id"])
                if p is None or p["until"] < W().now:
                    c.pits.pop(pit["id"], None)
                    raise NotFoundError("search_context_missing_exception", status=404)
                if pit.get("keep_alive"):
                    p["until"] = max(p["until"], W().now + secs(pit["keep_alive"]))
                shards = p["shards"]
            else:
                shards = c.index(index)["shards"]
            c.hit(query, {})
            if size > 10000:
                raise BadRequestError("Result window is too large", status=400)
            only = None
            if preference and preference.startswith("_shards:"):
                only = {int(x) for x in preference[8:].split("|")[0].split(",")}
            down = {f.get("arg", 0) % len(shards)} if f is not None else set()
            srt = []
            for s in sort or []:
                if isinstance(s, str):
                    srt.append((s, "asc"))
                else:
                    (n, o), = s.items()
                    srt.append((n, o if isinstance(o, str) else o.get("order", "asc")))
            hits = []
            for i, sh in enumerate(shards):
                if (only is not None and i not in only) or i in down:
                    continue
                ids = list(sh)
                if pit is None:
                    ids = W().shuffle("replica", ids)   # another replica orders ties otherwise
                for j, d in enumerate(ids):
                    if c.hit(query, sh[d]):
                        key = []
                        for n, o in srt:
                            v = (i << 32) + j if n in ("_shard_doc", "_doc") else d if n == "_id" else sh[d].get(n)
                            if v is None:
                                v = (1, 0) if o == "asc" else (-1, 0)
                            else:
                                v = (0, v)
                            key.append(v if o == "asc" else Rev(v))
                        hits.append((key, (i << 32) + j, d, sh[d]))
            if srt:
                hits.sort(key=lambda h: (h[0], h[1]) if pit is not None else (h[0],))
            else:
                hits.sort(key=lambda h: h[1])

            def sortvals(h):
                vs = [plain(x) for x in h[0]]
                if pit is not None:
                    vs.append(h[1])
                return vs
            if search_after is not None:
                if not srt:
                    raise BadRequestError("Sort must contain at least one field", status=400)
                if len(search_after) != len(srt) + (1 if pit is not None else 0) and len(search_after) != len(srt):
                    raise BadRequestError("search_after has the wrong number of values", status=400)
                n = len(search_after)

                def after(h):
                    a = list(h[0]) + [(0, h[1])]
                    b = [(0, x) if x is not None else ((1, 0) if srt[i][1] == "asc" else (-1, 0)) for i, x in enumerate(search_after)]
                    b = [Rev(x) if i < len(srt) and srt[i][1] != "asc" else x for i, x in enumerate(b)]
                    return a[:n] > b
                hits = [h for h in hits if after(h)]
            total = len(hits)
            hits = hits[from_:from_ + size]
            r = {"took": 1, "timed_out": f is not None and f["action"] == "timed_out",
                 "_shards": shards_info(len(shards), 0 if f is not None and f["action"] == "timed_out" else len(down)),
                 "hits": {**tracked(total, track_total_hits, rest_total_hits_as_int), "hits": [
                     {"_index": index or (pit and c.pits[pit["id"]]["index"]), "_id": h[2], "_source": copy.deepcopy(h[3]), **({"sort": sortvals(h)} if srt else {})} for h in hits]}}
            if pit is not None:
                r["pit_id"] = pit["id"]
            if f is not None and f["action"] == "partial" and only is not None and only & down and not (only - down):
                raise ApiError("search_phase_execution_exception: all shards failed", status=503)
            return Body(r)
        return self.call("search", "", apply)

    def msearch(self, index=None, searches=None, body=None, rest_total_hits_as_int=False, **k):
        ss = searches if searches is not None else body

        def apply(f=None):
            out = []
            for n, (h, b) in enumerate(zip(ss[::2], ss[1::2])):
                ix = self.c.index(h.get("index", index))
                sh = ix["shards"]
                bad = f is not None and n % max(1, f.get("every", 1)) == 0
                if bad and f["action"] == "item":
                    out.append({"error": {"type": "es_rejected_execution_exception"}, "status": f.get("arg", 429)})
                    continue
                down = {f.get("arg", 0) % len(sh)} if bad else set()
                try:
                    self.c.hit(b.get("query"), {})
                    t = sum(self.c.hit(b.get("query"), d) for i, s in enumerate(sh) if i not in down for d in s.values())
                except BadRequestError as e:
                    out.append({"error": {"type": "parsing_exception", "reason": str(e)}, "status": 400})
                    continue
                to = bad and f["action"] == "timed_out"
                out.append({"took": 1, "timed_out": to, "status": 200, "_shards": shards_info(len(sh), 0 if to else len(down)),
                            "hits": {**tracked(t, b.get("track_total_hits"), rest_total_hits_as_int), "hits": []}})
            return Body(took=1, responses=out)
        return self.call("msearch", "", apply)

    def termvectors(self, index=None, id=None, fields=None, term_statistics=False, preference=None, **k):
        def apply(f=None):
            sh = self.c.index(index)["shards"]
            i = route(id, len(sh))
            d = sh[i].get(id)
            if d is None:
                return Body(found=False)
            docs = sh[i].values()
            r = {}
            for fl in fields or ["text"]:
                ts = {}
                for t in sorted(set(tokens(d.get(fl)))):
                    ts[t] = {"term_freq": tokens(d.get(fl)).count(t)}
                    if term_statistics:
                        ts[t]["ttf"] = sum(tokens(x.get(fl)).count(t) for x in docs)
                        ts[t]["doc_freq"] = sum(t in tokens(x.get(fl)) for x in docs)
                r[fl] = {"terms": ts}
            return Body(found=True, term_vectors=r)
        return self.call("termvectors", "", apply)


def _index(self, name):
    if name not in self.indices:
        raise NotFoundError("index_not_found_exception", status=404)
    return self.indices[name]


Cluster.index = _index


class Rev:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return o.v < self.v

    def __gt__(self, o):
        return o.v > self.v

    def __eq__(self, o):
        return self.v == o.v


def plain(v):
    v = v.v if isinstance(v, Rev) else v
    return v[1] if v[0] == 0 else None


def shards_info(n, failed):
    r = {"total": n, "successful": n - failed, "skipped": 0, "failed": failed}
    if failed:
        r["failures"] = [{"shard": 0, "reason": {"type": "es_rejected_execution_exception"}}]
    return r


def secs(s):
    return int(s[:-1]) * {"s": 1, "m": 60, "h": 3600}[s[-1]] if s else 60


def _chunk_result(client, chunk, ignore_status, raise_on_exception, raise_on_error):
    ops = []
    for a in chunk:
        a = dict(a)
        op = a.pop("_op_type", "index")
        meta = {k: a.pop(k) for k in ("_index", "_id") if k in a}
        ops.append({op: meta})
        if op != "delete":
            ops.append(a.pop("_source", a))
    try:
        resp = client.bulk(operations=ops)
    except (ApiError, TransportError) as e:
        if raise_on_exception and e.status_code not in ignore_status:
            raise
        return [(False, {next(iter(o)): {"error": str(e), "status": e.status_code, "exception": e, **next(iter(o.values()))}}) for o in ops[::2]]
    out, errors = [], []
    for it in resp["items"]:
        (op, x), = it.items()
        ok = 200 <= x["status"] < 300
        if not ok and raise_on_error and x["status"] not in ignore_status:
            errors.append({op: x})
        if ok or not errors:
            out.append((ok, {op: x}))
    if errors:
        raise BulkIndexError(f"{len(errors)} document(s) failed to index.", errors)
    return out


def parallel_bulk(client, actions, thread_count=4, chunk_size=500, max_chunk_bytes=100 * 1024 * 1024, queue_size=4, expand_action_callback=None, ignore_status=(),
                  raise_on_exception=True, raise_on_error=True, **k):
    if isinstance(ignore_status, int):
        ignore_status = (ignore_status,)
    ex = kernel.Executor(min(thread_count, 6))
    try:
        it = chunked(actions, chunk_size)
        window = []
        more = True
        while more or window:
            while more and len(window) < ex.n + queue_size:
                ch = next(it, None)
                if ch is None:
                    more = False
                    break
                window.append(ex.submit(_chunk_result, client, ch, ignore_status, raise_on_exception, raise_on_error))
            if window:
                yield from window.pop(0).result()
    finally:
        if kernel.WORLD is not None and not W().cur.proc.dead and W().verdict is None:
            ex.shutdown()


def streaming_bulk(client, actions, chunk_size=500, ignore_status=(), raise_on_exception=True, raise_on_error=True, **k):
    for ch in chunked(actions, chunk_size):
        yield from _chunk_result(client, ch, (ignore_status,) if isinstance(ignore_status, int) else ignore_status, raise_on_exception, raise_on_error)


def bulk(client, actions, stats_only=False, **k):
    ok, errs = 0, []
    for a, b in streaming_bulk(client, actions, **k):
        if a:
            ok += 1
        else:
            errs.append(b)
    return ok, len(errs) if stats_only else errs


def es_mods():
    exc = mod("elasticsearch.exceptions", NotFoundError=NotFoundError, ApiError=ApiError, ConflictError=ConflictError, BadRequestError=BadRequestError, RequestError=BadRequestError,
              TransportError=TransportError, ConnectionError=ESConnectionError, ConnectionTimeout=ConnectionTimeout)
    hl = mod("elasticsearch.helpers", parallel_bulk=parallel_bulk, streaming_bulk=streaming_bulk, bulk=bulk, BulkIndexError=BulkIndexError)
    es = mod("elasticsearch", Elasticsearch=Elasticsearch, exceptions=exc, helpers=hl, NotFoundError=NotFoundError, ApiError=ApiError, ConflictError=ConflictError,
             BadRequestError=BadRequestError, TransportError=TransportError, ConnectionError=ESConnectionError, ConnectionTimeout=ConnectionTimeout)
    return {"elasticsearch": es, "elasticsearch.exceptions": exc, "elasticsearch.helpers": hl}


# ------------------------------------------------------------------ h5py

class H5Dataset:
    def __init__(self, arr):
        self.arr = arr

    shape = property(lambda s: s.arr.shape)
    size = property(lambda s: s.arr.size)
    maxshape = property(lambda s: (None,))

    def len(self):
        return len(self.arr)

    def __iter__(self):
        return iter(self.arr)

    def asstr(self, encoding="utf-8", **k):
        a = self.arr

        class S:
            def __getitem__(_, k):
                v = a[k]
                return v.decode(encoding) if isinstance(v, bytes) else [x.decode(encoding) for x in v]

            def __len__(_):
                return len(a)
        return S()

    dtype = property(lambda s: s.arr.dtype)

    def __len__(self):
        return len(self.arr)

    def resize(self, shape, axis=None):
        import numpy as np
        n = shape if isinstance(shape, int) else shape[0]
        new = np.zeros((n,), dtype=self.arr.dtype)
        m = min(n, len(self.arr))
        new[:m] = self.arr[:m]
        self.arr = new

    def __setitem__(self, k, v):
        self.arr[k] = v

    def __getitem__(self, k):
        return self.arr[k]


class H5File:
    def __init__(self, name, mode="r", **k):
        self.name, self.mode, self.d = name, mode, {}
        if mode in ("r", "r+") or (mode == "a" and os.path.exists(name)):
            with kernel.sim_open(name, "rb") as f:
                self.d = {k: H5Dataset(v) for k, v in pickle.load(f).items()}
        if mode in ("w", "w-", "x"):
            self._save()

    def _save(self):
        with kernel.sim_open(self.name, "wb") as f:
            pickle.dump({k: v.arr for k, v in self.d.items()}, f)

    def create_dataset(self, name, shape=None, maxshape=None, dtype=None, data=None, **k):
        import numpy as np
        if name in self.d:
            raise ValueError("Unable to create dataset (name already exists)")
        self.d[name] = H5Dataset(np.zeros(shape, dtype=dtype) if data is None else np.array(data, dtype=dtype))
        return self.d[name]

    def __getitem__(self, k):
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return self.d.keys()

    def get(self, k, default=None):
        return self.d.get(k, default)

    def require_dataset(self, name, shape=None, dtype=None, **k):
        return self.d[name] if name in self.d else self.create_dataset(name, shape=shape, dtype=dtype, **k)

    def flush(self):
        if self.mode != "r":
            self._save()

    def close(self):
        if self.mode != "r":
            self._save()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if kernel.WORLD is not None and W().cur is not None and not W().cur.proc.dead:
            self.close()
        return False


def h5_mods():
    return {"h5py": mod("h5py", File=H5File)}


# ------------------------------------------------------------------ datasets (Hugging Face)

class Stream:
    """a streamed split: reads over the network, one shard of records at a time"""

    def __init__(self, rows, name, skip=0, take=None):
        self.rows, self.name, self._skip, self._take = rows, name, skip, take

    def __iter__(self):
        for i, r in enumerate(self.rows[self._skip:]):
            if self._take is not None and i >= self._take:
                return
            f = W().io("stream", self.name)
            if f is not None:
                if f["action"] == "err":
                    raise ConnectionError("Server disconnected")
                W().act(f, self.name)
            yield copy.deepcopy(r)

    def skip(self, n):
        return Stream(self.rows, self.name, self._skip + n, None if self._take is None else max(0, self._take - n))

    def iter(self, batch_size, drop_last_batch=False):
        for ch in chunked(self, batch_size):
            if len(ch) == batch_size or not drop_last_batch:
                yield {k: [x.get(k) for x in ch] for k in ch[0]}

    def map(self, fn, **k):
        return Mapped(self, fn)

    def rename_column(self, a, b):
        return Mapped(self, lambda x: {b if k == a else k: v for k, v in x.items()}, False)

    def remove_columns(self, cs):
        cs = [cs] if isinstance(cs, str) else cs
        return Mapped(self, lambda x: {k: v for k, v in x.items() if k not in cs}, False)

    def take(self, n):
        return Stream(self.rows, self.name, self._skip, n if self._take is None else min(n, self._take))


class Mapped(Stream):
    def __init__(self, inner, fn, merge=True):
        self.inner, self.fn, self.merge = inner, fn, merge

    def __iter__(self):
        for x in self.inner:
            y = self.fn(dict(x))
            yield x if y is None else {**x, **y} if self.merge else y

    def skip(self, n):
        return Mapped(self.inner.skip(n), self.fn, self.merge)

    def take(self, n):
        return Mapped(self.inner.take(n), self.fn, self.merge)


class Table:
    """a split that is loaded as a whole"""

    def __init__(self, cols):
        self.cols = cols

    column_names = property(lambda self: [*self.cols])
    features = property(lambda self: dict.fromkeys(self.cols))
    num_rows = property(lambda self: len(self))
    shape = property(lambda self: (len(self), len(self.cols)))

    def __len__(self):
        return len(next(iter(self.cols.values()), ()))

    def __getitem__(self, k):
        if isinstance(k, str):
            return [*self.cols[k]]
        if isinstance(k, slice):
            return {c: v[k] for c, v in self.cols.items()}
        if isinstance(k, (list, tuple, range)):
            return {c: [v[i] for i in k] for c, v in self.cols.items()}
        return {c: v[k] for c, v in self.cols.items()}

    def __iter__(self):
        return ({c: v[i] for c, v in self.cols.items()} for i in range(len(self)))

    def iter(self, batch_size, drop_last_batch=False):
        for i in range(0, len(self), batch_size):
            if i + batch_size <= len(self) or not drop_last_batch:
                yield self[i:i + batch_size]

    def select(self, ix, **k):
        return Table({c: [v[i] for i in ix] for c, v in self.cols.items()})

    def take(self, n):
        return self.select(range(min(n, len(self))))

    def select_columns(self, cs):
        return Table({c: self.cols[c] for c in ([cs] if isinstance(cs, str) else cs)})

    def filter(self, fn, **k):
        return self.select([i for i, r in enumerate(self) if fn(r)])

    def map(self, fn, **k):
        rows = [{**r, **(fn(dict(r)) or {})} for r in self]
        return Table({c: [r[c] for r in rows] for c in (rows[0] if rows else self.cols)})

    def unique(self, c):
        return [*dict.fromkeys(self.cols[c])]

    def to_list(self):
        return [*self]

    def to_dict(self):
        return {c: [*v] for c, v in self.cols.items()}


def datasets_mods():
    cfg = mod("datasets.config", DEFAULT_MAX_BATCH_SIZE=1000)

    def load_dataset(path, name=None, split=None, streaming=False, **k):
        if "tables" in W().svc:          # whole datasets, by columns
            f = W().io("stream", path)
            if f is not None:
                if f["action"] == "err":
                    raise ConnectionError("Server disconnected")
                W().act(f, path)
            d = {s: Table(x) for s, x in copy.deepcopy(W().svc["tables"][(path, name)]).items()}
            return d[split] if split else d
        d = {s: Stream(rows, s) for s, rows in W().svc["datasets"][path].items()}
        return d[split] if split else d
    m = mod("datasets", config=cfg, load_dataset=load_dataset, disable_caching=lambda: None, enable_caching=lambda: None)
    return {"datasets": m, "datasets.config": cfg}


# ------------------------------------------------------------------ object storage

class Blob:
    def __init__(self, name, bucket):
        self.name, self.bucket = name, bucket

    def download_to_file(self, f, **k):
        x = W().io("gs:get", self.name)
        if x is not None:
            W().act(x, self.name)
        f.write(self.bucket.d[self.name])

    def download_as_bytes(self, **k):
        W().step("gs:get", self.name)
        return self.bucket.d[self.name]

    download_as_string = download_as_bytes

    def download_as_text(self, encoding="utf-8", **k):
        return self.download_as_bytes().decode(encoding)

    def download_to_filename(self, p, **k):
        with kernel.sim_open(p, "wb") as f:
            self.download_to_file(f)

    def open(self, mode="r", **k):
        if "r" in mode:
            d = self.download_as_bytes()
            return io.BytesIO(d) if "b" in mode else io.StringIO(d.decode())
        b = self

        class Out(io.BytesIO):
            def close(self):
                if not self.closed:
                    b._put(self.getvalue())
                super().close()

            def __exit__(self, t, *a):
                if t is not None:
                    io.BytesIO.close(self)
                else:
                    self.close()
        return Out() if "b" in mode else io.TextIOWrapper(Out(), encoding="utf-8", write_through=True)

    size = property(lambda s: len(s.bucket.d[s.name]) if s.name in s.bucket.d else None)
    client = property(lambda s: GsClient())
    content_type = content_encoding = cache_control = None

    def reload(self, **k):
        W().step("gs:list", self.name)

    def _put(self, data):
        """objects appear whole or not at all"""
        x = W().io("gs:put", self.name)
        if x is not None and x["action"] != "after":
            W().act(x, self.name)
        self.bucket.d[self.name] = data
        self.bucket.puts.append(self.name)
        if x is not None:
            W().crash(W().cur.proc)
        W().step("gs:putdone", self.name)

    def upload_from_file(self, f, rewind=False, size=None, **k):
        if rewind:
            f.seek(0)
        self._put(f.read())

    def upload_from_string(self, s, **k):
        self._put(s.encode() if isinstance(s, str) else s)

    def upload_from_filename(self, p, **k):
        with kernel.sim_open(p, "rb") as f:
            self._put(f.read())

    def compose(self, blobs, **k):
        if len(blobs) > 32 or not blobs:
            raise ValueError("compose takes 1 to 32 objects")
        self._put(b"".join(b.bucket.d[b.name] for b in blobs))

    def exists(self, **k):
        W().step("gs:list", self.name)
        return self.name in self.bucket.d

    def delete(self, **k):
        W().step("gs:delete", self.name)
        del self.bucket.d[self.name]

    def rename(self, *a, **k):
        raise kernel.HarnessError("not modelled")


class Bucket:
    def __init__(self, name, d, puts):
        self.name, self.d, self.puts = name, d, puts

    def list_blobs(self, prefix=None, **k):
        W().step("gs:list", self.name)
        return iter([Blob(n, self) for n in sorted(self.d) if n.startswith(prefix or "")])

    def blob(self, name, **k):
        return Blob(name, self)

    def get_blob(self, name, **k):
        W().step("gs:list", self.name)
        return Blob(name, self) if name in self.d else None

    def exists(self, **k):
        return True

    def copy_blob(self, blob, dest, new_name=None, **k):
        b = Blob(new_name or blob.name, dest)
        b._put(blob.bucket.d[blob.name])
        return b


class GsClient:
    def __init__(self, *a, **k):
        pass

    def bucket(self, name, **k):
        return Bucket(name, W().svc["gs"].setdefault(name, {}), W().svc.setdefault("puts", []))

    get_bucket = bucket

    def download_blob_to_file(self, blob, f, **k):
        blob.download_to_file(f)

    def list_blobs(self, bucket, prefix=None, **k):
        return (bucket if isinstance(bucket, Bucket) else self.bucket(bucket)).list_blobs(prefix)


def gs_mods():
    st = mod("google.cloud.storage", Client=GsClient, Blob=Blob, Bucket=Bucket)
    gc_ = mod("google.cloud", storage=st)
    g = mod("google", cloud=gc_)
    return {"google": g, "google.cloud": gc_, "google.cloud.storage": st, "more_itertools": mod("more_itertools", chunked=chunked, batched=lambda it, n, **k: map(tuple, chunked(it, n)), ichunked=lambda it, n: map(iter, chunked(it, n)),
                                                                                              sliced=lambda s, n, **k: (s[i:i + n] for i in range(0, len(s), n)), first=lambda it, *d: next(iter(it), *d), consume=lambda it: [None for _ in it] and None)}


# --- TFRecords, as a file of JSON lines

class _Feat:
    def __init__(self, v):
        self.bytes_list = types.SimpleNamespace(value=[v])


class Record:
    def __init__(self, raw):
        self.raw = raw

    def numpy(self):
        return self.raw


class TFRecordDataset:
    def __init__(self, path, *a, **k):
        self.paths = path if isinstance(path, (list, tuple)) else [path]

    def __iter__(self):
        for p in self.paths:
            with kernel.sim_open(p, "rb") as f:
                data = f.read()
            for line in data.split(b"\n"):
                if line:
                    yield Record(line)

    def as_numpy_iterator(self):
        return (r.raw for r in self)


class Example:
    def ParseFromString(self, raw):
        d = json.loads(raw)
        self.features = types.SimpleNamespace(feature={k: _Feat(v.encode()) for k, v in d.items()})
        return len(raw)

    MergeFromString = ParseFromString

    @staticmethod
    def FromString(raw):
        e = Example()
        e.ParseFromString(raw)
        return e


def map_per_process(fn, it, *a, **k):
    """bettermap: results in order, some calls in flight at once, each in a process of its own"""
    p = kernel.Executor(3)
    window = []
    it = iter(it)
    for x in it:
        window.append(p.submit(fn, x))
        if len(window) >= 3:
            yield window.pop(0).result()
    while window:
        yield window.pop(0).result()
    p.shutdown()


def tf_mods():
    data = mod("tensorflow.python.data", TFRecordDataset=TFRecordDataset)
    py = mod("tensorflow.python", data=data)
    tf = mod("tensorflow", python=py, train=types.SimpleNamespace(Example=Example), data=types.SimpleNamespace(TFRecordDataset=TFRecordDataset))
    ff = mod("ftfy.ftfy")
    return {"tensorflow": tf, "tensorflow.python": py, "tensorflow.python.data": data, "ftfy": mod("ftfy", ftfy=lambda s: s, fix_text=lambda s: s),
            "bettermap": mod("bettermap", map_per_process=map_per_process, ordered_map_per_process=map_per_process)}


# ------------------------------------------------------------------ the web and data frames

class HttpFs:
    def __init__(self, headers=None):
        pass

    def exists(self, url, **k):
        f = W().io("http:head", url)
        if f is not None:
            if f["action"] == "err":
                raise ConnectionError("Server disconnected")
            W().act(f, url)
        return url in W().svc["web"]

    def open(self, url, mode="rb", **k):
        f = W().io("http:get", url)
        if f is not None:
            if f["action"] == "err":
                raise ConnectionError("Server disconnected")
            W().act(f, url)
        if url not in W().svc["web"]:
            raise FileNotFoundError(url)
        d = W().svc["web"][url]
        return io.BytesIO(d) if "b" in mode else io.StringIO(d.decode(), newline=None)

    def cat_file(self, url, **k):
        return self.open(url).read()

    cat = read_bytes = cat_file
    isfile = exists

    def read_text(self, url, **k):
        return self.cat_file(url).decode()

    def get_file(self, url, path, **k):
        d = self.cat_file(url)
        with kernel.sim_open(path, "wb") as f:
            f.write(d)

    get = download = get_file


frames.unmodelled = kernel.HarnessError
frames.files = lambda *a, **k: kernel.sim_open(*a, **k)
DataFrame, Series = frames.DataFrame, frames.Series


def web_mods():
    def read_parquet(f, columns=None, **k):
        if not hasattr(f, "read"):
            f = HttpFs().open(f)
        d = DataFrame(json.loads(f.read()))
        return d[list(columns)] if columns is not None else d
    pd = mod("pandas", DataFrame=DataFrame, Series=Series, read_parquet=read_parquet, isna=lambda x: x is None, isnull=lambda x: x is None, notna=lambda x: x is not None)
    fs = mod("fsspec", filesystem=lambda proto, headers=None, **k: HttpFs(headers), open=lambda url, mode="rb", **k: HttpFs().open(url, mode))
    return {"pandas": pd, "fsspec": fs}


# ------------------------------------------------------------------ requests: the dataset listing of the Hugging Face API

def requests_mods():
    import urllib.parse as up

    class RequestException(IOError):
        pass
    names = ["HTTPError", "ConnectionError", "Timeout", "ChunkedEncodingError", "JSONDecodeError", "TooManyRedirects"]
    ex = {n: type(n, (RequestException, ValueError) if n == "JSONDecodeError" else (RequestException,), {}) for n in names}
    ex["ReadTimeout"] = ex["ConnectTimeout"] = ex["Timeout"]

    class Response:
        encoding = "utf-8"

        def __init__(self, url, status, body, links):
            self.url, self.status_code, self.content, self.links = url, status, body, links
            self.headers = {"Content-Type": "application/json"}
            if links:
                self.headers["Link"] = ", ".join(f'<{x["url"]}>; rel="{k}"' for k, x in links.items())
            self.reason = {200: "OK", 429: "Too Many Requests"}.get(status, "Error")

        ok = property(lambda self: self.status_code < 400)
        text = property(lambda self: self.content.decode())

        def json(self, **k):
            try:
                return json.loads(self.content)
            except ValueError as e:
                raise ex["JSONDecodeError"](str(e))

        def raise_for_status(self):
            if not self.ok:
                raise ex["HTTPError"](f"{self.status_code} {self.reason} for url: {self.url}")

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def __bool__(self):
            return self.ok

    def get(url, params=None, headers=None, timeout=None, **k):
        if params:
            url += ("&" if "?" in url else "?") + up.urlencode(params)
        f = W().io("http:get", url)
        if f is not None:
            a = f["action"]
            if a == "err":
                raise ex["ConnectionError"]("Connection aborted.")
            if a == "timeout":
                raise ex["ReadTimeout"]("Read timed out.")
            if a == "cut":
                raise ex["ChunkedEncodingError"]("Connection broken: IncompleteRead")
            if a == "status":
                return Response(url, f["arg"], json.dumps({"error": "try again later"}).encode() if f["arg"] != 502 else b"<html>Bad Gateway</html>", {})
            W().act(f, url)
        u = up.urlsplit(url)
        q = dict(up.parse_qsl(u.query))
        if (u.scheme, u.netloc, u.path) != ("https", "huggingface.co", "/api/datasets"):
            return Response(url, 404, b'{"error": "not found"}', {})
        svc = W().svc["hub"]
        n = min(int(q.get("limit", svc["page"])), svc["page"])
        at = int(q.get("cursor", "0"))
        rows = copy.deepcopy(svc["datasets"][at:at + n])
        if q.get("full", "").lower() not in ("true", "1"):
            rows = [{"id": x["id"]} for x in rows]
        links = {}
        if at:
            links["first"] = {"url": "https://huggingface.co/api/datasets?" + up.urlencode({k: v for k, v in q.items() if k != "cursor"}), "rel": "first"}
        if at + n < len(svc["datasets"]):
            links["next"] = {"url": "https://huggingface.co/api/datasets?" + up.urlencode({**q, "cursor": str(at + n)}), "rel": "next"}
        return Response(url, 200, json.dumps(rows).encode(), links)

    class Session:
        def __init__(self):
            self.headers = {}

        def get(self, url, **k):
            return get(url, **k)

        def request(self, method, url, **k):
            return get(url, **k)

        def mount(self, *a):
            pass

        def close(self):
            pass

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass
    exc = mod("requests.exceptions", RequestException=RequestException, **ex)
    return {"requests": mod("requests", get=get, request=lambda method, url, **k: get(url, **k), Session=Session, session=Session, Response=Response, exceptions=exc, RequestException=RequestException,
                            HTTPError=ex["HTTPError"], ConnectionError=ex["ConnectionError"], Timeout=ex["Timeout"]), "requests.exceptions": exc}


def jinja_mods():
    """what the prompt templates need to be loaded; nothing is rendered"""
    class Environment:
        def __init__(self, loader=None, **k):
            self.globals, self.filters, self.tests = {}, {}, {}
    meta = mod("jinja2.meta", find_undeclared_variables=lambda ast: set())
    return {"jinja2": mod("jinja2", BaseLoader=object, Environment=Environment, meta=meta), "jinja2.meta": meta, "pkg_resources": mod("pkg_resources", resource_filename=lambda m, f: f)}


def wandb_mods():
    run = types.SimpleNamespace(summary={}, config={}, name=None)

    def init(name=None, project=None, config=None, **k):
        run.name, run.config = name, dict(config or {})
        W().svc["wandb"] = run.summary
        return run
    return {"wandb": mod("wandb", init=init, run=run, log=lambda d, **k: run.summary.update(d), finish=lambda: None, config=run.config)}


def all_mods():
    m = {}
    for x in (tqdm_mods, smart_open_mods, es_mods, h5_mods, datasets_mods, gs_mods, tf_mods, web_mods, wandb_mods, jinja_mods, requests_mods, kernel.mp_module, kernel.cf_module, kernel.threading_module):
        m.update(x())
    return m
