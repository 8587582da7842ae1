"""P17: JSON files, JSON streams, JSON co-streams and record streams of distributions.io.stream.

The module was written for Python 2, where text and bytes are one type. Plain JSON works as it is and is monitored as it
is; for the other paths the names `open`, `gzip` and `bz2` that the module looks up are replaced by files that convert
between the two types, so that the module's own code decides everything else."""
import builtins
import bz2
import contextlib
import gc
import gzip
import io
import json
import math
import os
import shutil
import struct
import tempfile
import types

from vh import R, SCRATCH, main, monitor, need, refused

import distributions.io.stream as stream
import distributions.io.schema_pb2 as pb

SUFFIX = ["", ".gz", ".bz2"]


class File(object):
    """A binary file that takes either type and gives the type of the moment."""
    text = True
    opened = 0

    def __init__(self, f):
        self.f = f
        File.opened += 1

    def write(self, s):
        return self.f.write(s.encode("utf-8") if isinstance(s, str) else s)

    def writelines(self, lines):
        for s in lines:
            self.write(s)

    def out(self, s):
        return s.decode("utf-8") if File.text and isinstance(s, bytes) else s

    def read(self, *a):
        return self.out(self.f.read(*a))

    def readline(self, *a):
        return self.out(self.f.readline(*a))

    def readlines(self, *a):
        return [self.out(s) for s in self.f.readlines(*a)]

    def __iter__(self):
        return iter(self.readline, self.out(b""))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


def binary(mode):
    return mode if "b" in mode else mode + "b"


@contextlib.contextmanager
def python2(text):
    """text: the module handles JSON; otherwise records of bytes."""
    def popen(name, mode="r", *a, **kw):
        return File(builtins.open(name, binary(mode)))

    def gz(filename=None, mode="r", *a, **kw):
        return File(gzip.GzipFile(filename, mode, *a, **kw))

    def bz(filename, mode="r", *a, **kw):
        return File(bz2.BZ2File(filename, mode, *a, **kw))
    saved = dict(stream.__dict__)
    File.text = text
    stream.open = popen
    stream.gzip = types.SimpleNamespace(GzipFile=gz, open=gz)
    stream.bz2 = types.SimpleNamespace(BZ2File=bz, open=bz)
    if not text:
        stream.str = bytes
    try:
        yield
    finally:
        for k in ("open", "str"):
            stream.__dict__.pop(k, None)
        stream.gzip, stream.bz2 = saved["gzip"], saved["bz2"]


@contextlib.contextmanager
def scratch():
    old, d = os.getcwd(), tempfile.mkdtemp(prefix="p17-", dir=SCRATCH)
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d)


WORDS = ["]", "[", ",", "[\n", "\n]", ",\n", "],", '"', "\\", "\\\\n", "\n", "\r\n", "\t", "", " ", "null", "{", "}", "a,", "x]", "\u2028", "\u0085",
         "\x00", "\x1f", "\x7f", "\u00e9", "\u4e2d\u6587", "\U0001f98a", "/", "</script>", "'", "NaN", ",,,,", "]\n"]


def gen_string(r):
    if r.chance(0.6):
        return "".join(r.pick(WORDS) for _ in range(r.randint(0, 4)))
    return "".join(chr(r.pick([r.randint(0, 127), r.randint(0, 0x2fff), r.randint(0x10000, 0x10ffff)])) for _ in range(r.randint(0, 30)))


def gen_value(r, depth=3):
    u = r.random()
    if depth == 0 or u < 0.55:
        return r.pick([
            lambda: gen_string(r), lambda: gen_string(r), lambda: r.randint(-10, 10), lambda: r.randint(-2 ** 70, 2 ** 70),
            lambda: r.gauss(0, 1), lambda: r.pick([1, -1]) * r.logunif(1e-300, 1e300), lambda: r.pick([0.0, -0.0, 1e22, 5e-324, 1.7976931348623157e308, 0.1]),
            lambda: r.pick([True, False, None]), lambda: r.pick([[], {}, [[]], [{}], {"": []}])])()
    if u < 0.78:
        return [gen_value(r, depth - 1) for _ in range(r.randint(0, 5))]
    return {gen_string(r): gen_value(r, depth - 1) for _ in range(r.randint(0, 5))}


def gen_items(r):
    n = r.pick([0, 0, 1, 1, 2, 3]) if r.chance(0.5) else r.randint(0, 30) if r.chance(0.97) else r.randint(100, 3000)
    if n > 50:
        return [r.pick([r.random(), r.randint(0, 10 ** 9), "]", gen_string(r), [i]]) for i in range(n)]
    items = [gen_value(r) for _ in range(n)]
    if r.chance(0.03):    # one item whose line exceeds any buffer
        size = int(r.logunif(5000, 1300000))
        items.insert(r.randint(0, len(items)), r.pick([
            lambda: "".join(r.pick(WORDS) for _ in range(50)) * (size // 100 + 1), lambda: "x" * size, lambda: list(range(size // 10)),
            lambda: {str(i): i for i in range(size // 20)}, lambda: [[1]] * (size // 5)])())
        R.event("large_items")
    return items


def same(a, b):
    """Equal as JSON, telling 1, 1.0 and True, and the two zeros, apart."""
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return isinstance(b, float) and a == b and math.copysign(1, a) == math.copysign(1, b)
    return type(a) is type(b) and a == b


def brief(x):
    s = repr(x)
    return s if len(s) < 900 else s[:900] + "... %d" % len(s)


def costream_dump(items, filename, **kw):
    c = stream.json_costream_dump(filename, **kw)
    next(c)
    for x in items:
        c.send(x)
    c.close()


def costream_drop(items, filename, **kw):
    """Never closed: the last reference goes away."""
    c = stream.json_costream_dump(filename, **kw)
    next(c)
    for x in items:
        c.send(x)
    del c
    gc.collect()


def iterable(r, items):
    return r.pick([lambda: list(items), lambda: tuple(items), lambda: iter(list(items)), lambda: (x for x in items)])()


def gen_path(r, suffix, d):
    name = r.pick(["x", "data.json", "a b", "x.gz.json", "y.bz2.txt", ".hidden", "gz", "bz2", "\u00e9"]) + suffix
    dirs = [r.pick(["p", "q", "r.gz", "s t", "u.bz2", ".."]) if i else r.pick(["p", "q", "r.gz"]) for i in range(r.pick([0, 0, 1, 2, 4]))]
    if ".." in dirs:
        dirs = [x for x in dirs if x != ".."]
    path = os.path.join(*(dirs + [name]))
    if r.chance(0.3):
        path = os.path.join(d, path)
    elif r.chance(0.3):
        path = os.path.join(".", path)
    return path


def raw(path, suffix):
    with builtins.open(path, "rb") as f:
        data = f.read()
    if suffix == ".gz":
        need("P17:not-gzip", data[:2] == b"\x1f\x8b", "%s holds %s" % (path, brief(data)))
        return gzip.decompress(data)
    if suffix == ".bz2":
        need("P17:not-bzip2", data[:3] == b"BZh", "%s holds %s" % (path, brief(data)))
        return bz2.decompress(data)
    return data


STREAMED = {"json_stream_dump": None, "costream": None, "costream_drop": None}


def dump(r, kind, items, path):
    kw = {"sort_keys": True} if r.chance(0.2) else {}
    if kind == "json_dump":
        if r.chance(0.2):
            kw["indent"] = r.pick([None, 0, 2])
        if r.chance(0.2):
            kw["separators"] = (",", ":")
        stream.json_dump(items, path, **kw)
    elif kind == "json_stream_dump":
        stream.json_stream_dump(iterable(r, items), path, **kw)
    else:
        (costream_dump if kind == "costream" else costream_drop)(items, path, **kw)


def one_file(r, d, native):
    suffix = "" if native else r.pick(SUFFIX)
    kind = r.pick(["json_dump", "json_stream_dump", "json_stream_dump", "costream", "costream_drop"])
    items = gen_items(r)
    path = gen_path(r, suffix, d)
    ctx = "%s of %s to %r%s" % (kind, brief(items), path, " (native)" if native else "")
    R.seen(ctx)
    R.sample(ctx)
    key = "P17:%s:%s" % (kind, suffix or "plain")
    if r.chance(0.2):    # an older, longer file is replaced
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        with builtins.open(path, "wb") as f:
            f.write(b"[\n" + b"1,\n" * r.randint(1, 3000) + b"1\n]")
        R.event("replaced")
    elif os.path.dirname(path) and not os.path.exists(os.path.dirname(path)):
        R.event("directories")
    dump(r, kind, items, path)
    need(key + ":missing", os.path.isfile(path), ctx)
    text = raw(path, suffix)
    try:
        foreign = json.loads(text.decode("utf-8"))
    except ValueError as e:
        need(key + ":not-json", False, "%s wrote %s: %s" % (ctx, brief(text), e))
    need(key + ":content", same(foreign, items), "%s wrote %s" % (ctx, brief(text)))
    need(key + ":json_load", same(stream.json_load(path), items), "%s gave %s" % (ctx, brief(stream.json_load(path))))
    R.event("round_trips")
    if native or kind == "json_dump":
        return path, kind, items, suffix
    f = stream.json_stream_load(path)
    need(key + ":iterator", iter(f) is f, ctx)
    got = list(f)
    need(key + ":json_stream_load", same(got, items), "%s gave %s" % (ctx, brief(got)))
    cut_short(r, key, text, suffix, items, stream.json_stream_load, ctx)
    # two readers do not disturb each other, and a reader may stop early
    a, b = stream.json_stream_load(path), stream.json_stream_load(path)
    i = j = 0
    for _ in range(min(2 * len(items), 60)):
        if r.chance(0.5) and i < len(items):
            need(key + ":two-readers", same(next(a), items[i]), "%s item %d" % (ctx, i))
            i += 1
        elif j < len(items):
            need(key + ":two-readers", same(next(b), items[j]), "%s item %d" % (ctx, j))
            j += 1
    a.close()
    b.close()
    R.event("stream_reads", 2)
    return path, kind, items, suffix


def cut_short(r, key, data, suffix, items, load, ctx):
    """What a crash of the writer, or a full disk, leaves: the reader may refuse, but gives none but the items written."""
    for _ in range(3):
        n = r.below(len(data) + 1) if r.chance(0.5) else max(0, len(data) - r.randint(0, 12))
        part = data[:n]
        if suffix:
            part = (gzip.compress if suffix == ".gz" else bz2.compress)(part)
            if r.chance(0.3):
                part = part[:r.below(len(part))]
                R.event("cut_compressed")
        with builtins.open("cut" + suffix, "wb") as f:
            f.write(part)
        got = []
        try:
            f = load("cut" + suffix)
            try:
                for x in f:
                    got.append(x)
                    if len(got) > len(items):
                        break
            finally:
                f.close()
            R.event("cut_ended")
        except (IOError, EOFError, ValueError, struct.error):
            R.event("cut_refused")
        need(key + ":cut-short", len(got) <= len(items) and all(same(a, b) for a, b in zip(got, items)),
             "%s cut to %d bytes gave %s" % (ctx, n, brief(got)))
        R.event("cut")


def foreign_files(r, d, native):
    suffix = r.pick(SUFFIX)
    text = r.pick([b"", b"[", b"[ \n1\n]", b"[1,\n2\n]", b"[]", b"{\n}", b"\n[\n1\n]", b" [\n1\n]", b"[\r\n1\r\n]", b'"[\n"', b"null", b"[[\n1\n]]",
                   b"\xef\xbb\xbf[\n1\n]", json.dumps([gen_value(r)]).encode(), json.dumps(gen_value(r)).encode()])
    path = "foreign" + suffix
    data = gzip.compress(text) if suffix == ".gz" else bz2.compress(text) if suffix == ".bz2" else text
    with builtins.open(path, "wb") as f:
        f.write(data)
    if text[:2] == b"[\n":
        return
    refused("P17:json_stream_load:foreign-header", lambda: stream.json_stream_load(path), "file of %r" % text)
    R.event("foreign_refused")
    refused("P17:missing-file", lambda: stream.json_stream_load("absent" + suffix))
    refused("P17:missing-file", lambda: stream.json_load("absent" + suffix))
    need("P17:reading-created-files", not os.path.exists("absent" + suffix), suffix)


@monitor("P17")
def P17(r):
    with scratch() as d:
        with python2(True):
            written = {}
            for _ in range(r.randint(1, 4)):
                path, kind, items, suffix = one_file(r, d, False)
                written[os.path.realpath(path)] = (items, suffix, kind)
            foreign_files(r, d, False)
            # several co-streams at once
            if r.chance(0.3):
                k = r.randint(2, 4)
                paths = ["co%d%s" % (i, r.pick(SUFFIX)) for i in range(k)]
                cs = [stream.json_costream_dump(p) for p in paths]
                for c in cs:
                    next(c)
                sent = [[] for _ in cs]
                for _ in range(r.randint(0, 20)):
                    i = r.below(k)
                    sent[i].append(gen_value(r, 1))
                    cs[i].send(sent[i][-1])
                order = list(range(k))
                r.shuffle(order)
                for i in order:
                    cs[i].close()
                for i in range(k):
                    got = list(stream.json_stream_load(paths[i]))
                    need("P17:costreams-interleaved", same(got, sent[i]), "%s gave %s for %s" % (paths[i], brief(got), brief(sent[i])))
                R.event("interleaved")
            # writing one file leaves the others alone
            for p, (items, suffix, kind) in written.items():
                got = stream.json_load(p)
                need("P17:other-file-changed", same(got, items), "%s %s now %s, wrote %s" % (kind, p, brief(got), brief(items)))
    with scratch() as d:
        one_file(r, d, True)
        R.event("native")


def gen_record(r):
    if r.chance(0.01):
        R.event("large_records")
        some, size = bytes(r.below(256) for _ in range(r.randint(1, 3000))), int(r.logunif(5000, 1300000))
        return (some * (size // len(some) + 1))[:size]
    u = r.random()
    if u < 0.2:
        return b""
    if u < 0.4:
        return r.pick([b"\n", b"\x00" * 4, b"asdf", b"\xff\xff\xff\xff", struct.pack("<I", r.randint(0, 20)), b"]\n", b"\r\n"])
    if u < 0.6:
        m = pb.Clustering()
        if r.chance(0.5):
            m.pitman_yor.alpha, m.pitman_yor.d = r.random(), r.random()
        else:
            m.low_entropy.dataset_size = r.randint(0, 10 ** 9)
        return m.SerializeToString()
    return bytes(r.getrandbits(8) for _ in range(r.randint(1, 40) if u < 0.97 else r.randint(200, 70000)))


@monitor("P17-records")
def records(r):
    items = [gen_record(r) for _ in range(r.pick([0, 1, 1, 2, 5]) if r.chance(0.5) else r.randint(0, 60))]
    if r.chance(0.01):
        R.event("many_records")
        items += [b"%d" % (i * 37 % 1009) if i % 5 else b"" for i in range(r.randint(500, 20000))]
    suffix = r.pick(SUFFIX)
    with scratch() as d, python2(False):
        path = gen_path(r, suffix, d)
        ctx = "records %s to %r" % (brief(items), path)
        R.seen(ctx)
        R.sample(ctx)
        key = "P17:records:%s" % (suffix or "plain")
        if r.chance(0.2):
            os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
            with builtins.open(path, "wb") as f:
                f.write(b"\x01\x00\x00\x00x" * r.randint(1, 3000))
        stream.protobuf_stream_dump(iterable(r, items), path)
        data = raw(path, suffix)
        want = b"".join(struct.pack("<I", len(x)) + x for x in items)
        need(key + ":format", data == want, "%s wrote %s" % (ctx, brief(data)))
        f = stream.protobuf_stream_load(path)
        need(key + ":iterator", iter(f) is f, ctx)
        got = list(f)
        need(key + ":load", got == items, "%s gave %s" % (ctx, brief(got)))
        need(key + ":ended", next(f, None) is None, ctx)
        f.close()
        R.event("round_trips")
        cut_short(r, key, data, suffix, items, stream.protobuf_stream_load, ctx)
        # by hand, writer and reader interleaved
        fd = io.BytesIO()
        for x in items:
            stream.protobuf_stream_write(x, fd)
        need("P17:records:write", fd.getvalue() == want, ctx)
        fd.seek(0)
        for i, x in enumerate(items):
            y = stream.protobuf_stream_read(fd)
            need("P17:records:read", y == x, "%s item %d gave %s" % (ctx, i, brief(y)))
        refused("P17:records:read-past-end", lambda: stream.protobuf_stream_read(fd), ctx)
        # what is not a string is refused and nothing is written for it
        for bad in (None, 3, u"text", ["x"], pb.Clustering()):
            refused("P17:records:not-a-string", lambda: stream.protobuf_stream_write(bad, fd), repr(bad))
        need("P17:records:refused-but-written", fd.getvalue() == want, ctx)
        R.event("records", len(items))


@monitor("P17-directories")
def directories(r):
    with scratch() as d:
        parts = [r.pick(["a", "b", "c d", "e.gz"]) for _ in range(r.randint(1, 5))]
        p = os.path.join(*parts)
        if r.chance(0.5):
            p = os.path.join(d, p)
        have = r.below(len(parts) + 1)
        if have:
            os.makedirs(os.path.join(d, *parts[:have]))
            with builtins.open(os.path.join(d, parts[0], "keep"), "w") as f:
                f.write("x")
        stream.mkdir_p(p)
        need("P17:mkdir_p", os.path.isdir(p), p)
        stream.mkdir_p(p)
        if have:
            need("P17:mkdir_p:contents", os.path.exists(os.path.join(d, parts[0], "keep")), p)
        q = os.path.join(d, "file")
        with builtins.open(q, "w") as f:
            f.write("x")
        refused("P17:mkdir_p:below-a-file", lambda: stream.mkdir_p(os.path.join(q, "sub")), q)
        target = os.path.join(p, r.pick(["x", "y", "z"]), "f.json")
        stream.json_dump([1], target)
        need("P17:json_dump:directories", stream.json_load(target) == [1], target)
        # the directory appears between the test and its creation
        late = os.path.join(d, "late%d" % r.below(1000))
        real = os.path.exists
        hits = []

        def exists(path):
            ok = real(path)
            if not ok and path == late and not hits:
                hits.append(1)
                os.mkdir(late)
            return ok
        os.path.exists = exists
        try:
            stream.mkdir_p(late)
        finally:
            os.path.exists = real
        need("P17:mkdir_p:race", os.path.isdir(late), late)
        R.seen((p, have))
        R.event("directories")


if __name__ == "__main__":
    main()
