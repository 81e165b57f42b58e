"""Runs the calls of a job file against the Python module; answers '@@done' on stdout when the transcript is written.

A job is a text of lines "key value..."; texts are hexadecimal.  The transcript has one line for each call result and
for each notification of the sink.
"""
import ctypes, datetime, gc, struct, sys, traceback, weakref

import pycppsas7bdat
from pycppsas7bdat import Reader
from pycppsas7bdat import sink as package

EPOCH = datetime.datetime(1960, 1, 1)
DAY = datetime.timedelta(days=1)
US = datetime.timedelta(microseconds=1)


class Boom(Exception):
    pass


def show(x):
    t = type(x)
    if x is None:
        return "N"
    if t is bytes:
        return "s:" + x.hex()
    if t is int:
        return "i:%d" % x
    if t is float:
        return "f:nan" if x != x else "f:" + struct.pack(">d", x).hex()
    if t is datetime.datetime:
        return "t:%d" % ((x - EPOCH) // US)
    if t is datetime.date:
        return "d:%d" % (x - EPOCH.date()).days
    if t is datetime.time:
        return "T:%d" % (((x.hour * 60 + x.minute) * 60 + x.second) * 1000000 + x.microsecond)
    return "?" + t.__name__


def hx(s):
    return s.encode().hex()


NUMBERS = ("header_length page_length page_count row_length row_count column_count col_count_p1 col_count_p2 mix_page_row_count lcs lcp").split()
TEXTS = "dataset_name encoding file_type sas_release sas_server_type os_type os_name creator creator_proc".split()
ENUMS = "format endianness platform compression".split()


def show_props(p):
    r = ["%s=%s" % (k, getattr(p, k)) for k in ENUMS]
    r += ["%s=%s" % (k, show(getattr(p, k))) for k in ("date_created", "date_modified")]
    r += ["%s=%s" % (k, hx(getattr(p, k))) for k in TEXTS]
    r += ["%s=%d" % (k, getattr(p, k)) for k in NUMBERS]
    r += ["%s,%s,%s,%s" % (hx(c.name), hx(c.label), hx(c.format), c.type) for c in p.columns]
    return "|".join(r)


def show_dict(d):
    return "|".join("%s=%s" % (hx(k), ",".join(show(x) for x in d[k])) for k in sorted(d, key=lambda k: k.encode()))


class Log:
    def __init__(self, late, boom):
        self.lines, self.late, self.boom, self.seen = [], late, boom, 0

    def add(self, make):
        self.lines.append(make if self.late else make())

    def event(self, make):
        self.add(make)
        k = self.seen
        self.seen += 1
        if k == self.boom:
            raise Boom("boom-%d" % k)

    def text(self):
        return "".join((l if isinstance(l, str) else l()) + "\n" for l in self.lines)


class Base:
    def __init__(self, log):
        self.log = log

    def set_properties(self, p):
        self.log.event(lambda: "P " + show_props(p))


class ByRow(Base):
    def push_row(self, irow, row):
        if type(row) is not list:
            row = ["?" + type(row).__name__]
        self.log.event(lambda: "R %d %s" % (irow, ",".join(show(x) for x in row)))


class ByChunk(Base):
    def push_rows(self, first, last, rows):
        self.log.event(lambda: "C %d %d %s" % (first, last, show_dict(rows)))


class Whole(Base):
    def set_data(self, data):
        self.log.event(lambda: "D " + show_dict(data))


def unexpected(name):
    def f(self, *a):
        self.log.event(lambda: "unexpected " + name)
    return f


def make_sink(style, extra, log):
    kind = style.split()
    if kind[0] == "row":
        return ByRow(log)
    if kind[0] == "chunk":
        c = type("ByChunkToo", (ByChunk,), {"push_row": unexpected("push_row"), "set_data": unexpected("set_data")}) if extra else ByChunk
        s = c(log)
        s.chunk_size = int(kind[1])
        return s
    if kind[0] == "data":
        return (type("WholeToo", (Whole,), {"push_row": unexpected("push_row")}) if extra else Whole)(log)
    if kind[0] == "prow":
        return package.SinkByRow()
    if kind[0] == "pchunk":
        return package.SinkByChunk(int(kind[1])) if int(kind[1]) else package.SinkByChunk()
    if kind[0] == "pdata":
        return package.SinkWholeData()
    if kind[0] == "none":
        return None
    if kind[0] == "bad":
        return Base(log)
    raise SystemExit("unknown sink " + style)


def names(v):
    if v == "none":
        return None
    if v == "badlist":
        return "abc"
    if v == "badtuple":
        return ("a",)
    if v == "baditem":
        return ["a", 1]
    return [bytes.fromhex(x).decode() for x in v.split(",") if x]


def show_df(df):
    if df is None:
        return "DF none"
    return "DF " + "|".join("%s=%s" % (hx(n), ",".join(show(x) for x in df.values[n])) for n in df.names)


def error(e):
    return "! " + (str(e) if type(e) is Boom else "error" if isinstance(e, Exception) else repr(e))


def play(job):
    log = Log(job["late"] == "1", int(job["boom"]))
    path = bytes.fromhex(job["file"]).decode()
    reader = sink = kept = None
    try:
        include, exclude = names(job["include"]), names(job["exclude"])
        if job["sink"].startswith("read_sas"):
            how = job["sink"].split()
            s = None if how[1] == "default" else make_sink(" ".join(how[1:]), False, log)
            from pycppsas7bdat.read_sas import read_sas
            sink = read_sas(path, s, include, exclude) if s is not None else read_sas(path, include=include, exclude=exclude)
            if s is not None and sink is not s:
                log.add(lambda: "another sink")
            log.lines.append("> read_sas")
        else:
            sink = make_sink(job["sink"], job["extra"] == "1", log)
            if job["include"] == "none" and job["exclude"] == "none":
                reader = Reader(path, sink)
            else:
                reader = Reader(path, sink, include=include, exclude=exclude)
            log.lines.append("> open")
    except Exception as e:
        log.lines.append(error(e))
        del e
        job["ops"] = [o for o in job["ops"] if o == "gc"]
    for op in job["ops"]:
        w = op.split()
        try:
            if w[0] == "read_row":
                log.lines.append("> %s" % reader.read_row())
            elif w[0] == "read_rows":
                log.lines.append("> %s" % reader.read_rows(int(w[1])))
            elif w[0] == "skip":
                log.lines.append("> %s" % reader.skip(int(w[1])))
            elif w[0] == "read_all":
                log.lines.append("> %s" % reader.read_all())
            elif w[0] == "eod":
                log.lines.append("> %s" % reader.end_of_data())
            elif w[0] == "index":
                log.lines.append("> %s" % show(reader.current_row_index))
            elif w[0] == "props":
                log.lines.append("> " + show_props(reader.properties()))
            elif w[0] == "keep":
                kept = (reader.properties(), reader.properties().columns, list(reader.properties().columns), iter(reader.properties().columns))
            elif w[0] == "flush":
                if hasattr(sink, "_cpp"):
                    sink._cpp.flush_sink()
                log.lines.append("> flush")
            elif w[0] == "drop_sink":
                sink = None
            elif w[0] == "drop_reader":
                reader = None
            elif w[0] == "gc":
                gc.collect()
            elif w[0] == "attr":
                log.lines.append("> attr %s" % hasattr(sink, "_cpp"))
            elif w[0] == "df":
                log.lines.append(show_df(sink.df))
                if sink.df is not sink.df:
                    log.lines.append("another df")
                if sink.properties is None or [c.name for c in sink.properties.columns] != sink.columns:
                    log.lines.append("the sink has no columns")
            else:
                raise SystemExit("unknown call " + op)
        except Exception as e:
            log.lines.append(error(e))
            del e
            if w[0] != "df":
                break
    reader = None
    gc.collect(0)
    if kept:
        log.lines.append("K " + show_props(kept[0]))
        for what in kept[1:]:
            log.lines.append("K " + "|".join(hx(c.name) for c in what))
    what = kept = None
    text = log.text()
    log.lines = []
    if sink is not None and hasattr(sink, "_cpp"):
        text += "the sink refers to a destroyed reader\n"
    s = None
    ref = None if sink is None else weakref.ref(sink)
    sink = None
    if ref is not None and ref() is not None:
        gc.collect()
        if ref() is not None:
            text += "the sink is kept though nobody refers to it\n"
    return text


class Info(ctypes.Structure):
    _fields_ = [(k, ctypes.c_size_t) for k in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


MALLINFO = ctypes.CDLL(None).mallinfo2
MALLINFO.restype = Info


def in_use():
    gc.collect()
    m = MALLINFO()
    return sys.getallocatedblocks(), m.uordblks + m.hblkhd


def leaks(job, n):
    """What is left of every run, if anything: the least growth over several windows of n runs"""
    play(dict(job))
    least = None
    for _ in range(40):
        a = in_use()
        for _ in range(n):
            play(dict(job))
        b = in_use()
        grown = [y - x for x, y in zip(a, b)]
        least = grown if least is None else [min(x, y) for x, y in zip(least, grown)]
        if least[0] < 2 * n and least[1] < 16 * n:
            return ""
    return "%d Python objects and %d bytes more after every %d runs\n" % (least[0], least[1], n)


def main():
    for line in sys.stdin:
        path = line.strip()
        job = {"ops": []}
        for l in open(path):
            k, _, v = l.rstrip("\n").partition(" ")
            if k == "op":
                job["ops"].append(v)
            else:
                job[k] = v
        n = int(job.get("repeat", "0"))
        try:
            text = leaks(job, n) if n else play(job)
        except Exception:  # what the driver itself cannot make sense of is part of the transcript
            text = "the driver failed: " + traceback.format_exc()
        with open(path + ".out", "w") as f:
            f.write(text)
        print("@@done", flush=True)


if len(sys.argv) > 1 and sys.argv[1] == "version":
    print(pycppsas7bdat.getVersion())
else:
    main()
