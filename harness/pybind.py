"""P22: the Python bindings, as copied from the working tree, on the library built from it.

mode=search  every bounded text in every kind of buffer, cut in every place
mode=life    every bounded history of making, using, closing and dropping handles
mode=decode  hit contexts
mode=errors  arguments which must be refused
"""
import array, ctypes as C, gc, importlib.util, itertools, mmap, os, re, shutil, sys, tempfile, time

A = dict(a.partition("=")[::2] for a in sys.argv[1:])
SHARD, SHARDS, ONLY = int(A.get("shard", 0)), int(A.get("shards", 1)), A.get("only")
if ONLY is not None:
    SHARD, SHARDS = 0, 1
REPO = os.environ.get("LG_REPO", "/repo")
COUNTS = {}
VIOLS = 0


def add(k, n=1):
    COUNTS[k] = COUNTS.get(k, 0) + n


def q(s):
    r = ""
    for c in str(s):
        r += "\\" + c if c in '"\\' else c if 32 <= ord(c) < 127 else "\\u%04x" % min(ord(c), 0xFFFF)
    return r


def viol(key, what):
    global VIOLS
    VIOLS += 1
    if VIOLS <= 40:
        print("VIOL %s\t%s" % (key, q(what)[:1500]), flush=True)


class Sharder:
    n = 0

    def mine(self):
        self.n += 1
        return (self.n - 1) % SHARDS == SHARD


def want(key):
    if ONLY is not None and key != ONLY:
        return False
    os.ftruncate(CUR, 0)
    os.pwrite(CUR, key.encode(), 0)
    return True


# ------------------------------------------------- the library, by itself
class KO(C.Structure):
    _fields_ = [("f", C.c_char), ("i", C.c_char), ("u", C.c_char)]


class Hit(C.Structure):
    _fields_ = [("s", C.c_uint64), ("e", C.c_uint64), ("k", C.c_uint32)]


class Win(C.Structure):
    _fields_ = [("b", C.c_uint64), ("e", C.c_uint64)]


CB = C.CFUNCTYPE(None, C.c_void_p, C.POINTER(Hit))


class Raw:
    def __init__(self, so):
        L = self.L = C.CDLL(so)
        for n in "lg_create_pattern lg_create_fsm lg_create_program lg_create_context lg_create_decoder lg_read_program".split():
            getattr(L, n).restype = C.c_void_p
        L.lg_search.restype = C.c_uint64
        L.lg_hit_context.restype = C.c_uint

    def context(self, pats):
        """pats: (pattern, encoding, fixed, icase, unicode)"""
        L = self.L
        f = C.c_void_p(L.lg_create_fsm(0, 0))
        for i, (p, e, fi, ci, u) in enumerate(pats):
            h = C.c_void_p(L.lg_create_pattern())
            ko = KO(b"\1" if fi else b"\0", b"\1" if ci else b"\0", b"\1" if u else b"\0")
            assert L.lg_parse_pattern(h, p.encode(), C.byref(ko), None) > 0
            assert L.lg_add_pattern(f, h, e.encode(), C.c_uint64(i), None) == i
            L.lg_destroy_pattern(h)
        o = C.c_uint32(10)
        g = C.c_void_p(L.lg_create_program(f, C.byref(o)))
        L.lg_destroy_fsm(f)
        t = (C.c_uint64 * 2)(2**64 - 1, 0)
        return C.c_void_p(L.lg_create_context(g, C.byref(t)))

    def search(self, ctx, text, off):
        out = []
        cb = CB(lambda u, h: out.append((h.contents.s, h.contents.e, h.contents.k)))
        b = C.create_string_buffer(text, len(text) + 1)
        p = C.addressof(b)
        r = self.L.lg_search(ctx, C.c_void_p(p), C.c_void_p(p + len(text)), C.c_uint64(off), None, cb)
        return r, out

    def closeout(self, ctx):
        out = []
        cb = CB(lambda u, h: out.append((h.contents.s, h.contents.e, h.contents.k)))
        self.L.lg_closeout_search(ctx, None, cb)
        return out

    def reset(self, ctx):
        self.L.lg_reset_context(ctx)

    def starts(self, ctx, text, off):
        out = []
        cb = CB(lambda u, h: out.append((h.contents.s, h.contents.e, h.contents.k)))
        b = C.create_string_buffer(text, len(text) + 1)
        p = C.addressof(b)
        self.L.lg_starts_with(ctx, C.c_void_p(p), C.c_void_p(p + len(text)), C.c_uint64(off), None, cb)
        return out

    def hit_context(self, dec, text, off, s, e, enc, win, repl):
        b = C.create_string_buffer(text, len(text) + 1)
        p = C.addressof(b)
        inner, outer, loc, out, err = Win(s, e), Win(), Win(), C.c_char_p(), C.c_void_p()
        self.L.lg_hit_context(dec, C.c_void_p(p), C.c_void_p(p + len(text)), C.c_uint64(off), C.byref(inner), enc.encode(), C.c_size_t(win), C.c_uint32(repl),
                              C.byref(out), C.byref(outer), C.byref(loc), C.byref(err))
        if err:
            self.L.lg_free_error(err)
            return None
        r = (outer.b, outer.e, loc.b, loc.e, out.value.decode())
        self.L.lg_free_hit_context_string(out)
        return r


class Fleeting(bytearray):
    """a buffer whose contents are overwritten when it goes away"""
    def __del__(self):
        for i in range(len(self)):
            self[i] = 0xFF


class FleetingBytes(bytes):
    def __del__(self):
        C.memset(id(self) + bytes.__basicsize__ - 1, 0xFF, len(self))


def mapped(t):
    m = mmap.mmap(-1, max(1, len(t)))
    m[:len(t)] = t
    return memoryview(m)[:len(t)]


KINDS = [bytes, bytearray, lambda t: memoryview(t), lambda t: array.array("B", t), mapped, lambda t: memoryview(bytearray(t + b"zz"))[:len(t)], lambda t: memoryview(bytearray(b"z" + t))[1:]]


def texts(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield bytes(t)


SETS = [
    [("a+b", ["UTF-8"], (0, 0, 0))],
    [("a", ["ASCII", "UTF-8"], (0, 0, 0)), ("b+", ["UTF-8"], (0, 0, 0))],
    [("A.B", ["UTF-8"], (0, 1, 0)), ("ab", ["ISO-8859-1"], (1, 0, 0))],
    [("a.b", ["UTF-8"], (1, 0, 0)), ("a.?", ["UTF-8"], (0, 0, 0)), ("B", ["ASCII"], (1, 1, 0))],
    [("a(b|a)*?b", ["UTF-8"], (0, 0, 1))],
]


def compile_(LG, s):
    return LG.make_program_from_patterns([(p, e, LG.KeyOpts(*map(bool, o))) for p, e, o in s], LG.ProgOpts())


def flat(s):
    return [(p, e, i) + o for i, (p, es, o) in enumerate(s) for e in es]


def hits(acc):
    return [(h["start"], h["end"], h["keywordIndex"], h["pattern"], h["encChain"]) for h in acc.Hits]


def mode_search(LG, raw, n):
    sh = Sharder()
    ts = list(texts(b"ab", n)) + [b"a.b", b"xa.baB", b"AB\x00ab", b"\xffa\xfeb"]
    for si, s in enumerate(SETS):
        fl = flat(s)
        rc = raw.context([(p, e) + tuple(o) for p, e, i, *o in fl])
        prog = compile_(LG, s)
        if prog.count() != len(fl):
            viol("count", "a program of %d patterns counts %d" % (len(fl), prog.count()))
        with LG.Context(prog, LG.CtxOpts()) as ctx:
            for t in ts:
                for off in (0, 1, 2**31 + 5, 2**32 - 1, 2**40 + 3, 2**63 + 9):
                    key = "set%d %r at %d" % (si, t, off)
                    if not sh.mine() or not want(key):
                        continue
                    add("states")

                    def conv(hs):
                        return [(a, b, fl[k][2], fl[k][0], fl[k][1]) for a, b, k in hs]
                    for cut in range(len(t) + 1):
                        raw.reset(rc)
                        r1, h1 = raw.search(rc, t[:cut], off)
                        r2, h2 = raw.search(rc, t[cut:], off + cut)
                        h3 = raw.closeout(rc)
                        e = (r1, r2, conv(h1), conv(h2), conv(h3))
                        for ki, kind in enumerate(KINDS):
                            if ki and cut % 3 and cut != len(t):
                                continue
                            a1, a2, a3 = LG.HitAccumulator(), LG.HitAccumulator(), LG.HitAccumulator()
                            ctx.reset()
                            g = (ctx.search(kind(t[:cut]), off, a1), ctx.search(kind(t[cut:]), off + cut, a2))
                            ctx.closeout(a3)
                            g += (hits(a1), hits(a2), hits(a3))
                            add("transitions", 3)
                            if g != e:
                                viol(key, "cut at %d, buffer kind %d: got %r expected %r" % (cut, ki, g, e))
                                return
                            for a in (a1, a2, a3):
                                if {k: v for k, v in a.KeyCounts.items() if v} != {p: sum(1 for h in a.Hits if h["pattern"] == p) for p in {h["pattern"] for h in a.Hits}}:
                                    viol(key, "counts %r for hits %r" % (a.KeyCounts, a.Hits))
                            add("traces", len(h1) + len(h2) + len(h3))
                    w = conv(raw.starts(rc, t, off))
                    acc = LG.HitAccumulator()
                    ctx.startswith(KINDS[len(t) % 7](t), off, acc)
                    if hits(acc) != w:
                        viol(key, "startswith: got %r expected %r" % (hits(acc), w))
                    if off == 0:
                        raw.reset(rc)
                        w = conv(raw.search(rc, t, 0)[1] + raw.closeout(rc))
                        acc = LG.HitAccumulator()
                        ctx.reset()
                        for rnd in (1, 2):
                            k = ctx.searchBuffer(KINDS[(len(t) + rnd) % 7](t), acc)
                            if hits(acc) != w * rnd or k != len(w) * rnd:
                                viol(key, "searchBuffer: got %r, %r expected %r" % (k, hits(acc), w * rnd))
                        acc.reset()
                        if acc.Hits or acc.KeyCounts:
                            viol(key, "reset accumulator holds %r" % (acc.Hits,))
                        w = conv(raw.starts(rc, t, 0))
                        k = ctx.searchBufferStartswith(t, acc)
                        if hits(acc) != w or k != len(w):
                            viol(key, "searchBufferStartswith: got %r, %r expected %r" % (k, hits(acc), w))


# ------------------------------------------------------------------ histories
class Bad(Exception):
    pass


PATS = [("a+b", (0, 0, 0), re.compile(b"a+b")), ("A", (0, 1, 0), re.compile(b"[aA]")), ("b.", (1, 0, 0), re.compile(b"b\\.")), ("a|", (0, 0, 0), None)]
USERS = [0, 7, 2**31, 2**32 + 5, 2**64 - 1]
TEXT = b"aab.Ab.b"


def rx_hits(pats, t, off):
    r = []
    for rx, user, pat, enc in pats:
        r += [(off + m.start(), off + m.end(), user, pat, enc) for m in rx.finditer(t)]
    return sorted(r)


class World:
    """the real objects beside a model of what they must do"""
    def __init__(self, LG):
        self.LG = LG
        self.o = {}      # name -> real handle (absent: never made, or dropped)
        self.m = {}      # name -> model: [closed?, ...]
        self.nadd = 0

    def use(self, names, f):
        """f must raise RuntimeError exactly if one of names is closed"""
        closed = any(self.m[n]["closed"] for n in names)
        try:
            r = f()
        except RuntimeError as e:
            if closed:
                return None, True
            raise Bad("raised %s" % e)
        if closed:
            raise Bad("a closed handle was used without an error")
        return r, False

    def do(self, op):
        LG, o, m = self.LG, self.o, self.m
        k, *a = op
        if k == "pattern":
            o["pat"] = LG.Pattern()
            m["pat"] = dict(closed=False, p=None)
        elif k == "parse":
            p = PATS[a[0]]
            if m["pat"]["closed"] or p[2]:
                r, c = self.use(["pat"], lambda: o["pat"].parse(p[0], LG.KeyOpts(*map(bool, p[1]))))
                if not c:
                    m["pat"]["p"] = a[0]
            else:
                try:
                    o["pat"].parse(p[0], LG.KeyOpts(*map(bool, p[1])))
                except RuntimeError as e:
                    if p[0] not in str(e):
                        raise Bad("the error does not name the pattern: %s" % e)
                else:
                    raise Bad("%s was accepted" % p[0])
                m["pat"]["p"] = None
        elif k == "fsm":
            o["fsm"] = LG.Fsm(0, 0)
            m["fsm"] = dict(closed=False, pats=[])
        elif k == "add":
            u = USERS[self.nadd % len(USERS)]
            p = m["pat"]["p"]
            enc = a[0]
            if m["pat"]["closed"] or m["fsm"]["closed"]:
                self.use(["pat", "fsm"], lambda: o["fsm"].add_pattern(o["pat"], enc, u))
            elif p is None or enc == "bogus":
                try:
                    o["fsm"].add_pattern(o["pat"], enc, u)
                except RuntimeError:
                    pass
                else:
                    raise Bad("adding succeeded")
            else:
                i = o["fsm"].add_pattern(o["pat"], enc, u)
                if i != len(m["fsm"]["pats"]):
                    raise Bad("index %r" % i)
                m["fsm"]["pats"].append((PATS[p][2], u, PATS[p][0], enc))
                self.nadd += 1
                if o["fsm"].count() != i + 1:
                    raise Bad("count %r" % o["fsm"].count())
        elif k == "program":
            if m["fsm"]["closed"] or m["fsm"]["pats"]:
                r, c = self.use(["fsm"], lambda: LG.Program(o["fsm"], LG.ProgOpts()))
                if not c:
                    o["prog"] = r
                    m["prog"] = dict(closed=False, pats=list(m["fsm"]["pats"]))
            else:
                try:
                    o["prog"] = LG.Program(o["fsm"], LG.ProgOpts())
                    raise Bad("a program was made of nothing")
                except RuntimeError:
                    o.pop("prog", None)
                    m.pop("prog", None)
        elif k == "reread":
            def f():
                b = o["prog"].write()
                if len(b) != o["prog"].size():
                    raise Bad("size %d, written %d" % (o["prog"].size(), len(b)))
                b = (Fleeting, FleetingBytes)[a[0]](b)
                return LG.Program(b)   # b is dropped
            r, c = self.use(["prog"], f)
            if not c:
                o["prog"] = r
                m["prog"] = dict(m["prog"])
        elif k == "context":
            r, c = self.use(["prog"], lambda: LG.Context(o["prog"], LG.CtxOpts()))
            if not c:
                o["ctx"] = r
                m["ctx"] = dict(closed=False, prog=m["prog"])
        elif k == "search":
            acc = LG.HitAccumulator()
            if m["ctx"]["prog"]["closed"] or m["ctx"]["closed"]:
                try:
                    o["ctx"].searchBuffer(TEXT, acc)
                except RuntimeError:
                    return
                raise Bad("a closed handle was used without an error")
            o["ctx"].reset()
            n = o["ctx"].searchBuffer(TEXT, acc)
            e = rx_hits(m["ctx"]["prog"]["pats"], TEXT, 0)
            if sorted(hits(acc)) != e or n != len(e):
                raise Bad("got %r expected %r" % (sorted(hits(acc)), e))
            add("traces")
        elif k == "close":
            o[a[0]].close()
            m[a[0]]["closed"] = True
            if o[a[0]]:
                raise Bad("closed, but true")
        elif k == "with":
            with o[a[0]] as x:
                if x is not o[a[0]]:
                    raise Bad("with yields something else")
            m[a[0]]["closed"] = True
        elif k == "drop":
            del o[a[0]]
            del m[a[0]]
            gc.collect(0)
        add("transitions")

    def ops(self):
        o = self.o
        r = [("pattern",)] if "pat" not in o else [("parse", i) for i in range(len(PATS))]
        if "fsm" not in o:
            r.append(("fsm",))
        if "pat" in o and "fsm" in o:
            r += [("add", "UTF-8"), ("add", "bogus")]
        if "fsm" in o:
            r.append(("program",))
        if "prog" in o:
            r += [("reread", 0), ("reread", 1), ("context",)]
        if "ctx" in o:
            r.append(("search",))
        for n in sorted(o):
            r += [("close", n), ("drop", n)]
        return r


PRE = [("pattern",), ("parse", 0), ("fsm",), ("add", "UTF-8")]


def mode_life(LG, raw, n):
    sh = Sharder()
    pres = [[], PRE, PRE + [("parse", 1), ("add", "ASCII"), ("parse", 2), ("add", "UTF-8"), ("parse", 1), ("add", "ISO-8859-1")],
            PRE + [("program",)], PRE + [("program",), ("context",)], PRE + [("program",), ("reread", 0), ("context",)],
            PRE + [("parse", 1), ("add", "ASCII"), ("parse", 2), ("add", "UTF-8"), ("parse", 1), ("add", "UTF-8"), ("parse", 1), ("add", "ISO-8859-1"), ("program",), ("context",), ("drop", "pat")]]

    def show(h):
        return "; ".join(" ".join(map(str, x)) for x in h)

    def run(h, fresh):
        w = World(LG)
        for i, op in enumerate(h):
            w.do(op)
        return w

    def rec(pre, h, d, depth):
        key = show(pre + h)
        ops = []
        try:
            w = run(pre + h, len(h))
            ops = w.ops()
            for x in w.o.values():
                x.close()
        except Bad as e:
            viol(key, "%s: %s" % (key, e))
            return
        except Exception as e:
            viol(key, "%s: %s: %s" % (key, type(e).__name__, e))
            return
        add("states")
        if d == depth:
            return
        for op in ops:
            h.append(op)
            if ONLY is not None and not (ONLY + ";").startswith(show(pre + h) + ";") and show(pre + h) != ONLY:
                h.pop()
                continue
            if d >= 1 or sh.mine():
                if ONLY is None:
                    want(show(pre + h))
                rec(pre, h, d + 1, depth)
            h.pop()
    for pre in pres:
        rec(pre, [], 0, n)


def mode_decode(LG, raw, n):
    sh = Sharder()
    rd = C.c_void_p(raw.L.lg_create_decoder())
    with LG.HitDecoder() as dec:
        for enc, alpha in (("ASCII", b"a\x00\xff"), ("UTF-8", b"a\xc3\xa9\xff"), ("UTF-16LE", b"a\x00\xd8"), ("OCE", b"aZ"), ("windows-1252", b"a\x81\xe9"), ("bogus", b"a")):
            for t in texts(alpha, n):
                for s in range(len(t)):
                    for e in range(s + 1, len(t) + 1):
                        key = "%s %r %d-%d" % (enc, t, s, e)
                        if not sh.mine() or not want(key):
                            continue
                        add("states")
                        for win in (0, 1, 3, None):
                            for off in (0, 2**33):
                                x = raw.hit_context(rd, t, off, off + s, off + e, enc, 100 if win is None else win, 32)
                                hit = {"start": off + s, "end": off + e, "encChain": enc}
                                kw = {} if win is None else {"window_size": win}
                                add("transitions")
                                b = KINDS[(s + e) % 7](t)
                                try:
                                    r = dec.full_hit_context(b, off, hit, **kw)
                                    r2 = dec.hit_context(b, off, hit, **kw)
                                except RuntimeError as ex:
                                    if x is not None:
                                        viol(key, "raised %s" % ex)
                                    continue
                                if x is None:
                                    viol(key, "no error in encoding " + enc)
                                    continue
                                g = (r["context_begin"], r["context_end"], r["context_hit_begin"], r["context_hit_end"], r["hit_context"])
                                if g != x or r2 != x[4]:
                                    viol(key, "window %r: got %r, %r expected %r" % (win, g, r2, x))
                                add("traces")


def mode_errors(LG, raw, n):
    sh = Sharder()
    ko = LG.KeyOpts()

    def fsm1():
        f = LG.Fsm(0, 0)
        p = LG.Pattern()
        p.parse("ab", ko)
        f.add_pattern(p, "UTF-8", 0)
        return f
    good = bytes(LG.Program(fsm1(), LG.ProgOpts()).write())
    cases = {
        "negative pattern hint": (ValueError, lambda: LG.Fsm(-1, 0)),
        "negative size hint": (ValueError, lambda: LG.Fsm(0, -1)),
        "no arguments": (TypeError, lambda: LG.Program()),
        "three arguments": (TypeError, lambda: LG.Program(1, 2, 3)),
        "not an fsm": (TypeError, lambda: LG.Program("x", LG.ProgOpts())),
        "not options": (TypeError, lambda: LG.Program(fsm1(), 3)),
        "empty set": (RuntimeError, lambda: LG.Program(LG.Fsm(0, 0), LG.ProgOpts())),
        "list without pattern": (IndexError, lambda: LG.make_program_from_patterns([("", ["UTF-8"], ko)], LG.ProgOpts())),
        "list without encodings": (IndexError, lambda: LG.make_program_from_patterns([("a", [], ko)], LG.ProgOpts())),
        "list without options": (IndexError, lambda: LG.make_program_from_patterns([("a", ["UTF-8"], None)], LG.ProgOpts())),
        "list with a bad pattern": (RuntimeError, lambda: LG.make_program_from_patterns([("a", ["UTF-8"], ko), ("b|", ["UTF-8"], ko)], LG.ProgOpts())),
        "list with a bad encoding": (RuntimeError, lambda: LG.make_program_from_patterns([("a", ["UTF-8", "bogus"], ko)], LG.ProgOpts())),
        "empty list": (RuntimeError, lambda: LG.make_program_from_patterns([], LG.ProgOpts())),
        "unencodable": (RuntimeError, lambda: LG.make_program_from_patterns([("\u03b1", ["ASCII"], ko)], LG.ProgOpts())),
    }
    for k in range(len(good)):
        cases["program cut to %d bytes" % k] = (RuntimeError, lambda k=k: LG.Program(good[:k]))
    for name, (exc, f) in cases.items():
        if not sh.mine() or not want(name):
            continue
        add("states")
        add("transitions")
        try:
            r = f()
        except exc:
            add("traces")
        except Exception as e:
            viol(name, "%s: raised %s: %s" % (name, type(e).__name__, e))
        else:
            viol(name, "%s was accepted" % name)
    for fx in (0, 1):
        for ci in (0, 1):
            for u in (0, 1):
                if sh.mine() and want("options %d%d%d" % (fx, ci, u)):
                    add("states")
                    k = LG.KeyOpts(bool(fx), bool(ci), bool(u))
                    k2 = LG.KeyOpts(fixedString=bool(fx), caseInsensitive=bool(ci), unicodeMode=bool(u))
                    for x in (k, k2):
                        if (x.isFixed(), x.isCaseSensitive(), x.isUnicodeMode()) != (bool(fx), not ci, bool(u)):
                            viol("options %d%d%d" % (fx, ci, u), "the options read back differ")
                    # and they mean what they say: a.b and \u212a (folds to k only in Unicode mode)
                    p = LG.make_program_from_patterns([("a.B", ["UTF-8"], k), ("k", ["UTF-8"], k)], LG.ProgOpts())
                    acc = LG.HitAccumulator()
                    with LG.Context(p, LG.CtxOpts()) as c:
                        c.searchBuffer("a.B a.b axB axb A.B \u212a k K".encode(), acc)
                    got = sorted((h["start"], h["pattern"]) for h in acc.Hits)
                    e = [(0, "a.B")]
                    if ci:
                        e += [(4, "a.B"), (16, "a.B")]
                    if not fx:
                        e += [(8, "a.B")]
                        if ci:
                            e += [(12, "a.B")]
                    e += [(24, "k")] + ([(26, "k")] if ci else []) + ([(20, "k")] if ci and u else [])
                    if got != sorted(e):
                        viol("options %d%d%d" % (fx, ci, u), "got %r expected %r" % (got, sorted(e)))
    # round trips
    for name, b in (("bytes", good), ("bytearray", bytearray(good)), ("memoryview", memoryview(good)), ("array", array.array("B", good)), ("mapped", mapped(good))):
        if sh.mine() and want("program from " + name):
            add("states")
            p = LG.Program(b)
            acc = LG.HitAccumulator()
            with LG.Context(p, LG.CtxOpts()) as c:
                c.searchBuffer(b"xab", acc)
            if hits(acc) != [(1, 3, 0, "ab", "UTF-8")] or bytes(p.write()) != good:
                viol("program from " + name, "hits %r" % (acc.Hits,))


def main():
    d = tempfile.mkdtemp(prefix="lgpy")
    global CUR
    CUR = os.open(d + "/case", os.O_RDWR | os.O_CREAT)
    pid = os.fork()
    if pid == 0:
        try:
            os.mkdir(d + "/lightgrep")
            shutil.copy(REPO + "/pylightgrep/lightgrep/__init__.py", d + "/lightgrep/__init__.py")
            for f in os.listdir(REPO + "/pylightgrep/lightgrep"):
                if f.endswith(".py"):
                    shutil.copy(REPO + "/pylightgrep/lightgrep/" + f, d + "/lightgrep/" + f)
            os.symlink(A["shlib"], d + "/lightgrep/liblightgrep.so")
            sys.dont_write_bytecode = True
            sys.path.insert(0, d)
            import lightgrep as LG
            raw = Raw(A["shlib"])
            globals()["mode_" + A["mode"]](LG, raw, int(A.get("n", 3)))
            for k, v in COUNTS.items():
                print("COUNT %s %d" % (k, v))
            print("DONE %d" % VIOLS, flush=True)
        except BaseException as e:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(3)
        os._exit(0)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        print("VIOL %s\tCRASH: signal %d" % (os.pread(CUR, 4000, 0).decode(), os.WTERMSIG(st)), flush=True)
    shutil.rmtree(d, ignore_errors=True)
    sys.exit(os.WEXITSTATUS(st) if os.WIFEXITED(st) else 3)


if __name__ == "__main__":
    main()
