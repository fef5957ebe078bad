"""P23: the Java bindings, compiled from the working tree, on the library built from it.  Java code which carries out commands (JavaBind.java) is given every case;
what must come of it is computed here, by direct calls of the C functions and a model of the handles.

mode=search   every bounded text in every kind of buffer, at every position, cut in every place; callbacks which throw
mode=life     every bounded history of making, using, destroying and dropping handles
mode=decode   hit contexts
mode=text     patterns and decoded text of all kinds of characters
mode=init     every pair of classes used first by two threads
mode=errors   arguments which must be refused
"""
import ctypes as C, itertools, os, re, shutil, subprocess, sys, tempfile, threading
import pybind
from pybind import A, Raw, Sharder, add, texts, viol, SETS, flat, rx_hits

ONLY = pybind.ONLY


def hx(b):
    if b is None:
        return "~"
    if isinstance(b, str):
        b = b.encode()
    return b.hex() or "-"


class Died(Exception):
    pass


class Java:
    def __init__(self, cp, d, n):
        self.cp, self.d, self.p, self.n, self.died = cp, d, None, n, 0

    def start(self):
        r, w = os.pipe()
        classes, lib = self.cp.split(":")
        self.err = open(self.d + "/err", "w+")
        self.p = subprocess.Popen(["java", "-Xmx%dm" % self.n, "-Xss1m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-Xshare:auto",
                                   "-Xcheck:jni", "-Djava.library.path=" + lib, "-cp", classes, "JavaBind", "/dev/fd/%d" % w],
                                  stdin=subprocess.PIPE, stdout=self.err, stderr=self.err, pass_fds=(w,), cwd=self.d)
        os.close(w)
        self.out = os.fdopen(r, "r")

    def case(self, key, cmds):
        """cmds: (command, what must be answered: a string, None, or a function giving what is wrong)"""
        if ONLY is not None and key != ONLY:
            return
        os.ftruncate(pybind.CUR, 0)
        os.pwrite(pybind.CUR, key.encode(), 0)
        if self.p is None:
            self.start()
        add("states")
        got = []
        late = []
        timer = threading.Timer(120, lambda: (late.append(1), self.p.kill()))
        timer.start()
        try:
            self.p.stdin.write(("".join(c + "\n" for c, e in cmds) + "clear\nflush\n").encode())
            self.p.stdin.flush()
            for i in range(len(cmds) + 1):
                l = self.out.readline()
                if not l:
                    raise Died()
                got.append(l.rstrip("\n"))
        except (Died, BrokenPipeError):
            self.p.stdin.close() if not self.p.stdin.closed else None
            rc = self.p.wait()
            self.err.seek(0)
            m = [l for l in self.err.read().splitlines() if "FATAL" in l or "SIG" in l or "Exception" in l or "rror" in l][:3]
            viol(key, "no answer in 120 s" if late else "CRASH: the virtual machine ended (%s): %s" % (rc, "; ".join(m)))
            self.p = None
            self.died += 1
            if self.died > 5 or late:
                raise SystemExit
            return
        finally:
            timer.cancel()
        add("transitions", len(cmds))
        for (c, e), g in zip(cmds, got):
            if callable(e):
                w = e(g)
                if w:
                    viol(key, "%s: got %r: %s" % (c, g, w))
                    return
            elif e is not None and g != e:
                viol(key, "%s: got %r expected %r" % (c, g, e))
                return
            if "," in g:
                add("traces", g.count(",") // 2)

    def end(self):
        if self.p is not None:
            self.p.stdin.close()
            if self.p.wait():
                viol("end", "the virtual machine ended with status %d" % self.p.returncode)


def build(pats, det=1, prog="g"):
    """commands which make program g of (pattern, encoding, user, (fixed, icase, unicode))"""
    c = [("pattern p", "="), ("fsm f 0 0", "="), ("program %s 0" % prog, "=")]
    for i, (p, e, u, o) in enumerate(pats):
        c.append(("parse p %s %d%d%d" % ((hx(p),) + tuple(o)), None))
        c.append(("add f p %s %d" % (hx(e), u), "=%d" % i))
    c.append(("compile %s f %d" % (prog, det), "=1"))
    return c


def hs(h):
    return "".join(" %d,%d,%d" % x for x in h)


def mode_search(J, raw, n):
    sh = Sharder()
    ts = list(texts(b"ab", n)) + [b"a.b", b"xa.baB", b"AB\x00ab", b"\xffa\xfeb"]
    for si, s in enumerate(SETS):
        fl = flat(s)
        rc = raw.context([(p, e) + tuple(o) for p, e, i, *o in fl])
        pats = [(p, e, k, o) for k, (p, e, i, *o) in enumerate(fl)]
        for t in ts:
            for off in (0, 1, 2**31 + 5, 2**32 - 1, 2**40 + 3, 2**62 + 9):
                if not sh.mine():
                    continue
                cmds = build(pats, si & 1) + [("count g", "=%d" % len(fl)), ("context c g 0", "=")]

                def ret(r, h):
                    # the value returned is of 32 bits: nothing is said of greater ones
                    e = hs(h)
                    return ("=%d%s" % (r, e)) if r < 2**31 else lambda g: None if g.startswith("=") and g[1:].lstrip("-0123456789") == e else "expected hits" + e

                def call(k, pre, b, post, o, stop, what="search"):
                    return "%s c %s %s %d %d %d %d %d" % (what, k, hx(pre + b + post), len(pre), len(b), len(pre) + len(b) + (len(post) if k in "wd" else 0), o, stop)
                for cut in range(len(t) + 1):
                    raw.reset(rc)
                    r1, h1 = raw.search(rc, t[:cut], off)
                    r2, h2 = raw.search(rc, t[cut:], off + cut)
                    h3 = raw.closeout(rc)
                    for ki, k in enumerate("adwsrq"):
                        if ki and (cut + ki) % 3 and cut != len(t):
                            continue
                        pre, post = (b"", b"ab", b"bab")[ki % 3], (b"ab", b"", b"b")[(ki + cut) % 3]
                        cmds += [("reset c", "="), (call(k, pre, t[:cut], post, off, 0), ret(r1, h1)), (call(k, post, t[cut:], pre, off + cut, 0), ret(r2, h2)),
                                 ("closeout c 0", "=" + hs(h3).strip())]
                # callbacks which throw, then a fresh start
                raw.reset(rc)
                r, h = raw.search(rc, t, off)
                h3 = raw.closeout(rc)
                for stop in range(1, len(h) + 1):
                    cmds += [("reset c", "="), (call("ad"[stop & 1], b"", t, b"", off, stop), "=0%s stopped" % hs(h[:stop]))]
                for stop in range(1, len(h3) + 1):
                    cmds += [("reset c", "="), (call("ad"[stop & 1], b"", t, b"", off, 0), ret(r, h)), ("closeout c %d" % stop, "=" + hs(h3[:stop]).strip() + " stopped")]
                w = raw.starts(rc, t, off)
                for k in "adwsrq":
                    cmds.append((call(k, b"b", t, b"ab", off, 0, "starts"), "=0" + hs(w)))
                for stop in range(1, len(w) + 1):
                    cmds.append((call("a", b"b", t, b"ab", off, stop, "starts"), "=0%s stopped" % hs(w[:stop])))
                cmds += [("reset c", "="), (call("a", b"", t, b"", off, 0), ret(r, h)), ("closeout c 0", "=" + hs(h3).strip())]
                J.case("set%d %r at %d" % (si, t, off), cmds)
    # very many hits
    if sh.mine():
        k = 3000000
        J.case("many", build([("a", "ASCII", 0, (0, 0, 0))]) + [("context c g 0", "="), ("many c %d" % k, "=%d %d" % (k, k * (k - 1) // 2))])


# ------------------------------------------------------------------ histories
PATS = [("a+b", (0, 0, 0), re.compile(b"a+b")), ("A", (0, 1, 0), re.compile(b"[aA]")), ("b.", (1, 0, 0), re.compile(b"b\\.")), ("a|", (0, 0, 0), None)]
USERS = [0, 7, -1, 2**31 - 1]
TEXT = b"aab.Ab.b"
ISE, KE, PE = "!IllegalStateException", "!KeywordException", "!ProgramException"


class Model:
    def __init__(self):
        self.h = {}          # name -> dict(kind=, live=, ...)
        self.cmds = []
        self.nadd = 0

    def say(self, cmd, e="="):
        self.cmds.append((cmd, e))

    def live(self, *ns):
        return all(self.h[n]["live"] for n in ns)

    def do(self, op):
        h, (k, *a) = self.h, op
        if k == "pattern":
            h["p"] = dict(live=True, p=None)
            self.say("pattern p")
        elif k == "parse":
            t, o, rx = PATS[a[0]]
            if not self.live("p"):
                e = ISE
            elif rx is None:
                h["p"]["p"] = None
                e = KE
            else:
                h["p"]["p"] = a[0]
                e = None
            self.say("parse p %s %d%d%d" % ((hx(t),) + o), e)
        elif k == "fsm":
            h["f"] = dict(live=True, pats=[])
            self.say("fsm f 0 0")
        elif k == "add":
            u = USERS[self.nadd % len(USERS)]
            if not self.live("p", "f"):
                e = ISE
            elif h["p"]["p"] is None or a[0] == "bogus":
                e = KE
            else:
                t, o, rx = PATS[h["p"]["p"]]
                e = "=%d" % len(h["f"]["pats"])
                h["f"]["pats"] = h["f"]["pats"] + [(rx, u, t, a[0])]
                self.nadd += 1
            self.say("add f p %s %d" % (hx(a[0]), u), e)
            self.look("f")
        elif k == "program":
            h["g"] = dict(live=False, pats=[])
            self.say("program g 5")
        elif k == "compile":
            if not self.live("f"):
                e = ISE
            elif self.live("g") or not h["f"]["pats"]:
                e = PE
            else:
                e = "=1"
                h["g"] = dict(live=True, pats=h["f"]["pats"])
            self.say("compile g f %d" % a[0], e)
            self.look("g")
        elif k == "set":
            x = a[0]
            if not self.live(x):
                self.say("setuidx %s 0 5" % x, ISE)
            elif not h[x]["pats"]:
                self.say("setuidx %s 0 5" % x, "!IndexOutOfBoundsException")
            else:
                self.say("setuidx %s 0 5" % x)
                self.say("uidx %s 0" % x, "=5")
                # whether what it was made from, or what was made from it, changes with it is not specified
                for y in h:
                    if h[y].get("pats"):
                        rx, u, t, e = h[y]["pats"][0]
                        h[y]["pats"] = [(rx, 5 if x == y else None, t, e)] + h[y]["pats"][1:]
                self.look(x)
        elif k == "reread":
            if not self.live("g"):
                self.say("write g 9999 0 i", ISE)
            else:
                self.say("write g = %d i" % a[0], None)
                self.say("size g", None)
                self.say("read g i %d 0" % a[0])
                self.say("write g = 1 j", None)
                self.say("same i j", "=true")
                self.say("drop i")
                h["g"] = dict(live=True, pats=h["g"]["pats"])
                self.look("g")
        elif k == "context":
            if not self.live("g"):
                self.say("context c g 0", ISE)
            else:
                h["c"] = dict(live=True, pats=h["g"]["pats"])
                self.say("context c g 0")
        elif k == "search":
            if not self.live("c"):
                self.say("reset c", ISE)
                self.say("search c a %s 0 8 8 0 0" % hx(TEXT), ISE)
                self.say("closeout c 0", ISE)
                self.say("starts c a %s 0 8 8 0 0" % hx(TEXT), ISE)
            else:
                e = sorted(x[:2] + (i,) for i, p in enumerate(h["c"]["pats"]) for x in rx_hits([p], TEXT, 0))
                got = []

                def f1(g):
                    got[:] = re.findall(r"(\d+),(\d+),(\d+)", g)

                def f2(g):
                    x = sorted(tuple(map(int, y)) for y in got + re.findall(r"(\d+),(\d+),(\d+)", g))
                    return None if x == e else "with what came before %r, expected %r" % (x, e)
                self.say("reset c")
                self.say("search c %s %s 0 8 8 0 0" % (a[0], hx(TEXT)), f1)
                self.say("closeout c 0", f2)
        elif k == "destroy":
            self.say("destroy " + a[0])
            self.say("destroyed " + a[0], "=true")
            h[a[0]]["live"] = False
        elif k == "drop":
            self.say("drop " + a[0])
            self.say("gc")
            del h[a[0]]
        # what nothing else says
        if "f" in h and k in ("compile", "context", "reread"):
            self.look("f")

    def look(self, x):
        if not self.live(x):
            self.say("count " + x, ISE)
            self.say("info %s 0" % x, ISE)
            return
        ps = self.h[x]["pats"]
        self.say("count " + x, "=%d" % len(ps))
        for i, (rx, u, t, e) in enumerate(ps):
            if u is None:
                self.say("info %s %d" % (x, i), lambda g, t=t, e=e: None if re.fullmatch("=%s %s (-?[0-9]+) \\1" % (hx(t), hx(e)), g) else "expected pattern " + t)
            else:
                self.say("info %s %d" % (x, i), "=%s %s %d %d" % (hx(t), hx(e), u, u))
        self.say("info %s %d" % (x, len(ps)), "!IndexOutOfBoundsException")

    def ops(self):
        h = self.h
        r = [("parse", 1), ("parse", 3)] if "p" in h else [("pattern",)]
        if "f" not in h:
            r.append(("fsm",))
        if "p" in h and "f" in h:
            r += [("add", "UTF-8"), ("add", "bogus")]
        if "g" not in h:
            r.append(("program",))
        if "f" in h:
            r.append(("set", "f"))
            if "g" in h:
                r += [("compile", 0)]
        if "g" in h:
            r += [("reread", 3), ("context",), ("set", "g")]
        if "c" in h:
            r += [("search", "a"), ("search", "d")]
        for n in sorted(h):
            r += [("destroy", n), ("drop", n)]
        return r


PRE = [("pattern",), ("parse", 0), ("fsm",), ("add", "UTF-8"), ("program",)]


def mode_life(J, raw, n):
    sh = Sharder()
    C3 = [("compile", 1)]
    pres = [[], PRE, PRE + [("parse", 1), ("add", "ASCII"), ("parse", 2), ("add", "ISO-8859-1")] + C3, PRE + C3 + [("context",)], PRE + C3 + [("reread", 0), ("context",)],
            PRE + [("parse", 2), ("add", "UTF-8"), ("set", "f")] + C3 + [("drop", "p"), ("set", "g"), ("drop", "f"), ("context",)]]

    def show(h):
        return "; ".join(" ".join(map(str, x)) for x in h)

    def rec(pre, h, depth):
        m = Model()
        for op in pre + h:
            m.do(op)
        ops = m.ops()
        if len(h) == depth:
            # whatever came, a context and a program which live still work
            for x, op in (("c", ("search", "a")), ("g", ("context",)), ("c", ("search", "d"))):
                if x in m.h:
                    m.do(op)
            for x in sorted(m.h):
                m.do(("destroy", x))
                m.do(("destroy", x))
            J.case(show(pre + h), m.cmds)
            return
        for op in ops:
            if len(h) == 1 and not sh.mine():
                continue
            rec(pre, h + [op], depth)
    for pre in pres:
        rec(pre, [], n)


def mode_decode(J, raw, n):
    sh = Sharder()
    rd = C.c_void_p(raw.L.lg_create_decoder())
    for enc, alpha in (("ASCII", b"a\x00\xff"), ("UTF-8", b"a\xc3\xa9\xff"), ("UTF-16LE", b"a\x00\xd8"), ("OCE", b"aZ"), ("windows-1252", b"a\x81\xe9"), ("bogus", b"a")):
        for t in texts(alpha, n):
            cmds = [("decoder d", "=")]
            for s in range(len(t)):
                for e in range(s, len(t) + 1):
                    for win, rep in ((0, 32), (1, 0xFFFD), (3, 0x1F4A9), (2**31 - 1, 63)):
                        for off in (0, 2**33):
                            x = raw.hit_context(rd, t, off, off + s, off + e, enc, win, rep)
                            if x is None:
                                w = "!UnsupportedEncodingException"
                            else:
                                w = (lambda x: lambda g: None if re.fullmatch(r"=%d %d %d %d \d+ %s" % (x[0], x[1], x[2], x[3], hx(x[4])), g) else "expected %r" % (x,))(x)
                            k = "adwsrq"[(s + e + win) % 6]
                            pre = (b"", b"z", b"yx")[(s + win) % 3]
                            cmds.append(("decode d %s %s %d %d %d %d %d %d %s %d %d" % (k, hx(pre + t + b"q"), len(pre), len(t), len(pre) + len(t), off, off + s, off + e, hx(enc), win, rep), w))
            if sh.mine():
                J.case("%s %r" % (enc, t), cmds)


CHARS = "ab\u0001\u007f\u0080\u00e9\u07ff\u0800\u26a1\ud7ff\ue000\uffff\U00010000\U0001f600\U0010ffff"


def mode_text(J, raw, n):
    sh = Sharder()
    for k in range(1, n + 1):
        for cs in itertools.product(CHARS, repeat=k):
            s = "".join(cs)
            if not sh.mine():
                continue
            cmds = [("decoder d", "=")]
            for fx in (0, 1):
                for enc in ("UTF-8", "UTF-16LE"):
                    t = s.encode(enc)
                    pad = "z".encode(enc)
                    cmds += build([(s, enc, 3, (fx, 0, 0))])
                    cmds += [("info f 0", "=%s %s 3 3" % (hx(s), hx(enc))), ("info g 0", "=%s %s 3 3" % (hx(s), hx(enc))), ("context c g 0", "=")]
                    got = []

                    def f1(g, got=got):
                        got[:] = re.findall(r"\d+,\d+,\d+", g)

                    def f2(g, got=got, e=["%d,%d,0" % (len(pad), len(pad + t))]):
                        x = got + re.findall(r"\d+,\d+,\d+", g)
                        return None if x == e else "hits %r expected %r" % (x, e)
                    b = pad + t + pad
                    cmds += [("search c a %s 0 %d %d 0 0" % (hx(b), len(b), len(b)), f1), ("closeout c 0", f2)]
                    u = s.encode()
                    cmds.append(("decode d a %s 0 %d %d 0 %d %d %s 1 63" % (hx(b), len(b), len(b), len(pad), len(pad + t), hx(enc)), "=0 %d 1 %d 0 %s" % (len(b), 1 + len(u), hx("z" + s + "z"))))
            J.case("text %s" % ascii(s), cmds)


def mode_errors(J, raw, n):
    sh = Sharder()
    IOOB, NPE = "!IndexOutOfBoundsException", "!NullPointerException"
    base = build([("ab", "ASCII", 1, (0, 0, 0))]) + [("context c g 0", "="), ("decoder d", "="), ("program e 0", "="), ("pattern x", "="), ("destroy x", "="), ("fsm y 1 2", "="), ("destroy y", "="),
                                                     ("context z g 0", "="), ("destroy z", "="), ("decoder w", "="), ("destroy w", "=")]
    T = hx(b"abab")
    M = -2**31
    cases = [("fsm q -1 0", IOOB), ("fsm q 0 -1", IOOB), ("fsm q %d %d" % (M, M), IOOB), ("program q -1", IOOB), ("parse p ~ 000", NPE), ("parse p 61 ~", NPE), ("parse p - 000", KE), ("parse p 2a 000", KE),
             ("add f x 5554462d38 0", ISE), ("add f nothing 5554462d38 0", NPE), ("add f p ~ 0", NPE), ("add y p 5554462d38 0", ISE), ("add f p - 0", KE), ("compile e nothing 0", NPE), ("compile e f ~", NPE),
             ("compile e y 0", ISE), ("compile g f 0", PE), ("context q g ~", NPE), ("context q e 0", ISE), ("size e", ISE), ("count e", ISE), ("count y", ISE), ("write e 10 0 i", ISE), ("write g ~ 0 i", NPE),
             ("write g 1 0 i", IOOB), ("write g 99999 -1 i", IOOB), ("write g 99999 99999 i", IOOB), ("write g 99999 %d i" % (2**31 - 1), IOOB), ("reset z", ISE), ("closeout z 0", ISE), ("closeout c ~", NPE),
             ("readraw ~ 0 0", NPE), ("readraw 6162 -1 1", IOOB), ("readraw 6162 0 -1", IOOB), ("readraw 6162 0 3", IOOB), ("readraw 6162 2 1", IOOB), ("readraw 6162 %d %d" % (2**31 - 1, 2**31 - 1), IOOB),
             ("readraw 6162 0 2", PE), ("readraw - 0 0", PE), ("readraw 6162 1 1", PE)]
    for x in "fg":
        for i in (-1, M):
            cases += [("info %s %d" % (x, i), IOOB), ("uidx %s %d" % (x, i), IOOB), ("setuidx %s %d 1" % (x, i), IOOB)]
        for i in (1, 2, 2**31 - 1):
            cases += [("info %s %d" % (x, i), IOOB), ("uidx %s %d" % (x, i), IOOB), ("setuidx %s %d 1" % (x, i), IOOB)]
    for w in ("search", "starts"):
        for k in "adwsrq":
            cases += [("%s c %s %s 0 4 4 0 ~" % (w, k, T), NPE), ("%s c %s ~ 0 4 4 0 0" % (w, k), NPE), ("%s c %s %s 0 -1 4 0 0" % (w, k, T), IOOB), ("%s c %s %s 0 5 4 0 0" % (w, k, T), IOOB),
                      ("%s c %s %s 3 2 4 0 0" % (w, k, T), IOOB), ("%s c %s %s 0 4 4 -1 0" % (w, k, T), IOOB), ("%s c %s %s 0 4 4 %d 0" % (w, k, T, -2**63), IOOB), ("%s z %s %s 0 4 4 0 0" % (w, k, T), ISE),
                      ("%s c %s %s 4 %d 4 0 0" % (w, k, T, 2**31 - 1), IOOB)]
            if k != "a":
                cases.append(("%s c %s %s 0 4 3 0 0" % (w, k, T), IOOB))
        cases += [("%s c a %s -1 2 4 0 0" % (w, T), IOOB), ("%s c a %s 5 0 4 0 0" % (w, T), IOOB), ("%s c a %s %d %d 4 0 0" % (w, T, 2**31 - 1, 2**31 - 1), IOOB)]
    for k in "adwsrq":
        def dec(d="d", b=T, off=0, size=4, lim=4, start=7, s=8, e=9, enc=hx("ASCII"), win=1, rep=63):
            return "decode %s %s %s %d %d %d %d %d %d %s %d %d" % (d, k, b, off, size, lim, start, s, e, enc, win, rep)
        cases += [(dec(), "=7 10 1 2 0 " + hx(b"aba")), (dec(d="nothing"), NPE), (dec(d="w"), ISE), (dec(b="~"), NPE), (dec(size=-1), IOOB), (dec(size=5), IOOB), (dec(off=2, size=3), IOOB), (dec(start=-1), IOOB),
                  (dec(s=6), IOOB), (dec(s=-1), IOOB), (dec(s=10), IOOB), (dec(e=12), IOOB), (dec(s=12, e=12), IOOB), (dec(enc="~"), NPE), (dec(enc=hx("bogus")), "!UnsupportedEncodingException"), (dec(win=-1), IOOB),
                  (dec(rep=-1), IOOB), (dec(rep=0x110000), IOOB), (dec(rep=2**31 - 1), IOOB)]
        if k == "a":
            cases.append((dec(off=-1), IOOB))
    after = [("count f", "=1"), ("info f 0", "=6162 %s 1 1" % hx("ASCII")), ("info g 0", "=6162 %s 1 1" % hx("ASCII")), ("reset c", "="), ("search c a %s 0 4 4 0 0" % T, None), ("closeout c 0", None)]
    for c, e in cases:
        if sh.mine():
            r, h = (lambda rc: raw.search(rc, b"abab", 0))(raw.context([("ab", "ASCII", 0, 0, 0)]))
            J.case(c, base + [(c, e)] + after[:-2] + [("search c a %s 0 4 4 0 0" % T, "=%d%s" % (r, hs(h)))])
    # every proper prefix of a program's image
    import pybind as P
    size = 0
    L = raw.L
    f = C.c_void_p(L.lg_create_fsm(0, 0))
    h = C.c_void_p(L.lg_create_pattern())
    ko = P.KO(b"\0", b"\0", b"\0")
    L.lg_parse_pattern(h, b"ab", C.byref(ko), None)
    L.lg_add_pattern(f, h, b"ASCII", C.c_uint64(1), None)
    g = C.c_void_p(L.lg_create_program(f, C.byref(C.c_uint32(1))))
    L.lg_program_size.restype = C.c_size_t
    size = L.lg_program_size(g)
    for off in (0, 5):
        for lo in range(1, size + 1, 128):
            if sh.mine():
                J.case("image of %d at %d cut by %d.." % (size, off, lo), build([("ab", "ASCII", 1, (0, 0, 0))]) + [("write g = %d i" % off, "=%d" % size), ("size g", "=%d" % size)] +
                       [("read q i %d %d" % (off, cut), PE) for cut in range(lo, min(lo + 128, size + 1))] + [("read q i %d 0" % off, "="), ("info q 0", "=6162 %s 1 1" % hx("ASCII"))])


CLASSES = "KeyOptions ProgramOptions PatternInfo HitContext Handle ProgramHandle ContextHandle PatternHandle FSMHandle DecoderHandle LGUtil SearchHit ContextOptions".split()


def mode_init(J, raw, n):
    """the classes' first use by two threads, one of them held wherever it asks for a class"""
    sh = Sharder()
    classes, lib = J.cp.split(":")

    def one(a, b, k):
        key = "%s %s %d" % (a, b, k)
        if not pybind.want(key):
            return True
        add("states")
        try:
            p = subprocess.run(["java", "-Xmx32m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=/dev/null", "-Djava.library.path=" + lib, "-cp", classes, "JavaInit",
                                a, b, str(k), classes], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=J.d, timeout=60)
            m = re.search("^RESULT (.*)$", p.stdout, re.M)
            r = m.group(1) if m else "no result: " + p.stdout[-300:]
        except subprocess.TimeoutExpired:
            r = "no result in a minute"
        add("transitions")
        if r.startswith("held"):
            add("traces")
        if r not in ("held", "free"):
            viol(key, "thread one using %s is held at class %d, thread two uses %s: %s" % (a, k, b, r))
        return r.startswith("held")
    if ONLY is not None:
        a, b, k = ONLY.split()
        one(a, b, int(k))
        return
    for a in CLASSES:
        for b in CLASSES:
            if sh.mine() and pybind.VIOLS < 5:
                for k in range(1, n):
                    if not one(a, b, k) or pybind.VIOLS > 5:
                        break


def main():
    d = tempfile.mkdtemp(prefix="lgjava")
    pybind.CUR = os.open(d + "/case", os.O_RDWR | os.O_CREAT)
    J = Java(A["java"], d, 48)
    try:
        raw = Raw(A["shlib"])
        globals()["mode_" + A["mode"]](J, raw, int(A.get("n", 3)))
        J.end()
    except SystemExit:
        pass
    finally:
        if J.p is not None and J.p.poll() is None:
            J.p.kill()
        shutil.rmtree(d, ignore_errors=True)
        for k, v in pybind.COUNTS.items():
            print("COUNT %s %d" % (k, v))
    print("DONE %d" % pybind.VIOLS, flush=True)


if __name__ == "__main__":
    main()
