"""Models of the environment: libc, pthreads, kernel, and the driver intrinsics (vf_*)."""
from ir import MASK, sx
from values import *
from engine import PUSH, Stop, Violation, AnalysisLimit, State

MODELS = {}
CONT = {}
FS = frozenset()


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def cont(name):
    def d(f):
        CONT[name] = f
        return f
    return d


# ---------------------------------------------------------------- helpers
def mget(m, k, d=None):
    for a, b in m:
        if a == k:
            return b
    return d


def mset(m, k, v):
    r = [(a, b) for a, b in m if a != k]
    if v is not None:
        r.append((k, v))
    return tuple(sorted(r, key=repr))


def cstr(eng, st, p, limit=20000):
    """constant string at p, or None"""
    l = eng.loc(st, p) if type(p) is tuple else None
    if l is None or type(l[1]) is not int:
        return None
    obj, off = l
    if obj[0] in ("d",) and obj not in st.mem:
        return None
    out = []
    for i in range(limit):
        v = eng.load(st, obj, off + i, 1, ("cstr",))
        if type(v) is not int:
            return None
        if v == 0:
            return bytes(out)
        out.append(v)
    return None


def seterrno(eng, st, v):
    eng.store(st, ("errno", st.env["cur"]), 0, 4, v)


def sym(eng, st, I, tag, lo=None, hi=None):
    t = eng.fresh(st, I.site, tag)
    if lo is not None or hi is not None:
        st.facts[((t, 1),)] = (lo, hi, FS)
    return t


def wr(eng, st, p, size, v, off=0):
    l = eng.loc(st, p) if type(p) is tuple else None
    if l is not None:
        o = eng.padd(p, off)
        l = eng.loc(st, o)
        if eng.access_hook is not None:
            eng.access_hook(eng, st, l[0], l[1], size, "w", None)
        eng.store(st, l[0], l[1], size, v)


def rd(eng, st, p, size, off=0, site=("rd",)):
    if type(p) is not tuple:
        return 0
    l = eng.loc(st, eng.padd(p, off))
    if l is None:
        return ("t", "K", "rd", p, off)
    return eng.load(st, l[0], l[1], size, site)


def havoc(eng, st, p, I, n=None):
    l = eng.loc(st, p) if type(p) is tuple else None
    if l is None or l[0][0] not in ("a", "h", "g", "d"):
        return
    if l[0][0] == "g":
        G = eng.p.globs.get(l[0][1])
        if G is not None and G.const:
            return
    if type(l[1]) is not int:
        return
    size = n if n is not None else (eng.objsize(l[0]) or 256)
    t = eng.fresh(st, I.site, "hv")
    eng.fill(st, l[0], l[1], max(1, size - (l[1] if n is None else 0)), "k", t)


# ---------------------------------------------------------------- unknown externals
PURE = set("""getpid getppid gettid fflush fputs fputc puts putchar perror strerror
fprintf printf vfprintf vprintf fwrite sched_yield sysconf write warn warnx syslog isatty fileno
backtrace getuid geteuid dlerror_""".split())


def unknown(name):
    def m(eng, st, I, args):
        ret = eng.fresh(st, I.site, "ret:" + name) if I.w else None
        eng.emit(st, "x", name, args, ret, I)
        for a in args:
            if type(a) is tuple and a and a[0] == "p":
                havoc(eng, st, a, I)
        return [(st, ret)]
    return m


def pure(name):
    def m(eng, st, I, args):
        ret = eng.fresh(st, I.site, "ret:" + name) if I.w else None
        eng.emit(st, "x", name, args, ret, I)
        return [(st, ret)]
    return m


for _n in PURE:
    MODELS[_n] = pure(_n)


@model("getpid")
def m_getpid(eng, st, I, args):
    t = ("t", "pid", st.env["pid"])
    st.facts[((t, 1),)] = (1, None, FS)
    return [(st, t)]


@model("getppid")
def m_getppid(eng, st, I, args):
    t = ("t", "ppid", st.env["pid"])
    st.facts[((t, 1),)] = (0, None, FS)
    return [(st, t)]


@model("__errno_location")
def m_errno(eng, st, I, args):
    return [(st, ("p", ("errno", st.env["cur"]), 0))]


@model("llvm.returnaddress")
def m_ra(eng, st, I, args):
    # return address of the function executing this instruction: the call site in its caller
    n = args[0] if type(args[0]) is int and args[0] >= 0 else 0
    f = st.frames[-2 - n] if len(st.frames) > 1 + n else st.frames[0]
    t = ("t", "retaddr", (f.fn.key, f.blk, f.idx))
    st.facts[((t, 1),)] = (1, None, FS)
    return [(st, t)]


# ---------------------------------------------------------------- memory / strings
@model("memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "__memcpy_chk", "mempcpy",
       "llvm.memcpy.inline.p0.p0.i64")
def m_memcpy(eng, st, I, args):
    d, s, n = args[0], args[1], args[2]
    dl = eng.deref(st, d, I)
    sl = eng.deref(st, s, I)
    if eng.access_hook is not None:
        if dl is not None:
            eng.access_hook(eng, st, dl[0], dl[1], n, "w", I)
        if sl is not None:
            eng.access_hook(eng, st, sl[0], sl[1], n, "r", I)
    if dl is None:
        return [(st, d)]
    if eng.store_hook is not None:
        eng.store_hook(eng, st, dl[0], dl[1], n, ("copy", sl), I)
    if type(n) is int and sl is not None and type(dl[1]) is int and type(sl[1]) is int and n < 100000:
        eng.copyrange(st, dl[0], dl[1], sl[0], sl[1], n)
        m = st.mem.get(dl[0])
        if m is not None:
            for c in list(m.cells.values()):
                eng.escape(st, c[1])
    elif type(dl[1]) is int:
        t = eng.fresh(st, I.site, "cpy")
        eng.fill(st, dl[0], dl[1], eng.objsize(dl[0]) or 4096, "k", t)
    return [(st, d)]


@model("memset", "llvm.memset.p0.i64", "__memset_chk", "bzero")
def m_memset(eng, st, I, args):
    if len(args) == 2:
        d, c, n = args[0], 0, args[1]
    else:
        d, c, n = args[0], args[1], args[2]
    dl = eng.deref(st, d, I)
    if dl is None:
        return [(st, d)]
    if eng.access_hook is not None:
        eng.access_hook(eng, st, dl[0], dl[1], n, "w", I)
    if eng.store_hook is not None:
        eng.store_hook(eng, st, dl[0], dl[1], n, c, I)
    if type(n) is int and type(dl[1]) is int:
        if type(c) is int:
            eng.fill(st, dl[0], dl[1], n, "b", c & 255)
        else:
            eng.fill(st, dl[0], dl[1], n, "k", eng.fresh(st, I.site, "ms"))
    return [(st, d)]


@model("strncpy", "strcpy", "stpcpy", "strcat", "strncat", "strlcpy", "__strcpy_chk", "__strncpy_chk", "__strcat_chk", "__stpcpy_chk")
def m_strcpy(eng, st, I, args):
    name = eng.xname.strip("_").replace("_chk", "")
    if type(args[0]) is int or type(args[1]) is int:
        eng.crash(st, "string function on a null pointer", I)
    dl = eng.deref(st, args[0], I)
    s = cstr(eng, st, args[1])
    if dl is None:
        return [(st, args[0])]
    n = args[2] if len(args) > 2 else None
    b = None
    off = dl[1]
    if name == "strncpy":
        if s is not None and type(n) is int and n < 20000:
            b = (s + b"\0" * n)[:n]
        size = n
    elif name in ("strcat", "strncat"):
        old = cstr(eng, st, args[0])
        if s is not None and name == "strncat":
            s = s[:n] if type(n) is int else None
        if s is not None and old is not None and type(off) is int:
            b = s + b"\0"
            off += len(old)
        size = len(b) if b is not None else None
    elif name == "strlcpy":
        if s is not None and type(n) is int and n > 0:
            b = s[:n - 1] + b"\0"
        size = len(b) if b is not None else n
    else:
        if s is not None:
            b = s + b"\0"
        size = len(b) if b is not None else None
    if eng.access_hook is not None:
        eng.access_hook(eng, st, dl[0], off, size if size is not None else ("u",), "w", I)
    if b is not None and type(off) is int:
        for i, ch in enumerate(b):
            eng.store(st, dl[0], off + i, 1, ch)
    else:
        havoc(eng, st, args[0], I)
        if name in ("stpcpy", "strlcpy"):
            return [(st, sym(eng, st, I, name))]
    if name == "stpcpy":
        return [(st, eng.padd(args[0], len(s)))]
    if name == "strlcpy":
        return [(st, len(s))]
    return [(st, args[0])]


@model("memchr", "memrchr", "rawmemchr")
def m_memchr(eng, st, I, args):
    l = eng.deref(st, args[0], I)
    n = args[2] if len(args) > 2 else 20000
    c = args[1]
    if l is not None and type(l[1]) is int and type(n) is int and n < 20001 and type(c) is int:
        rng = range(n - 1, -1, -1) if eng.xname == "memrchr" else range(n)
        for i in rng:
            v = eng.load(st, l[0], l[1] + i, 1, ("cstr",))
            if type(v) is not int:
                return _split_ptr(eng, st, I, args, "memchr")
            if v == c & 255:
                return [(st, eng.padd(args[0], i))]
        return [(st, 0)]
    return _split_ptr(eng, st, I, args, "memchr")


@model("strpbrk", "strchrnul")
def m_strpbrk(eng, st, I, args):
    if type(args[0]) is int:
        eng.crash(st, "string function on a null pointer", I)
    s = cstr(eng, st, args[0])
    if eng.xname == "strchrnul":
        if s is not None and type(args[1]) is int:
            i = (s + b"\0").find(bytes([args[1] & 255]))
            return [(st, eng.padd(args[0], i if i >= 0 else len(s)))]
        t = sym(eng, st, I, "strchrnul", 1, None)
        return [(st, t)]
    a = cstr(eng, st, args[1])
    if s is not None and a is not None:
        for i, ch in enumerate(s):
            if ch in a:
                return [(st, eng.padd(args[0], i))]
        return [(st, 0)]
    return _split_ptr(eng, st, I, args, "strpbrk")


@model("strdup", "strndup", "__strdup")
def m_strdup(eng, st, I, args):
    s = cstr(eng, st, args[0])
    if s is not None and eng.xname == "strndup":
        s = s[:args[1]] if type(args[1]) is int else None
    n = len(s) + 1 if s is not None else ("u",)
    outs = MODELS["malloc"](eng, st, I, [n])
    for o, p in outs:
        l = eng.loc(o, p) if type(p) is tuple else None
        if l is None:
            continue
        if s is not None:
            for i, ch in enumerate(s + b"\0"):
                eng.store(o, l[0], l[1] + i, 1, ch)
        else:
            havoc(eng, o, p, I)
    return outs


@model("strlen", "strnlen")
def m_strlen(eng, st, I, args):
    s = cstr(eng, st, args[0])
    if s is not None:
        return [(st, len(s))]
    if type(args[0]) is int:
        eng.crash(st, "string function on a null pointer", I)
    t = ("t", "len", args[0]) if istok(args[0]) else sym(eng, st, I, "strlen")
    st.facts[((t, 1),)] = st.facts.get(((t, 1),), (0, 1 << 30, FS))
    return [(st, t)]


@model("strspn", "strcspn")
def m_strspn(eng, st, I, args):
    s, a = cstr(eng, st, args[0]), cstr(eng, st, args[1])
    name = eng.xname
    if s is not None and a is not None:
        n = 0
        for ch in s:
            if (ch in a) != (name == "strspn"):
                break
            n += 1
        return [(st, n)]
    if type(args[0]) is int:
        eng.crash(st, "string function on a null pointer", I)
    t = sym(eng, st, I, name, 0, 1 << 30)
    return [(st, t)]


def strfun(f, minn):
    def m(eng, st, I, args):
        for a in args[:minn]:
            if type(a) is int and a == 0:
                eng.crash(st, "string function on a null pointer", I)
        s, a = cstr(eng, st, args[0]), cstr(eng, st, args[1]) if type(args[1]) is tuple else args[1]
        if s is not None and a is not None:
            r = f(s, a, *[x for x in args[2:3]])
            if r is not NotImplemented:
                if type(r) is tuple:
                    return [(st, eng.padd(args[0], r[0]) if r[0] is not None else 0)]
                return [(st, r & MASK[32])]
        return None
    return m


def _split_ptr(eng, st, I, args, tag):
    o = st.copy()
    t = eng.fresh(st, I.site, tag)
    st.facts[((t, 1),)] = (1, None, FS)
    return [(st, t), (o, 0)]


@model("strchr", "strrchr", "index")
def m_strchr(eng, st, I, args):
    if type(args[0]) is int:
        eng.crash(st, "string function on a null pointer", I)
    s = cstr(eng, st, args[0])
    if s is not None and type(args[1]) is int:
        i = (s + b"\0").find(bytes([args[1] & 255])) if eng.xname != "strrchr" else (s + b"\0").rfind(bytes([args[1] & 255]))
        return [(st, eng.padd(args[0], i) if i >= 0 else 0)]
    key = ("t", "chr", args[0], args[1])
    outs = []
    for nz in (True, False):
        s2 = st.copy()
        if eng.refine(s2, "ne" if nz else "eq", ("t", "haschr", args[0], args[1]), 0, 64):
            s2.facts[((key, 1),)] = (1, None, FS)
            outs.append((s2, key if nz else 0))
    return outs


@model("strstr")
def m_strstr(eng, st, I, args):
    s, a = cstr(eng, st, args[0]), cstr(eng, st, args[1])
    if s is not None and a is not None:
        i = s.find(a)
        return [(st, eng.padd(args[0], i) if i >= 0 else 0)]
    eng.emit(st, "x", "strstr", args, None, I)
    return _split_ptr(eng, st, I, args, "strstr")


@model("strcmp", "strncmp", "strcasecmp", "memcmp", "strncasecmp")
def m_strcmp(eng, st, I, args):
    s, a = cstr(eng, st, args[0]), cstr(eng, st, args[1])
    if s is not None and a is not None and (len(args) < 3 or type(args[2]) is int):
        if len(args) > 2:
            s, a = s[:args[2]], a[:args[2]]
        return [(st, 0 if s == a else (1 if s > a else MASK[32]))]
    eng.emit(st, "x", "strcmp", args, None, I)
    o = st.copy()
    t = eng.fresh(st, I.site, "strcmp")
    st.facts[((t, 1),)] = (1, None, FS)
    return [(st, t), (o, 0)]


@model("sprintf", "snprintf", "vsnprintf", "__sprintf_chk")
def m_sprintf(eng, st, I, args):
    name = eng.xname
    buf = args[0]
    fi = 1 if name == "sprintf" else 2
    fmt_ = cstr(eng, st, args[fi]) if fi < len(args) else None
    va = args[fi + 1:]
    out = None
    if fmt_ is not None and name in ("sprintf", "snprintf"):
        out = b""
        i = 0
        k = 0
        mx = 0
        while i < len(fmt_):
            if fmt_[i:i + 1] == b"%":
                j = i + 1
                prec = None
                while j < len(fmt_) and fmt_[j:j + 1] in b"0123456789lhz-.*+ ":
                    if fmt_[j:j + 1] == b"*":
                        prec = va[k] if k < len(va) else ("u",)
                        k += 1
                    j += 1
                spec = fmt_[i + 1:j]
                if b"." in spec and prec is None and spec.split(b".")[1].isdigit():
                    prec = int(spec.split(b".")[1])
                conv = fmt_[j:j + 1]
                i = j + 1
                if conv == b"%":
                    out = out + b"%" if out is not None else None
                    mx += 1
                    continue
                v = va[k] if k < len(va) else ("u",)
                k += 1
                if conv in b"di" and type(v) is int:
                    s = str(sx(v, 32) if v < (1 << 32) else sx(v, 64)).encode()
                elif conv == b"s":
                    s = cstr(eng, st, v)
                    if s is not None and b"." in spec:
                        s = s[:prec] if type(prec) is int else None
                    if s is None and b"." in spec and type(prec) is int:
                        mx += prec - (1 << 20)
                elif conv == b"c" and type(v) is int:
                    s = bytes([v & 255])
                elif conv in b"di":
                    s = None
                    l = lin(v, 32)
                    lo, hi = (eng.lower(st, l), eng.upper(st, l)) if l is not None else (None, None)
                    mx += 11 if lo is None or hi is None else max(len(str(lo)), len(str(hi)))
                else:
                    s = None
                    mx += 64
                if s is None:
                    if conv == b"s":
                        mx += 1 << 20
                    out = None
                elif out is not None:
                    out += s
                    mx += len(s)
                else:
                    mx += len(s)
            else:
                if out is not None:
                    out += fmt_[i:i + 1]
                mx += 1
                i += 1
    else:
        mx = 1 << 20
    dl = eng.deref(st, buf, I)
    if dl is None:
        return [(st, sym(eng, st, I, "sprintf", 0, None))]
    size = (len(out) if out is not None else mx) + 1
    if name in ("snprintf", "vsnprintf"):
        cap = args[1]
        if type(cap) is int:
            size = min(size, cap)
            if out is not None:
                full = len(out)
                out = out[:max(0, cap - 1)]
        else:
            size = cap
            out = None
    if eng.access_hook is not None:
        eng.access_hook(eng, st, dl[0], dl[1], size, "w", I)
    if out is not None and type(dl[1]) is int:
        for i, ch in enumerate(out + b"\0"):
            eng.store(st, dl[0], dl[1] + i, 1, ch)
        return [(st, full if name == "snprintf" else len(out))]
    if type(dl[1]) is int:
        havoc(eng, st, ("p", dl[0], dl[1]), I)
    return [(st, sym(eng, st, I, "sprintf", 0, mx if mx < (1 << 20) else None))]


@model("__isoc99_sscanf", "sscanf", "__isoc23_sscanf")
def m_sscanf(eng, st, I, args):
    s = cstr(eng, st, args[0])
    outs = []
    for r in (0, MASK[32]):
        o = st.copy()
        eng.emit(o, "x", "sscanf", (None,), r, I)
        outs.append((o, r))
    v = sym(eng, st, I, "scanned", -(1 << 31), (1 << 31) - 1)
    alts = getattr(eng.rule, "scanned", None)
    if alts is None:
        wr(eng, st, args[2], 4, v)
        outs.append((st, 1))
    else:
        for x in alts:
            o = st.copy()
            o.part = o.part + (("scan", x),)
            wr(eng, o, args[2], 4, x & MASK[32])
            eng.emit(o, "x", "sscanf", (x,), 1, I)
            outs.append((o, 1))
    return outs


@model("atoi", "strtol", "strtoul", "strtoll", "__isoc23_strtol", "__isoc23_strtoul")
def m_atoi(eng, st, I, args):
    alts = getattr(eng.rule, "scanned", None)
    if len(args) > 1 and type(args[1]) is tuple:
        wr(eng, st, args[1], 8, eng.fresh(st, I.site, "endp"))
    if alts is None:
        return [(st, sym(eng, st, I, "atoi"))]
    outs = []
    for x in alts:
        o = st.copy()
        o.part = o.part + (("scan", x),)
        eng.emit(o, "x", "sscanf", (x,), x & MASK[I.w], I)
        outs.append((o, x & MASK[I.w]))
    return outs


@model("malloc", "calloc", "valloc")
def m_malloc(eng, st, I, args):
    name = eng.xname
    n = args[0] if len(args) == 1 else (args[0] * args[1] if all(type(a) is int for a in args[:2]) else None)
    outs = []
    if not eng.opts.get("malloc_ok"):
        o = st.copy()
        eng.emit(o, "x", "malloc", args, 0, I)
        outs.append((o, 0))
    k = 0
    while ("h", I.site, k, n) in st.mem and k < 3:
        k += 1
    obj = ("h", I.site, k, n)
    if len(args) == 2 and type(n) is int:
        eng.fill(st, obj, 0, n, "b", 0)
    else:
        eng.wobj(st, obj)
    eng.emit(st, "x", "malloc", args, ("p", obj, 0), I)
    outs.append((st, ("p", obj, 0)))
    return outs


@model("free", "munmap")
def m_free(eng, st, I, args):
    eng.emit(st, "x", "free", args, None, I)
    return [(st, 0)]


@model("mmap")
def m_mmap(eng, st, I, args):
    o = st.copy()
    n = args[1]
    obj = ("h", I.site, 0, n if type(n) is int else None)
    if type(n) is int:
        eng.fill(st, obj, 0, n, "b", 0)
    seterrno(eng, o, eng.fresh(o, I.site, "errno"))
    eng.emit(st, "x", "mmap", args, ("p", obj, 0), I)
    if eng.opts.get("malloc_ok"):
        return [(st, ("p", obj, 0))]
    return [(o, MASK[64]), (st, ("p", obj, 0))]


@model("sysconf")
def m_sysconf(eng, st, I, args):
    return [(st, 4096)]


# ---------------------------------------------------------------- varargs
@model("llvm.va_start", "llvm.va_start.p0")
def m_vastart(eng, st, I, args):
    l = eng.loc(st, args[0])
    eng.store(st, l[0], l[1], 24, ("va", st.frames[-1].va, 0))
    return [(st, None)]


@model("llvm.va_end", "llvm.va_end.p0")
def m_vaend(eng, st, I, args):
    return [(st, None)]


@model("llvm.va_copy", "llvm.va_copy.p0")
def m_vacopy(eng, st, I, args):
    l = eng.loc(st, args[1])
    v = eng.load(st, l[0], l[1], 24, I.site)
    l = eng.loc(st, args[0])
    eng.store(st, l[0], l[1], 24, v)
    return [(st, None)]


@model("__vf_va_arg")
def m_vaarg(eng, st, I, args):
    l = eng.deref(st, args[0], I)
    v = eng.load(st, l[0], l[1], 24, I.site)
    obj = ("a", len(st.frames), ("vaarg",), 8)
    if type(v) is tuple and v[0] == "va":
        if v[2] >= len(v[1]):
            eng.emit(st, "va_overrun", "va_arg", (v[2],), None, I)
            x = eng.fresh(st, I.site, "vaover")
        else:
            x = v[1][v[2]]
        eng.store(st, l[0], l[1], 24, ("va", v[1], v[2] + 1))
    else:
        x = eng.fresh(st, I.site, "va")
    st.mem.pop(obj, None)
    eng.store(st, obj, 0, 8, x)
    return [(st, ("p", obj, 0))]


# ---------------------------------------------------------------- signal sets
EMPTY = ("ss", "empty", FS, FS)
FULL = ("ss", "full", FS, FS)


def ss_of(v):
    if type(v) is tuple and v[0] == "ss":
        return v
    if type(v) is int and v == 0:
        return EMPTY
    if type(v) is int:
        return ("ss", "empty", frozenset(i + 1 for i in range(64) if v >> i & 1), FS)
    return ("ss", v, FS, FS)


def ldset(eng, st, p):
    l = eng.loc(st, p) if type(p) is tuple else None
    if l is None:
        return ("ss", ("t", "K", "set", p), FS, FS)
    if eng.access_hook is not None:
        eng.access_hook(eng, st, l[0], l[1], 128, "r", None)
    return ss_of(eng.load(st, l[0], l[1], 128, ("ldset",)))


def stset(eng, st, p, v):
    l = eng.loc(st, p) if type(p) is tuple else None
    if l is not None:
        if eng.access_hook is not None:
            eng.access_hook(eng, st, l[0], l[1], 128, "w", None)
        if eng.store_hook is not None:
            eng.store_hook(eng, st, l[0], l[1], 128, v, None)
        eng.store(st, l[0], l[1], 128, v)


def ss_add(s, n):
    if s[1] == "full" and n not in s[3]:
        return s
    return ("ss", s[1], s[2] | {n} if s[1] != "full" else s[2], s[3] - {n})


def ss_del(s, n):
    if s[1] == "empty":
        return ("ss", "empty", s[2] - {n}, FS)
    return ("ss", s[1], s[2] - {n}, s[3] | {n})


def ss_mem(eng, st, s, n):
    """1/0/token membership"""
    if n in s[2]:
        return 1
    if n in s[3]:
        return 0
    if s[1] == "empty":
        return 0
    if s[1] == "full":
        return 1
    t = ("t", "mem?", s[1], n)
    h = ((t, 1),)
    f = st.facts.get(h)
    if f is not None and f[0] is not None and f[0] == f[1]:
        return f[0]
    if f is None:
        st.facts[h] = (0, 1, FS)
    return t


@model("sigemptyset")
def m_sigempty(eng, st, I, args):
    eng.deref(st, args[0], I)
    stset(eng, st, args[0], EMPTY)
    return [(st, 0)]


@model("sigfillset")
def m_sigfill(eng, st, I, args):
    stset(eng, st, args[0], FULL)
    return [(st, 0)]


@model("sigaddset", "sigdelset")
def m_sigadd(eng, st, I, args):
    eng.deref(st, args[0], I)
    n = args[1]
    s = ldset(eng, st, args[0])
    if type(n) is int:
        n = sx(n, 32)
        if n < 1 or n > 64 or n in (32, 33):
            seterrno(eng, st, 22)
            return [(st, MASK[32])]
        stset(eng, st, args[0], (ss_add if eng.xname == "sigaddset" else ss_del)(s, n))
        return [(st, 0)]
    stset(eng, st, args[0], ("ss", eng.fresh(st, I.site, "set"), FS, FS))
    return [(st, eng.fresh(st, I.site, "sigadd"))]


@model("sigismember")
def m_sigismember(eng, st, I, args):
    eng.deref(st, args[0], I)
    n = args[1]
    s = ldset(eng, st, args[0])
    if type(n) is int:
        n = sx(n, 32)
        if n < 1 or n > 64:
            return [(st, MASK[32])]
        return [(st, ss_mem(eng, st, s, n))]
    return [(st, sym(eng, st, I, "ismem", -1, 1))]


@model("sigorset", "sigandset")
def m_sigor(eng, st, I, args):
    a, b = ldset(eng, st, args[1]), ldset(eng, st, args[2])
    if eng.xname == "sigorset" and b[1] == "empty":
        r = a
        for n in b[2]:
            r = ss_add(r, n)
    else:
        r = ("ss", eng.fresh(st, I.site, "set"), FS, FS)
    stset(eng, st, args[0], r)
    return [(st, 0)]


# ---------------------------------------------------------------- signals
SA_SIGINFO, SA_NODEFER, SA_RESETHAND = 4, 0x40000000, 0x80000000
SIG_BLOCK, SIG_UNBLOCK, SIG_SETMASK = 0, 1, 2


def curmask(st):
    return mget(st.env["mask"], st.env["cur"], ("ss", ("t", "any", "mask%d" % st.env["cur"]), FS, FS))


def setmask(st, v):
    st.env["mask"] = mset(st.env["mask"], st.env["cur"], v)


def disp(eng, st, sig):
    d = getattr(eng.rule, "init_disp", None)
    dv = d(sig) if d is not None else 0
    return mget(st.env["hand"], sig, (dv, 0, EMPTY))


@model("__libc_current_sigrtmin")
def m_rtmin(eng, st, I, args):
    return [(st, 34)]


@model("__libc_current_sigrtmax")
def m_rtmax(eng, st, I, args):
    return [(st, 64)]


@model("sigaction", "__sigaction", "rt_sigaction")
def m_sigaction(eng, st, I, args):
    sig, act, old = args[0], args[1], args[2]
    info = None
    if type(act) is tuple:
        h = rd(eng, st, act, 8, 0)
        m = ss_of(rd(eng, st, act, 128, 8))
        f = rd(eng, st, act, 4, 136)
        info = (h, f, m)
    if type(sig) is not int:
        r = sym(eng, st, I, "sigaction", -1, 0)
        eng.emit(st, "x", "sigaction", (sig, act, old, info), r, I)
        if type(old) is tuple:
            havoc(eng, st, old, I, 152)
        return [(st, r)]
    sig = sx(sig, 32)
    if sig < 1 or sig > 64 or sig in (32, 33) or (sig in (9, 19) and info is not None):
        seterrno(eng, st, 22)
        eng.emit(st, "x", "sigaction", (sig, act, old, info), MASK[32], I)
        return [(st, MASK[32])]
    prev = disp(eng, st, sig)
    eng.emit(st, "x", "sigaction", (sig, act, old, info), 0, I)
    if type(old) is tuple:
        wr(eng, st, old, 8, prev[0], 0)
        stset(eng, st, eng.padd(old, 8), prev[2])
        wr(eng, st, old, 4, prev[1], 136)
    if info is not None:
        st.env["hand"] = mset(st.env["hand"], sig, info)
    return [(st, 0)]


@model("signal", "__sysv_signal", "bsd_signal", "sigset")
def m_signal(eng, st, I, args):
    sig, h = args[0], args[1]
    if type(sig) is int:
        prev = disp(eng, st, sx(sig, 32))
        st.env["hand"] = mset(st.env["hand"], sx(sig, 32), (h, 0x10000000, EMPTY))
        eng.emit(st, "x", "signal", args, prev[0], I)
        return [(st, prev[0])]
    eng.emit(st, "x", "signal", args, None, I)
    return [(st, eng.fresh(st, I.site, "sig"))]


@model("sigprocmask", "pthread_sigmask")
def m_sigprocmask(eng, st, I, args):
    name = eng.xname
    how, sp, op = args[0], args[1], args[2]
    cur = curmask(st)
    sv = None
    if type(sp) is tuple:
        sv = ldset(eng, st, sp)
    r = sym(eng, st, I, "maskret") if eng.opts.get("mask_ret") else 0
    eng.emit(st, "x", "sigprocmask", (how, sp, op, sv, cur), r, I)
    if sv is not None:
        if how == SIG_SETMASK:
            setmask(st, sv)
        elif how == SIG_BLOCK and sv[1] == "empty":
            n = cur
            for s in sv[2]:
                n = ss_add(n, s)
            setmask(st, n)
        elif how == SIG_UNBLOCK and sv[1] == "empty":
            n = cur
            for s in sv[2]:
                n = ss_del(n, s)
            setmask(st, n)
        elif how in (SIG_BLOCK, SIG_UNBLOCK) and sv[1] == "full":
            # all signals but the excluded ones, which keep their state
            n = FULL if how == SIG_BLOCK else EMPTY
            for s in sv[3]:
                m = ss_mem(eng, st, cur, s)
                if m == 0:
                    n = ss_del(n, s)
                elif m == 1:
                    n = ss_add(n, s)
                else:
                    n = ("ss", eng.fresh(st, I.site, "mask"), FS, FS)
                    break
            setmask(st, n)
        else:
            setmask(st, ("ss", eng.fresh(st, I.site, "mask"), FS, FS))
    if type(op) is tuple:
        stset(eng, st, op, cur)
    return [(st, r)]


def run_handler(eng, st, I, sig, ret, pushonly=False):
    """asynchronous or synchronous delivery of sig to the current thread"""
    h, fl, mask = disp(eng, st, sig)
    fr = st.frames[-1]
    if type(h) is tuple and h[0] == "f":
        F = eng.p.fns[h[1]]
        saved = curmask(st)
        m = saved
        if mask[1] == "empty":
            for s in mask[2]:
                m = ss_add(m, s)
        elif mask[1] == "full":
            m = FULL
        else:
            m = ("ss", ("t", "any", "hmask"), mask[2] | {sig}, mask[3])
        if not (type(fl) is int and fl & SA_NODEFER):
            m = ss_add(m, sig)
        setmask(st, m)
        if type(fl) is int and fl & SA_RESETHAND:
            st.env["hand"] = mset(st.env["hand"], sig, (0, 0, EMPTY))
        eng.freeze(st, fr, I)
        # si_code: positive for a fault, not positive if sent by kill, raise and the like
        code = ("t", "any", "si_fault" if ret == "fault" else "si_sent")
        st.facts[((code, 1),)] = (1, 0x7fffffff, FS) if ret == "fault" else (-0x80000000, 0, FS)
        wr(eng, st, ("t", "any", "siginfo"), 4, sig, 0)
        wr(eng, st, ("t", "any", "siginfo"), 4, code, 8)
        args = [sig, ("t", "any", "siginfo"), ("t", "any", "ucontext")] if type(fl) is not int or fl & SA_SIGINFO else [sig]
        eng.push(st, F, args, ("handler", sig, saved, ret), kind="handler")
        return PUSH
    return h


@cont("handler")
def c_handler(eng, st, fr, v):
    _, sig, saved, ret = fr.onret
    setmask(st, saved)
    eng.emit(st, "env", "handler_return", (sig,), None, None)
    pend = st.env.get("pend", ())
    todo = [s for s in pend if ss_mem(eng, st, saved, s) != 1]
    c = st.frames[-1].copy()
    st.frames[-1] = c
    I = c.fn.blocks[c.blk].ins[c.idx]
    if todo:
        st.env["pend"] = tuple(x for x in pend if x not in todo)
        for s in todo:
            h = disp(eng, st, s)[0]
            if h == 0 and s not in (17, 18, 23, 28):
                eng.emit(st, "env", "killed", (s,), None, I)
                eng.finish(st, "terminated:signal:%d" % s)
                return None
    # a synchronous fault restarts at the faulting instruction
    if ret == "fault":
        h = disp(eng, st, sig)[0]
        if h == 0:
            eng.emit(st, "env", "killed", (sig,), None, I)
            eng.finish(st, "terminated:signal:%d" % sig)
            return None
        ret = 0
    return [(st, ret)]


@model("raise", "pthread_kill_self")
def m_raise(eng, st, I, args):
    eng.emit(st, "x", "raise", args, 0, I)
    return raise_self(eng, st, I, args[0])


def raise_self(eng, st, I, sig):
    if type(sig) is not int or sig == 0:
        return [(st, 0)]
    sig = sx(sig, 32)
    if sig == 19:
        return [(st, 0)]
    if ss_mem(eng, st, curmask(st), sig) == 1:
        st.env["pend"] = tuple(sorted(set(st.env.get("pend", ())) | {sig}))
        return [(st, 0)]
    h = run_handler(eng, st, I, sig, 0)
    if h is PUSH:
        return [(st, PUSH)]
    if h == 0 and sig not in (17, 18, 23, 28):
        eng.emit(st, "env", "killed", (sig,), None, I)
        eng.finish(st, "terminated:signal:%d" % sig)
        return []
    return [(st, 0)]


@model("kill", "tgkill", "tkill")
def m_kill(eng, st, I, args):
    eng.emit(st, "x", eng.xname, args, 0, I)
    if eng.xname == "kill" and args[0] == ("t", "pid", st.env["pid"]):
        return raise_self(eng, st, I, args[1])
    return [(st, 0)]


@model("abort")
def m_abort(eng, st, I, args):
    eng.emit(st, "x", "abort", args, None, I)
    eng.finish(st, "terminated:abort")
    return []


@model("errx", "err", "__assert_fail", "__stack_chk_fail")
def m_errx(eng, st, I, args):
    eng.emit(st, "x", "errx", args, None, I)
    eng.finish(st, "terminated:errx")
    return []


@model("sigwaitinfo", "sigtimedwait", "sigwait")
def m_sigwait(eng, st, I, args):
    alts = getattr(eng.rule, "sigwait_results", None)
    outs = []
    if alts is None:
        alts = [10, 12, 34]
    o = st.copy()
    e = sym(eng, o, I, "errno", 1, 200)
    seterrno(eng, o, e)
    eng.emit(o, "x", eng.xname, args, MASK[32], I)
    outs.append((o, MASK[32]))
    for s in alts:
        o = st.copy()
        if type(args[1]) is tuple and args[1][0] == "p":
            havoc(eng, o, args[1], I, 128)
        eng.emit(o, "x", eng.xname, args, s, I)
        outs.append((o, s))
    return outs




# ---------------------------------------------------------------- processes
@model("fork", "vfork")
def m_fork(eng, st, I, args):
    f = st.copy()
    seterrno(eng, f, eng.fresh(f, I.site, "errno"))
    eng.emit(f, "x", "fork", (), MASK[32], I)
    c = st.copy()
    c.env["pid"] = c.env["pid"] + 1 if c.env["pid"] < 3 else 3
    # only the forking thread survives: an interrupted other thread never continues
    if c.env.get("pre") == 2:
        c.env["pre"] = 6
    eng.emit(c, "x", "fork", (), 0, I)
    t = ("t", "child", "pid")
    st.facts[((t, 1),)] = (1, None, FS)
    eng.emit(st, "x", "fork", (), t, I)
    return [(f, MASK[32]), (c, 0), (st, t)]


def m_exec(name):
    def m(eng, st, I, args):
        o = st.copy()
        eng.emit(o, "x", name, args, None, I)
        eng.finish(o, "terminated:" + name)
        e = sym(eng, st, I, "errno", 1, 200)
        seterrno(eng, st, e)
        eng.emit(st, "x", name, args, MASK[32], I)
        st.env["execfail"] = 1
        return [(st, MASK[32])]
    return m


for _n in ("execv", "execve", "execvp", "execvpe", "fexecve"):
    MODELS[_n] = m_exec(_n)


@model("system")
def m_system(eng, st, I, args):
    r = eng.fresh(st, I.site, "system")
    eng.emit(st, "x", "system", args, r, I)
    return [(st, r)]


@model("waitpid", "wait4", "wait")
def m_waitpid(eng, st, I, args):
    outs = []
    for e in (4, 10):
        o = st.copy()
        seterrno(eng, o, e)
        eng.emit(o, "x", "waitpid", tuple(args) + (e,), MASK[32], I)
        outs.append((o, MASK[32]))
    if len(args) > 1 and type(args[1]) is tuple:
        wr(eng, st, args[1], 4, ("t", "any", "waitstatus"))
    t = args[0] if len(args) > 1 else eng.fresh(st, I.site, "wait")
    eng.emit(st, "x", "waitpid", tuple(args) + (0,), t, I)
    return outs + [(st, t)]


@model("access", "eaccess", "faccessat")
def m_access(eng, st, I, args):
    o = st.copy()
    eng.emit(st, "x", "access", args, 0, I)
    seterrno(eng, o, eng.fresh(o, I.site, "errno"))
    eng.emit(o, "x", "access", args, MASK[32], I)
    return [(st, 0), (o, MASK[32])]


@model("getenv", "secure_getenv")
def m_getenv(eng, st, I, args):
    n = cstr(eng, st, args[0])
    if n is None:
        t = eng.fresh(st, I.site, "env")
        return _split_ptr(eng, st, I, args, "env")
    n = n.decode("latin1")
    k = "getenv:" + n
    if k in st.env:
        return [(st, st.env[k])]
    t = ("t", "env", n)
    if n == "MONITOR_DEBUG":
        v = 1 if eng.opts.get("debug") else 0
        alts = (v,)
    else:
        alts = eng.opts.get("getenv", {}).get(n, (0, 1))
    outs = []
    for a in alts:
        o = st.copy()
        if type(a) is str:
            obj = ("h", ("env", n, a), 0, len(a) + 1)
            for i, ch in enumerate(a.encode() + b"\0"):
                eng.store(o, obj, i, 1, ch)
            o.env[k] = ("p", obj, 0)
            o.part = o.part + (("env", n, a),)
            eng.emit(o, "x", "getenv", (n,), a, I)
            outs.append((o, ("p", obj, 0)))
            continue
        o.facts[((t, 1),)] = (1, None, FS)
        o.env[k] = t if a else 0
        eng.emit(o, "x", "getenv", (n,), a, I)
        outs.append((o, t if a else 0))
    return outs


@model("gettimeofday")
def m_gtod(eng, st, I, args):
    t = st.env.get("time", 1000)
    wr(eng, st, args[0], 8, t, 0)
    wr(eng, st, args[0], 8, 0, 8)
    return [(st, 0)]


@model("clock_gettime")
def m_cgt(eng, st, I, args):
    t = st.env.get("time", 1000)
    wr(eng, st, args[1], 8, t, 0)
    wr(eng, st, args[1], 8, 0, 8)
    return [(st, 0)]


@model("time")
def m_time(eng, st, I, args):
    t = st.env.get("time", 1000)
    if type(args[0]) is tuple:
        wr(eng, st, args[0], 8, t)
    return [(st, t)]


@model("usleep", "sleep", "nanosleep", "sched_yield", "pause", "poll", "select", "clock_nanosleep")
def m_sleep(eng, st, I, args):
    name = eng.xname
    eng.emit(st, "x", name, args, 0, I)
    F = eng.p.fns.get("vf_on_sleep")
    if F is not None and not any(f.fn is F for f in st.frames):
        fr = st.frames[-1]
        eng.freeze(st, fr, I)
        eng.push(st, F, [], ("const", 0))
        return [(st, PUSH)]
    return [(st, 0)]


@cont("const")
def c_const(eng, st, fr, v):
    c = st.frames[-1].copy()
    st.frames[-1] = c
    return [(st, fr.onret[1])]


@model("exit")
def m_exit(eng, st, I, args):
    eng.emit(st, "x", "exit", args, None, I)
    return run_exit(eng, st, I, "exit")


def run_exit(eng, st, I, how):
    d = [x for x in dtors(eng) if x not in ()]
    if d and eng.opts.get("dtors", True) and not any(f.onret and f.onret[0] == "dtors" for f in st.frames):
        fr = st.frames[-1]
        eng.freeze(st, fr, I)
        eng.push(st, eng.p.fns[d[0]], [], ("dtors", tuple(d[1:]), how))
        return [(st, PUSH)]
    eng.emit(st, "env", "process_end", (how,), None, I)
    eng.finish(st, "terminated:" + how)
    return []


@cont("dtors")
def c_dtors(eng, st, fr, v):
    _, rest, how = fr.onret
    if rest:
        eng.push(st, eng.p.fns[rest[0]], [], ("dtors", rest[1:], how))
        return st
    eng.emit(st, "env", "process_end", (how,), None, None)
    eng.finish(st, "terminated:" + how)
    return None


def funs_in(eng, which):
    out = []
    for tu, G in eng.p.ctors.get(which, []):
        for o, s, v in G.init or []:
            if type(v) is tuple and v[0] == "fn?":
                v = eng.p.resolve(v[1])
            if type(v) is tuple and v[0] == "f":
                out.append(v[1])
    return out


def dtors(eng):
    return funs_in(eng, "dtors")


@model("_exit", "_Exit", "quick_exit", "exit_group")
def m_uexit(eng, st, I, args):
    eng.emit(st, "x", eng.xname, args, None, I)
    eng.emit(st, "env", "process_end", ("_exit",), None, I)
    eng.finish(st, "terminated:_exit")
    return []


@model("__libc_start_main")
def m_start(eng, st, I, args):
    eng.emit(st, "x", "__libc_start_main", args, None, I)
    mainf = args[0]
    fr = st.frames[-1]
    if type(mainf) is tuple and mainf[0] == "f":
        eng.freeze(st, fr, I)
        eng.push(st, eng.p.fns[mainf[1]], [args[1], args[2], ("t", "any", "envp")], ("startmain",))
        return [(st, PUSH)]
    r = eng.fresh(st, I.site, "mainret")
    eng.emit(st, "app", mainf, (args[1], args[2], ("t", "any", "envp")), r, I)
    eng.emit(st, "x", "exit", (r,), None, I)
    return run_exit(eng, st, I, "exit")


@cont("startmain")
def c_startmain(eng, st, fr, v):
    c = st.frames[-1].copy()
    st.frames[-1] = c
    I = c.fn.blocks[c.blk].ins[c.idx]
    eng.emit(st, "env", "main_returned", (v,), None, I)
    eng.emit(st, "x", "exit", (v,), None, I)
    return run_exit(eng, st, I, "exit")


# ---------------------------------------------------------------- dynamic linking
@model("dlsym", "dlvsym")
def m_dlsym(eng, st, I, args):
    n = cstr(eng, st, args[1])
    v = ("x", n.decode()) if n is not None else eng.fresh(st, I.site, "dlsym")
    st.env["dlerr"] = 0
    eng.emit(st, "x", "dlsym", (args[0], n.decode() if n is not None else "?"), v, I)
    if eng.opts.get("dlsym_fail") and args[0] == MASK[64]:
        o = st.copy()
        o.env["dlerr"] = 1
        return [(st, v), (o, 0)]
    return [(st, v)]


@model("dlerror")
def m_dlerror(eng, st, I, args):
    e = st.env.get("dlerr", 0)
    st.env["dlerr"] = 0
    if e:
        t = ("t", "dlerr", 0)
        st.facts[((t, 1),)] = (1, None, FS)
        return [(st, t)]
    return [(st, 0)]


@model("dladdr", "dladdr1")
def m_dladdr(eng, st, I, args):
    o = st.copy()
    havoc(eng, st, args[1], I, 32)
    return [(st, 1), (o, 0)]


@model("dl_iterate_phdr")
def m_phdr(eng, st, I, args):
    eng.emit(st, "x", "dl_iterate_phdr", args, None, I)
    o = st.copy()
    cb = args[0]
    if type(cb) is tuple and cb[0] == "f":
        fr = st.frames[-1]
        eng.freeze(st, fr, I)
        eng.push(st, eng.p.fns[cb[1]], [("t", "any", "phdr"), 64, args[1]], ("phdr", cb[1], args[1]))
        return [(o, 0), (st, PUSH)]
    return [(o, 0)]


@cont("phdr")
def c_phdr(eng, st, fr, v):
    _, cb, data = fr.onret
    outs = []
    c = st.frames[-1].copy()
    st.frames[-1] = c
    nz = eng.decide(st, "ne", v, 0, 32)
    if nz is not True:
        o = st.copy()
        if eng.refine(o, "eq", v, 0, 32):
            o2 = o.copy()
            outs.append((o, 0))
            eng.push(o2, eng.p.fns[cb], [("t", "any", "phdr"), 64, data], ("phdr", cb, data))
            if eng.at_merge(o2) is not None:
                outs.append((o2, PUSH))
    if nz is not False:
        if eng.refine(st, "ne", v, 0, 32):
            outs.append((st, v))
    return outs


@model("dlopen")
def m_dlopen(eng, st, I, args):
    o = st.copy()
    t = eng.fresh(st, I.site, "handle")
    st.facts[((t, 1),)] = (1, None, FS)
    eng.emit(st, "x", "dlopen", args, t, I)
    eng.emit(o, "x", "dlopen", args, 0, I)
    return [(st, t), (o, 0)]


@model("dlclose")
def m_dlclose(eng, st, I, args):
    t = eng.fresh(st, I.site, "dlclose")
    eng.emit(st, "x", "dlclose", args, t, I)
    return [(st, t)]


# ---------------------------------------------------------------- pthreads
def selftok(k):
    return ("t", "self", k)


@model("pthread_self")
def m_self(eng, st, I, args):
    t = selftok(st.env["cur"])
    return [(st, t)]


@model("pthread_equal")
def m_pequal(eng, st, I, args):
    a, b = args
    if a == b:
        return [(st, 1)]
    if istok(a) and istok(b) and a[1] == "self" and b[1] == "self":
        return [(st, 0)]
    if type(a) is int or type(b) is int:
        return [(st, 0)]
    o = st.copy()
    outs = []
    if eng.refine(o, "ne", a, b, 64):
        outs.append((o, 0))
    if eng.refine(st, "eq", a, b, 64):
        outs.append((st, 1))
    return outs


@model("pthread_key_create")
def m_keycreate(eng, st, I, args):
    n = st.env.get("nkeys", 0) + 1
    n = min(n, 6)
    st.env["nkeys"] = n
    wr(eng, st, args[0], 4, n)
    eng.emit(st, "x", "pthread_key_create", (args[0], args[1]), n, I)
    st.env["keys"] = tuple(sorted(set(st.env.get("keys", ())) | {n}))
    return [(st, 0)]


@model("pthread_key_delete")
def m_keydelete(eng, st, I, args):
    k = args[0]
    eng.emit(st, "x", "pthread_key_delete", args, 0, I)
    st.env["keys"] = tuple(x for x in st.env.get("keys", ()) if x != k)
    st.env["spec"] = tuple((a, b) for a, b in st.env["spec"] if a[0] != k)
    return [(st, 0)]


@model("pthread_getspecific")
def m_getspec(eng, st, I, args):
    k = args[0]
    if k not in st.env.get("keys", ()):
        eng.emit(st, "env", "badkey", args, 0, I)
        return [(st, 0)]
    return [(st, mget(st.env["spec"], (k, st.env["cur"]), 0))]


@model("pthread_setspecific")
def m_setspec(eng, st, I, args):
    k = args[0]
    if k not in st.env.get("keys", ()):
        eng.emit(st, "env", "badkey", args, 0, I)
        return [(st, 22)]
    st.env["spec"] = mset(st.env["spec"], (k, st.env["cur"]), args[1])
    eng.emit(st, "x", "pthread_setspecific", args, 0, I)
    return [(st, 0)]


@model("pthread_setcancelstate", "pthread_setcanceltype")
def m_cancelstate(eng, st, I, args):
    key = "cancel" if eng.xname.endswith("state") or True else "ctype"
    cur = mget(st.env.get("cancel", ()), st.env["cur"], 0)
    eng.emit(st, "x", "pthread_setcancelstate", (args[0], cur), 0, I)
    if type(args[1]) is tuple:
        wr(eng, st, args[1], 4, cur)
    st.env["cancel"] = mset(st.env.get("cancel", ()), st.env["cur"], args[0])
    return [(st, 0)]


@model("pthread_kill")
def m_pkill(eng, st, I, args):
    eng.emit(st, "x", "pthread_kill", args, 0, I)
    if args[0] == selftok(st.env["cur"]):
        return raise_self(eng, st, I, args[1])
    return [(st, 0)]


def errs(name, codes=(0, 22)):
    def m(eng, st, I, args):
        outs = []
        cs = codes
        if eng.opts.get("attr_ok"):
            cs = codes[:1]
        for c in cs:
            o = st.copy()
            if c == 0 and name == "pthread_attr_getstacksize":
                t = ("t", "stk", args[0])
                cur = mget(o.env.get("stk", ()), args[0], t)
                wr(eng, o, args[1], 8, cur)
                if cur == t:
                    o.facts.setdefault(((t, 1),), (0, None, FS))
            eng.emit(o, "x", name, args, c, I)
            if c == 0 and name == "pthread_attr_setstacksize":
                o.env["stk"] = mset(o.env.get("stk", ()), args[0], args[1])
            outs.append((o, c))
        return outs
    return m


for _n in ("pthread_attr_init", "pthread_attr_getstacksize", "pthread_attr_setstacksize"):
    MODELS[_n] = errs(_n)
MODELS["pthread_attr_destroy"] = errs("pthread_attr_destroy", (0,))


@model("pthread_create")
def m_pcreate(eng, st, I, args):
    o = st.copy()
    outs = []
    if not eng.opts.get("create_ok"):
        eng.emit(o, "x", "pthread_create", args, 11, I)
        outs.append((o, 11))
    th = st.env["threads"]
    k = len(th) + 1
    st.env["threads"] = th + ((args[2], args[3]),)
    wr(eng, st, args[0], 8, selftok(k))
    eng.emit(st, "x", "pthread_create", args, 0, I)
    F = eng.p.fns.get("vf_on_create")
    if F is not None:
        fr = st.frames[-1]
        eng.freeze(st, fr, I)
        eng.push(st, F, [k], ("const", 0))
        outs.append((st, PUSH))
    else:
        outs.append((st, 0))
    return outs


@model("__sigsetjmp", "_setjmp", "setjmp", "sigsetjmp")
def m_setjmp(eng, st, I, args):
    fr = st.frames[-1]
    fr.jb = tuple(x for x in fr.jb if x[0] != args[0]) + ((args[0], fr.blk, fr.idx),)
    return [(st, 0)]


@model("__pthread_register_cancel")
def m_regcancel(eng, st, I, args):
    st.env["cleanup"] = st.env["cleanup"] + ((st.env["cur"], len(st.frames), args[0]),)
    eng.emit(st, "env", "cleanup_push", (), None, I)
    return [(st, None)]


@model("__pthread_unregister_cancel")
def m_unregcancel(eng, st, I, args):
    cl = list(st.env["cleanup"])
    for i in range(len(cl) - 1, -1, -1):
        if cl[i][0] == st.env["cur"] and cl[i][2] == args[0]:
            del cl[i]
            break
    st.env["cleanup"] = tuple(cl)
    eng.emit(st, "env", "cleanup_pop", (), None, I)
    return [(st, None)]


def unwind(eng, st, why):
    """thread termination: run pushed cleanup handlers, innermost first"""
    cur = st.env["cur"]
    cl = list(st.env["cleanup"])
    for i in range(len(cl) - 1, -1, -1):
        if cl[i][0] == cur:
            _, d, buf = cl[i]
            del cl[i]
            st.env["cleanup"] = tuple(cl)
            while len(st.frames) > d:
                f = st.frames[-1]
                eng.pop(st)
            fr = st.frames[-1].copy()
            st.frames[-1] = fr
            for b, blk, idx in fr.jb:
                if b == buf:
                    fr.blk = blk
                    fr.idx = idx
                    I = fr.fn.blocks[blk].ins[idx]
                    if I.dst is not None:
                        fr.regs[I.dst] = 1
                    fr.idx += 1
                    return [(st, PUSH)]
            raise AnalysisLimit("cleanup handler without setjmp")
    # no more handlers: the thread ends
    for i in range(len(st.frames) - 1, -1, -1):
        f = st.frames[i]
        if f.thread == cur:
            while len(st.frames) > i:
                fr = eng.pop(st)
            return CONT[fr.onret[0]](eng, st, fr, ("t", "any", "unwound"))
    eng.emit(st, "env", "process_end", (why,), None, None)
    eng.finish(st, "terminated:" + why)
    return []


@model("__pthread_unwind_next")
def m_unwindnext(eng, st, I, args):
    r = unwind(eng, st, "unwind")
    return r if r is not None else []


@model("pthread_exit")
def m_pexit(eng, st, I, args):
    eng.emit(st, "x", "pthread_exit", args, None, I)
    r = unwind(eng, st, "pthread_exit")
    return r if r is not None else []


# ---------------------------------------------------------------- driver intrinsics
@model("vf_any", "vf_anyint", "vf_anylong")
def vf_any(eng, st, I, args):
    n = cstr(eng, st, args[0])
    return [(st, ("t", "any", n.decode()))]


@model("vf_ptr")
def vf_ptr(eng, st, I, args):
    """non-null unknown pointer"""
    n = cstr(eng, st, args[0])
    t = ("t", "any", n.decode())
    st.facts[((t, 1),)] = (1, None, FS)
    return [(st, t)]


@model("vf_nondet")
def vf_nondet(eng, st, I, args):
    o = st.copy()
    return [(st, 0), (o, 1)]


@model("vf_choose")
def vf_choose(eng, st, I, args):
    lo, hi = sx(args[0], 32), sx(args[1], 32)
    outs = []
    for x in range(lo, hi + 1):
        o = st.copy()
        o.part = o.part + (x,)
        outs.append((o, x & MASK[32]))
    return outs


@model("vf_pick")
def vf_pick(eng, st, I, args):
    """vf_pick(n): like vf_choose(0,n-1) without partitioning"""
    return [(st.copy(), x) for x in range(args[0])]


@model("vf_mark")
def vf_mark(eng, st, I, args):
    n = cstr(eng, st, args[0]).decode()
    eng.emit(st, "mark", n, args[1:], None, I)
    return [(st, None)]


@model("vf_assume")
def vf_assume(eng, st, I, args):
    t = eng.truth(st, args[0], 32)
    if t is False or t is None and not eng.assume(st, args[0], True):
        eng.finish(st, "cut")
        return []
    return [(st, None)]


@model("vf_assert")
def vf_assert(eng, st, I, args):
    t = eng.truth(st, args[0], 32)
    n = cstr(eng, st, args[1]).decode()
    eng.emit(st, "assert", n, args[:1], None, I)
    if t is not True:
        e = Violation(n)
        e.st = st
        raise e
    return [(st, None)]


@model("vf_end")
def vf_end(eng, st, I, args):
    eng.finish(st, "cut")
    return []


@model("vf_crt_exit")
def vf_crt_exit(eng, st, I, args):
    eng.emit(st, "env", "main_returned", (args[0],), None, I)
    eng.emit(st, "x", "exit", args, None, I)
    return run_exit(eng, st, I, "exit")


@model("getcontext")
def m_getcontext(eng, st, I, args):
    return [(st, 0)]


@model("vf_preempt_on")
def vf_preempt_on(eng, st, I, args):
    if st.env.get("pre", 0) == 0:
        st.env["pre"] = 1
    return [(st, None)]


@model("vf_preempt_off")
def vf_preempt_off(eng, st, I, args):
    if st.env.get("pre", 0) == 1:
        st.env["pre"] = 3
    return [(st, None)]


@model("vf_preempted")
def vf_preempted(eng, st, I, args):
    return [(st, 1 if st.env.get("pre", 0) in (2, 4) else 0)]


@cont("resume")
def c_resume(eng, st, fr, v):
    st.env["cur"] = fr.onret[1]
    st.env["pre"] = 1 if st.env.pop("re", 0) else 4
    st.frames[-1] = st.frames[-1].copy()
    return st


@model("vf_as")
def vf_as(eng, st, I, args):
    """vf_as(k, f): thread k runs f() until it returns or parks"""
    fr = st.frames[-1]
    prev = st.env["cur"]
    st.env["cur"] = args[0]
    eng.freeze(st, fr, I)
    eng.push(st, eng.p.fns[args[1][1]], [], ("as", prev))
    return [(st, PUSH)]


@cont("as")
def c_as(eng, st, fr, v):
    st.env["cur"] = fr.onret[1]
    st.frames[-1] = st.frames[-1].copy()
    return [(st, None)]


@model("vf_park")
def vf_park(eng, st, I, args):
    """the running thread stops here for good; the one it interrupted goes on (and may be interrupted again)"""
    i = len(st.frames) - 1
    while i >= 0 and not (st.frames[i].onret and st.frames[i].onret[0] in ("resume", "as")):
        i -= 1
    if i < 0:
        raise AnalysisLimit("driver: vf_park outside vf_preempt/vf_as")
    o = st
    k = o.frames[i].onret
    o.env["cur"] = k[1]
    o.env["pre"] = 1
    o.env["parked"] = 1
    o.frames = o.frames[:i]
    o.frames[-1] = o.frames[-1].copy()
    eng.relocate(o, i + 1)
    if k[0] == "resume":
        return [(o, PUSH)]
    return CONT["as"](eng, o, _Fr(k), None)


class _Fr:
    def __init__(self, k):
        self.onret = k


@model("vf_rearm")
def vf_rearm(eng, st, I, args):
    """after this interruption further ones are possible"""
    st.env["re"] = 1
    return [(st, None)]


@model("vf_setself")
def vf_setself(eng, st, I, args):
    st.env["cur"] = args[0]
    return [(st, None)]


@model("vf_time")
def vf_time(eng, st, I, args):
    st.env["time"] = args[0]
    return [(st, None)]


@model("vf_cancel")
def vf_cancel(eng, st, I, args):
    if mget(st.env.get("cancel", ()), st.env["cur"], 0) == 1:
        return [(st, None)]
    eng.emit(st, "env", "cancelled", (st.env["cur"],), None, I)
    r = unwind(eng, st, "cancel")
    return r if r is not None else []


@model("vf_nthreads")
def vf_nthreads(eng, st, I, args):
    return [(st, len(st.env["threads"]))]


@model("vf_cur")
def vf_cur(eng, st, I, args):
    return [(st, st.env["cur"])]


@model("vf_run_thread")
def vf_run_thread(eng, st, I, args):
    """begin executing created thread k (1-based) and run it to completion"""
    k = args[0]
    if k < 1 or k > len(st.env["threads"]):
        raise AnalysisLimit("driver: no such thread")
    start, arg = st.env["threads"][k - 1]
    prev = st.env["cur"]
    st.env["cur"] = k
    eng.emit(st, "env", "thread_begin", (k, start, arg), None, I)
    fr = st.frames[-1]
    eng.freeze(st, fr, I)
    if type(start) is tuple and start[0] == "f":
        eng.push(st, eng.p.fns[start[1]], [arg], ("thread", k, prev), kind="thread", thread=k)
        return [(st, PUSH)]
    eng.emit(st, "app", start, (arg,), None, I)
    st.env["cur"] = prev
    return [(st, ("t", "any", "threadret"))]


@cont("thread")
def c_thread(eng, st, fr, v):
    _, k, prev = fr.onret
    eng.emit(st, "env", "thread_end", (k, v), None, None)
    st.env["cur"] = prev
    st.env["cleanup"] = tuple(x for x in st.env["cleanup"] if x[0] != k)
    if not eng.opts.get("keeptsd"):      # with it: late code (destructors of other keys) may still run in the thread
        st.env["spec"] = tuple((a, b) for a, b in st.env["spec"] if a[1] != k)
    c = st.frames[-1].copy()
    st.frames[-1] = c
    return [(st, v if v is not None else 0)]


@model("vf_deliver")
def vf_deliver(eng, st, I, args):
    """deliver signal args[0] to the current thread (fault=args[1])"""
    sig = args[0]
    fault = len(args) > 1 and args[1]
    if not fault and ss_mem(eng, st, curmask(st), sig) == 1:
        return [(st, 1)]
    eng.emit(st, "env", "signal", (sig,), None, I)
    h = run_handler(eng, st, I, sig, "fault" if fault else 0)
    if h is PUSH:
        return [(st, PUSH)]
    if h == 0 and sig not in (17, 18, 23, 28, 20, 21, 22):
        eng.emit(st, "env", "killed", (sig,), None, I)
        eng.finish(st, "terminated:signal:%d" % sig)
        return []
    return [(st, 0)]


@model("vf_ctors")
def vf_ctors(eng, st, I, args):
    fs = funs_in(eng, "ctors")
    fs = [f for f in fs if not eng.p.fns[f].tu.startswith("drv_")]
    if not fs:
        return [(st, None)]
    fr = st.frames[-1]
    eng.freeze(st, fr, I)
    eng.push(st, eng.p.fns[fs[0]], [], ("ctors", tuple(fs[1:])))
    return [(st, PUSH)]


@cont("ctors")
def c_ctors(eng, st, fr, v):
    rest = fr.onret[1]
    if rest:
        eng.push(st, eng.p.fns[rest[0]], [], ("ctors", rest[1:]))
        return st
    c = st.frames[-1].copy()
    st.frames[-1] = c
    return [(st, None)]


@model("vf_call_main")
def vf_call_main(eng, st, I, args):
    return unknown("vf_call_main")(eng, st, I, args)


@model("vf_exit_now")
def vf_exit_now(eng, st, I, args):
    eng.finish(st, "terminated:exit")
    return []
