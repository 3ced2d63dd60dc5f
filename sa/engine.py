"""Interprocedural typestate / constant-propagation dataflow over the linked LLVM IR.

Abstract states are propagated through the whole-program control flow graph (calls entered in their
calling context) until no new abstract state appears at any program point.  A state consists of the
call context, abstract values of live registers and memory cells, interval facts about unknown
values, the environment model (threads, handlers, masks) and the state of the property automaton.
States that agree are merged; when the number of distinct states at one point exceeds a cap they are
joined and widened.  Nothing is executed and no path is handed to a solver."""
import time, sys
from ir import MASK, sx
from values import *

PUSH = object()
YIELDOPS = {"store", "call", "cmpxchg", "atomicrmw"}
PREOPS = {"load", "store", "call", "cmpxchg", "atomicrmw"}
CALLBACKS = set("""monitor_init_library monitor_fini_library monitor_init_process monitor_fini_process
monitor_start_main_init monitor_at_main monitor_begin_process_exit monitor_pre_fork monitor_post_fork
monitor_thread_pre_create monitor_thread_post_create monitor_init_thread_support monitor_init_thread
monitor_fini_thread monitor_reset_stacksize monitor_pre_dlopen monitor_dlopen monitor_dlclose
monitor_post_dlclose monitor_mpi_pre_init monitor_init_mpi monitor_fini_mpi monitor_mpi_post_fini
monitor_wrap_main""".split())


class AnalysisLimit(Exception):
    pass


class Violation(Exception):
    """raised by a rule: msg names the broken obligation"""


class Stop(Exception):
    """raised by a rule/model to end this path quietly"""


class ObjMem:
    __slots__ = ("cells", "fills", "_h")

    def __init__(self, cells=None, fills=()):
        self.cells = {} if cells is None else cells
        self.fills = fills
        self._h = None

    def copy(self):
        return ObjMem(dict(self.cells), self.fills)

    def __hash__(self):
        h = self._h
        if h is None:
            h = self._h = hash((frozenset(self.cells.items()), self.fills))
        return h

    def __eq__(self, o):
        return self is o or (hash(self) == hash(o) and self.fills == o.fills and self.cells == o.cells)


class Frame:
    __slots__ = ("fn", "blk", "idx", "prev", "regs", "va", "esc", "onret", "kind", "_k", "jb", "thread")

    def copy(self):
        f = Frame()
        f.fn = self.fn
        f.blk = self.blk
        f.idx = self.idx
        f.prev = self.prev
        f.regs = dict(self.regs)
        f.va = self.va
        f.esc = self.esc
        f.onret = self.onret
        f.kind = self.kind
        f.jb = self.jb
        f.thread = self.thread
        f._k = None
        return f

    def key(self):
        return (self.fn.key, self.blk, self.idx, frozenset(self.regs.items()), self.va, self.onret, self.kind,
                self.jb, self.thread)


class State:
    __slots__ = ("frames", "mem", "own", "facts", "env", "prop", "trace", "made", "part", "node")

    def copy(self):
        s = State()
        s.frames = self.frames[:-1] + [self.frames[-1].copy()] if self.frames else []
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.facts = dict(self.facts)
        s.env = dict(self.env)
        s.prop = self.prop
        s.trace = self.trace
        s.made = set(self.made)
        s.part = self.part
        s.node = self.node
        return s

    # lower frames are shared between states: freeze on push, copy on return
    def key(self):
        fr = self.frames
        low = []
        for f in fr[:-1]:
            k = f._k
            if k is None:
                k = f._k = HK(f.key())
            low.append(k)
        return (tuple(low), fr[-1].key(), frozenset(self.mem.items()), frozenset(self.facts.items()),
                frozenset(self.env.items()), self.prop, self.part)

    def pos(self):
        return tuple((f.fn.key, f.blk, f.idx) for f in self.frames)


class HK:
    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v = v
        self.h = hash(v)

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (self.h == o.h and self.v == o.v)


class Ev:
    __slots__ = ("kind", "name", "args", "ret", "ins", "st", "eng")

    def __repr__(self):
        return "%s:%s%s" % (self.kind, fmt(self.name), tuple(fmt(a) for a in self.args))


def fmt(v):
    if type(v) is tuple and v:
        if v[0] == "t":
            return "<" + ".".join(fmt(x) for x in v[1:]) + ">"
        if v[0] == "p":
            return "&%s+%s" % (fmt(v[1]), fmt(v[2]))
        if v[0] in ("f", "x"):
            return v[1]
        if v[0] == "g":
            return v[1].split("@")[0]
        if v[0] == "a":
            return "local(%s)" % (v[2][0] if type(v[2]) is tuple else v[2],)
        return "(" + " ".join(fmt(x) for x in v) + ")"
    if type(v) is int and v > (1 << 63):
        return str(v - (1 << 64))
    if type(v) is int and (1 << 31) < v < (1 << 32):
        return str(v - (1 << 32))
    return str(v)


def bounds(eng, st, obj, off, size, rw, I):
    """default memory rule of every analysis: an access at a known offset stays inside its object"""
    if type(off) is int and type(size) is int and size > 0 and obj[0] in "gah":
        n = eng.objsize(obj)
        if n is not None and type(n) is int and (off < 0 or off + size > n):
            eng.crash(st, "%s outside an object (bytes %d..%d of %d)" % ("write" if rw == "w" else "read", off, off + size - 1, n), I)


class Rule:
    """property automaton; state must be hashable"""
    hooks = {}
    check_crash = True
    check_hang = True
    hang_msg = "endless wait: no continuation of this path terminates"

    def init(self):
        return ()

    def on(self, st, ev):
        return st.prop

    def end(self, st, how):
        """the path ended (how: 'return', 'terminated:<call>')"""


class Engine:
    def __init__(self, prog, rule, cap=400, maxsteps=6_000_000, budget=700, opts=None):
        self.p = prog
        self.rule = rule
        self.cap = cap
        self.maxsteps = maxsteps
        self.deadline = time.time() + budget
        self.visited = {}
        self.edges = []
        self.ends = set()
        self.nodeinfo = [None]
        self.endcount = {}
        self.pre = None
        if "vf_preempt" in prog.fns:
            self.pre = prog.fns["vf_preempt"]
        self.yielding = bool((opts or {}).get("yield"))
        self.counts = {}
        self.joined = {}
        self.violations = {}
        self.stats = {"steps": 0, "states": 0, "events": 0, "merged": 0, "joins": 0, "paths": 0}
        self.fnseen = set()
        self.evcount = {}
        self.work = []
        self.opts = opts or {}
        self.liveafter = {}
        self.basecache = {}
        import models
        self.models = dict(models.MODELS)
        self.models.update(rule.hooks)
        self.gsize = {}
        self.debug = self.opts.get("trace", False)
        self.symaddr = self.opts.get("symaddr")      # code addresses of assembler labels
        self.vol_hook = getattr(rule, "volatile_load", None)
        self.access_hook = getattr(rule, "access", None) or bounds
        self.store_hook = getattr(rule, "store", None)

    # ------------------------------------------------------------------ states
    def initial(self, fnkey, args=()):
        st = State()
        st.frames = []
        st.mem = {}
        st.own = set()
        st.facts = {}
        st.env = {"cur": 0, "spec": (), "hand": (), "cleanup": (), "threads": (), "mask": (), "pid": 0}
        st.prop = self.rule.init()
        st.trace = None
        st.made = set()
        st.part = ()
        st.node = 0
        F = self.p.fns[fnkey]
        self.push(st, F, list(args), None)
        return st

    def push(self, st, F, args, onret, kind="call", thread=None):
        if len(st.frames) > 60:
            n = sum(1 for f in st.frames if f.fn is F)
            if n >= 4 and any(not f.fn.tu.startswith("drv_") for f in st.frames[-12:]):
                e = Violation("unbounded recursion through library code")
                e.st = st
                raise e
            raise AnalysisLimit("call depth exceeded at " + F.key + " via " +
                                " > ".join(f.fn.key for f in st.frames[-8:]))
        f = Frame()
        f.fn = F
        f.blk = 0
        f.idx = 0
        f.prev = None
        f.regs = {}
        n = len(F.params)
        for i, w in F.params:
            v = args[i] if i < len(args) else ("u",)
            f.regs[i] = v
        f.va = tuple(args[n:]) if F.vararg else ()
        f.esc = False
        f.onret = onret
        f.kind = kind
        f._k = None
        f.jb = ()
        f.thread = thread
        st.frames.append(f)
        self.fnseen.add(F.key)

    # ------------------------------------------------------------------ memory
    def objsize(self, obj):
        if obj[0] == "g":
            G = self.p.globs.get(obj[1])
            return G.size if G is not None and not G.decl else None
        if obj[0] in ("a", "h"):
            return obj[3] if len(obj) > 3 else None
        return None

    def gbase(self, key):
        b = self.basecache.get(key)
        if b is None:
            G = self.p.globs.get(key)
            b = {}
            if G is not None and not G.decl:
                for o, s, v in G.init:
                    b[o] = (s, v)
            self.basecache[key] = b
        return b

    def baseval(self, st, obj, off, size):
        k = obj[0]
        if k == "g":
            G = self.p.globs.get(obj[1])
            if G is None or G.decl:
                return ("t", "D", obj, off, size)
            if type(off) is not int:
                return None
            b = self.gbase(obj[1])
            c = b.get(off)
            if c is not None and c[0] == size:
                return self.cval(c[1])
            return self.assemble(off, size, lambda o: b.get(o), lambda o: 0)
        if k == "d":
            if off == 0 and size == 8 and depth(obj) > 6:
                return None
            if depth(obj) > 8:
                return None
            return ("t", "D", obj[1], off, size)
        if k == "z":
            return 0
        return ("t", "U", obj, off, size)

    def cval(self, v):
        if type(v) is tuple and v and v[0] == "ce":
            return self.ceval(v)
        return v

    def ceval(self, v):
        a = [self.cval(x) for x in v[2:]]
        if v[1] == "gep" and len(a) == 2 and type(a[1]) is int:
            return self.padd(a[0], a[1])
        if v[1] in ("add", "sub", "and", "or", "xor", "mul"):
            return self.binop(v[1], a[0], a[1], 64)
        return ("O", v[1]) + tuple(a)

    def assemble(self, off, size, getcell, dflt):
        """constant bytes little endian or None"""
        out = 0
        i = 0
        while i < size:
            o = off + i
            byte = None
            for back in range(0, 16):
                c = getcell(o - back)
                if c is not None and c[0] > back:
                    if type(c[1]) is int:
                        byte = (c[1] >> (8 * back)) & 255
                    else:
                        return None
                    break
            if byte is None:
                byte = dflt(o)
                if byte is None:
                    return None
            out |= byte << (8 * i)
            i += 1
        return out

    def load(self, st, obj, off, size, site):
        m = st.mem.get(obj)
        if m is not None:
            c = m.cells.get(off)
            if c is not None and c[0] == size:
                return c[1]
            if type(off) is not int:
                v = self.fresh(st, site, "sym")
                self.store(st, obj, off, size, v, weak=True)
                return v
            ov = False
            cells = m.cells
            if cells:
                for o in range(off - 127, off + size):
                    c = cells.get(o)
                    if c is not None and o + c[0] > off:
                        ov = True
                        break
            if not ov:
                for (s, e, k, pl) in m.fills:
                    if s <= off and off + size <= e:
                        if k == "b":
                            return int.from_bytes(bytes([pl]) * size, "little")
                        if k == "i":
                            v = self.baseval(st, pl[0], off + pl[1], size)
                            return v if v is not None else self.fresh(st, site, "mem")
                        v = ("t", "K", pl, off - s, size)
                        return v
                    if s < off + size and off < e:
                        ov = True
                        break
            if ov:
                def dflt(o):
                    for (s, e, k, pl) in m.fills:
                        if s <= o < e:
                            if k == "b":
                                return pl
                            if k == "i" and pl[0][0] == "g":
                                v = self.baseval(st, pl[0], o + pl[1], 1)
                                return v if type(v) is int else None
                            return None
                    v = self.baseval(st, obj, o, 1)
                    return v if type(v) is int else None
                v = self.assemble(off, size, lambda o: cells.get(o), dflt)
                if v is not None:
                    return v
                return self.fresh(st, site, "mix")
        if type(off) is not int:
            v = self.fresh(st, site, "sym")
            self.store(st, obj, off, size, v, weak=True)
            return v
        v = self.baseval(st, obj, off, size)
        if v is None:
            v = self.fresh(st, site, "mem")
            self.store(st, obj, off, size, v)
        return v

    def wobj(self, st, obj):
        m = st.mem.get(obj)
        if m is None:
            m = ObjMem()
            st.mem[obj] = m
            st.own.add(obj)
        elif obj not in st.own:
            m = m.copy()
            st.mem[obj] = m
            st.own.add(obj)
        m._h = None
        return m

    def store(self, st, obj, off, size, val, weak=False):
        m = self.wobj(st, obj)
        if type(off) is not int:
            if not weak:
                # may alias other cells: drop symbolic ones and blur constant ones of the same residue
                lo = lin(off)
                for o in list(m.cells):
                    if o == off:
                        continue
                    if type(o) is int and lo is not None and len(lo[1]) == 1:
                        sc = abs(lo[1][0][1])
                        r = (o - lo[0]) % sc if sc else 0
                        s2 = m.cells[o][0]
                        if r >= size and r + s2 <= sc:
                            continue
                    del m.cells[o]
            m.cells[off] = (size, val)
            return
        cells = m.cells
        c = cells.get(off)
        if not (c is not None and c[0] == size):
            for o in range(off - 127, off + size):
                c = cells.get(o)
                if c is not None and o + c[0] > off:
                    del cells[o]
                    if type(c[1]) is int and c[0] <= 16:
                        for b in range(c[0]):
                            if not (off <= o + b < off + size):
                                cells[o + b] = (1, (c[1] >> (8 * b)) & 255)
                    # partially overwritten unknowns simply become unknown via a fill
                    elif o < off or o + c[0] > off + size:
                        m.fills = ((o, o + c[0], "k", ("part", o)),) + m.fills
        for o in [o for o in cells if type(o) is not int]:
            del cells[o]
        cells[off] = (size, val)

    def fill(self, st, obj, off, n, kind, payload):
        m = self.wobj(st, obj)
        end = off + n
        for o in [o for o in m.cells if type(o) is not int or (o < end and o + m.cells[o][0] > off)]:
            c = m.cells.pop(o)
            if type(o) is int and type(c[1]) is int and c[0] <= 16:
                for b in range(c[0]):
                    if not (off <= o + b < end):
                        m.cells[o + b] = (1, (c[1] >> (8 * b)) & 255)
        fl = [(off, end, kind, payload)]
        for (s, e, k, pl) in m.fills:
            if s >= off and e <= end:
                continue
            fl.append((s, e, k, pl))
        m.fills = tuple(fl)

    def copyrange(self, st, dobj, doff, sobj, soff, n):
        sm = st.mem.get(sobj)
        newcells = []
        fills = []
        if sm is not None:
            for o, (s, v) in sm.cells.items():
                if type(o) is int and o < soff + n and o + s > soff:
                    if o >= soff and o + s <= soff + n:
                        newcells.append((o, s, v))
                    elif type(v) is int and s <= 16:
                        for b in range(s):
                            if soff <= o + b < soff + n:
                                newcells.append((o + b, 1, (v >> (8 * b)) & 255))
            for (s, e, k, pl) in reversed(sm.fills):
                a, b = max(s, soff), min(e, soff + n)
                if a < b:
                    if k == "i":
                        fills.append((a - soff + doff, b - soff + doff, "i", (pl[0], pl[1] + (soff - doff))))
                    elif k == "k":
                        fills.append((a - soff + doff, b - soff + doff, "k", (pl, a - s)))
                    else:
                        fills.append((a - soff + doff, b - soff + doff, k, pl))
        # base content of the source, oldest
        if sobj[0] == "z":
            self.fill(st, dobj, doff, n, "b", 0)
        else:
            G = self.p.globs.get(sobj[1]) if sobj[0] == "g" else None
            if G is not None and not G.decl and not self.gbase(sobj[1]):
                self.fill(st, dobj, doff, n, "b", 0)
            else:
                self.fill(st, dobj, doff, n, "i", (sobj, soff - doff))
        for (a, b, k, pl) in fills:
            self.fill(st, dobj, a, b - a, k, pl)
        for o, s, v in newcells:
            self.store(st, dobj, o - soff + doff, s, v)

    def loc(self, st, v):
        """pointer value -> (obj, off) or None"""
        if type(v) is tuple:
            k = v[0]
            if k == "p":
                return (v[1], v[2])
            if k == "t":
                return (("d", v), 0)
            if k == "L":
                # pointer token plus offset
                ts = [t for t, c in v[2] if c == 1]
                if len(v[2]) >= 1 and ts:
                    return (("d", ts[0]), unlin(v[1], tuple(x for x in v[2] if x[0] != ts[0])))
        return None

    def padd(self, base, off):
        if type(base) is int:
            if type(off) is int:
                return (base + off) & MASK[64]
            return ("O", "padd", base, off)
        k = base[0]
        if k == "p":
            if type(off) is int and type(base[2]) is int:
                n = base[2] + off
            else:
                a, b = lin(base[2]), lin(off)
                if a is None or b is None:
                    return ("O", "padd", base, off)
                r = ladd(a, b)
                n = r[0] if not r[1] else ("L",) + r if not (r[0] == 0 and len(r[1]) == 1 and r[1][0][1] == 1) else r[1][0][0]
            if n == 0 and base[1][0] == "d":
                return base[1][1]
            return ("p", base[1], n)
        if k == "t":
            if off == 0:
                return base
            return ("p", ("d", base), off)
        if off == 0:
            return base
        return ("O", "padd", base, off)

    # ------------------------------------------------------------------ tokens
    def live_tokens(self, st):
        out = set()
        for f in st.frames:
            for v in f.regs.values():
                tokens(v, out)
            tokens(f.va, out)
            tokens(f.onret, out)
        for o, m in st.mem.items():
            for off, c in m.cells.items():
                tokens(c[1], out)
                tokens(off, out)
            for fl in m.fills:
                tokens(fl[3], out)
        for v in st.env.values():
            tokens(v, out)
        tokens(st.prop, out)
        return out

    def gc(self, st):
        """drop contents of unreachable unknown objects, and facts about dead tokens"""
        while True:
            live = self.live_tokens(st)
            dead = [o for o in st.mem if o[0] == "d" and o[1] not in live]
            if not dead:
                break
            # objects hanging off dead tokens
            changed = False
            for o in dead:
                root = o[1]
                # a 'D' token derived from a live token may be reloaded: keep it
                if root[1] == "D":
                    continue
                del st.mem[o]
                changed = True
            if not changed:
                break
        st.made = {t for t in st.made if t in live}
        for h in list(st.facts):
            if any(self.fact_dead(t, live) for t, _ in h):
                del st.facts[h]
        return live

    def fact_dead(self, t, live):
        if t in live:
            return False
        s = set()
        tokens(t, s)
        s.discard(t)
        if t[0] == "t" and t[1] in ("D", "U", "K", "any", "mem?", "self"):
            return False
        return not (s & live) if s else True

    def fresh(self, st, site, tag, w=64):
        t = ("t", "v", tag, site, 0)
        if t in st.made:
            self.gc(st)
            n = 0
            while ("t", "v", tag, site, n) in st.made:
                n += 1
                if n > 6:
                    return ("t", "v", tag, site, 7)
            t = ("t", "v", tag, site, n)
        st.made.add(t)
        st.facts.pop(((t, 1),), None)
        st.mem.pop(("d", t), None)
        for h in [h for h in st.facts if any(x == t for x, _ in h)]:
            del st.facts[h]
        return t

    # ------------------------------------------------------------------ arithmetic
    def binop(self, op, a, b, w):
        M = MASK[w] if w <= 128 else -1
        if type(a) is int and type(b) is int:
            if op == "add":
                return (a + b) & M
            if op == "sub":
                return (a - b) & M
            if op == "mul":
                return (a * b) & M
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return (a << b) & M if b < 128 else 0
            if op == "lshr":
                return (a & M) >> b
            if op == "ashr":
                return (sx(a, w) >> b) & M
            if op in ("udiv", "urem"):
                if b == 0:
                    return ("u",)
                return a // b if op == "udiv" else a % b
            if op in ("sdiv", "srem"):
                x, y = sx(a, w), sx(b, w)
                if y == 0:
                    return ("u",)
                q = abs(x) // abs(y)
                q = -q if (x < 0) != (y < 0) else q
                return q & M if op == "sdiv" else (x - q * y) & M
        if op == "add":
            if type(a) is tuple and a[0] == "p" or (type(a) is tuple and a[0] == "t" and type(b) is tuple and b[0] == "p"):
                if type(b) is int:
                    return self.padd(a, sx(b, w))
            la, lb = lin(a, w), lin(b, w)
            if la is not None and lb is not None:
                r = ladd(la, lb)
                if len(r[1]) <= 4:
                    return unlin(r[0], r[1], w)
        elif op == "sub":
            if type(a) is tuple and a[0] == "p":
                if type(b) is tuple and b[0] == "p" and a[1] == b[1]:
                    la, lb = lin(a[2]), lin(b[2])
                    if la and lb:
                        r = ladd(la, lb, -1)
                        return unlin(r[0], r[1], w)
                if type(b) is int:
                    return self.padd(a, -sx(b, w))
            la, lb = lin(a, w), lin(b, w)
            if la is not None and lb is not None:
                r = ladd(la, lb, -1)
                if len(r[1]) <= 4:
                    return unlin(r[0], r[1], w)
        elif op == "mul":
            for x, y in ((a, b), (b, a)):
                if type(y) is int:
                    l = lin(x, w)
                    if l is not None:
                        r = lscale(l, sx(y, w))
                        return unlin(r[0], r[1], w)
        elif op == "shl" and type(b) is int and b < 63:
            return self.binop("mul", a, 1 << b, w)
        elif op in ("and", "or", "xor"):
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                if op == "and" and b == 0:
                    return 0
                if op == "and" and b == M:
                    return a
                if op in ("or", "xor") and b == 0:
                    return a
                if type(a) is tuple and a[0] == "B":
                    if op == "xor" and b in (1, M) and (w == 1 or b == 1):
                        return ("B", NEG[a[1]]) + a[2:]
                    if op == "and" and b == 1:
                        return a
                if op == "and" and type(a) is tuple and a[0] == "O" and a[1] == "and" and type(a[3]) is int:
                    return self.binop("and", a[2], a[3] & b, w)
                if op == "or" and type(a) is tuple and a[0] == "O" and a[1] == "or" and type(a[3]) is int:
                    return ("O", "or", a[2], a[3] | b)
                if op == "xor" and b == M and type(a) is tuple and a[0] == "O" and a[1] == "xor" and a[3] == M:
                    return a[2]
            if a == b:
                return 0 if op == "xor" else a
        v = ("O", op, a, b)
        if depth(v) > 14:
            return ("t", "deep", op, hash(v) & 0xffffff)
        return v

    # ------------------------------------------------------------------ facts
    def rng(self, st, h):
        """interval of homogeneous linear form h"""
        f = st.facts.get(h)
        lo = hi = None
        if f is not None:
            lo, hi = f[0], f[1]
        nh = tuple((t, -k) for t, k in h)
        f = st.facts.get(nh)
        if f is not None:
            if f[1] is not None:
                lo = -f[1] if lo is None else max(lo, -f[1])
            if f[0] is not None:
                hi = -f[0] if hi is None else min(hi, -f[0])
        if len(h) == 1:
            t, k = h[0]
            if k not in (1,):
                l2, h2 = self.rng(st, ((t, 1),))
                if k > 0:
                    c = (l2 * k if l2 is not None else None, h2 * k if h2 is not None else None)
                else:
                    c = (h2 * k if h2 is not None else None, l2 * k if l2 is not None else None)
                lo = c[0] if lo is None else (lo if c[0] is None else max(lo, c[0]))
                hi = c[1] if hi is None else (hi if c[1] is None else min(hi, c[1]))
            elif t[0] == "B":
                lo = 0 if lo is None else max(lo, 0)
                hi = 1 if hi is None else min(hi, 1)
        elif len(h) > 1:
            sl = sh = 0
            for t, k in h:
                l2, h2 = self.rng(st, ((t, k),))
                sl = None if sl is None or l2 is None else sl + l2
                sh = None if sh is None or h2 is None else sh + h2
            if sl is not None:
                lo = sl if lo is None else max(lo, sl)
            if sh is not None:
                hi = sh if hi is None else min(hi, sh)
        return lo, hi

    def upper(self, st, l):
        """best upper bound of linear (c,terms) using recorded facts on related forms, or None"""
        c, h = l
        if not h:
            return c
        best = self.rng(st, h)[1]
        for fh, f in list(st.facts.items()):
            if f[1] is None or len(fh) < 1:
                continue
            if not any(t in dict(h) for t, _ in fh):
                continue
            r = ladd((0, h), (0, fh), -1)
            ub = 0
            if r[1]:
                ub = self.rng(st, r[1])[1]
            if ub is not None:
                v = f[1] + ub
                best = v if best is None else min(best, v)
        return None if best is None else best + c

    def lower(self, st, l):
        c, h = l
        if not h:
            return c
        u = self.upper(st, (-c, tuple((t, -k) for t, k in h)))
        return None if u is None else -u

    @staticmethod
    def canon(h):
        if h and h[0][1] < 0:
            return tuple((t, -k) for t, k in h), -1
        return h, 1

    def diff(self, a, b, w):
        la, lb = lin(a, w), lin(b, w)
        if la is None or lb is None:
            return None
        return ladd(la, lb, -1)

    def ptrcmp(self, st, pred, a, b):
        """comparisons where one side is an address"""
        if a == b:
            return pred in ("eq", "ule", "uge", "sle", "sge")
        ta = a[0] if type(a) is tuple else "i"
        tb = b[0] if type(b) is tuple else "i"
        if pred in ("eq", "ne"):
            res = None
            if ta in ("p", "f", "x") and tb in ("p", "f", "x"):
                if ta != tb:
                    res = False
                elif ta != "p":
                    res = False
                elif a[1] != b[1]:
                    # two unknown objects may be the same
                    if a[1][0] == "d" and b[1][0] == "d":
                        return None
                    if "d" in (a[1][0], b[1][0]):
                        return None
                    res = False
                else:
                    if type(a[2]) is int and type(b[2]) is int:
                        res = a[2] == b[2]
                    else:
                        return None
            elif ta in ("p", "f", "x") and tb == "i" or tb in ("p", "f", "x") and ta == "i":
                c = b if tb == "i" else a
                if ta == "p" and a[1][0] == "d" or tb == "p" and b[1][0] == "d":
                    if c != 0:
                        return None
                res = False
            if res is None:
                t, o = (a, b) if ta == "t" else (b, a)
                if type(t) is tuple and t[0] == "t":
                    f = st.facts.get(((t, 1),))
                    if f is not None and o in f[2]:
                        res = False
                    elif t[1] == "self" or t[1] == "pid":
                        res = False
            if res is None:
                return None
            return res if pred == "eq" else not res
        if ta == "p" and tb == "p" and a[1] == b[1] and type(a[2]) is int and type(b[2]) is int:
            return cmpconst(pred, a[2], b[2], 64)
        return None

    def decide(self, st, pred, a, b, w):
        if type(a) is int and type(b) is int:
            return cmpconst(pred, a, b, w)
        ta = a[0] if type(a) is tuple else "i"
        tb = b[0] if type(b) is tuple else "i"
        if ta in ("p", "f", "x") or tb in ("p", "f", "x"):
            return self.ptrcmp(st, pred, a, b)
        if ta == "O" and tb == "i" and a[1] in ("and", "or", "xor"):
            k1, k0 = knownbits(a, min(w, 64))
            if pred in ("eq", "ne"):
                bb = b & MASK[w]
                if k1 & ~bb or k0 & bb:
                    return pred == "ne"
        if ta == "t" and tb == "t" and a[1] == "self" and b[1] == "self":
            if pred in ("eq", "ne"):
                return (a == b) == (pred == "eq")
        d = self.diff(a, b, w)
        if d is None:
            return None
        c, h = d
        if not h:
            return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[pred.lstrip("us")]
        ch, sg = self.canon(h)
        if pred in ("eq", "ne"):
            lo, hi = self.rng(st, h)
            if (lo is not None and lo + c > 0) or (hi is not None and hi + c < 0):
                return pred == "ne"
            if lo is not None and lo == hi and lo + c == 0:
                return pred == "eq"
            f = st.facts.get(ch)
            if f is not None and (-c * sg) in f[2]:
                return pred == "ne"
            return None
        p = pred[1:]
        if pred[0] == "u":
            # usable when both sides are known non-negative
            la, lb = lin(a, w), lin(b, w)
            l1 = self.lower(st, la)
            l2 = self.lower(st, lb)
            if l1 is None or l2 is None or l1 < 0 or l2 < 0:
                return None
        hi = self.upper(st, d)
        lo = self.lower(st, d)
        if p == "lt":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif p == "le":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif p == "gt":
            if lo is not None and lo > 0:
                return True
            if hi is not None and hi <= 0:
                return False
        elif p == "ge":
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        return None

    def subst(self, st, tok, val):
        def s(v):
            if type(v) is tuple:
                if v == tok:
                    return val
                if v and v[0] == "p" and v[1] == ("d", tok):
                    return self.padd(val, v[2])
                if any(type(y) is tuple for y in v):
                    return tuple(s(y) for y in v)
            return v
        for i, f in enumerate(st.frames):
            if any(tok_in(v, tok) for v in f.regs.values()):
                nf = f.copy()
                nf.regs = {r: s(v) for r, v in f.regs.items()}
                st.frames[i] = nf
        for o, m in list(st.mem.items()):
            if any(tok_in(c[1], tok) for c in m.cells.values()):
                m = self.wobj(st, o)
                for off, c in list(m.cells.items()):
                    m.cells[off] = (c[0], s(c[1]))
        for k, v in list(st.env.items()):
            if tok_in(v, tok):
                st.env[k] = s(v)
        if tok_in(st.prop, tok):
            st.prop = s(st.prop)

    def refine(self, st, pred, a, b, w):
        """assume pred(a,b); returns False if contradictory"""
        if type(a) is int and type(b) is int:
            return cmpconst(pred, a, b, w)
        ta = a[0] if type(a) is tuple else "i"
        tb = b[0] if type(b) is tuple else "i"
        if ta in ("p", "f", "x", "u", "ss", "agg") or tb in ("p", "f", "x", "u", "ss", "agg"):
            if ta == "t" or tb == "t":
                t, o = (a, b) if ta == "t" else (b, a)
                if type(o) is tuple and o[0] in ("p", "f", "x"):
                    if pred == "eq":
                        self.subst(st, t, o)
                    elif pred == "ne":
                        h = ((t, 1),)
                        f = st.facts.get(h, (None, None, frozenset()))
                        st.facts[h] = (f[0], f[1], f[2] | {o})
            return True
        if ta == "B" and tb == "i" and b in (0, 1) and pred in ("eq", "ne"):
            want = (b == 1) == (pred == "eq")
            p2 = a[1] if want else NEG[a[1]]
            return self.refine(st, p2, a[2], a[3], a[4])
        d = self.diff(a, b, w)
        if d is None:
            return True
        c, h = d
        if not h:
            return {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[pred.lstrip("us")]
        ch, sg = self.canon(h)
        lo, hi, neq = st.facts.get(ch, (None, None, frozenset()))
        p = pred
        if pred[0] == "u" and pred not in ("eq", "ne"):
            la, lb = lin(a, w), lin(b, w)
            l1, l2 = self.lower(st, la), self.lower(st, lb)
            if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                pass
            elif pred in ("ult", "ule") and l2 is not None and l2 >= 0:
                if not self.refine(st, "sge", a, 0, w):
                    return False
                lo, hi, neq = st.facts.get(ch, (None, None, frozenset()))
            elif pred in ("ugt", "uge") and l1 is not None and l1 >= 0:
                if not self.refine(st, "sge", b, 0, w):
                    return False
                lo, hi, neq = st.facts.get(ch, (None, None, frozenset()))
            else:
                return True
        q = p.lstrip("us") if p not in ("eq", "ne") else p
        # sg*ch + c  q  0   ->  bounds on ch
        if q == "eq":
            v = -c * sg
            if (lo is not None and v < lo) or (hi is not None and v > hi) or v in neq:
                return False
            l2, h2 = self.rng(st, ch)
            if (l2 is not None and v < l2) or (h2 is not None and v > h2):
                return False
            lo = hi = v
        elif q == "ne":
            v = -c * sg
            if lo is not None and lo == hi == v:
                return False
            if lo is not None and v == lo:
                lo = lo + 1
            elif hi is not None and v == hi:
                hi = hi - 1
            else:
                neq = neq | {v}
        else:
            # h >= k or h <= k in terms of ch
            if q == "lt":
                side, k = "hi", -c - 1
            elif q == "le":
                side, k = "hi", -c
            elif q == "gt":
                side, k = "lo", -c + 1
            else:
                side, k = "lo", -c
            if sg < 0:
                side, k = ("lo" if side == "hi" else "hi"), -k
            if side == "hi":
                hi = k if hi is None else min(hi, k)
                while hi in neq:
                    hi -= 1
            else:
                lo = k if lo is None else max(lo, k)
                while lo in neq:
                    lo += 1
        if lo is not None and hi is not None and lo > hi:
            return False
        st.facts[ch] = (lo, hi, neq)
        if len(ch) == 1 and lo is not None and lo == hi and ch[0][1] == 1:
            t = ch[0][0]
            if t[0] == "t":
                self.subst(st, t, lo & MASK[w if w in (1, 8, 16, 32, 64) else 64])
        return True

    # ------------------------------------------------------------------ events / reports
    def emit(self, st, kind, name, args=(), ret=None, ins=None):
        ev = Ev()
        ev.kind, ev.name, ev.args, ev.ret, ev.ins, ev.st, ev.eng = kind, name, tuple(args), ret, ins, st, self
        self.stats["events"] += 1
        k = kind + ":" + (name if type(name) is str else fmt(name))
        self.evcount[k] = self.evcount.get(k, 0) + 1
        if kind != "acc":
            st.trace = (st.trace, (k, tuple(fmt(a) for a in args), self.where(st, ins)))
        try:
            np = self.rule.on(st, ev)
        except Violation as e:
            e.st = st
            raise
        if np is not None:
            st.prop = np
        return ev

    def where(self, st, ins=None):
        """innermost library location on the stack"""
        for f in reversed(st.frames):
            I = None
            bl = f.fn.blocks[f.blk].ins
            if f.idx < len(bl):
                I = bl[f.idx]
            if I is not None and I.loc:
                return "%s:%d(%s)" % (I.loc[0], I.loc[1], f.fn.name)
        return "?"

    def libwhere(self, st):
        for f in reversed(st.frames):
            if f.fn.tu.startswith("drv_"):
                continue
            bl = f.fn.blocks[f.blk].ins
            if f.idx < len(bl) and bl[f.idx].loc:
                I = bl[f.idx]
                return "%s:%d(%s)" % (I.loc[0], I.loc[1], f.fn.name)
        return self.where(st)

    def report(self, st, msg):
        self.report_at((st.trace, None, [f.fn.name for f in st.frames], st.prop), msg, self.libwhere(st))

    def report_at(self, info, msg, w):
        key = (msg, w)
        if key not in self.violations:
            tr = []
            t = info[0]
            while t is not None and len(tr) < 80:
                tr.append("%s%s @ %s" % (t[1][0], list(t[1][1]), t[1][2]))
                t = t[0]
            tr.reverse()
            self.violations[key] = {"rule": msg, "where": w, "path": tr, "stack": info[2],
                                    "prop": repr(info[3])[:400]}

    # ------------------------------------------------------------------ exploration
    def finish(self, st, how):
        """this path ends here (process ended, driver ended it, ...)"""
        self.ends.add(st.node)
        self.endcount[how] = self.endcount.get(how, 0) + 1
        if how not in ("cut", "unreachable"):
            self.rule.end(st, how)

    def explore(self, st):
        self.work.append(st)
        while self.work:
            s = self.work.pop()
            try:
                self.run(s)
            except Violation as e:
                s = getattr(e, "st", s)
                self.ends.add(s.node)
                self.report(s, str(e))
            except Stop:
                self.ends.add(s.node)
            self.stats["paths"] += 1
        if self.rule.check_hang:
            self.hangs()

    def hangs(self):
        """program points from which no continuation ends: endless waiting"""
        back = {}
        for a, b in self.edges:
            back.setdefault(b, []).append(a)
        ok = set(self.ends)
        todo = list(ok)
        while todo:
            x = todo.pop()
            for y in back.get(x, ()):
                if y not in ok:
                    ok.add(y)
                    todo.append(y)
        bad = [i for i in range(1, len(self.nodeinfo)) if i not in ok]
        badset = set(bad)
        # report where the hang is entered
        entered = set()
        for a, b in self.edges:
            if b in badset and a not in badset:
                entered.add(b)
        self.stats["hang_states"] = len(bad)
        for i in sorted(entered)[:3]:
            st = self.nodeinfo[i]
            self.report_at(st, self.rule.hang_msg, st[1])

    def spawn(self, st):
        self.work.append(st)

    def visit(self, st):
        """True if this abstract state is new at its program point"""
        k = st.key()
        k = HK(k)
        n = self.visited.get(k)
        if n is not None:
            self.stats["merged"] += 1
            self.edges.append((st.node, n))
            if st.env.get("pre") == 5 or st.env.get("parked") or st.env.get("pre") == 2 and st.env.get("precur") != st.env["cur"]:
                # another thread, interrupted, holds what this one waits for
                self.ends.add(n)
            return False
        n = len(self.nodeinfo)
        self.visited[k] = n
        self.nodeinfo.append((st.trace, self.libwhere(st), [f.fn.name for f in st.frames], st.prop))
        self.edges.append((st.node, n))
        st.node = n
        self.stats["states"] += 1
        return True

    def at_merge(self, st):
        """returns the state to continue with or None"""
        if self.opts.get("linear"):         # one long concrete history: nothing to merge
            return st
        if not self.visit(st):
            return None
        pk = (st.pos(), st.part, st.prop)
        n = self.counts.get(pk, 0) + 1
        self.counts[pk] = n
        if n > self.cap:
            old = self.joined.get(pk)
            if old is None:
                self.joined[pk] = st.copy()
                return st
            j, changed = self.join(old, st)
            self.stats["joins"] += 1
            self.edges.append((st.node, old.node))
            if not changed:
                return None
            j.node = st.node
            self.joined[pk] = j.copy()
            return j
        return st

    def join(self, a, b):
        """least informative common state of a and b (same position/prop); a is the accumulator"""
        changed = False
        r = a.copy()
        r.trace = b.trace
        pos = hash(a.pos()) & 0xffffff

        def jv(x, y, tag):
            nonlocal changed
            if x == y:
                return x
            t = ("t", "J", pos, tag)
            if x == t:
                # already general: widen facts
                lo, hi, _ = r.facts.get(((t, 1),), (None, None, frozenset()))
                if type(y) is int:
                    yy = sx(y, 64) if y >> 63 else y
                    nl = None if lo is None or yy < lo else lo
                    nh = None if hi is None or yy > hi else hi
                else:
                    yl, yh = (None, None)
                    ly = lin(y)
                    if ly is not None:
                        yl, yh = self.lower(b, ly), self.upper(b, ly)
                    nl = lo if lo is not None and yl is not None and yl >= lo else None
                    nh = hi if hi is not None and yh is not None and yh <= hi else None
                if (nl, nh) != (lo, hi):
                    changed = True
                    r.facts[((t, 1),)] = (nl, nh, frozenset())
                return t
            changed = True
            lo = hi = None
            if type(x) is int and type(y) is int:
                lo, hi = min(x, y), max(x, y)
            else:
                lx, ly = lin(x), lin(y)
                if lx is not None and ly is not None:
                    l1, l2 = self.lower(a, lx), self.lower(b, ly)
                    h1, h2 = self.upper(a, lx), self.upper(b, ly)
                    lo = min(l1, l2) if l1 is not None and l2 is not None else None
                    hi = max(h1, h2) if h1 is not None and h2 is not None else None
            r.facts[((t, 1),)] = (lo, hi, frozenset())
            return t

        for i, (fa, fb) in enumerate(zip(a.frames, b.frames)):
            nf = fa.copy()
            for rg in list(nf.regs):
                if rg in fb.regs:
                    nf.regs[rg] = jv(fa.regs[rg], fb.regs[rg], ("r", i, rg))
                else:
                    del nf.regs[rg]
                    changed = True
            r.frames[i] = nf
        for o in set(a.mem) | set(b.mem):
            ma, mb = a.mem.get(o), b.mem.get(o)
            if ma == mb:
                continue
            offs = {}
            for m in (ma, mb):
                if m is not None:
                    for off, c in m.cells.items():
                        offs.setdefault(off, c[0])
            fa_ = ma.fills if ma else ()
            fb_ = mb.fills if mb else ()
            for off, size in offs.items():
                x = self.load(a, o, off, size, ("join",))
                y = self.load(b, o, off, size, ("join",))
                v = jv(x, y, ("m", o, off))
                self.store(r, o, off, size, v)
            if fa_ != fb_:
                m = self.wobj(r, o)
                if m.fills != fa_ or fb_ != fa_:
                    if fa_ and fa_[0][2] == "k" and fa_[0][3] == ("join", o):
                        pass
                    else:
                        changed = True
                        hi = max([f[1] for f in fa_ + fb_])
                        m.fills = ((0, hi, "k", ("join", o)),)
        for h in list(r.facts):
            if any(t[0] == "t" and t[1] == "J" for t, _ in h):
                continue
            fb = b.facts.get(h)
            fa = r.facts[h]
            if fb is None:
                del r.facts[h]
                changed = True
            elif fb != fa:
                lo = fa[0] if fa[0] is not None and fb[0] is not None and fb[0] >= fa[0] else None
                hi = fa[1] if fa[1] is not None and fb[1] is not None and fb[1] <= fa[1] else None
                n = (lo, hi, fa[2] & fb[2])
                if n != fa:
                    r.facts[h] = n
                    changed = True
        for k in set(a.env) | set(b.env):
            if a.env.get(k) != b.env.get(k):
                # environments are kept exact: partition on them instead
                r.env = dict(b.env)
                changed = True
                break
        return r, changed

    def enter_block(self, st, tgt):
        fr = st.frames[-1]
        B = fr.fn.blocks[tgt]
        frm = fr.blk
        regs = fr.regs
        newv = None
        if B.phis:
            newv = []
            for I in B.phis:
                for pb, v in I.a:
                    if pb == frm:
                        newv.append((I.dst, self.val(st, fr, v)))
                        break
        li = B.livein
        if len(regs) > len(li):
            fr.regs = {r: v for r, v in regs.items() if r in li}
        if newv:
            for d, v in newv:
                fr.regs[d] = v
        fr.prev = frm
        fr.blk = tgt
        fr.idx = len(B.phis)
        fr._k = None

    def val(self, st, fr, o):
        if type(o) is int:
            return o
        k = o[0]
        if k == "r":
            return fr.regs.get(o[1], ("u",))
        if k == "ce":
            return self.ceval(o)
        if k == "agg0":
            return 0
        if k == "p" and self.symaddr is not None and o[1][0] == "g":
            a = self.symaddr.get(o[1][1])
            if a is not None:
                return a + o[2]
        return o

    def truth(self, st, v, w=1):
        if type(v) is int:
            return bool(v & MASK[w] if w else v)
        if type(v) is tuple and v[0] == "B":
            return self.decide(st, v[1], v[2], v[3], v[4])
        if type(v) is tuple and v[0] in ("p", "f", "x"):
            return True
        return self.decide(st, "ne", v, 0, 64)

    def assume(self, st, v, want):
        if type(v) is int:
            return bool(v) == want
        if type(v) is tuple and v[0] == "B":
            p = v[1] if want else NEG[v[1]]
            # A fact may hold on `==` of unrelated unknowns: nothing to record then
            return self.refine(st, p, v[2], v[3], v[4])
        if type(v) is tuple and v[0] == "O" and v[1] in ("and", "or") and all(
                type(x) is tuple and x[0] == "B" for x in v[2:4]):
            if v[1] == "and" and want or v[1] == "or" and not want:
                return self.assume(st, v[2], want) and self.assume(st, v[3], want)
            return True
        return self.refine(st, "ne" if want else "eq", v, 0, 64)

    def run(self, st):
        """propagate one state until it ends, merges with a known state, or forks"""
        stats = self.stats
        while True:
            if not st.frames:
                self.finish(st, "return")
                return
            fr = st.frames[-1]
            B = fr.fn.blocks[fr.blk].ins
            I = B[fr.idx]
            stats["steps"] += 1
            if stats["steps"] > self.maxsteps or (stats["steps"] & 1023) == 0 and time.time() > self.deadline:
                raise AnalysisLimit("step budget exceeded at %s" % self.where(st))
            op = I.op
            if self.pre is not None and op in PREOPS and st.env.get("pre") == 1 and not fr.fn.tu.startswith("drv_"):
                self.preempt(st, fr, I)
            elif self.yielding and op in YIELDOPS and st.env.get("pre") == 2 and not fr.fn.tu.startswith("drv_"):
                self.deschedule(st, fr, I)
            if op == "br":
                if len(I.x) == 1:
                    tgt = I.x[0]
                else:
                    c = self.val(st, fr, I.a[0])
                    t = self.truth(st, c)
                    if t is None:
                        o = st.copy()
                        ok1 = self.assume(o, c, False)
                        if ok1:
                            self.enter_block(o, I.x[1])
                            if o.frames[-1].fn.blocks[I.x[1]].merge:
                                o = self.at_merge(o)
                            if o is not None:
                                self.spawn(o)
                        if not self.assume(st, c, True):
                            return
                        tgt = I.x[0]
                    else:
                        tgt = I.x[0] if t else I.x[1]
                self.enter_block(st, tgt)
                if fr.fn.blocks[tgt].merge:
                    st2 = self.at_merge(st)
                    if st2 is None:
                        return
                    st = st2
                continue
            if op == "call":
                r = self.call(st, fr, I)
                if r is None:
                    return
                st = r
                continue
            if op == "ret":
                v = self.val(st, fr, I.a[0]) if I.a else None
                st = self.do_ret(st, v)
                if st is None:
                    return
                continue
            if op == "switch":
                v = self.val(st, fr, I.a[0])
                if type(v) is int:
                    tgt = I.x[0]
                    for c, b in I.x[1]:
                        if c == v:
                            tgt = b
                            break
                    self.enter_block(st, tgt)
                else:
                    for c, b in I.x[1]:
                        o = st.copy()
                        if self.refine(o, "eq", v, c, I.w):
                            self.enter_block(o, b)
                            self.spawn(o)
                    for c, b in I.x[1]:
                        if not self.refine(st, "ne", v, c, I.w):
                            return
                    self.enter_block(st, I.x[0])
                continue
            if op == "unreachable":
                self.finish(st, "unreachable")
                return
            r = self.simple(st, fr, I, op)
            if r is None:
                return
            if r is not True:
                st = r
                continue
            fr.idx += 1

    def shared(self, st, fr, I):
        op = I.op
        if op == "call":
            t = self.val(st, fr, I.x[0])
            if type(t) is tuple and t[0] == "f" and t[1] not in CALLBACKS:
                return False
            return not (type(t) is tuple and t[0] == "x" and t[1].startswith("llvm."))
        p = self.val(st, fr, I.a[1] if op == "store" else I.a[0])
        return not (type(p) is tuple and p[0] == "p" and p[1][0] == "a")

    def deschedule(self, st, fr, I):
        """the interleaved thread is paused here for good; the interrupted one goes on"""
        if not self.shared(st, fr, I) or st.env["cur"] == st.env.get("precur"):
            return
        i = len(st.frames) - 1
        while i >= 0 and not (st.frames[i].onret and st.frames[i].onret[0] == "resume"):
            i -= 1
        if i < 0:
            return
        o = st.copy()
        o.env["cur"] = o.frames[i].onret[1]
        o.env["pre"] = 5
        o.frames = o.frames[:i]
        o.frames[-1] = o.frames[-1].copy()
        self.relocate(o, i + 1)
        o = self.at_merge(o)
        if o is not None:
            self.stats["pauses"] = self.stats.get("pauses", 0) + 1
            self.spawn(o)

    def relocate(self, st, d):
        """move the stack objects of a paused thread out of the way of later frames"""
        def fix(v):
            if type(v) is tuple:
                if len(v) > 2 and v[0] == "a" and type(v[1]) is int and d <= v[1] < 1000:
                    return ("a", v[1] + 1000) + tuple(fix(x) for x in v[2:])
                return tuple([fix(x) for x in v])
            return v
        objs = [o for o in st.mem if o[0] == "a" and d <= o[1] < 1000]
        if not objs:
            return
        for o, m in list(st.mem.items()):
            hit = o in objs or any(type(c[1]) is tuple and fix(c[1]) != c[1] for c in m.cells.values())
            if hit:
                del st.mem[o]
                st.own.discard(o)
                n = fix(o)
                st.mem[n] = ObjMem({k: (c[0], fix(c[1])) for k, c in m.cells.items()}, tuple(fix(f) for f in m.fills))
        for k, v in list(st.env.items()):
            st.env[k] = fix(v)

    def preempt(self, st, fr, I):
        """another activity (signal handler, other thread) may run between any two shared accesses"""
        op = I.op
        if op == "call":
            t = self.val(st, fr, I.x[0])
            if type(t) is tuple and t[0] == "f" and t[1] not in CALLBACKS:
                return
            if type(t) is tuple and t[0] == "x" and t[1].startswith("llvm."):
                return
        else:
            p = self.val(st, fr, I.a[1] if op == "store" else I.a[0])
            if type(p) is tuple and p[0] == "p" and p[1][0] == "a":
                return
        o = st.copy()
        o.env["pre"] = 2
        o.env["precur"] = o.env["cur"]
        o.frames[-1]._k = None
        self.stats["preemptions"] = self.stats.get("preemptions", 0) + 1
        self.push(o, self.pre, [], ("resume", o.env["cur"]))
        self.spawn(o)

    def simple(self, st, fr, I, op):
        val = self.val
        a = I.a
        regs = fr.regs
        if op == "load":
            p = val(st, fr, a[0])
            l = self.deref(st, p, I)
            if l is None:
                regs[I.dst] = self.fresh(st, I.site, "ld")
                return True
            if self.access_hook is not None:
                self.access_hook(self, st, l[0], l[1], I.x[0], "r", I)
            if self.vol_hook is not None and I.x[1]:
                alts = self.vol_hook(self, st, l[0], l[1], I.x[0], I)
                if alts is not None:
                    for v in alts[1:]:
                        o = st.copy()
                        o.frames[-1].regs[I.dst] = v
                        o.frames[-1].idx += 1
                        self.spawn(o)
                    regs[I.dst] = alts[0]
                    return True
            regs[I.dst] = self.load(st, l[0], l[1], I.x[0], I.site)
            return True
        if op == "store":
            v = val(st, fr, a[0])
            p = val(st, fr, a[1])
            l = self.deref(st, p, I)
            if l is None:
                return True
            if self.access_hook is not None:
                self.access_hook(self, st, l[0], l[1], I.x[0], "w", I)
            if self.store_hook is not None:
                self.store_hook(self, st, l[0], l[1], I.x[0], v, I)
            self.escape(st, v, l[0])
            if v == ("u",):
                v = self.fresh(st, I.site, "undef")
            self.store(st, l[0], l[1], I.x[0], v)
            return True
        if op == "gep":
            b = val(st, fr, a[0])
            off = I.x[0]
            for sc, o in I.x[1]:
                v = val(st, fr, o)
                if type(v) is int:
                    off = self.binop("add", off, sx(v, 64) * sc, 64) if type(off) is not int else off + sx(v, 64) * sc
                else:
                    l = lin(v)
                    if l is None:
                        regs[I.dst] = ("O", "padd", b, v)
                        return True
                    r = ladd(lin(off & MASK[64]) if type(off) is int else lin(off), lscale(l, sc))
                    off = unlin(r[0], r[1]) if r[1] else r[0]
            regs[I.dst] = self.padd(b, off)
            return True
        if op == "icmp":
            x, y = val(st, fr, a[0]), val(st, fr, a[1])
            regs[I.dst] = self.icmp(st, I.x, x, y, I.w)
            return True
        if op in ("zext", "sext", "trunc"):
            v = val(st, fr, a[0])
            if type(v) is int:
                if op == "sext":
                    v = sx(v, I.x) & MASK[I.w]
                else:
                    v &= MASK[min(I.w, I.x)]
            regs[I.dst] = v
            return True
        if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "freeze"):
            regs[I.dst] = val(st, fr, a[0])
            return True
        if op == "alloca":
            n = val(st, fr, a[0])
            size = I.x * n if type(n) is int else None
            obj = ("a", len(st.frames), I.site, size)
            if obj in st.mem:
                del st.mem[obj]
            regs[I.dst] = ("p", obj, 0)
            return True
        if op == "select":
            c = val(st, fr, a[0])
            t = self.truth(st, c)
            if t is None:
                o = st.copy()
                if self.assume(o, c, False):
                    o.frames[-1].regs[I.dst] = val(o, o.frames[-1], a[2])
                    o.frames[-1].idx += 1
                    self.spawn(o)
                if not self.assume(st, c, True):
                    return None
                t = True
                fr = st.frames[-1]
            st.frames[-1].regs[I.dst] = val(st, st.frames[-1], a[1] if t else a[2])
            return True
        if op == "extractvalue":
            v = val(st, fr, a[0])
            if type(v) is tuple and v[0] == "agg":
                for ix in I.x:
                    v = v[1 + ix]
                regs[I.dst] = v
            else:
                regs[I.dst] = self.fresh(st, I.site, "ev")
            return True
        if op == "cmpxchg":
            return self.cmpxchg(st, fr, I, val(st, fr, a[0]), val(st, fr, a[1]), val(st, fr, a[2]), I.x, I.w, agg=True)
        if op == "atomicrmw":
            p = val(st, fr, a[0])
            v = val(st, fr, a[1])
            l = self.deref(st, p, I)
            if l is None:
                regs[I.dst] = self.fresh(st, I.site, "rmw")
                return True
            old = self.load(st, l[0], l[1], I.x[1], I.site)
            k = I.x[0]
            if k == "xchg":
                new = v
            elif k in ("add", "sub", "and", "or", "xor"):
                new = self.binop(k, old, v, I.w)
            else:
                new = self.fresh(st, I.site, "rmw")
            self.emit(st, "atomic", "rmw", (("p", l[0], l[1]), old, new), old, I)
            self.store(st, l[0], l[1], I.x[1], new)
            regs[I.dst] = old
            return True
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            regs[I.dst] = self.binop(op, val(st, fr, a[0]), val(st, fr, a[1]), I.w)
            return True
        if op == "fence":
            return True
        if I.dst is not None:
            regs[I.dst] = self.fresh(st, I.site, op)
        return True

    def icmp(self, st, pred, x, y, w):
        if type(x) is int and type(y) is not int:
            x, y, pred = y, x, SWAP[pred]
        r = self.decide(st, pred, x, y, w)
        if r is not None:
            return 1 if r else 0
        if type(x) is tuple and x[0] == "B" and type(y) is int and pred in ("eq", "ne"):
            if y == 0:
                return x if pred == "ne" else ("B", NEG[x[1]]) + x[2:]
            if y == 1:
                return x if pred == "eq" else ("B", NEG[x[1]]) + x[2:]
            return 0 if pred == "eq" else 1
        if x == ("u",) or y == ("u",):
            return ("B", pred, x, y, w)
        return ("B", pred, x, y, w)

    def cmpxchg(self, st, fr, I, p, exp, new, size, w, agg):
        l = self.deref(st, p, I)
        if l is None:
            fr.regs[I.dst] = ("agg", self.fresh(st, I.site, "cas"), self.fresh(st, I.site, "casok"))
            return True
        alts = None
        if self.vol_hook is not None:
            alts = self.vol_hook(self, st, l[0], l[1], size, I)
        if alts is None:
            alts = [self.load(st, l[0], l[1], size, I.site)]
        outs = []
        for old in alts:
            d = self.decide(st, "eq", old, exp, w)
            for succ in ((True, False) if d is None else (d,)):
                s = st.copy()
                if not self.refine(s, "eq" if succ else "ne", old, exp, w):
                    continue
                f = s.frames[-1]
                self.emit(s, "atomic", "cas", (("p", l[0], l[1]), exp, new), 1 if succ else 0, I)
                if succ:
                    self.store(s, l[0], l[1], size, new)
                ov = exp if succ and type(exp) is int else old
                f.regs[I.dst] = ("agg", ov, 1 if succ else 0) if agg else ov
                f.idx += 1
                outs.append(s)
        if not outs:
            return None
        for s in outs[1:]:
            self.spawn(s)
        return outs[0]

    def escape(self, st, v, into=None):
        if type(v) is tuple and v and v[0] == "p" and v[1][0] == "a":
            d = v[1][1]
            if d <= len(st.frames):
                f = st.frames[d - 1]
                if not f.esc:
                    if d - 1 < len(st.frames) - 1:
                        f = f.copy()
                        st.frames[d - 1] = f
                    f.esc = True

    def deref(self, st, p, I):
        if type(p) is int:
            if p < 65536 or p > MASK[64] - 65536:
                self.crash(st, "null pointer dereference", I)
            return None
        if p == ("u",):
            return None
        if p[0] == "dangling":
            self.emit(st, "dangling", "deref", (p,), None, I)
            return (("d", ("t", "dangling", p[1])), 0)
        if p[0] == "t" or p[0] == "p" and p[1][0] == "d":
            t = p if p[0] == "t" else p[1][1]
            f = st.facts.get(((t, 1),))
            if f is None or 0 not in f[2]:
                if f is not None and f[0] is not None and f[0] > 0:
                    pass
                else:
                    lo, hi, nq = f if f is not None else (None, None, frozenset())
                    if t[1] not in ("self",):
                        st.facts[((t, 1),)] = (lo, hi, nq | {0})
        return self.loc(st, p)

    def crash(self, st, msg, I=None):
        self.emit(st, "crash", msg, (), None, I)
        if self.rule.check_crash:
            e = Violation(msg + " in library code")
            e.st = st
            raise e
        raise Stop()

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, I):
        tgt = self.val(st, fr, I.x[0])
        args = [self.val(st, fr, o) for o in I.a]
        return self.docall(st, fr, I, tgt, args)

    def freeze(self, st, fr, I):
        """prune the caller's registers to those live after the call"""
        la = self.liveafter.get(I.site)
        if la is None:
            la = self.liveafter[I.site] = live_after(fr.fn, I)
        if len(fr.regs) > len(la):
            fr.regs = {r: v for r, v in fr.regs.items() if r in la}
        fr._k = None

    def docall(self, st, fr, I, tgt, args):
        k = tgt[0] if type(tgt) is tuple else "i"
        if k == "f":
            key = tgt[1]
            F = self.p.fns.get(key)
            if key in CALLBACKS:
                ret = None
                if I.w:
                    ret = self.cbret(st, key, args, I)
                self.emit(st, "cb", key, args, ret, I)
                if F is not None and F.tu.startswith("drv_"):
                    self.freeze(st, fr, I)
                    self.push(st, F, args, None)
                    return st
                return self.ret_to(st, I, ret)
            if self.opts.get("fncall_events") and not F.tu.startswith("drv_"):
                self.emit(st, "fn", key, args, None, I)
            self.freeze(st, fr, I)
            self.push(st, F, args, None)
            return st
        if k == "x":
            name = tgt[1]
            if name in CALLBACKS:
                ret = self.cbret(st, name, args, I) if I.w else None
                self.emit(st, "cb", name, args, ret, I)
                return self.ret_to(st, I, ret)
            D = self.p.fns.get("vf_real_" + name)
            if D is not None:
                self.emit(st, "x", name, args, None, I)
                self.freeze(st, fr, I)
                self.push(st, D, args, None)
                return st
            m = self.models.get(name)
            if m is None:
                import models
                m = models.unknown(name)
            self.xname = name
            outs = m(self, st, I, args)
            return self.outcomes(outs, I)
        if k == "asm":
            s = tgt[1]
            if "cmpxchg" in s:
                # xchg-style compare and swap written as inline assembly (=a prev, r ptr, a old, r new)
                size = 8 if "cmpxchgq" in s or I.w == 64 else 4
                r = self.cmpxchg(st, fr, I, args[0], args[1], args[2], size, 8 * size, agg=False)
                if r is True:
                    fr.idx += 1
                    return st
                return r
            self.emit(st, "asm", s, args, None, I)
            return self.ret_to(st, I, self.fresh(st, I.site, "asm") if I.dst is not None else None)
        if k in ("t", "p", "O", "L"):
            ret = self.fresh(st, I.site, "app") if I.w else None
            self.emit(st, "app", tgt, args, ret, I)
            outs = self.rule.appcall(self, st, I, tgt, args, ret) if hasattr(self.rule, "appcall") else None
            if outs is not None:
                return self.outcomes(outs, I)
            return self.ret_to(st, I, ret)
        if k == "i":
            self.crash(st, "call through a null function pointer", I)
        if k == "u":
            self.crash(st, "call through an uninitialised function pointer", I)
        if k == "dangling":
            self.crash(st, "call through a dangling pointer", I)
        raise AnalysisLimit("cannot resolve call target %r at %s" % (tgt, self.where(st)))

    def cbret(self, st, name, args, I):
        return self.fresh(st, ("cb", name), "cbret")

    def outcomes(self, outs, I):
        first = None
        for s, v in outs:
            if s is None:
                continue
            if v is PUSH:
                r = s
            else:
                r = self.ret_to(s, I, v)
            if r is None:
                continue
            if first is None:
                first = r
            else:
                self.spawn(r)
        return first

    def ret_to(self, st, I, v):
        fr = st.frames[-1]
        if I.dst is not None:
            if type(v) is int and I.w:
                v &= MASK[I.w]
            fr.regs[I.dst] = v if v is not None else ("u",)
        fr.idx += 1
        return st

    def pop(self, st):
        fr = st.frames.pop()
        d = len(st.frames) + 1
        dead = [o for o in st.mem if o[0] == "a" and o[1] >= d]
        for o in dead:
            del st.mem[o]
            st.own.discard(o)
        if fr.esc:
            self.dangle(st, d)
        return fr

    def dangle(self, st, d):
        def fix(v):
            if type(v) is tuple and v and v[0] == "p" and v[1][0] == "a" and v[1][1] >= d:
                return ("dangling", v[1][2][0])
            return v
        for o, m in list(st.mem.items()):
            hit = False
            for c in m.cells.values():
                v = c[1]
                if type(v) is tuple and v and v[0] == "p" and v[1][0] == "a" and v[1][1] >= d:
                    hit = True
                    break
            if hit:
                m = self.wobj(st, o)
                for off, c in list(m.cells.items()):
                    m.cells[off] = (c[0], fix(c[1]))

    def do_ret(self, st, v):
        fr = self.pop(st)
        if v is not None and type(v) is tuple and v[0] == "p" and v[1][0] == "a" and v[1][1] > len(st.frames):
            v = ("dangling", v[1][2][0])
        if self.opts.get("fncall_events"):
            self.emit(st, "fnret", fr.fn.key, (), v, None) if st.frames else None
        if fr.onret is not None:
            import models
            outs = models.CONT[fr.onret[0]](self, st, fr, v)
            if outs is None:
                return None
            if type(outs) is State:
                return outs
            I = st.frames[-1].fn.blocks[st.frames[-1].blk].ins[st.frames[-1].idx] if st.frames else None
            return self.outcomes(outs, I)
        if not st.frames:
            st.env["retval"] = v
            return st
        c = st.frames[-1].copy()
        st.frames[-1] = c
        I = c.fn.blocks[c.blk].ins[c.idx]
        if I.dst is not None:
            if type(v) is int and I.w:
                v &= MASK[I.w]
            c.regs[I.dst] = v if v is not None else ("u",)
        c.idx += 1
        return self.at_merge(st)


def tok_in(v, tok):
    if type(v) is tuple:
        if v == tok:
            return True
        for y in v:
            if (type(y) is tuple or type(y) is frozenset) and tok_in(y, tok):
                return True
    elif type(v) is frozenset:
        for y in v:
            if tok_in(y, tok):
                return True
    return False


def live_after(F, I):
    B = F.blocks[I.blk]
    out = set()
    for s in B.succs:
        out |= F.blocks[s].livein
        for ph in F.blocks[s].phis:
            for pb, v in ph.a:
                if pb == B.n and type(v) is tuple and v[0] == "r":
                    out.add(v[1])

    def regs(o):
        if type(o) is tuple and o:
            if o[0] == "r":
                out.add(o[1])
            elif o[0] == "ce":
                for y in o[2:]:
                    regs(y)
    for J in reversed(B.ins[I.idx + 1:]):
        if J.dst is not None:
            out.discard(J.dst)
        if J.op != "phi":
            for o in J.a:
                regs(o)
            if J.op == "call":
                regs(J.x[0])
            if J.op == "gep":
                for _, o in J.x[1]:
                    regs(o)
    return frozenset(out)
