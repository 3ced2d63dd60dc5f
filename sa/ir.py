"""Build /repo's translation units to LLVM IR (no execution) and load them as one linked program.

configure is run in a scratch directory to obtain config.h and the list of translation units and
flags of the real build; each unit is compiled with clang to IR (-O0, mem2reg)."""
import os, re, subprocess, shutil, tempfile, sys
from concurrent.futures import ThreadPoolExecutor
import llvm as V

CLANG = "/usr/lib/llvm-18/bin/clang"
OPT = "/usr/lib/llvm-18/bin/opt"
REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
MASK = [(1 << i) - 1 for i in range(0, 129)]


class BuildError(Exception):
    pass


class Ins:
    __slots__ = ("op", "dst", "a", "x", "w", "loc", "fn", "blk", "idx", "site")

    def __repr__(self):
        return "%s=%s %s %s" % (self.dst, self.op, self.a, self.x)


class Block:
    __slots__ = ("name", "ins", "succs", "preds", "n", "livein", "merge", "phis")


class Fn:
    __slots__ = ("name", "key", "tu", "params", "blocks", "vararg", "weak", "internal", "file", "line", "rettype", "nreg")


class Glob:
    __slots__ = ("key", "size", "init", "tu", "weak", "decl", "const", "struct", "name")


def run(cmd, cwd=None, env=None):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


class Config:
    """One configured build directory."""

    def __init__(self, scratch, args=()):
        self.dir = scratch
        os.makedirs(scratch, exist_ok=True)
        env = dict(os.environ)
        for k in ("VERIF_SEED", "VERIF_TIER"):
            env.pop(k, None)
        rc, out = run(["/bin/bash", REPO + "/configure"] + list(args), cwd=scratch, env=env)
        if rc != 0:
            raise BuildError("configure failed: " + out[-2000:])
        rc, out = run(["make", "-n", "-B", "-C", "src", "AUTOCONF=:", "AUTOMAKE=:", "ACLOCAL=:", "AUTOHEADER=:"],
                      cwd=scratch, env=env)
        self.units = {"dynamic": [], "static": []}
        seen = set()
        for line in out.replace("\\\n", " ").split("\n"):
            m = re.search(r"`test -f '([^']+)' \|\| echo '([^']*)'`(\S+)", line)
            if not m or " -c " not in line:
                continue
            src = m.group(2) + m.group(3)
            flags = re.findall(r"(?:^|\s)(-[DIU]\S+)", line)
            self.codegen = re.findall(r"(?:^|\s)(-(?:O\w*|f[a-z]\S+|m[a-z0-9]\S+|std=\S+))(?=\s)", line)
            for mode, d in (("dynamic", "-DMONITOR_DYNAMIC"), ("static", "-DMONITOR_STATIC")):
                if d in flags and (mode, src) not in seen:
                    seen.add((mode, src))
                    self.units[mode].append((src, flags))
        if not self.units["dynamic"] and not self.units["static"]:
            raise BuildError("no translation units found in make -n output")
        self.wraplist = []
        ml = os.path.join(scratch, "src", "monitor-link")
        if os.path.exists(ml):
            for line in open(ml, errors="replace"):
                mm = re.match(r"\s*\w*wrap\w*=['\"]?([^'\"$]*)['\"]?\s*$", line)
                if mm and len(mm.group(1).split()) > 1:
                    self.wraplist = mm.group(1).split()


def compile_unit(cfgdir, src, flags, out, extra=()):
    cmd = [CLANG, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-w", "-Wno-error=incompatible-function-pointer-types",
           "-Wno-error=int-conversion", "-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-fno-builtin", "-emit-llvm", "-c"] + flags + [
        "-I" + cfgdir, "-I" + os.path.join(cfgdir, "src"), "-I" + REPO + "/src",
        "-include", os.path.join(HERE, "drv", "va.h")] + list(extra) + [src, "-o", out + ".bc"]
    rc, o = run(cmd, cwd=os.path.join(cfgdir, "src") if os.path.isdir(os.path.join(cfgdir, "src")) else cfgdir)
    if rc != 0:
        raise BuildError("cannot compile %s: %s" % (src, o[-1500:]))
    rc, o = run([OPT, "-passes=mem2reg,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>"
                 if False else "-passes=mem2reg", out + ".bc", "-o", out])
    if rc != 0:
        raise BuildError("opt failed on %s: %s" % (src, o[-1500:]))


class Loader:
    def __init__(self, prog, path, tu, isdrv=False):
        self.p = prog
        self.tu = tu
        self.m = V.load_module(path)
        self.dl = V.ModDL(self.m)
        self.isdrv = isdrv
        self.internal = {}
        self.localkey = {}

    # ---- types
    def tsize(self, t):
        k = V.TypeKind(t)
        if k in (V.TK_VOID, V.TK_FN):
            return 0
        return V.ABISize(self.dl, t)

    def twidth(self, t):
        k = V.TypeKind(t)
        if k == V.TK_INT:
            return V.IntWidth(t)
        if k == V.TK_PTR:
            return 64
        if k in (V.TK_FLOAT,):
            return 32
        if k in (V.TK_DOUBLE,):
            return 64
        if k == V.TK_VOID:
            return 0
        return 8 * self.tsize(t)

    def key(self, v):
        n = V.vname(v)
        if V.Linkage(v) in (8, 9):  # internal, private
            return n + "@" + self.tu
        return n

    # ---- constants
    def const(self, v, regs=None):
        k = V.ValueKind(v)
        if k == 24 or k == 0:
            return ("r", regs[v])
        if k == 5:
            key = self.key(v)
            self.p.fnrefs.append((key, self.tu))
            return ("fn?", key, self.isdrv)
        if k == 8:
            return ("p", ("g", self.key(v)), 0)
        if k == 6:
            return ("fn?", self.key(v), self.isdrv)
        if k == 18:
            w = V.IntWidth(V.TypeOf(v))
            return V.ZExtVal(v) & MASK[min(w, 64)]
        if k == 20:
            return 0
        if k in (14, 25):
            return ("u",)
        if k == 15:
            return ("agg0",)
        if k == 10:
            op = V.OPC.get(V.ConstOpcode(v))
            ops = [self.const(V.GetOp(v, i), regs) for i in range(V.NumOps(v))]
            if op == "gep":
                base = ops[0]
                off = self.gepoff(V.GEPTy(v), ops[1:])
                if isinstance(off, int) and isinstance(base, tuple) and base[0] == "p":
                    return ("p", base[1], base[2] + off)
                return ("ce", "gep", base, off)
            if op in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
                return ops[0]
            return ("ce", op) + tuple(ops)
        if k == 23:
            return ("asm", V.asmstr(v))
        if k in (11, 12, 13, 16, 17):
            return ("agg", v)
        if k == 19:
            return ("fp",)
        if k == 1:
            return ("bb", v)
        return ("u",)

    def gepoff(self, ty, idx):
        """constant offset of constant index list (or None)"""
        if not all(isinstance(i, int) for i in idx):
            return None
        off = sx(idx[0], 64 if idx[0] >= 1 << 32 else 64) * self.tsize(ty)
        for i in idx[1:]:
            k = V.TypeKind(ty)
            if k == V.TK_STRUCT:
                off += V.OffOf(self.dl, ty, i)
                ty = V.StructTyAt(ty, i)
            else:
                ty = V.ElemTy(ty)
                off += sx(i, 64) * self.tsize(ty)
        return off

    def initcells(self, v, t, off, out):
        k = V.ValueKind(v)
        if V.IsNull(v) or k in (14, 15, 25):
            return
        tk = V.TypeKind(t)
        if k == 16 and V.IsCDStr(v):
            b = V.cdstr(v)
            for i, ch in enumerate(b):
                if ch:
                    out.append((off + i, 1, ch))
            return
        if tk == V.TK_STRUCT:
            for i in range(V.CountStruct(t)):
                self.initcells(V.AggEl(v, i), V.StructTyAt(t, i), off + V.OffOf(self.dl, t, i), out)
            return
        if tk in (V.TK_ARRAY, V.TK_VEC):
            et = V.ElemTy(t)
            n = V.ArrLen(t) if tk == V.TK_ARRAY else V.VecLen(t)
            es = self.tsize(et)
            for i in range(n):
                self.initcells(V.AggEl(v, i), et, off + i * es, out)
            return
        out.append((off, self.tsize(t), self.const(v)))

    # ---- module
    def load(self):
        p, m = self.p, self.m
        g = V.FirstGV(m)
        while g:
            G = Glob()
            G.key = self.key(g)
            G.name = V.vname(g)
            G.tu = self.tu
            G.decl = bool(V.IsDecl(g))
            t = V.GValTy(g)
            G.size = self.tsize(t) if not (G.decl and False) else 0
            G.const = bool(V.IsConstGV(g))
            G.struct = (V.StructName(t) or b"").decode() if V.TypeKind(t) == V.TK_STRUCT else ""
            G.weak = V.Linkage(g) in (4, 5, 6, 7, 12, 14)
            G.init = None
            if not G.decl:
                cells = []
                self.initcells(V.GInit(g), t, 0, cells)
                G.init = cells
            if G.name == "llvm.global_ctors" or G.name == "llvm.global_dtors":
                p.ctors.setdefault(G.name[12:], []).append((self.tu, G))
            else:
                old = p.globs.get(G.key)
                if old is None or old.decl or (old.weak and not G.decl and not G.weak):
                    p.globs[G.key] = G
            g = V.NextGV(g)
        f = V.FirstFn(m)
        while f:
            n = V.vname(f)
            if not V.IsDecl(f):
                F = self.loadfn(f)
                if F.internal:
                    p.fns[F.key] = F
                else:
                    old = p.fns.get(F.key)
                    if old is None or (old.weak and not F.weak):
                        if old is not None:
                            p.weakshadow.append((F.key, old.tu))
                        p.fns[F.key] = F
                    elif not F.weak and not old.weak:
                        p.dups.append((F.key, old.tu, F.tu))
                    p.alldefs.setdefault(F.key, []).append(F)
            f = V.NextFn(f)
        a = V.FirstAlias(m)
        while a:
            p.aliases[self.key(a)] = self.key(V.AliaseeOf(a))
            a = V.NextAlias(a)
        self.p.modasm[self.tu] = V.modasm(m)

    def loadfn(self, f):
        F = Fn()
        F.name = V.vname(f)
        F.key = self.key(f)
        F.tu = self.tu
        F.internal = V.Linkage(f) in (8, 9)
        F.weak = V.Linkage(f) in (4, 5, 6, 7, 12, 14)
        F.blocks = []
        regs = {}
        n = V.CountParams(f)
        F.params = []
        for i in range(n):
            a = V.GetParam(f, i)
            regs[a] = i
            F.params.append((i, self.twidth(V.TypeOf(a))))
        nreg = n
        bbid = {}
        bbs = []
        b = V.FirstBB(f)
        while b:
            bbid[V.BBVal(b)] = len(bbs)
            bbs.append(b)
            i = V.FirstIns(b)
            while i:
                if V.TypeKind(V.TypeOf(i)) != V.TK_VOID:
                    regs[i] = nreg
                    nreg += 1
                i = V.NextIns(i)
            b = V.NextBB(b)
        F.nreg = nreg
        fty = V.GValTy(f)
        F.vararg = bool(V.IsVarArg(fty))
        F.rettype = self.twidth(V.RetTy(fty))
        F.file = ""
        F.line = 0
        for bi, b in enumerate(bbs):
            B = Block()
            B.n = bi
            B.name = V.vname(V.BBVal(b))
            B.ins = []
            B.succs = []
            B.preds = []
            B.phis = []
            i = V.FirstIns(b)
            while i:
                I = self.loadins(i, regs, bbid)
                if I is not None:
                    I.fn = F.key
                    I.blk = bi
                    I.idx = len(B.ins)
                    line = V.DLine(i)
                    I.loc = (os.path.basename(V.dfile(i)), line) if line else None
                    if I.loc and not F.file:
                        F.file, F.line = I.loc
                    I.site = (F.key, bi, len(B.ins))
                    if I.op == "phi":
                        B.phis.append(I)
                    B.ins.append(I)
                i = V.NextIns(i)
            F.blocks.append(B)
            t = B.ins[-1]
            if t.op == "br":
                B.succs = list(t.x)
            elif t.op == "switch":
                B.succs = [t.x[0]] + [c[1] for c in t.x[1]]
        for B in F.blocks:
            for s in set(B.succs):
                F.blocks[s].preds.append(B.n)
        liveness(F)
        return F

    def loadins(self, i, regs, bbid):
        op = V.OPC.get(V.Opcode(i), "?%d" % V.Opcode(i))
        I = Ins()
        I.op = op
        I.dst = regs.get(i)
        I.x = None
        I.loc = None
        t = V.TypeOf(i)
        I.w = self.twidth(t)
        O = lambda v: self.const(v, regs)
        if op == "call":
            cv = V.CalledVal(i)
            nm = V.vname(cv) if V.ValueKind(cv) == 5 else ""
            if nm.startswith(("llvm.dbg", "llvm.lifetime", "llvm.assume", "llvm.experimental.noalias")):
                return None
            na = V.NumArgs(i)
            I.a = [O(V.GetOp(i, k)) for k in range(na)]
            ft = V.CalledFTy(i)
            I.x = (O(cv), [self.twidth(V.TypeOf(V.GetOp(i, k))) for k in range(na)], V.ParamTys(ft))
            return I
        if op == "br":
            if V.IsCond(i):
                I.a = [O(V.Cond(i))]
                # operand order in C API: successors 0=true 1=false
                I.x = [bbid[V.BBVal(V.Succ(i, 0))], bbid[V.BBVal(V.Succ(i, 1))]]
            else:
                I.a = []
                I.x = [bbid[V.BBVal(V.Succ(i, 0))]]
            return I
        if op == "switch":
            I.a = [O(V.GetOp(i, 0))]
            n = V.NumOps(i)
            cases = []
            for k in range(2, n, 2):
                cases.append((V.ZExtVal(V.GetOp(i, k)), bbid[V.GetOp(i, k + 1)]))
            I.x = (bbid[V.BBVal(V.SwitchDef(i))], cases)
            I.w = self.twidth(V.TypeOf(V.GetOp(i, 0)))
            return I
        if op == "phi":
            I.a = [(bbid[V.BBVal(V.IncBB(i, k))], O(V.IncVal(i, k))) for k in range(V.CountInc(i))]
            return I
        n = V.NumOps(i)
        I.a = [O(V.GetOp(i, k)) for k in range(n)]
        if op == "alloca":
            I.x = self.tsize(V.AllocTy(i))
        elif op == "load":
            I.x = (max(1, V.StoreSize(self.dl, t)), bool(V.IsVol(i)), V.TypeKind(t), V.Order(i))
        elif op == "store":
            t0 = V.TypeOf(V.GetOp(i, 0))
            I.x = (max(1, V.StoreSize(self.dl, t0)), bool(V.IsVol(i)), V.TypeKind(t0), V.Order(i))
            I.w = self.twidth(t0)
        elif op == "gep":
            ty = V.GEPTy(i)
            idx = I.a[1:]
            parts = []  # list of (scale, operand)
            const = 0
            for k, ix in enumerate(idx):
                if k == 0:
                    sc = self.tsize(ty)
                else:
                    tk = V.TypeKind(ty)
                    if tk == V.TK_STRUCT:
                        const += V.OffOf(self.dl, ty, ix)
                        ty = V.StructTyAt(ty, ix)
                        continue
                    ty = V.ElemTy(ty)
                    sc = self.tsize(ty)
                if isinstance(ix, int):
                    iw = self.twidth(V.TypeOf(V.GetOp(i, k + 1)))
                    const += sx(ix, iw) * sc
                else:
                    parts.append((sc, ix))
            I.x = (const, parts)
        elif op == "icmp":
            I.x = V.PRED[V.ICmpPred(i)]
            I.w = self.twidth(V.TypeOf(V.GetOp(i, 0)))
        elif op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "bitcast"):
            I.x = self.twidth(V.TypeOf(V.GetOp(i, 0)))
        elif op == "atomicrmw":
            I.x = (V.RMW.get(V.RMWBin(i), "?"), max(1, V.StoreSize(self.dl, t)))
        elif op == "cmpxchg":
            I.x = max(1, V.StoreSize(self.dl, V.TypeOf(V.GetOp(i, 1))))
            I.w = self.twidth(V.TypeOf(V.GetOp(i, 1)))
        elif op in ("extractvalue", "insertvalue"):
            k = V.NumIdx(i)
            ix = V.Indices(i)
            I.x = [ix[j] for j in range(k)]
        elif op == "ret":
            I.w = self.twidth(V.TypeOf(V.GetOp(i, 0))) if n else 0
        return I


def sx(v, w):
    v &= MASK[w]
    return v - (1 << w) if v >> (w - 1) else v


def liveness(F):
    """SSA register liveness at block entry (phi uses live out of the predecessor)."""
    n = len(F.blocks)
    use = [set() for _ in range(n)]
    dfn = [set() for _ in range(n)]
    phiuse = [set() for _ in range(n)]

    def regs(o, out):
        if isinstance(o, tuple):
            if o and o[0] == "r":
                out.add(o[1])
            elif o and o[0] == "ce":
                for y in o[2:]:
                    regs(y, out)

    for B in F.blocks:
        for I in B.ins:
            if I.op == "phi":
                for pb, v in I.a:
                    s = set()
                    regs(v, s)
                    phiuse[pb] |= s
            else:
                s = set()
                for o in I.a:
                    regs(o, s)
                if I.op == "call":
                    regs(I.x[0], s)
                if I.op == "gep":
                    for _, o in I.x[1]:
                        regs(o, s)
                use[B.n] |= s - dfn[B.n]
            if I.dst is not None:
                dfn[B.n].add(I.dst)
    livein = [set() for _ in range(n)]
    ch = True
    while ch:
        ch = False
        for b in range(n - 1, -1, -1):
            out = set(phiuse[b])
            for s in F.blocks[b].succs:
                out |= livein[s]
            li = use[b] | (out - dfn[b])
            if li != livein[b]:
                livein[b] = li
                ch = True
    for B in F.blocks:
        B.livein = frozenset(livein[B.n])
        B.merge = len(B.preds) > 1


class Program:
    def __init__(self, mode, wraplist=()):
        self.mode = mode
        self.fns = {}
        self.globs = {}
        self.ctors = {}
        self.aliases = {}
        self.fnrefs = []
        self.dups = []
        self.weakshadow = []
        self.alldefs = {}
        self.modasm = {}
        self.wraplist = set(wraplist)
        self.units = []
        self.drvunits = []

    def resolve(self, key):
        """symbol reference -> ('f', defined key) or ('x', external real function)"""
        if "@" in key:
            return ("f", key) if key in self.fns else ("x", key)
        if self.mode == "static" and key in self.wraplist and key not in self.fns:
            w = "__wrap_" + key
            if w in self.fns:
                return ("f", w)
        if key in self.aliases:
            return self.resolve(self.aliases[key])
        if key in self.fns:
            return ("f", key)
        if key.startswith("__real_"):
            return ("x", key[7:])
        return ("x", key)

    def link(self):
        """resolve ('fn?', key) references in instructions and initialisers; run after loading"""
        memo = {}

        def res(o):
            if isinstance(o, tuple) and o:
                if o[0] == "fn?":
                    r = memo.get(o[1])
                    if r is None:
                        r = memo[o[1]] = self.resolve(o[1])
                    return r
                if o[0] == "ce":
                    return o[:2] + tuple(res(y) for y in o[2:])
            return o

        for F in self.fns.values():
            for B in F.blocks:
                for I in B.ins:
                    if I.op == "phi":
                        I.a = [(b, res(v)) for b, v in I.a]
                    else:
                        I.a = [res(o) for o in I.a]
                    if I.op == "call":
                        I.x = (res(I.x[0]),) + tuple(I.x[1:])
        for G in self.globs.values():
            if G.init:
                G.init = [(o, s, res(v)) for o, s, v in G.init]

    def override(self, name):
        """the function an application call to `name` reaches (or None)"""
        r = self.resolve(name)
        return r[1] if r[0] == "f" else None


class Workspace:
    """scratch area holding configured builds and IR; removed on close"""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix="vfsa.")
        self.cfgs = {}
        self.bc = {}

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def config(self, name="default", args=()):
        if name not in self.cfgs:
            self.cfgs[name] = Config(os.path.join(self.root, "cfg-" + name), args)
        return self.cfgs[name]

    def program(self, mode, drivers=(), cfg="default", args=(), defs=(), undef=()):
        c = self.config(cfg, args)
        units = c.units[mode]
        if not units:
            raise BuildError("no units for mode " + mode)
        outdir = os.path.join(self.root, "ir-%s-%s" % (cfg, mode) + "".join(d.replace("/", "_").replace('"', "") for d in defs))
        os.makedirs(outdir, exist_ok=True)
        jobs = []
        for src, flags in units:
            flags = [f for f in flags if f not in undef]
            tu = os.path.splitext(os.path.basename(src))[0]
            jobs.append((src, flags + list(defs), os.path.join(outdir, tu + ".ir"), tu, False))
        for d in drivers:
            tu = "drv_" + os.path.splitext(os.path.basename(d))[0]
            base = ["-DHAVE_CONFIG_H", "-DMONITOR_" + mode.upper(), "-DDRV_" + mode.upper()]
            jobs.append((d, base + list(defs), os.path.join(outdir, tu + ".ir"), tu, True))

        def go(j):
            if not os.path.exists(j[2]):
                compile_unit(c.dir, j[0], j[1], j[2])

        with ThreadPoolExecutor(8) as ex:
            list(ex.map(go, jobs))
        p = Program(mode, c.wraplist if mode == "static" else ())
        for src, flags, out, tu, isd in jobs:
            Loader(p, out, tu, isd).load()
            (p.drvunits if isd else p.units).append(tu)
        p.link()
        return p
