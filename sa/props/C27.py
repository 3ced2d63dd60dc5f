"""unwind predicates and stack bottoms"""
import os, re, subprocess
from fw import *
from ir import REPO
EXPLAIN = ("(a) Dataflow: the stack-bottom query is made from main, threads, handlers and forked children; the result must be an object in a live library frame of the calling thread below "
           "the application's routine. (b) The analysis locates the library call sites that enter the application's main and thread routine, the objects are compiled with the build's options and "
           "their machine code, line tables and labels are inspected; then the predicates' IR is interpreted with those label addresses on every instruction boundary of both start functions "
           "and on addresses around every other function, in both link orders, and compared with the function ranges and return addresses.")

BOT = r'''
static int hk;
void *monitor_thread_pre_create(void) { return vf_ptr("tpre"); }
void *monitor_init_process(int *c, char **v, void *d) { vf_mark("bottom", monitor_stack_bottom()); return d; }
void *monitor_init_thread(int t, void *d) { vf_mark("bottom", monitor_stack_bottom()); return d; }
void monitor_fini_process(int how, void *d) { if (how != 99) vf_mark("bottom", monitor_stack_bottom()); }
void monitor_fini_thread(void *d) { vf_mark("bottom", monitor_stack_bottom()); }
static void h1(int s) { vf_mark("bottom", monitor_stack_bottom()); }
static void *body2(void *a) { vf_mark("bottom", monitor_stack_bottom()); vf_mark("app_thread"); return a; }
static void *body(void *a)
{
  pthread_t t;
  int me = vf_cur();
  vf_mark("bottom", monitor_stack_bottom());
  vf_mark("app_thread");
  switch (vf_choose(0, 3)) {
  case 0: vf_deliver(10, 0); break;
  case 1: if (fork() == 0) { vf_mark("bottom", monitor_stack_bottom()); exit(0); } break;
  case 2: pthread_create(&t, 0, body2, 0); vf_assume(vf_nthreads() == 2); vf_run_thread(2); break;
  }
  vf_mark("bottom", monitor_stack_bottom());
  return a;
}
int app_main(int argc, char **argv, char **envp)
{
  pthread_t t;
  vf_mark("bottom", monitor_stack_bottom());
  vf_mark("app_main");
  signal(10, h1);
  vf_deliver(10, 0);
  if (vf_choose(0, 1)) return 0;
  pthread_create(&t, 0, body, 0);
  vf_assume(vf_nthreads() == 1);
  vf_run_thread(1);
  vf_mark("bottom", monitor_stack_bottom());
  return 0;
}
void vf_main(void) { START(app_main); }
'''


class Bot(Auto):
    sites = None
    start = dict(x=0)

    def ev_mark(self, s, ev):
        fr = ev.st.frames
        if ev.name == "bottom":
            if self.sites is not None:
                k = max([i for i in range(len(fr)) if fr[i].thread is not None] or [0])
                for f in fr[k:]:
                    if not f.fn.tu.startswith("drv_"):
                        I = f.fn.blocks[f.blk].ins[f.idx]
                        if I.loc:
                            self.sites.setdefault("calls", set()).add((f.fn.tu, f.fn.name, I.loc[0], I.loc[1]))
            p = ev.args[0]
            need(type(p) is tuple and p[0] == "p" and p[1][0] == "a", "the stack bottom reported in a thread is not an address on a stack")
            d, site = p[1][1], p[1][2]
            need(1 <= d <= len(fr) and fr[d - 1].fn.key == site[0], "the stack bottom points to a frame that has returned or to another thread's stack")
            # thread that owns the frame
            t = 0
            for f in fr[:d]:
                if f.thread is not None:
                    t = f.thread
            me = ev.st.env["cur"]
            need(t == me, "the stack bottom reported in thread %s is on the stack of thread %s" % (me, t))
            # no application frame of the thread below it
            k = max([i for i in range(d) if fr[i].thread is not None] or [0])
            for f in fr[k:d - 1]:
                need(not (f.fn.tu.startswith("drv_") and f.fn.name in ("app_main", "body", "body2", "h1")), "the stack bottom is above application frames")
            need(not fr[d - 1].fn.tu.startswith("drv_"), "the stack bottom is not in the library's start function")
        elif ev.name in ("app_main", "app_thread"):
            f = fr[-2]
            I = f.fn.blocks[f.blk].ins[f.idx]
            if self.sites is not None and not f.fn.tu.startswith("drv_"):
                self.sites[ev.name] = (f.fn.tu, f.fn.name, I.loc[0], I.loc[1])


PRED = r'''
static const unsigned long pts[] = { %s };
int app_main(int argc, char **argv, char **envp)
{
  int i = vf_choose(0, (int) (sizeof(pts) / sizeof(pts[0])) - 1);
  void *p = (void *) pts[i];
  int n = monitor_in_start_func_narrow(p), w = monitor_in_start_func_wide(p), b = monitor_unwind_process_bottom_frame(p), t = monitor_unwind_thread_bottom_frame(p);
  vf_mark("pred", i, n ? 1 : 0, w ? 1 : 0, b ? 1 : 0, t ? 1 : 0);
  vf_end();
  return 0;
}
void vf_main(void) { app_main(0, 0, 0); }
'''
NM = ("narrow predicate", "wide predicate", "process-bottom predicate", "thread-bottom predicate")


class Pred(Auto):
    start = dict(x=0)
    PTS = ()

    def ev_mark(self, s, ev):
        a = ev.args
        addr, desc, exp = self.PTS[a[0]]
        for k in range(4):
            if exp[k] is None:
                continue
            need(type(a[k + 1]) is int, "the %s has no definite value for %s" % (NM[k], desc))
            need(a[k + 1] == exp[k], "the %s is %s for %s" % (NM[k], "true" if a[k + 1] else "false", desc))


def compile_obj(cfg, src, flags, out, cc, opts):
    cmd = [cc] + opts + ["-g", "-w", "-c"] + flags + ["-I" + cfg.dir, "-I" + os.path.join(cfg.dir, "src"), "-I" + REPO + "/src", src, "-o", out]
    p = subprocess.run(cmd, cwd=os.path.join(cfg.dir, "src"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("cannot compile %s: %s" % (src, p.stdout[-800:]))


def inspect(obj, tu, base):
    """section layout, symbols, functions and instructions of one object"""
    secs = {}
    t = subprocess.run(["objdump", "-h", "-w", obj], capture_output=True, text=True).stdout
    for line in t.splitlines():
        f = line.split()
        if len(f) > 6 and f[0].isdigit() and "CODE" in line:
            secs[f[1]] = (base, int(f[2], 16))
            base += (int(f[2], 16) + 0xfff) & ~0xfff
            base += 0x1000
    syms, fns, ins = {}, [], []
    t = subprocess.run(["objdump", "-t", obj], capture_output=True, text=True).stdout
    for line in t.splitlines():
        m = re.match(r"([0-9a-f]{16}) (.{7}) (\S+)\s+([0-9a-f]+)\s+(?:\.hidden )?(\S+)$", line)
        if m and m.group(3) in secs:
            a = secs[m.group(3)][0] + int(m.group(1), 16)
            if "F" in m.group(2):
                fns.append((m.group(5), tu, a, a + int(m.group(4), 16)))
            elif "d" not in m.group(2):
                syms[m.group(5)] = a
    sec = None
    fl = None
    t = subprocess.run(["objdump", "-d", "-r", "-l", "-w", "--no-show-raw-insn", obj], capture_output=True, text=True).stdout
    for line in t.splitlines():
        m = re.match(r"Disassembly of section (\S+):", line)
        if m:
            sec = m.group(1)
            continue
        m = re.match(r"(\S+):(\d+)(?: \(discriminator \d+\))?$", line)
        if m and not line.startswith(" "):
            fl = (os.path.basename(m.group(1)), int(m.group(2)))
            continue
        m = re.match(r"\s+[0-9a-f]+: R_X86_64_\S+\s+(\S+)", line)
        if m:
            if ins:
                ins[-1][1] += " ; " + m.group(1)
            continue
        m = re.match(r"\s+([0-9a-f]+):\t(.*)$", line)
        if m and sec in secs:
            ins.append([secs[sec][0] + int(m.group(1), 16), m.group(2).strip(), fl])
    return syms, fns, ins, base


def points(fns, ins, site, other):
    """find the start function of `site` and the return address of its call into the application"""
    tu, fname, file, line = site
    best = None
    for k, (a, t, fl) in enumerate(ins):
        ind = bool(re.match(r"(notrack )?call\s+\*", t))
        real = bool(re.match(r"call\s", t) and re.search(r"; (__real_)?main\b", t))
        if (ind or real) and fl is not None and fl[0] == os.path.basename(file) and k + 1 < len(ins):
            d = abs(fl[1] - line)
            F = [f for f in fns if f[2] <= a < f[3]]
            if F and d <= 3 and (best is None or d < best[0]):
                best = (d, ins[k + 1][0], F[0])
    return best


def check(ctx):
    sites = {}
    rl = type("B", (Bot,), {"sites": sites})
    for mode in ("dynamic", "static"):
        ctx.run([Scn("stack-bottom", BOT, rl, modes=(mode,), opts={"create_ok": 1, "attr_ok": 1, "malloc_ok": 1}, need=("mark:app_main", "mark:app_thread", "mark:bottom"), ends=False, cap=2000)])
        ctx.run([Scn("stack-bottom-failures", BOT, Bot, modes=(mode,), need=("mark:app_main",), ends=False, cap=4000)])
    if "app_main" not in sites or "app_thread" not in sites:
        if not ctx.errors and not ctx.violations:
            ctx.errors.append("call sites of the application's routines not found")
        return
    sc = []
    cfg = ctx.ws.config("default", ())
    # the options of the build; unoptimised code as well
    bo = tuple(x for x in getattr(cfg, "codegen", ()) if x not in ("-fPIC", "-fpic")) or ("-O",)
    variants = [("gcc", bo), ("gcc", ("-O0",))] + ([("gcc", ("-O1",)), ("clang", ("-O0",))] if ctx.tier == "thorough" else [])
    npts = 0

    def cblines(which):
        a = sites["app_thread" if which else "app_main"]
        return {x[3] for x in sites.get("calls", ()) if x[:3] == a[:3]}
    for mode in ("dynamic", "static"):
        for cc, o in variants:
            for order in (0, 1):
                objs = {}
                for src, flags in cfg.units[mode]:
                    tu = os.path.splitext(os.path.basename(src))[0]
                    if tu in (sites["app_main"][0], sites["app_thread"][0]):
                        out = os.path.join(ctx.ws.root, "c27-%s-%s%s-%s.o" % (mode, cc, "".join(o), tu))
                        if not os.path.exists(out):
                            compile_obj(cfg, src, flags, out, cc, list(o) + (["-fPIC"] if mode == "dynamic" else []))
                        objs[tu] = out
                base = 0x400000
                S, FN, INS = {}, [], []
                for tu in sorted(objs, reverse=bool(order)):
                    s, f, i, base = inspect(objs[tu], tu, base)
                    S.update(s)
                    FN += f
                    INS += i
                pm, pt = points(FN, INS, sites["app_main"], None), points(FN, INS, sites["app_thread"], None)
                if pm is None or pt is None:
                    ctx.errors.append("no call into the application's routine found in the object code (%s %s %s)" % (mode, cc, o))
                    continue
                P = {}

                def put(a, d, e):
                    P.setdefault(a, (a, d, e))
                put(pm[1], "the return address of the call into main", (1, 1, 1, 0))
                put(pt[1], "the return address of the call into the thread routine", (1, 1, 0, 1))
                for which, F in ((0, pm[2]), (1, pt[2])):
                    body = [x for x in INS if F[2] <= x[0] < F[3]]
                    for k, x in enumerate(body):
                        e = (None, None, 0 if which else None, None if which else 0)
                        c = body[k - 1] if k else None
                        if c and c[1].lstrip().startswith(("call", "notrack call")) and c[2] is not None and c[2][1] in cblines(which):
                            e = (0, 1, 0 if which else 1, 1 if which else 0)
                            put(x[0], "the return address of the call at line %d that leads to a callback, inside %s" % (c[2][1], F[0]), e)
                        else:
                            put(x[0], "an address inside %s" % F[0], e)
                for F in FN:
                    if F in (pm[2], pt[2]):
                        continue
                    if F[0].startswith((pm[2][0] + ".", pt[2][0] + ".")):       # cold part of a start function
                        continue
                    body = [x for x in INS if F[2] <= x[0] < F[3]]
                    for x in body[:2] + body[len(body) // 2:len(body) // 2 + 1] + body[-2:]:
                        put(x[0], "an address inside %s" % F[0], (0, 0, 0, 0))
                put(0x1000, "an address outside the library", (0, 0, 0, 0))
                put(0x7fffffff0000, "an address outside the library", (0, 0, 0, 0))
                put(0, "a null address", (0, 0, 0, 0))
                pts = list(P.values())
                npts += len(pts)
                sc.append(Scn("predicates-%s%s-order%d" % (cc, "".join(o), order), PRED % ", ".join("0x%xUL" % p[0] for p in pts), type("P", (Pred,), {"PTS": tuple(pts)}), modes=(mode,),
                              opts={"symaddr": S}, need=("mark:pred",), ends=False, cap=100000))
    ctx.extra["addresses_checked"] = npts
    ctx.extra["call_sites"] = {k: sorted(v) if isinstance(v, set) else list(v) for k, v in sites.items()}
    if sc:
        ctx.run(sc)
