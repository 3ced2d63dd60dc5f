"""MPI init and finalize callbacks"""
from fw import *
EXPLAIN = ("Typestate analysis of every C, Fortran and profiling-interface variant of MPI initialisation and finalisation as outermost call, with a real function that calls nothing or any other variant "
           "(one or two levels), repeated; the automaton demands pre callback, the real function of the same name with the caller's arguments, post callback, for the outermost call only.")

INIT = [("MPI_Init", "c"), ("mpi_init", "f"), ("mpi_init_", "f"), ("mpi_init__", "f"),
        ("MPI_Init_thread", "ct"), ("mpi_init_thread", "ft"), ("mpi_init_thread_", "ft"), ("mpi_init_thread__", "ft")]
FINI = [("MPI_Finalize", "cv"), ("mpi_finalize", "f"), ("mpi_finalize_", "f"), ("mpi_finalize__", "f")]


def prof(l):
    return [(("P" if n[0] == "M" else "p") + n, k) for n, k in l]


PROTO = {"c": ("int", "int *a, char ***b", "a, b, 0, 0", "&ac, &av", "&ac, &av, 0, 0"),
         "f": ("void", "int *a", "a, 0, 0, 0", "&ie", "&ie, 0, 0, 0"),
         "ct": ("int", "int *a, char ***b, int c, int *d", "a, b, c, d", "&ac, &av, rq, &pv", "&ac, &av, rq, &pv"),
         "ft": ("void", "int *a, int *b, int *c", "a, b, c, 0", "&rq, &pv, &ie", "&rq, &pv, &ie, 0"),
         "cv": ("int", "void", "0, 0, 0, 0", "", "0, 0, 0, 0")}


def source(names, levels):
    s = "static int depth, in1, in2;\nstatic int call(int k);\n"
    s += "static void nested(void) { int d = depth; depth = d + 1; if (d == 0 && in1 >= 0) call(in1); if (d == 1 && in2 >= 0) call(in2); depth = d; }\n"
    s += '''
void monitor_mpi_pre_init(void) { vf_mark("pre_init"); }
void monitor_init_mpi(int *c, char ***v) { vf_mark("init_mpi", c, v, *c, *v); }
void monitor_fini_mpi(void) { vf_mark("fini_mpi"); }
void monitor_mpi_post_fini(void) { vf_mark("post_fini"); }
'''
    for i, (n, k) in enumerate(names):
        rt, par, fwd, act, mk = PROTO[k]
        s += "%s %s(%s);\n" % (rt, n, par)
        s += '%s vf_real_%s(%s) { vf_mark("real", %d, %s); nested(); vf_mark("realend", %d); %s }\n' % (
            rt, n, par, i, fwd, i, 'return vf_anyint("ret_%s");' % n if rt == "int" else "")
    s += "static int call(int k)\n{\n  int ac = vf_anyint(\"ac\"), rq = vf_anyint(\"rq\"), pv, ie, r;\n  char **av = (char **) vf_ptr(\"av\");\n  switch (k) {\n"
    for i, (n, k) in enumerate(names):
        rt, par, fwd, act, mk = PROTO[k]
        s += '  case %d: vf_mark("call", %d, %s); %s%s(%s); vf_mark("ret", %d%s); break;\n' % (i, i, mk, "r = " if rt == "int" else "", n, act, i, ", r" if rt == "int" else ", 0")
    s += "  }\n  return 0;\n}\n"
    N = len(names)
    s += '''
int app_main(int argc, char **argv, char **envp)
{
  int o = vf_choose(0, %d);
  in1 = vf_choose(-1, %d);
  in2 = %s;
  if (in1 < 0) in2 = -1;
  call(o);
  in1 = -1;
  call(o);
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
''' % (N - 1, N - 1, "vf_choose(-1, %d)" % (N - 1) if levels > 1 else "-1")
    return s


class Rl(Auto):
    # stack: tuple of (id, args, phase); phase 0 called, 1 real running, 2 real done
    start = dict(stack=(), pre=0, post=0)
    NAMES = ()
    FIN = 0

    def nm(self, i):
        return self.NAMES[i][0]

    def ev_mark(self, s, ev):
        n, a = ev.name, ev.args
        st = list(s["stack"])
        if n == "call":
            if not st:
                s.update(pre=0, post=0)
            st.append((a[0], a[1:5], 0))
        elif n == "real":
            need(st and st[-1][2] == 0, "the real %s is called twice or without a call" % self.nm(a[0]))
            need(st[-1][0] == a[0], "%s calls the real %s" % (self.nm(st[-1][0]), self.nm(a[0])))
            need(st[-1][1] == a[1:5], "the real %s does not get the caller's arguments" % self.nm(a[0]))
            need(s["pre"] == 1, "the real %s runs without the callback before it" % self.nm(a[0]))
            need(s["post"] == 0, "the real %s runs after the final callback" % self.nm(a[0]))
            st[-1] = (a[0], st[-1][1], 1)
        elif n == "realend":
            st[-1] = (a[0], st[-1][1], 2)
        elif n == "ret":
            need(st[-1][2] == 2, "%s returns without the real function" % self.nm(a[0]))
            if self.NAMES[a[0]][1][0] == "c":
                need(a[1] == ("t", "any", "ret_" + self.nm(a[0])), "%s does not return the real function's result" % self.nm(a[0]))
            st.pop()
            if not st:
                need(s["post"] == 1, "%s returns without the callback after the real function" % self.nm(a[0]))
            s["stack"] = tuple(st)
            return
        elif n in ("pre_init", "fini_mpi"):
            need((n == "fini_mpi") == bool(self.FIN), "the wrong callback is delivered")
            need(len(st) == 1 and st[0][2] == 0, "%s is delivered for a nested call or after the real function" % n)
            need(s["pre"] == 0, "%s is delivered twice" % n)
            s["pre"] = 1
        elif n in ("init_mpi", "post_fini"):
            need((n == "post_fini") == bool(self.FIN), "the wrong callback is delivered")
            need(len(st) == 1 and st[0][2] == 2, "%s is delivered for a nested call or before the real function has returned" % n)
            need(s["post"] == 0, "%s is delivered twice" % n)
            s["post"] = 1
            if n == "init_mpi":
                k = self.NAMES[st[0][0]][1]
                if k[0] == "c":
                    need(a[:2] == st[0][1][:2], "init-mpi does not get the caller's arguments")
                else:
                    need(a[2] == ("t", "any", "argc") and a[3] == ("t", "any", "argv"), "init-mpi does not get the program's argument vector")
        s["stack"] = tuple(st)


def mk(name, names, fin, levels, mode):
    return Scn(name, source(names, levels), type("R", (Rl,), {"NAMES": names, "FIN": fin}), modes=(mode,),
               need=("mark:over", "mark:" + ("fini_mpi" if fin else "pre_init"), "mark:" + ("post_fini" if fin else "init_mpi")), ends=False, cap=5000)


def check(ctx):
    I2, F2 = INIT + prof(INIT), FINI + prof(FINI)
    sc = [mk("init", I2, 0, 1, "dynamic"), mk("finalize", F2, 1, 2, "dynamic"), mk("init", INIT, 0, 2, "static"), mk("finalize", FINI, 1, 2, "static")]
    sc.append(mk("init-two-levels", INIT[:2] + INIT[4:6] + prof(INIT[:1] + INIT[2:3] + INIT[6:7]), 0, 2, "dynamic"))
    if ctx.tier == "thorough":
        sc.append(mk("init-all-two-levels", I2, 0, 2, "dynamic"))
    ctx.run(sc)
