"""MPI size and rank"""
from fw import *
EXPLAIN = ("Typestate analysis of the size and rank queries: every sequence of up to four operations (rank query through any C, Fortran or profiling variant, initialisation, initialisation whose real "
           "function or callbacks query ranks, explicit setting by the client, finalisation) with every variant; after each operation the client's size and rank must be those of the first "
           "query after a completed initialisation or the first setting, and every query must reach the real function of its own name once and return its result.")
VARS = [("MPI_Comm_rank", "MPI_Comm_size", "c"), ("mpi_comm_rank", "mpi_comm_size", "f"), ("mpi_comm_rank_", "mpi_comm_size_", "f"), ("mpi_comm_rank__", "mpi_comm_size__", "f")]
PVARS = [("PMPI_Comm_rank", "PMPI_Comm_size", "c"), ("pmpi_comm_rank", "pmpi_comm_size", "f"), ("pmpi_comm_rank_", "pmpi_comm_size_", "f"), ("pmpi_comm_rank__", "pmpi_comm_size__", "f")]


def source(vs, steps, deep):
    s = '''
static int v1, es = -1, er = -1, latched, inited, step, inside, where;
int MPI_Init(int *, char ***);
int MPI_Finalize(void);
static void query(int v);
'''
    for i, (r, z, k) in enumerate(vs):
        if k == "c":
            s += 'int %s(void *, int *);\n' % r
            s += 'int vf_real_%s(void *c, int *x) { vf_mark("rank", %d, c, x, 0); *x = 20 + step; return vf_anyint("rr"); }\n' % (r, i)
            s += 'int vf_real_%s(void *c, int *x) { vf_mark("size", %d, c, x, 0); *x = 100 + step; return vf_anyint("rs"); }\n' % (z, i)
        else:
            s += 'void %s(int *, int *, int *);\n' % r
            s += 'void vf_real_%s(int *c, int *x, int *e) { vf_mark("rank", %d, c, x, e); *x = 20 + step; *e = vf_anyint("rr"); }\n' % (r, i)
            s += 'void vf_real_%s(int *c, int *x, int *e) { vf_mark("size", %d, c, x, 0); *x = 100 + step; *e = vf_anyint("rs"); }\n' % (z, i)
    ini, real = "static void init(int v, int w)\n{\n  int rq = 0, pv, ie;\n  switch (2 * v + w % 2) {\n", ""
    for i, (r, z, k) in enumerate(vs):
        a, b = r.replace("Comm_rank", "Init").replace("comm_rank", "init"), r.replace("Comm_rank", "Init_thread").replace("comm_rank", "init_thread")
        if k == "c":
            if a != "MPI_Init":
                s += "int %s(int *, char ***);\n" % a
            s += "int %s(int *, char ***, int, int *);\n" % b
            real += "int vf_real_%s(int *a, char ***b) { nest(1); return 0; }\nint vf_real_%s(int *a, char ***b, int c, int *d) { nest(1); return 0; }\n" % (a, b)
            ini += "  case %d: %s(0, 0); break;\n  case %d: %s(0, 0, 1, &pv); break;\n" % (2 * i, a, 2 * i + 1, b)
        else:
            s += "void %s(int *);\nvoid %s(int *, int *, int *);\n" % (a, b)
            real += "void vf_real_%s(int *a) { nest(1); }\nvoid vf_real_%s(int *a, int *b, int *c) { nest(1); }\n" % (a, b)
            ini += "  case %d: %s(&ie); break;\n  case %d: %s(&rq, &pv, &ie); break;\n" % (2 * i, a, 2 * i + 1, b)
    real += ini + "  }\n}\n"
    s += "static void query(int v)\n{\n  int rk = -5, ie = -5, cm, r;\n  switch (v) {\n"
    for i, (r, z, k) in enumerate(vs):
        if k == "c":
            s += '  case %d: vf_mark("call", %d, vf_ptr("comm"), &rk, 0); r = %s(vf_ptr("comm"), &rk); vf_mark("ret", %d, r, rk, 20 + step); break;\n' % (i, i, r, i)
        else:
            s += '  case %d: vf_mark("call", %d, &cm, &rk, &ie); %s(&cm, &rk, &ie); vf_mark("ret", %d, ie, rk, 20 + step); break;\n' % (i, i, r, i)
    s += "  }\n}\n"
    s += '''
static void look(void)
{
  int a = monitor_mpi_comm_size(), b = monitor_mpi_comm_rank();
  vf_mark("look", a, b, es, er);
}
static void nest(int w) { if (inside && where == w) { query(v1); look(); } }
void monitor_mpi_pre_init(void) { nest(0); }
%s
void monitor_init_mpi(int *a, char ***b) { nest(2); look(); }
int vf_real_MPI_Finalize(void) { return 0; }
int app_main(int argc, char **argv, char **envp)
{
  int i, v2;
  v1 = %s;
  v2 = %s;
  look();
  for (i = 0; i < %d; i++) {
    step++;
    switch (vf_pick(5)) {
    case 0: query(i %% 2 ? v2 : v1); if (inited && !latched) { latched = 1; es = 100 + step; er = 20 + step; } break;
    case 1: inside = 0; init(v1, v2); inited = 1; break;
    case 2: inside = 1; where = vf_pick(3); init(v1, v2); inside = 0; inited = 1; break;
    case 3: monitor_set_size_rank(200 + step, 30 + step); if (!latched) { latched = 1; es = 200 + step; er = 30 + step; } break;
    case 4: MPI_Finalize(); break;
    }
    look();
  }
  vf_mark("over");
  vf_end();
  return 0;
}
void vf_main(void) { START(app_main); }
''' % (real, "vf_choose(0, %d)" % (len(vs) - 1), "vf_choose(0, %d)" % (len(vs) - 1) if deep else "(v1 + 1) %% %d" % len(vs), steps)
    return s


def sx(x):
    return x - (1 << 32) if type(x) is int and x >= 1 << 31 else x


class Rl(Auto):
    start = dict(call=None, n=0, ok=1)
    V = ()

    def ev_mark(self, s, ev):
        n, a = ev.name, ev.args
        if n == "call":
            s.update(call=tuple(a[:4]), n=0)
        elif n == "rank":
            need(s["call"] is not None, "a real rank query without a call")
            need(s["call"][0] == a[0], "%s calls the real %s" % (self.V[s["call"][0]][0], self.V[a[0]][0]))
            need(s["n"] == 0, "the real rank query is called twice")
            need(s["call"] == tuple(a[:4]), "the real rank query does not get the caller's arguments")
            s["n"] = 1
        elif n == "size":
            need(s["call"] is not None and s["call"][0] == a[0], "the size query of another variant is used")
            need(s["call"][1] == a[1], "the size query is made for another communicator")
        elif n == "ret":
            need(s["n"] == 1, "the real rank query is not called")
            need(a[1] == ("t", "any", "rr"), "the result code of the real rank query is not returned")
            need(a[2] == a[3], "the rank of the real query is not returned")
            s.update(call=None, n=0)
        elif n == "look":
            need(sx(a[0]) == sx(a[2]) and sx(a[1]) == sx(a[3]), "size and rank are reported as %s, %s instead of %s, %s" % (sx(a[0]), sx(a[1]), sx(a[2]), sx(a[3])))


def mk(name, vs, steps, deep, modes):
    return Scn(name, source(vs, steps, deep), type("R", (Rl,), {"V": vs}), modes=modes, need=("mark:over", "mark:rank"), ends=False, cap=20000)


def check(ctx):
    t = ctx.tier == "thorough"
    sc = [mk("sequences", VARS, 4 if t else 3, 1, ("static",)), mk("sequences", VARS + PVARS, 3, 0, ("dynamic",)), mk("long-sequences", VARS[:1] + PVARS[2:3], 5 if t else 4, 1, ("dynamic",)),
          mk("long-sequences", VARS[:2], 5 if t else 4, 1, ("static",))]
    ctx.run(sc)
