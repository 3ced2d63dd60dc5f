/* a second thread of the program: records signals sent to it and reacts when the sender waits */
static pthread_t pk_t;
static int pk_s, pk_n;
static int pk_other;   /* identity of the thread that reacts */
int vf_real_pthread_kill(pthread_t t, int s) { pk_t = t; pk_s = s; pk_n = 1; return 0; }
static void pk_react(void)
{
  if (pk_s) {
    int s = pk_s, me = vf_cur();
    pk_s = 0;
    vf_setself(pk_other);
    vf_deliver(s, 0);
    vf_setself(me);
  }
}
