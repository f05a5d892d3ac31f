#include "seq.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/allocator_interface.h>

extern "C" const char *__asan_default_options() { return "exitcode=99:detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=12:quarantine_size_mb=16:symbolize=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=99:symbolize=0"; }

namespace seq {
bool thorough = false;
enum { MAXG = 512, MAXD = 4096, MAXW = 16 };
static const size_t STN = 1u << 22;
struct G { const char *prop; char name[100]; body_t fn; long arg; Opts o; };
struct Stat { uint64_t runs, steps, states, bulk; int capped; char sample[3][500]; int ns; uint64_t maxd; };
struct Slot {
    int sidx;
    volatile int busy, failed; int g; int n; uint16_t c[MAXD], k[MAXD]; char msg[2000]; char note[4000]; int nn;
    volatile uint64_t beat; char cur[512]; volatile int ncur;
};
struct Ctl { volatile int stop; Stat st[MAXG]; Slot slot[MAXW]; volatile int lock; };
alignas(G) static char gs_raw[MAXG * sizeof(G)]; static G *const gs = reinterpret_cast<G *>(gs_raw); static int ng; // zero-initialised before any registration
static Ctl *ctl; static uint64_t *stt;
static Slot *me; static int W, JOBS, pos; static bool rep; static double deadline;
static uint64_t lstep, lbulk; static bool skipped; static int sel[MAXG], nsel;
struct Skip {}; struct Fail {};

void group(const char *prop, const char *name, body_t fn, long arg, const Opts &o) {
    if (ng >= MAXG) { fprintf(stderr, "too many groups\n"); _exit(3); }
    G &x = gs[ng++]; x.prop = prop; snprintf(x.name, sizeof x.name, "%s", name); x.fn = fn; x.arg = arg; x.o = o;
}
static double wall() { timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static uint32_t shard(int n) { uint32_t h = 2166136261u; for (int i = 0; i < n; i++) { h ^= me->c[i] + 1; h *= 16777619u; } return (h ^ h >> 15) % JOBS; }
int pick(int n, const char *) {
    if (n <= 1) return 0;
    me->beat++;
    if (pos >= MAXD) fail("harness: path too long");
    int i = pos++;
    if (rep) { if (i < me->n) { me->k[i] = n; return me->c[i]; } me->c[i] = 0; me->k[i] = n; me->n = pos; return 0; }
    if (i >= me->n) { me->c[i] = 0; me->k[i] = n; me->n = pos; }
    else if (me->k[i] != n) { fprintf(stderr, "nondeterministic harness\n"); _exit(3); }
    const int SD = gs[me->g].o.sd;
    if (pos == SD && shard(SD) != (uint32_t)W) throw Skip();
    return me->c[i];
}
void fail(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(me->msg, sizeof me->msg, fmt, ap); va_end(ap);
    me->failed = 1;
    if (rep) { printf("%s\nVIOLATION: %s\n", me->note, me->msg); fflush(stdout); }
    _exit(97);
}
void note(const char *fmt, ...) {
    if (me->nn > 3800) return;
    va_list ap; va_start(ap, fmt); int k = vsnprintf(me->note + me->nn, sizeof me->note - me->nn, fmt, ap); va_end(ap);
    if (k > 0) me->nn += k; if (me->nn > (int)sizeof me->note - 1) me->nn = sizeof me->note - 1;
}
void step(uint64_t n) { lstep += n; }
void bulk(uint64_t n) { lbulk += n; if ((lbulk & 0xfff) < n) me->beat++; }
void cur(const void *p, size_t n) { if (n > sizeof me->cur) n = sizeof me->cur; memcpy(me->cur, p, n); me->ncur = n; }
static uint64_t mix(uint64_t a) { a ^= a >> 30; a *= 0xbf58476d1ce4e5b9ull; a ^= a >> 27; a *= 0x94d049bb133111ebull; a ^= a >> 31; return a; }
static bool st_called;
void state(uint64_t h) {
    st_called = true;
    h = mix(h + me->g * 0x9e3779b97f4a7c15ull + 1); if (!h) h = 1;
    size_t i = h & (STN - 1);
    for (int k = 0; k < 64; k++, i = (i + 1) & (STN - 1)) {
        if (stt[i] == h) return;
        uint64_t z = 0;
        if (!stt[i] && __atomic_compare_exchange_n(&stt[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) { __atomic_fetch_add(&ctl->st[me->g].states, 1, __ATOMIC_RELAXED); return; }
        if (z == h) return;
    }
}
void state(const std::string &s) { uint64_t h = 1469598103934665603ull; for (unsigned char c: s) { h ^= c; h *= 1099511628211ull; } state(h); }
bool replaying() { return rep; }

static void run1() {
    pos = 0; me->nn = 0; me->note[0] = 0; me->ncur = 0; skipped = false;
    G &g = gs[me->g];
    size_t before = __sanitizer_get_current_allocated_bytes();
    try { g.fn(g.arg); } catch (Skip &) { skipped = true; }
    catch (std::exception &e) { fail("uncaught exception: %s", e.what()); }
    catch (...) { fail("uncaught exception"); }
    if (!skipped && g.o.leaks) {
        size_t after = __sanitizer_get_current_allocated_bytes();
        if (after > before) {
            // lazily initialised objects may remain once: confirm on a second run of the same path
            int n = me->n; pos = 0; me->nn = 0; before = after;
            try { g.fn(g.arg); } catch (...) { fail("path behaves differently when repeated"); }
            me->n = n;
            after = __sanitizer_get_current_allocated_bytes();
            if (after > before) fail("memory leak: %zu bytes not freed", after - before);
        }
    }
}
static void worker(int w, int first) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    W = w; me = &ctl->slot[w];
    for (int s = first; s < nsel; s++) {
        me->g = sel[s]; me->sidx = s; me->n = 0; Stat &st = ctl->st[me->g];
        for (;;) {
            if (ctl->stop) _exit(0);
            lstep = lbulk = 0; st_called = false;
            me->busy = 1;
            run1();
            me->busy = 0; me->beat++;
            const int SD = gs[me->g].o.sd;
            bool count = !skipped && (pos >= SD || (pos < SD && shard(pos) == (uint32_t)W));
            if (count) {
                if (!st_called) { uint64_t h = 77; for (int i = 0; i < pos; i++) h = mix(h * 131 + me->c[i]); state(h); }
                __atomic_fetch_add(&st.runs, 1, __ATOMIC_RELAXED);
                __atomic_fetch_add(&st.steps, lstep ? lstep : pos, __ATOMIC_RELAXED);
                __atomic_fetch_add(&st.bulk, lbulk, __ATOMIC_RELAXED);
                if ((uint64_t)pos > st.maxd) st.maxd = pos;
                if (st.ns < 3 && me->nn && (st.runs & (st.runs - 1)) == 0) {
                    while (__atomic_exchange_n(&ctl->lock, 1, __ATOMIC_ACQUIRE)) {}
                    if (st.ns < 3) { snprintf(st.sample[st.ns], 500, "%.490s", me->note); st.ns++; }
                    __atomic_store_n(&ctl->lock, 0, __ATOMIC_RELEASE);
                }
            }
            me->n = pos;
            while (me->n > 0 && me->c[me->n - 1] + 1 >= me->k[me->n - 1]) me->n--;
            if (me->n == 0) break;
            me->c[me->n - 1]++;
            if ((st.runs & 255) == 0 && wall() > deadline) { st.capped = 1; break; }
        }
    }
    _exit(0);
}
static void js(FILE *f, const char *s) { fputc('"', f); for (; *s; s++) { if (*s == '"' || *s == '\\') fputc('\\', f), fputc(*s, f); else if ((unsigned char)*s < 32 || (unsigned char)*s > 126) fprintf(f, "\\u%04x", (unsigned char)*s); else fputc(*s, f); } fputc('"', f); }

static pid_t fork_retry() { // survives a moment without memory
    for (int i = 0; i < 600; i++) { fflush(0); pid_t p = fork(); if (p >= 0) return p; usleep(100000); }
    perror("seq: fork"); exit(3); // the workers die with their parent
}
// runs one recorded path in a child; fills msg
static int replay_path(const Slot &s, char *msg, const char *errf, int limit) {
    Slot *r = &ctl->slot[MAXW - 1];
    memcpy((void *)r, &s, sizeof s); r->failed = 0; r->msg[0] = 0; r->nn = 0;
    pid_t p = fork_retry();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        if (errf) { int fd = open(errf, O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); if (fd > 2) close(fd); }
        me = r; rep = true; JOBS = 1; W = 0;
        int nul = open("/dev/null", O_WRONLY); if (errf) dup2(nul, 1);
        run1();
        _exit(0);
    }
    double t0 = wall(); int st;
    while (waitpid(p, &st, WNOHANG) != p) { if (wall() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); snprintf(msg, 2000, "hang: one case runs for more than %d s", limit); return 2; } usleep(1000); }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 97) { snprintf(msg, 2000, "%s", r->msg); return 1; }
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return -1;
    char buf[4096] = ""; if (errf) { FILE *f = fopen(errf, "r"); if (f) { size_t n = fread(buf, 1, 4095, f); buf[n] = 0; fclose(f); } }
    const char *e = strstr(buf, "ERROR: "); if (!e) e = strstr(buf, "runtime error"); if (!e) e = strstr(buf, "Assertion"); if (!e) e = strstr(buf, "terminate called"); if (!e) e = buf;
    char l[300]; snprintf(l, sizeof l, "%.250s", e); l[strcspn(l, "\n")] = 0;
    // strip addresses so that two runs compare equal
    for (char *c = l; (c = strstr(c, "0x")); ) { char *q = c + 2; while (*q && strchr("0123456789abcdef", *q)) q++; memmove(c, q, strlen(q) + 1); }
    snprintf(msg, 2000, "crash: %s", l[0] ? l : "process died");
    return 1;
}

static int explore(const char *prop, const char *pat, int jobs, double cap, const char *out, const char *rdir) {
    double t0 = wall(); deadline = t0 + cap; JOBS = jobs;
    for (int i = 0; i < ng; i++) if ((!prop || strstr(gs[i].prop, prop)) && (!pat || (pat[0] == '=' ? !strcmp(gs[i].name, pat + 1) : strstr(gs[i].name, pat) != nullptr)) && (thorough || !gs[i].o.thorough_only)) sel[nsel++] = i;
    if (!nsel) { fprintf(stderr, "no group selected\n"); return 3; }
    pid_t pid[MAXW]; int alive = 0; char errp[MAXW][64];
    for (int w = 0; w < jobs; w++) {
        snprintf(errp[w], 64, "/tmp/.seq.%d.%d", getpid(), w);
        if (!(pid[w] = fork_retry())) { int fd = open(errp[w], O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); close(fd); worker(w, 0); }
        alive++;
    }
    uint64_t lb[MAXW] = {}; double lt[MAXW]; for (auto &x: lt) x = wall();
    int bad = -1; int infra = 0, killed = 0;
    while (alive) {
        int st; pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            int w = -1; for (int i = 0; i < jobs; i++) if (pid[i] == p) w = i;
            if (w < 0) continue;
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && killed++ < 20) { // ended from outside (memory ran out): the group is run again
                usleep(500000);
                int first = ctl->slot[w].sidx;
                ctl->slot[w].busy = 0;
                if (!(pid[w] = fork_retry())) { int fd = open(errp[w], O_CREAT | O_TRUNC | O_WRONLY, 0644); dup2(fd, 2); close(fd); worker(w, first); }
                lt[w] = wall();
                continue;
            }
            alive--; pid[w] = 0;
            if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                if (WIFEXITED(st) && WEXITSTATUS(st) == 3) infra = 1;
                if (bad < 0 || ctl->slot[w].n < ctl->slot[bad].n) bad = w;
                ctl->stop = 1;
            }
            continue;
        }
        for (int w = 0; w < jobs; w++) if (pid[w]) {
            if (ctl->slot[w].beat != lb[w] || !ctl->slot[w].busy) { lb[w] = ctl->slot[w].beat; lt[w] = wall(); }
            else if (wall() - lt[w] > 40) { kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; alive--; if (bad < 0) bad = w; ctl->stop = 1; }
        }
        usleep(1000);
    }
    for (int w = 0; w < jobs; w++) unlink(errp[w]);
    int rc = infra ? 3 : 0; char m1[2000] = "", m2[2000], rp[1000] = ""; int badg = -1;
    if (bad >= 0 && !infra) {
        static Slot s; memcpy((void *)&s, &ctl->slot[bad], sizeof s); badg = s.g;
        char ef[80]; snprintf(ef, sizeof ef, "/tmp/.seq.%d.r", getpid());
        int a = replay_path(s, m1, ef, 90), b = replay_path(s, m2, ef, 90);
        if (a <= 0 || b <= 0 || strcmp(m1, m2)) { fprintf(stderr, "seq: violation did not replay: \"%s\" / \"%s\" / \"%s\"\n", s.msg, m1, m2); rc = 3; }
        else {
            rc = 1;
            snprintf(rp, sizeof rp, "%s/%s-%s.replay", rdir, prop ? prop : "X", gs[s.g].name);
            FILE *f = fopen(rp, "w");
            if (f) {
                fprintf(f, "group %s\npath", gs[s.g].name); for (int i = 0; i < s.n; i++) fprintf(f, " %d", s.c[i]);
                fprintf(f, "\nmessage %s\ncase %s\n", m1, ctl->slot[MAXW - 1].note);
                if (s.ncur) { fprintf(f, "input"); for (int i = 0; i < s.ncur; i++) fprintf(f, " %02x", (unsigned char)s.cur[i]); fprintf(f, "\n"); }
                FILE *e = fopen(ef, "r"); int c; if (e) { while ((c = fgetc(e)) != EOF) fputc(c, f); fclose(e); }
                fclose(f);
            }
        }
        unlink(ef);
    }
    FILE *f = out ? fopen(out, "w") : stdout; uint64_t ev = 0, tr = 0, sts = 0, bk = 0; bool capd = false, first = true;
    fprintf(f, "{\"scenarios\": [");
    for (int i = 0; i < ng; i++) {
        Stat &s = ctl->st[i]; if (!s.runs) continue;
        ev += s.runs; tr += s.steps; sts += s.states; bk += s.bulk; if (s.capped) capd = true;
        fprintf(f, "%s\n {\"name\": ", first ? "" : ","); first = false; js(f, gs[i].name);
        fprintf(f, ", \"executions\": %llu, \"inputs\": %llu, \"choice_points\": %llu, \"states\": %llu, \"max_points\": %llu, \"capped\": %s, \"samples\": [", (unsigned long long)s.runs, (unsigned long long)s.bulk,
            (unsigned long long)s.steps, (unsigned long long)s.states, (unsigned long long)s.maxd, s.capped ? "true" : "false");
        for (int k = 0; k < s.ns; k++) { if (k) fprintf(f, ", "); js(f, s.sample[k]); }
        fprintf(f, "]}");
    }
    fprintf(f, "\n], \"executions\": %llu, \"inputs\": %llu, \"states\": %llu, \"transitions\": %llu, \"capped\": %s, \"wall_s\": %.2f, \"rc\": %d, \"violation\": ", (unsigned long long)ev, (unsigned long long)bk, (unsigned long long)sts, (unsigned long long)tr, capd ? "true" : "false", wall() - t0, rc);
    if (rc == 1) { fprintf(f, "{\"scenario\": "); js(f, gs[badg].name); fprintf(f, ", \"cost\": 0, \"message\": "); js(f, m1); fprintf(f, ", \"replay\": "); js(f, rp); fprintf(f, "}"); printf("violation in %s: %s\n", gs[badg].name, m1); }
    else fprintf(f, "null");
    fprintf(f, "}\n"); if (out) fclose(f);
    return rc;
}
static int do_replay(const char *path) {
    FILE *f = fopen(path, "r"); if (!f) { perror(path); return 3; }
    static char line[65536]; static Slot s; memset((void *)&s, 0, sizeof s); s.g = -1;
    while (fgets(line, sizeof line, f)) {
        line[strcspn(line, "\n")] = 0;
        if (!strncmp(line, "group ", 6)) { for (int i = 0; i < ng; i++) if (!strcmp(gs[i].name, line + 6)) s.g = i; }
        else if (!strncmp(line, "path", 4)) { char *p = line + 4; int v, n; while (sscanf(p, " %d%n", &v, &n) == 1) { s.c[s.n++] = v; p += n; } break; }
    }
    fclose(f);
    if (s.g < 0) { fprintf(stderr, "unknown group\n"); return 3; }
    char m[2000]; int r = replay_path(s, m, 0, 120);
    if (r) { printf("reproduced: %s\n", m); return 1; }
    printf("no violation\n"); return 0;
}
}
int main(int argc, char **argv) {
    using namespace seq;
    const char *prop = 0, *pat = 0, *out = 0, *rp = 0, *rdir = "/tmp"; int jobs = 8; double cap = 600;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--prop") prop = argv[++i]; else if (a == "--scen") pat = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]);
        else if (a == "--cap") cap = atof(argv[++i]); else if (a == "--out") out = argv[++i]; else if (a == "--thorough") thorough = true;
        else if (a == "--replay") rp = argv[++i]; else if (a == "--replay-dir") rdir = argv[++i]; else if (a == "--known") ++i;
        else if (a == "--list") { for (int k = 0; k < ng; k++) printf("%s %s\n", gs[k].prop, gs[k].name); return 0; }
        else { fprintf(stderr, "unknown option %s\n", argv[i]); return 3; }
    }
    if (jobs > MAXW - 1) jobs = MAXW - 1;
    ctl = (Ctl *)mmap(0, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    stt = (uint64_t *)mmap(0, STN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (rp) return do_replay(rp);
    return explore(prop, pat, jobs, cap, out, rdir);
}
