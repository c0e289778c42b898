// mcdrv.c: batch driver around the real Minim runtime.
//
// Reads one case per line from a file, evaluates every expression on the line
// through the same entry points the shipped executable uses (read_object,
// check_expr, eval_expr; or the library REPL), and writes one result line per
// case:  K \t payload \t stdout \t stderr
//   K = V value(s) of the last expression      (payload: canonical datum text)
//       E the program reported an error / called exit (payload: exit code)
//       S killed by a signal                    (payload: signal number)
//       T timed out
// All fields are escaped (\\ \t \n \r \0 and non printable bytes as \xNN).
//
// Process structure: the parent forks a child that keeps evaluating cases; when
// a child dies the parent records how and forks the next child at the next case.
#define _GNU_SOURCE
#include "boot/boot.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>

static volatile long *progress;     // shared: index of the case being run
static char **cases;
static long ncases;
static FILE *outf;
static int mode_repl = 0, opt_serve = 0, opt_fresh = 0, per_case_env = 1, opt_boot = 0, timeout_ms = 4000;
static const char *repl_target;

#ifdef MC_STRESS_GC
static long gc_period, gc_phase;
static volatile long *stats;        // shared: allocations, collections, freed objects
static void *stack_bottom;
#endif
static jmp_buf top;
static volatile int in_case = 0;
static volatile int exit_code = 0;
static mobj tc_snap[tc_size / sizeof(mobj)];    // static data: scanned by the collector
static mobj case_tenv;

void __real_exit(int code);
void __wrap_exit(int code) {
    if (in_case) { exit_code = code; longjmp(top, 1); }
    __real_exit(code);
}
void __wrap_GC_deinit(void) { }

static void esc(FILE *f, const char *s, size_t n) {
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '\\') fputs("\\\\", f);
        else if (c == '\n') fputs("\\n", f);
        else if (c == '\t') fputs("\\t", f);
        else if (c < 32 || c >= 127) fprintf(f, "\\x%02x", c);
        else fputc(c, f);
    }
}

// canonical printer, independent of the printer under test
static void show(FILE *f, mobj o, int depth) {
    if (depth > 4000) { fputs("#<deep>", f); return; }
    if (o == NULL) fputs("#<NULL>", f);
    else if (minim_nullp(o)) fputs("()", f);
    else if (minim_truep(o)) fputs("#t", f);
    else if (minim_falsep(o)) fputs("#f", f);
    else if (minim_eofp(o)) fputs("#<eof>", f);
    else if (minim_voidp(o)) fputs("#<void>", f);
    else if (minim_unboundp(o)) fputs("#<unbound>", f);
    else if (minim_charp(o)) fprintf(f, "#\\%d", (int) minim_char(o));
    else if (minim_fixnump(o)) fprintf(f, "%ld", (long) minim_fixnum(o));
    else if (minim_symbolp(o)) { fputc('|', f); fputs((char *) minim_symbol(o), f); fputc('|', f); }
    else if (minim_stringp(o)) {
        fputc('"', f);
        for (char *s = minim_string(o); *s; s++) {
            if (*s == '"' || *s == '\\') fputc('\\', f);
            fputc(*s, f);
        }
        fputc('"', f);
    }
    else if (minim_consp(o)) {
        long n = 0;
        fputc('(', f);
        show(f, minim_car(o), depth + 1);
        o = minim_cdr(o);
        while (minim_consp(o)) {
            if (++n > 200000) { fputs(" #<long>", f); o = minim_null; break; }
            fputc(' ', f);
            show(f, minim_car(o), depth + 1);
            o = minim_cdr(o);
        }
        if (!minim_nullp(o)) { fputs(" . ", f); show(f, o, depth + 1); }
        fputc(')', f);
    }
    else if (minim_vectorp(o)) {
        fputs("#(", f);
        for (long i = 0; i < (long) minim_vector_len(o); i++) {
            if (i) fputc(' ', f);
            show(f, minim_vector_ref(o, i), depth + 1);
        }
        fputc(')', f);
    }
    else if (minim_boxp(o)) { fputs("#&", f); show(f, minim_unbox(o), depth + 1); }
    else if (minim_closurep(o)) fputs("#<procedure>", f);
    else if (minim_input_portp(o)) fputs("#<input-port>", f);
    else if (minim_output_portp(o)) fputs("#<output-port>", f);
    else if (minim_hashtablep(o)) fputs("#<hashtable>", f);
    else if (minim_syntaxp(o)) { fputs("#<syntax ", f); show(f, minim_syntax_e(o), depth + 1); fputc('>', f); }
    else if (minim_recordp(o)) fputs("#<record>", f);
    else if (minim_envp(o) || minim_top_envp(o)) fputs("#<environment>", f);
    else fputs("#<other>", f);
}

static int cap_out, cap_err;        // memfds standing in for fd 1 and 2
#define CAPSIZE (1 << 20)
static char *capbuf;
static size_t slurp(int fd) {
    off_t n = lseek(fd, 0, SEEK_END);
    if (n > (off_t) CAPSIZE) n = CAPSIZE;
    if (n > 0 && pread(fd, capbuf, n, 0) != n) n = 0;
    return n;
}
static void capreset(void) {
    fflush(stdout); fflush(stderr);
    if (ftruncate(cap_out, 0)) {}
    if (ftruncate(cap_err, 0)) {}
    lseek(cap_out, 0, SEEK_SET);
    lseek(cap_err, 0, SEEK_SET);
}

static void arm(int ms) {
    struct itimerval it = { { 0, 0 }, { ms / 1000, (ms % 1000) * 1000 } };
    setitimer(ITIMER_REAL, &it, NULL);
}

static void emit_captured(void) {
    size_t n;
    fflush(stdout); fflush(stderr);
    fputc('\t', outf);
    n = slurp(cap_out); esc(outf, capbuf, n);
    fputc('\t', outf);
    n = slurp(cap_err); if (n > 4000) n = 4000; esc(outf, capbuf, n);
    fputc('\n', outf);
    fflush(outf);
}

static void reset_tc(void) {
    memcpy(current_tc(), tc_snap, tc_size);
}

static void run_prelude_case(char *text) {
    mobj tc = current_tc(), expr, res = minim_void;
    FILE *f;
    char *buf; size_t len; FILE *ms;

    reset_tc();
    tc_env(tc) = NULL;
    if (per_case_env) tc_tenv(tc) = top_env_copy(case_tenv, 1);
    else tc_tenv(tc) = case_tenv;

    in_case = 1;
    if (setjmp(top) != 0) {
        in_case = 0;
        fprintf(outf, "E\t%d", exit_code);
        emit_captured();
        return;
    }
    f = fmemopen(text, strlen(text) ? strlen(text) : 1, "r");
    if (strlen(text) == 0) { fgetc(f); }
    while ((expr = read_object(f)) != NULL) {
        check_expr(expr);
        res = eval_expr(tc, expr);
    }
    fclose(f);
    in_case = 0;
    ms = open_memstream(&buf, &len);
    if (minim_valuesp(res)) {
        fputs("#<values", ms);
        for (int i = 0; i < (int) tc_vc(tc); i++) { fputc(' ', ms); show(ms, tc_values(tc)[i], 0); }
        fputc('>', ms);
    } else show(ms, res, 0);
    fclose(ms);
    fputs("V\t", outf);
    esc(outf, buf, len);
    free(buf);
    emit_captured();
}

#define HANDOVER 99

// What the end of a child means: records how the case at *progress ended if it
// ended badly; the case to go on with.
static long settle(int st) {
    static long deaths, timeouts;
    fseek(outf, 0, SEEK_END);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return ncases;
    long at = *progress;
    if (WIFEXITED(st) && WEXITSTATUS(st) == HANDOVER) return at;
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { timeouts++; fprintf(outf, "T\t0"); }
    else if (WIFSIGNALED(st)) fprintf(outf, "S\t%d", WTERMSIG(st));
    else fprintf(outf, "X\t%d", WEXITSTATUS(st));
    size_t k;
    fputc('\t', outf); k = slurp(cap_out); if (k > 4000) k = 4000; esc(outf, capbuf, k);
    fputc('\t', outf); k = slurp(cap_err); if (k > 4000) k = 4000; esc(outf, capbuf, k); fputc('\n', outf);
    at++;
    if (++deaths > 2000 || timeouts >= 3)
        // far beyond anything a working tree does: leave the rest unanswered
        for (; at < ncases; at++) fprintf(outf, "N\t0\t\t\n");
    fflush(outf);
    return at;
}

// ---- library REPL mode -------------------------------------------------
// The target is loaded once; when its REPL first asks for input the process
// becomes a server that forks a child for the next cases from that very state.
static long repl_next, repl_cur = -1, repl_ran;
static int repl_server = 1;

static void handover(void) {
    // every case starts in a child of its own
    fflush(outf);
    *progress = repl_next;
    _exit(HANDOVER);
}

static ssize_t repl_read(void *c, char *buf, size_t size) {
    // the REPL wants more input: the previous case is complete
    if (repl_cur >= 0) {
        fprintf(outf, "V\t");
        arm(0);
        emit_captured();
        repl_cur = -1;
    }
    while (repl_server) {
        if (repl_next >= ncases) { fflush(outf); _exit(0); }
        fflush(outf);
        *progress = repl_next;
        pid_t p = fork();
        if (p < 0) _exit(5);
        if (p == 0) { repl_server = 0; break; }
        int st;
        waitpid(p, &st, 0);
        repl_next = settle(st);
    }
    if (repl_next >= ncases) { fflush(outf); _exit(0); }
    if (opt_fresh && repl_ran) handover();
    repl_ran = 1;
    repl_cur = repl_next++;
    *progress = repl_cur;
    capreset();
    arm(timeout_ms);
    size_t n = strlen(cases[repl_cur]);
    if (n + 1 > size) { fprintf(stderr, "case too long\n"); _exit(3); }
    memcpy(buf, cases[repl_cur], n);
    buf[n] = '\n';
    return n + 1;
}

static void child_repl(long start) {
    mobj tc = current_tc();
    repl_next = start;
    reset_tc();
    tc_env(tc) = NULL;
    tc_tenv(tc) = case_tenv;
    in_case = 1;
    if (setjmp(top) != 0) {
        in_case = 0;
        if (repl_server) _exit(4);
        arm(0);
        fprintf(outf, "E\t%d", exit_code);
        emit_captured();
        repl_cur = -1;
        if (repl_next >= ncases) { fflush(outf); _exit(0); }
        handover();
    }
    eval_expr(tc, Mlist2(intern("load"), Mstring((char *) repl_target)));
    in_case = 0;
    _exit(4);
}

static const long max_resident = 1500L << 20;

static long resident(void) {
    long a = 0, b = 0;
    FILE *f = fopen("/proc/self/statm", "r");
    if (f) { if (fscanf(f, "%ld %ld", &a, &b) != 2) b = 0; fclose(f); }
    return b * 4096;
}

static void child(long start) {
    long i;
    char *errbuf = malloc(1 << 16);
    dup2(cap_out, 1); dup2(cap_err, 2);
    setvbuf(stderr, errbuf, _IOFBF, 1 << 16);
    if (mode_repl) { child_repl(start); _exit(0); }
    for (i = start; i < ncases; i++) {
        *progress = i;
        if (((i - start) & 127) == 127 && resident() > max_resident) {
            // grown too large (the sanitizer build never frees): hand over to a fresh child
            fflush(outf);
            _exit(HANDOVER);
        }
        capreset();
        arm(timeout_ms);
#ifdef MC_STRESS_GC
        // collect throughout the case; its objects and its marks on old pages die with this child
        if (gc_period) stress_begin(gc_period, gc_phase, stack_bottom);
        run_prelude_case(cases[i]);
        arm(0);
        if (gc_period) {
            long a, c, f;
            stress_end(&a, &c, &f);
            stats[0] += a; stats[1] += c; stats[2] += f;
            fflush(outf);
            *progress = i + 1;
            _exit(i + 1 < ncases ? HANDOVER : 0);
        }
#else
        run_prelude_case(cases[i]);
        arm(0);
#endif
    }
    fflush(outf);
    _exit(0);
}

// One worker: its cases, where its results go, and what it captures output in.
static int prepare(const char *in, const char *out) {
    FILE *f = fopen(in, "r");
    if (!f) { perror(in); return 2; }
    char *line = NULL; size_t cap = 0; ssize_t n; long alloc = 0;
    while ((n = getline(&line, &cap, f)) >= 0) {
        if (n && line[n - 1] == '\n') line[--n] = 0;
        if (ncases == alloc) { alloc = alloc ? 2 * alloc : 1024; cases = realloc(cases, alloc * sizeof(char *)); }
        cases[ncases++] = strdup(line);
    }
    fclose(f);
    outf = fopen(out, "w");
    if (!outf) { perror(out); return 2; }
    progress = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    capbuf = malloc(CAPSIZE);
    cap_out = memfd_create("out", 0); cap_err = memfd_create("err", 0);
    if (cap_out < 0 || cap_err < 0) { perror("memfd"); return 2; }
#ifdef MC_STRESS_GC
    stats = (long *) progress + 1;
#endif
    return 0;
}

static void usage(void) { fprintf(stderr, "usage: mcdrv [--boot] [--repl FILE] [--fresh] [--noenv] [--timeout MS] IN OUT ...\n"); __real_exit(2); }

int main(int argc, char **argv) {
    volatile int stack_top = 0;
    const char *pre = NULL;
    int i, argi = 1;
    (void) stack_top;
    for (; argi < argc && argv[argi][0] == '-'; argi++) {
        if (!strcmp(argv[argi], "--boot")) opt_boot = 1;
        else if (!strcmp(argv[argi], "--fresh")) opt_fresh = 1;
        else if (!strcmp(argv[argi], "--repl")) { opt_boot = 1; mode_repl = 1; repl_target = argv[++argi]; }
        else if (!strcmp(argv[argi], "--serve")) opt_serve = 1;
        else if (!strcmp(argv[argi], "--noenv")) per_case_env = 0;
        else if (!strcmp(argv[argi], "--timeout")) timeout_ms = atoi(argv[++argi]);
#ifdef MC_STRESS_GC
        else if (!strcmp(argv[argi], "--gc")) { gc_period = atol(argv[++argi]); gc_phase = atol(argv[++argi]); }
#endif
        else if (!strcmp(argv[argi], "--pre")) pre = argv[++argi];
        else usage();
    }
    if (opt_serve ? argc != argi : argc - argi < 2 || (argc - argi) % 2) usage();

    if (mode_repl) {
        cookie_io_functions_t io = { .read = repl_read };
        FILE *ck = fopencookie(NULL, "r", io);
        setvbuf(ck, malloc(1 << 20), _IOFBF, 1 << 20);
        stdin = ck;
    }

#ifdef MC_STRESS_GC
    stack_bottom = __builtin_frame_address(0);
#endif
    GC_init(((void *) &stack_top));
    minim_boot_init();
    mobj tc = current_tc();
    load_prelude(tc);
    if (opt_boot) {
        char *old = get_current_dir();
        set_current_dir(MC_BOOT_DIR);
        load_file(tc, "boot.min");
        set_current_dir(old);
    }
    if (pre) load_file(tc, pre);
    if (mode_repl) {
        // load the target's module graph once, before forking
        eval_expr(tc, Mlist2(intern("import"), Mstring((char *) repl_target)));
    }
    memcpy(tc_snap, tc, tc_size);
    case_tenv = tc_tenv(tc);

    // a server prepares once and answers batch after batch: lines of a directory and pairs of files
    char *tok[256];
    int ntok = argc - argi;
    for (i = 0; i < ntok && i < 255; i++) tok[i] = argv[argi + i];
    if (opt_serve) {
        char *line = NULL; size_t cap = 0; ssize_t n;
        FILE *req = fdopen(dup(0), "r");
        for (;;) {
            fflush(NULL);
            if ((n = getline(&line, &cap, req)) < 0) _exit(0);
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 2; }
            if (p == 0) {
                char *save = NULL, *dir = strtok_r(line, " \n", &save);
                if (!dir || chdir(dir)) { perror("chdir"); _exit(2); }
                for (ntok = 0; ntok < 255 && (tok[ntok] = strtok_r(NULL, " \n", &save)); ntok++);
                int nul = open("/dev/null", O_RDONLY);
                dup2(nul, 0);
                close(nul);
                break;
            }
            int st;
            waitpid(p, &st, 0);
            printf("##done %d\n", WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st));
        }
    }

    // one worker for each pair of files, all from the state prepared above
    int workers = ntok / 2, worker = 0;
    if (workers > 1) {
        fflush(NULL);
        for (worker = 0; worker < workers; worker++) {
            pid_t p = fork();
            if (p < 0) { perror("fork"); return 2; }
            if (p == 0) break;
        }
        if (worker == workers) {
            int st, worst = 0;
            while (wait(&st) > 0)
                if (!WIFEXITED(st) || WEXITSTATUS(st)) worst = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
            _exit(worst);
        }
    }
    int bad = prepare(tok[2 * worker], tok[2 * worker + 1]);
    if (bad) _exit(bad);

    // every case runs in a forked child; a dead child is replaced
    long start = 0;
    signal(SIGALRM, SIG_DFL);
    while (start < ncases) {
        fflush(outf);
        *progress = start;
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) {
            struct rlimit rl = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            child(start);
            _exit(0);
        }
        int st;
        waitpid(p, &st, 0);
        start = settle(st);
    }
    fclose(outf);
#ifdef MC_STRESS_GC
    printf("stress %ld %ld %ld\n", stats[0], stats[1], stats[2]);
    fflush(stdout);
#endif
    (void) i;
    _exit(0);
}
