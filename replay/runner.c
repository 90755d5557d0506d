// Runs one harness entry natively on the bytes of a counterexample.
//   runner LIB ENTRY INPUTFILE MODE [ARGS...]
// MODE: r  buffers end at an unreadable page     l  buffers start after an unreadable page
//       m  buffers are plain malloc (for valgrind)
// Exit: 0 everything held, 10 check failed, 11 unexpected panic/abort, 12 bad memory access,
//       13 illegal instruction, 14 expected panic did not happen, 20 assumption not met, 21 harness
//       cannot judge, 2 usage.
// Environment: VP_POKE="off=value,..." 64-bit stores relative to the library's load address before
// the entry is called (used to set the cached CPU features), VP_MARK=1 prints the markers' address.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

static char **g_args;
static int g_nargs;
static unsigned char *g_in;
static size_t g_inlen, g_inpos;
static int g_expect;
static char g_mode;
volatile long vp_mark_begin, vp_mark_end;

static void say(const char *s) { if (write(1, s, strlen(s)) < 0) {} }

static void on_sig(int s)
{
    if (s == SIGABRT || s == SIGTRAP) {
        if (g_expect) { say("panic (expected)\n"); _exit(0); }
        say("panic\n");
        _exit(11);
    }
    if (s == SIGILL) {
        // `ud2` is how an abort looks as well, but the harness library panics through abort()
        say("illegal instruction\n");
        _exit(13);
    }
    say("invalid memory access\n");
    _exit(12);
}

int64_t vp_arg(int i) { return i < g_nargs ? strtoll(g_args[i], 0, 10) : 0; }

unsigned char *vp_alloc(size_t n)
{
    if (g_mode == 'm') return malloc(n ? n : 1);
    size_t pg = 4096, body = (n + pg - 1) / pg * pg;
    if (body == 0) body = pg;
    unsigned char *p = mmap(0, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) _exit(2);
    mprotect(p + pg, body, PROT_READ | PROT_WRITE);
    memset(p + pg, 0xA5, body);
    return g_mode == 'l' ? p + pg : p + pg + body - n;
}

void vp_sym(unsigned char *p, size_t n)
{
    for (size_t i = 0; i < n; i++) p[i] = g_inpos < g_inlen ? g_in[g_inpos++] : 0;
}
void vp_assume(_Bool c) { if (!c) { say("assumption not met\n"); _exit(20); } }
static void fail(uint32_t id, const unsigned char *a, const unsigned char *b, size_t n)
{
    printf("check %u failed\n", id);
    for (int k = 0; k < 2; k++) {
        const unsigned char *x = k ? b : a;
        if (!x) continue;
        printf("  %s ", k ? "want" : "got ");
        for (size_t i = 0; i < n; i++) printf("%02x", x[i]);
        printf("\n");
    }
    fflush(stdout);
    _exit(10);
}
void vp_check(_Bool c, uint32_t id) { if (!c) fail(id, 0, 0, 0); }
void vp_check_eq(const unsigned char *a, const unsigned char *b, size_t n, uint32_t id)
{
    if (n && memcmp(a, b, n)) fail(id, a, b, n);
}
void vp_expect_panic(_Bool on) { g_expect = on; }
void vp_ct(_Bool on) { if (on) vp_mark_begin = 1; else vp_mark_end = 1; }
void vp_out(const unsigned char *p, size_t n)
{
    printf("out ");
    for (size_t i = 0; i < n; i++) printf("%02x", p[i]);
    printf("\n");
    fflush(stdout);
}
void vp_reach(uint32_t id) { (void)id; }
void vp_feature(const unsigned char *p, size_t n, _Bool on) { (void)p; (void)n; (void)on; }
void vp_unsupported(void) { say("cannot judge\n"); _exit(21); }

int main(int argc, char **argv)
{
    if (argc < 5) return 2;
    FILE *f = fopen(argv[3], "rb");
    if (!f) return 2;
    g_in = malloc(1 << 20);
    g_inlen = fread(g_in, 1, 1 << 20, f);
    fclose(f);
    g_mode = argv[4][0];
    g_args = argv + 5;
    g_nargs = argc - 5;
    void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
    void (*e)(void) = (void (*)(void))dlsym(h, argv[2]);
    if (!e) { fprintf(stderr, "no %s\n", argv[2]); return 2; }
    struct link_map *lm = 0;
    dlinfo(h, RTLD_DI_LINKMAP, &lm);
    const char *poke = getenv("VP_POKE");
    while (poke && *poke) {
        char *q;
        uint64_t off = strtoull(poke, &q, 16);
        if (*q != '=') return 2;
        uint64_t v = strtoull(q + 1, &q, 16);
        *(volatile uint64_t *)(lm->l_addr + off) = v;
        poke = *q == ',' ? q + 1 : q;
    }
    if (getenv("VP_MARK")) {
        printf("marks %lx %lx\n", (unsigned long)&vp_mark_begin, (unsigned long)&vp_mark_end);
        fflush(stdout);
    }
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_sig;
    static char stk[65536];
    stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk };
    sigaltstack(&ss, 0);
    sa.sa_flags = SA_ONSTACK;
    int sigs[] = { SIGABRT, SIGTRAP, SIGSEGV, SIGBUS, SIGILL, SIGFPE };
    for (int i = 0; i < 6; i++) sigaction(sigs[i], &sa, 0);
    e();
    if (g_expect) { say("the expected panic did not happen\n"); return 14; }
    say("ok\n");
    return 0;
}
