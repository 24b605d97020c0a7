/* Calls the C interface, through its own header, with every argument in memory of exactly its length between guards,
 * and watches what comes back, for how long it stays, and what is left when it has been freed. */
#define _GNU_SOURCE
#include <sys/types.h>
#include "credential.h"
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#ifdef WITH_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
int __sanitizer_install_malloc_and_free_hooks(void (*m)(const volatile void *, size_t), void (*f)(const volatile void *));
size_t __sanitizer_get_allocated_size(const volatile void *p);
#endif
#ifdef WITH_VALGRIND
#include <valgrind/memcheck.h>
#endif

#define PAGE 4096
#define PAGES 8
#define MAXARGS 4
#define MAXDATA (PAGE * PAGES)

typedef unsigned char u8;

/* ---- recording ---- */

static int out_fd = 2;
static atomic_ulong violations;
static unsigned long thorough;
static unsigned long the_seed = 1;

enum { E_SUCCESS, E_FAILURE, E_OPEN, E_GUARDED, E_BYTES_READ, E_LIFETIME, E_NULL, E_LENGTH, E_MALFORMED, E_LEAK, E_FREED,
       E_THREADS, E_DEFINED, E_REPEAT, E_N };
static const char *const event_name[E_N] = {
    "calls that succeeded", "calls that failed", "opening checks", "arguments placed between guards",
    "kilobytes of returned buffers read", "buffers compared again while others were made and freed",
    "calls with a NULL pointer", "calls with another length", "calls with altered contents",
    "allocation balances taken", "buffers freed", "calls in concurrent threads", "buffers checked to be defined",
    "calls repeated with other surroundings" };
static atomic_ulong events[E_N];

static __thread char now_doing[512];

static void emit(const char *s) {
    size_t n = strlen(s);
    while (n) {
        ssize_t k = write(out_fd, s, n);
        if (k <= 0) break;
        s += k; n -= (size_t)k;
    }
}

static void viol(const char *sig, const char *fmt, ...) {
    char d[900], line[1600];
    va_list ap;
    unsigned long k = atomic_fetch_add(&violations, 1);
    if (k > 200) return;
    va_start(ap, fmt);
    vsnprintf(d, sizeof d, fmt, ap);
    va_end(ap);
    for (char *p = d; *p; p++) if (*p == '"' || *p == '\\' || (u8)*p < 32) *p = '\'';
    snprintf(line, sizeof line, "{\"t\": \"viol\", \"sig\": \"%s\", \"detail\": \"%s [%s]\", \"phase\": \"\", \"case\": 0}\n",
             sig, d, now_doing);
    emit(line);
}

static void harness(const char *what) {
    char line[600];
    snprintf(line, sizeof line, "{\"t\": \"error\", \"detail\": \"HARNESS: %s [%s]\"}\n", what, now_doing);
    emit(line);
    _exit(2);
}

static void on_signal(int s, siginfo_t *si, void *u) {
    (void)u;
    viol("crash", "signal %d at address %p", s, si->si_addr);
    _exit(1);
}

#ifdef WITH_ASAN
static void on_asan(void) {
    viol("sanitizer", "AddressSanitizer stopped the process; see its report in the monitor's standard error");
}
#endif

/* ---- randomness of our own ---- */

typedef struct { unsigned long s[2]; } rng_t;

static unsigned long rnd(rng_t *r) {
    unsigned long a = r->s[0], b = r->s[1];
    r->s[0] = b;
    a ^= a << 23;
    r->s[1] = a ^ b ^ (a >> 17) ^ (b >> 26);
    return r->s[1] + b;
}

static void rng_init(rng_t *r, unsigned long a, unsigned long b) {
    r->s[0] = a * 0x9e3779b97f4a7c15ul + 1;
    r->s[1] = b * 0xbf58476d1ce4e5b9ul + the_seed * 0x94d049bb133111ebul + 7;
    for (int i = 0; i < 20; i++) rnd(r);
}

static void fill(rng_t *r, u8 *p, size_t n) {
    for (size_t i = 0; i < n; i++) p[i] = (u8)(rnd(r) >> 11);
}

/* ---- allocations ---- */

static atomic_long live_blocks, live_bytes;
#ifdef WITH_ASAN
static void on_malloc(const volatile void *p, size_t n) {
    (void)n;
    if (p) { atomic_fetch_add(&live_blocks, 1); atomic_fetch_add(&live_bytes, (long)__sanitizer_get_allocated_size(p)); }
}
static void on_free(const volatile void *p) {
    if (p) { atomic_fetch_sub(&live_blocks, 1); atomic_fetch_sub(&live_bytes, (long)__sanitizer_get_allocated_size(p)); }
}
#endif

/* ---- guarded arguments ---- */

typedef struct { u8 *base; } region_t; /* PROT_NONE page, PAGES pages, PROT_NONE page */

static void region_make(region_t *g) {
    g->base = mmap(NULL, (PAGES + 2) * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g->base == MAP_FAILED) harness("mmap");
    g->base += PAGE;
}

/* Put `n` bytes at the end or the start of the region (or, with place 2, off by a little from the end) and make the whole
 * of it read-only.  What surrounds them is noise. */
static const u8 *region_put(region_t *g, const u8 *p, size_t n, int place, rng_t *r) {
    u8 *at;
    size_t shown = n > 200 ? n : 200;
    if (n > MAXDATA) harness("argument too long");
    if (mprotect(g->base, MAXDATA, PROT_READ | PROT_WRITE)) harness("mprotect");
#ifdef WITH_VALGRIND
    VALGRIND_MAKE_MEM_UNDEFINED(g->base, MAXDATA);
#endif
    at = place == 1 ? g->base : g->base + MAXDATA - n;
    /* Noise just around it. */
    if (place == 1) fill(r, at + n, MAXDATA - n > shown ? shown : MAXDATA - n);
    else { size_t k = (size_t)(at - g->base); if (k > shown) k = shown; fill(r, at - k, k); }
    memcpy(at, p, n);
    if (mprotect(g->base, MAXDATA, PROT_READ)) harness("mprotect");
#ifdef WITH_VALGRIND
    VALGRIND_MAKE_MEM_NOACCESS(g->base, MAXDATA);
    VALGRIND_MAKE_MEM_DEFINED(at, n);
#endif
    atomic_fetch_add(&events[E_GUARDED], 1);
    return at;
}

/* ---- the functions ---- */

enum { A_SEED, A_PARAMS, A_KEYPAIR, A_ISSUER, A_NUMBER, A_PRESENTATION, A_VERIFIED, A_IP, A_ISSUANCE, A_USER, A_ENTRY, A_KINDS };

typedef struct { const char *name; int n; int kind[MAXARGS]; } fn_t;
enum { F_PARAMS, F_CREATE, F_NEW, F_GET, F_ISSUE, F_VERIFY, F_ROSTER, F_OBTAIN, F_SHOW, F_ENTRY, F_REMOVE, F_OPEN, F_N };

static const fn_t fns[F_N] = {
    { "system_parameters_create", 1, { A_SEED } },
    { "issuer_create", 2, { A_PARAMS, A_SEED } },
    { "issuer_new", 2, { A_PARAMS, A_KEYPAIR } },
    { "issuer_get_issuer_parameters", 1, { A_ISSUER } },
    { "issuer_issue", 3, { A_ISSUER, A_NUMBER, A_SEED } },
    { "issuer_verify", 2, { A_ISSUER, A_PRESENTATION } },
    { "issuer_verify_roster_membership", 2, { A_ISSUER, A_VERIFIED } },
    { "user_obtain_finish", 4, { A_NUMBER, A_PARAMS, A_IP, A_ISSUANCE } },
    { "user_show", 3, { A_USER, A_ENTRY, A_SEED } },
    { "roster_entry_commitment_create", 3, { A_NUMBER, A_PARAMS, A_SEED } },
    { "roster_entry_commitment_remove_opening", 1, { A_ENTRY } },
    { "roster_entry_commitment_open", 3, { A_ENTRY, A_NUMBER, A_PARAMS } },
};

static buf_t raw_call(int f, const u8 *const p[], const uint64_t n[]) {
    switch (f) {
    case F_PARAMS: return system_parameters_create(p[0]);
    case F_CREATE: return issuer_create(p[0], n[0], p[1]);
    case F_NEW: return issuer_new(p[0], n[0], p[1], n[1]);
    case F_GET: return issuer_get_issuer_parameters(p[0], n[0]);
    case F_ISSUE: return issuer_issue(p[0], n[0], p[1], n[1], p[2]);
    case F_VERIFY: return issuer_verify(p[0], n[0], p[1], n[1]);
    case F_ROSTER: return issuer_verify_roster_membership(p[0], n[0], p[1], n[1]);
    case F_OBTAIN: return user_obtain_finish(p[0], n[0], p[1], n[1], p[2], n[2], p[3], n[3]);
    case F_SHOW: return user_show(p[0], n[0], p[1], n[1], p[2]);
    case F_ENTRY: return roster_entry_commitment_create(p[0], n[0], p[1], n[1], p[2]);
    case F_REMOVE: return roster_entry_commitment_remove_opening(p[0], n[0]);
    default: return roster_entry_commitment_open(p[0], n[0], p[1], n[1], p[2], n[2]);
    }
}

typedef struct { const u8 *p; uint64_t n; } arg_t;

typedef struct { int ok; uint64_t len; const u8 *ptr; } got_t;

typedef struct { region_t g[MAXARGS]; rng_t r; } thread_t;

static void thread_make(thread_t *t, unsigned long id) {
    for (int i = 0; i < MAXARGS; i++) region_make(&t->g[i]);
    rng_init(&t->r, id + 1, 12345);
}

static void give_back(const u8 *ptr, uint64_t len) {
    buf_t b = { len, ptr };
    buf_free(b);
    atomic_fetch_add(&events[E_FREED], 1);
}

/* What a call returned is either a buffer which can be read from end to end, or NULL and nothing. */
static void judge(int f, got_t *g) {
    if (f == F_OPEN) {
        if (g->ptr != NULL || g->len > 1) viol("open-result", "opening check returned %p and %lu", g->ptr, g->len);
        g->ok = g->len == 1;
        atomic_fetch_add(&events[E_OPEN], 1);
        return;
    }
    if (g->ptr == NULL) {
        if (g->len != 0) viol("null-with-length", "NULL pointer with length %lu", g->len);
        g->ok = 0;
        atomic_fetch_add(&events[E_FAILURE], 1);
        return;
    }
    g->ok = 1;
    if (g->len == 0 || g->len > 1 << 20) { viol("buffer-length", "pointer %p with length %lu", g->ptr, g->len); g->ok = 0; return; }
#ifdef WITH_ASAN
    const void *bad = __asan_region_is_poisoned((void *)g->ptr, g->len);
    if (bad) { viol("buffer-unreadable", "byte %ld of the %lu returned cannot be read", (long)((const u8 *)bad - g->ptr), g->len); g->ok = 0; return; }
#endif
#ifdef WITH_VALGRIND
    if (VALGRIND_CHECK_MEM_IS_ADDRESSABLE(g->ptr, g->len)) { viol("buffer-unreadable", "not all of the %lu bytes returned can be read", g->len); g->ok = 0; return; }
    if (VALGRIND_CHECK_MEM_IS_DEFINED(g->ptr, g->len)) viol("buffer-undefined", "some of the %lu bytes returned are not defined", g->len);
    atomic_fetch_add(&events[E_DEFINED], 1);
#endif
    volatile u8 sum = 0;
    for (uint64_t i = 0; i < g->len; i++) sum = (u8)(sum + g->ptr[i]);
    atomic_fetch_add(&events[E_BYTES_READ], g->len);
    atomic_fetch_add(&events[E_SUCCESS], 1);
}

/* Call `f`; an argument with a pointer of its own (`raw`) is passed as it is. */
static got_t call(thread_t *t, int f, const arg_t a[], const int place[], unsigned raw) {
    const u8 *p[MAXARGS];
    uint64_t n[MAXARGS];
    got_t g;
    int len = snprintf(now_doing, sizeof now_doing, "%s:", fns[f].name);
    for (int i = 0; i < fns[f].n; i++) {
        n[i] = a[i].n;
        p[i] = raw & (1u << i) ? a[i].p : region_put(&t->g[i], a[i].p, a[i].n, place ? place[i] : 0, &t->r);
        if (len < 400)
            len += snprintf(now_doing + len, sizeof now_doing - (size_t)len, " arg %d %s len %lu %s", i,
                            raw & (1u << i) ? (a[i].p ? "raw" : "NULL") : "guarded", a[i].n, place && place[i] ? "start" : "end");
    }
    buf_t b = raw_call(f, p, n);
    g.ptr = b.ptr;
    g.len = b.len;
    for (int i = 0; i < fns[f].n; i++)
        if (g.ptr && g.ptr + g.len > t->g[i].base - PAGE && g.ptr < t->g[i].base + MAXDATA + PAGE && !(raw & (1u << i)))
            viol("buffer-aliases-argument", "the returned buffer lies in argument %d", i);
    judge(f, &g);
    return g;
}

/* ---- objects to call them with ---- */

typedef struct { u8 b[A_KINDS][512]; uint64_t n[A_KINDS]; } world_t;

static void digits(rng_t *r, world_t *w, uint64_t n) {
    if (!n) n = 1 + rnd(r) % 26;
    w->n[A_NUMBER] = n;
    for (uint64_t i = 0; i < n; i++) w->b[A_NUMBER][i] = (u8)(rnd(r) % 10);
}

static void args_of(const world_t *w, int f, arg_t a[]) {
    for (int i = 0; i < fns[f].n; i++) {
        a[i].p = w->b[fns[f].kind[i]];
        a[i].n = w->n[fns[f].kind[i]];
    }
}

static void keep(thread_t *t, world_t *w, int f, int kind) {
    arg_t a[MAXARGS];
    args_of(w, f, a);
    got_t g = call(t, f, a, NULL, 0);
    if (!g.ok) { viol("honest-call-failed", "a call with valid arguments failed"); _exit(1); }
    if (g.len > 512) { viol("buffer-length", "%lu bytes", g.len); _exit(1); }
    memcpy(w->b[kind], g.ptr, g.len);
    w->n[kind] = g.len;
    give_back(g.ptr, g.len);
}

/* Everything there is, for a number of `n` digits, or of any length if that is 0. */
static void world_make(thread_t *t, world_t *w, uint64_t n) {
    memset(w, 0, sizeof *w);
    w->n[A_SEED] = 32;
#define RESEED fill(&t->r, w->b[A_SEED], 32)
    RESEED; keep(t, w, F_PARAMS, A_PARAMS);
    RESEED; keep(t, w, F_CREATE, A_KEYPAIR);
    keep(t, w, F_NEW, A_ISSUER);
    keep(t, w, F_GET, A_IP);
    digits(&t->r, w, n);
    RESEED; keep(t, w, F_ISSUE, A_ISSUANCE);
    keep(t, w, F_OBTAIN, A_USER);
    RESEED; keep(t, w, F_ENTRY, A_ENTRY);
    RESEED; keep(t, w, F_SHOW, A_PRESENTATION);
    keep(t, w, F_VERIFY, A_VERIFIED);
    RESEED;
}

#define WORLDS 4
static world_t worlds[WORLDS];

/* The part of a result which depends on nothing but the arguments. */
static uint64_t deterministic(int f, uint64_t n) {
    if (f == F_ISSUE || f == F_SHOW) return n < 128 ? n : 128;
    return n;
}

/* ---- phases ---- */

static void phase_placements(thread_t *t, int rounds) {
    for (int k = 0; k < rounds; k++) for (int f = 0; f < F_N; f++) {
        const world_t *w = &worlds[rnd(&t->r) % WORLDS];
        arg_t a[MAXARGS];
        u8 first[512];
        uint64_t first_n = 0;
        args_of(w, f, a);
        for (unsigned m = 0; m < 1u << fns[f].n; m++) {
            int place[MAXARGS];
            for (int i = 0; i < fns[f].n; i++) place[i] = (m >> i) & 1;
            got_t g = call(t, f, a, place, 0);
            if (!g.ok) { viol("honest-call-failed", "valid arguments failed at some addresses"); continue; }
            /* What lies around the arguments must not matter. */
            if (m == 0) { first_n = g.len; if (g.ptr) memcpy(first, g.ptr, g.len > 512 ? 512 : g.len); }
            else {
                atomic_fetch_add(&events[E_REPEAT], 1);
                if (g.len != first_n || (g.ptr && memcmp(first, g.ptr, deterministic(f, g.len))))
                    viol("depends-on-surroundings", "the result depends on what is around the arguments");
            }
            if (g.ptr) give_back(g.ptr, g.len);
        }
    }
}

static void expect_failure(int f, got_t *g, const char *why) {
    if (g->ok) {
        viol("accepted", "%s was not a failure", why);
        if (g->ptr) give_back(g->ptr, g->len);
    }
    (void)f;
}

static u8 *nothing_there; /* a page which cannot be read */

static void phase_nulls(thread_t *t, int rounds) {
    for (int k = 0; k < rounds; k++) for (int f = 0; f < F_N; f++) {
        const world_t *w = &worlds[rnd(&t->r) % WORLDS];
        for (unsigned m = 1; m < 1u << fns[f].n; m++) {
            static const uint64_t lens[] = { 0, 1, 32, 64, ~0ul, 1ul << 63, 1ul << 32 };
            for (int v = 0; v < 10; v++) {
                arg_t a[MAXARGS];
                int has_buffer = 0;
                args_of(w, f, a);
                for (int i = 0; i < fns[f].n; i++) if (m >> i & 1) {
                    int is_seed = fns[f].kind[i] == A_SEED;
                    has_buffer |= !is_seed;
                    if (v < 7) { a[i].p = NULL; if (!is_seed) a[i].n = lens[v]; }
                    else if (v == 7) { a[i].p = NULL; }
                    else if (!is_seed) { a[i].p = v == 8 ? nothing_there : (const u8 *)1; a[i].n = 0; }
                    else { a[i].p = NULL; }
                }
                if (v > 0 && v < 7 && !has_buffer) continue;
                got_t g = call(t, f, a, NULL, m);
                expect_failure(f, &g, "a NULL pointer or zero length");
                atomic_fetch_add(&events[E_NULL], 1);
            }
        }
    }
}

static void phase_lengths(thread_t *t, int step) {
    static u8 big[MAXDATA];
    for (int f = 0; f < F_N; f++) for (int i = 0; i < fns[f].n; i++) {
        if (fns[f].kind[i] == A_SEED) continue;
        const world_t *w = &worlds[rnd(&t->r) % WORLDS];
        uint64_t right = w->n[fns[f].kind[i]];
        int number = fns[f].kind[i] == A_NUMBER;
        for (uint64_t n = 1; n <= right + 70 + 8; n += 1 + rnd(&t->r) % (unsigned long)step) {
            arg_t a[MAXARGS];
            uint64_t m = n;
            if (n > right + 70) { static const uint64_t odd[] = { 511, 512, 1000, 4095, 4096, 4097, 10000, MAXDATA }; m = odd[n - right - 71]; }
            args_of(w, f, a);
            fill(&t->r, big, m < 1024 ? m : 1024);
            if (number) for (uint64_t j = 0; j < m; j++) big[j] = (u8)(rnd(&t->r) % 10);
            memcpy(big, a[i].p, m < right ? m : right);
            if (rnd(&t->r) % 2) memset(big + (m < right ? m : right), 0, m > right ? m - right : 0);
            a[i].p = big;
            a[i].n = m;
            int place[MAXARGS] = { 0, 0, 0, 0 };
            /* Where the argument ends at a guard, and where it starts at one. */
            for (int at = 0; at < (step > 1 && rnd(&t->r) % 4 ? 1 : 2); at++) {
                place[i] = at;
                got_t g = call(t, f, a, place, 0);
                atomic_fetch_add(&events[E_LENGTH], 1);
                /* Keys for more or fewer attributes have other lengths. */
                int kind = fns[f].kind[i];
                int other = (kind == A_KEYPAIR || kind == A_ISSUER || kind == A_IP || kind == A_USER) && m % 32 == 0;
                if (m != right && !other && (!number || m > 26)) expect_failure(f, &g, "an argument of the wrong length");
                else if (g.ptr) give_back(g.ptr, g.len);
            }
        }
    }
}

/* Numbers of every length, each with objects of its own. */
static void phase_numbers(thread_t *t, int rounds) {
    for (int k = 0; k < rounds; k++) for (uint64_t n = 1; n <= 26; n++) {
        world_t w;
        world_make(t, &w, n);
        for (int f = 0; f < F_N; f++) for (int at = 0; at < 2; at++) {
            int place[MAXARGS] = { at, at, at, at };
            arg_t a[MAXARGS];
            args_of(&w, f, a);
            got_t g = call(t, f, a, place, 0);
            if (!g.ok) viol("honest-call-failed", "a call with valid arguments, for a number of %lu digits, failed", n);
            if (g.ptr) give_back(g.ptr, g.len);
            atomic_fetch_add(&events[E_REPEAT], 1);
        }
    }
}

static void alter(rng_t *r, u8 *p, uint64_t n, const world_t *v) {
    if (!n) return;
    switch (rnd(r) % 9) {
    case 0: p[rnd(r) % n] ^= (u8)(1u << rnd(r) % 8); break;
    case 1: p[rnd(r) % n] = (u8)rnd(r); break;
    case 2: { uint64_t i = rnd(r) % n, k = 32 < n - i ? 32 : n - i; memset(p + i, rnd(r) % 2 ? 0xff : 0, k); break; }
    case 3: fill(r, p, n); break;
    case 4: memset(p, (int)(rnd(r) % 3 == 0 ? 0 : rnd(r)), n); break;
    case 5: { /* a field of the same kind from elsewhere */
        uint64_t i = n >= 32 ? 32 * (rnd(r) % (n / 32)) : 0;
        if (n >= 32) memcpy(p + i, v->b[rnd(r) % A_KINDS], 32);
        break; }
    case 6: /* length prefixes */
        for (uint64_t i = 0; i + 8 <= n; i++) if (p[i] == 32 && !p[i + 1] && !p[i + 2] && !p[i + 7] && rnd(r) % 4 == 0) {
            fill(r, p + i, 8);
            if (rnd(r) % 2) memset(p + i, rnd(r) % 2 ? 0xff : 0, 8);
        }
        break;
    case 7: { uint64_t i = rnd(r) % n, j = rnd(r) % n; u8 x = p[i]; p[i] = p[j]; p[j] = x; break; }
    default: { uint64_t k = 1 + rnd(r) % 8; while (k--) p[rnd(r) % n] ^= (u8)(1u << rnd(r) % 8); }
    }
}

static got_t altered_call(thread_t *t, int f) {
    const world_t *w = &worlds[rnd(&t->r) % WORLDS], *v = &worlds[rnd(&t->r) % WORLDS];
    u8 b[MAXARGS][512];
    arg_t a[MAXARGS];
    int place[MAXARGS];
    args_of(w, f, a);
    int which = (int)(rnd(&t->r) % (unsigned)fns[f].n);
    for (int i = 0; i < fns[f].n; i++) {
        place[i] = rnd(&t->r) % 2;
        if (rnd(&t->r) % 6 == 0) { a[i].p = v->b[fns[f].kind[i]]; a[i].n = v->n[fns[f].kind[i]]; } /* another world's */
        memcpy(b[i], a[i].p, a[i].n);
        a[i].p = b[i];
        if (i == which || rnd(&t->r) % 8 == 0) alter(&t->r, b[i], a[i].n, v);
    }
    atomic_fetch_add(&events[E_MALFORMED], 1);
    return call(t, f, a, place, 0);
}

static void phase_malformed(thread_t *t, int n) {
    for (int k = 0; k < n; k++) {
        got_t g = altered_call(t, (int)(rnd(&t->r) % F_N));
        if (g.ptr) give_back(g.ptr, g.len);
    }
}

typedef struct { const u8 *ptr; uint64_t len; u8 *copy; char what[64]; } held_t;
#define HELD 96
static held_t held[HELD];
static pthread_mutex_t held_lock = PTHREAD_MUTEX_INITIALIZER;

static void release(held_t *h) {
#ifdef WITH_ASAN
    if (__asan_region_is_poisoned((void *)h->ptr, h->len)) {
        viol("buffer-gone", "a buffer of %lu bytes returned by %s can no longer be read, though it was not freed", h->len, h->what);
        free(h->copy);
        return;
    }
#endif
    if (memcmp(h->ptr, h->copy, h->len))
        viol("buffer-changed", "a buffer of %lu bytes returned by %s changed before it was freed", h->len, h->what);
    atomic_fetch_add(&events[E_LIFETIME], 1);
    free(h->copy);
    give_back(h->ptr, h->len);
}

static void hold(rng_t *r, int f, got_t g) {
    held_t h = { g.ptr, g.len, NULL, "" }, old = { NULL, 0, NULL, "" };
    if (!g.ptr) return;
    snprintf(h.what, sizeof h.what, "%s", fns[f].name);
    h.copy = malloc(g.len);
    memcpy(h.copy, g.ptr, g.len);
    pthread_mutex_lock(&held_lock);
    for (int i = 0; i < HELD; i++)
        if (held[i].ptr && held[i].ptr < h.ptr + h.len && h.ptr < held[i].ptr + held[i].len)
            viol("buffers-overlap", "a buffer returned by %s overlaps one which has not been freed", fns[f].name);
    unsigned long i = rnd(r) % HELD;
    old = held[i];
    held[i] = h;
    pthread_mutex_unlock(&held_lock);
    if (old.ptr) release(&old);
}

static void let_go(void) {
    for (int i = 0; i < HELD; i++) if (held[i].ptr) { release(&held[i]); held[i].ptr = NULL; }
}

static void mixed(thread_t *t, int n) {
    for (int k = 0; k < n; k++) {
        int f = (int)(rnd(&t->r) % F_N);
        if (rnd(&t->r) % 4 == 0) hold(&t->r, f, altered_call(t, f));
        else {
            world_t w = worlds[rnd(&t->r) % WORLDS];
            arg_t a[MAXARGS];
            fill(&t->r, w.b[A_SEED], 32);
            args_of(&w, f, a);
            got_t g = call(t, f, a, NULL, 0);
            if (!g.ok) viol("honest-call-failed", "a call with valid arguments failed");
            hold(&t->r, f, g);
        }
        /* Churn, so that anything freed too early is used again. */
        void *x[4];
        for (int i = 0; i < 4; i++) { size_t m = 16 + rnd(&t->r) % 500; x[i] = malloc(m); memset(x[i], (int)rnd(&t->r), m); }
        for (int i = 0; i < 4; i++) free(x[i]);
    }
}

static int per_thread;

static void *thread_main(void *x) {
    static u8 stacks[16][65536];
    stack_t ss = { 0 };
    ss.ss_sp = stacks[(unsigned long)x % 16];
    ss.ss_size = 65536;
    sigaltstack(&ss, NULL);
    thread_t t;
    thread_make(&t, 100 + (unsigned long)x);
    mixed(&t, per_thread);
    atomic_fetch_add(&events[E_THREADS], (unsigned long)per_thread);
    ss.ss_flags = SS_DISABLE;
    sigaltstack(&ss, NULL);
    return NULL;
}

#ifdef WITH_ASAN
/* Repeat calls of one kind and free what they return: the number of live allocations must not keep growing. */
static void phase_leaks(thread_t *t, int batch) {
    for (int f = 0; f < F_N; f++) for (int mode = 0; mode < 2 + 7 * MAXARGS; mode++) {
        int which = (mode - 2) / 7, how = (mode - 2) % 7;
        if (mode >= 2 && which >= fns[f].n) continue;
        long blocks[5], bytes[5];
        for (int b = 0; b < 5; b++) {
            for (int k = 0; k < batch; k++) {
                int wi = (int)(rnd(&t->r) % WORLDS);
                const world_t *w = &worlds[wi], *v = &worlds[(wi + 1) % WORLDS];
                got_t g;
                if (mode == 0) { arg_t a[MAXARGS]; args_of(w, f, a); g = call(t, f, a, NULL, 0); }
                else if (mode == 1) g = altered_call(t, f);
                else {
                    arg_t a[MAXARGS];
                    u8 bad[512];
                    args_of(w, f, a);
                    int seed = fns[f].kind[which] == A_SEED;
                    if (how == 0) { a[which].p = NULL; }
                    else if (how == 1 && !seed) { a[which].p = nothing_there; a[which].n = 0; }
                    else if (how == 2 && !seed) { a[which].n -= 1; }
                    /* Well-formed, so that it is the operation itself which refuses: of another world, empty, and with
                       the end empty (a user without a credential). */
                    else if (how == 4) { a[which].p = v->b[fns[f].kind[which]]; a[which].n = v->n[fns[f].kind[which]]; }
                    else if (how >= 5 && !seed) {
                        uint64_t z = how == 5 || a[which].n < 96 ? a[which].n : 96;
                        memcpy(bad, a[which].p, a[which].n);
                        memset(bad + a[which].n - z, 0, z);
                        a[which].p = bad;
                    }
                    else if (!seed) { memset(bad, 0xff, sizeof bad); a[which].p = bad; if (fns[f].kind[which] == A_NUMBER) a[which].n = 200; }
                    g = call(t, f, a, NULL, how < 2 ? 1u << which : 0);
                }
                if (g.ptr) give_back(g.ptr, g.len);
            }
            blocks[b] = atomic_load(&live_blocks);
            bytes[b] = atomic_load(&live_bytes);
        }
        atomic_fetch_add(&events[E_LEAK], 4);
        if (blocks[1] < blocks[2] && blocks[2] < blocks[3] && blocks[3] < blocks[4])
            viol("leak", "%s leaks: %ld more blocks (%ld bytes) after %d calls, mode %d", fns[f].name, blocks[4] - blocks[1],
                 bytes[4] - bytes[1], 3 * batch, mode);
    }
}
#endif

static char altstack[65536];

int main(int argc, char **argv) {
    const char *s;
    if ((s = getenv("VH_OUT"))) out_fd = open(s, O_WRONLY | O_APPEND | O_CREAT, 0644);
    if ((s = getenv("VERIF_SEED"))) the_seed = strtoul(s, NULL, 10);
    if ((s = getenv("VERIF_TIER")) && !strcmp(s, "thorough")) thorough = 1;
    int scale = argc > 1 ? atoi(argv[1]) : 100;
    stack_t ss = { 0 };
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = { SIGSEGV, SIGBUS, SIGABRT, SIGILL, SIGFPE, SIGTRAP };
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
#ifdef WITH_ASAN
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
    __sanitizer_set_death_callback(on_asan);
#endif
    nothing_there = mmap(NULL, PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    static thread_t t;
    thread_make(&t, 0);
    for (int i = 0; i < WORLDS; i++) world_make(&t, &worlds[i], 0);
    buf_t none = { 0, NULL };
    buf_free(none);
    phase_placements(&t, 1 + 6 * scale / 100);
    phase_nulls(&t, 1 + scale / 100);
    phase_lengths(&t, scale < 100 ? 40 : 1);
    phase_numbers(&t, scale < 100 ? 1 : scale < 1000 ? 4 : 20);
    phase_malformed(&t, 20 * scale);
    mixed(&t, 10 * scale);
    let_go();
#ifdef WITH_ASAN
    phase_leaks(&t, 4 + 4 * scale / 100);
#endif
#ifndef WITH_VALGRIND
    per_thread = 8 * scale;
    pthread_t th[8];
    for (unsigned long i = 0; i < 8; i++) if (pthread_create(&th[i], NULL, thread_main, (void *)i)) harness("pthread_create");
    for (int i = 0; i < 8; i++) pthread_join(th[i], NULL);
    let_go();
#endif
    char line[4096];
    unsigned long total = 0;
    events[E_BYTES_READ] /= 1024;
    int n = 0;
    for (int i = 0; i < E_N; i++) total += events[i];
    n += snprintf(line + n, sizeof line - (size_t)n,
                  "{\"t\": \"done\", \"evaluations\": %lu, \"distinct\": %lu, \"rule\": \"C calls with each argument between guard pages; "
                  "distinct: guarded, NULL, length and content variations of the calls\", \"samples\": [\"%s\"], \"observed\": {",
                  total, events[E_GUARDED] / 2, now_doing);
    for (int i = 0; i < E_N; i++)
        n += snprintf(line + n, sizeof line - (size_t)n, "%s\"C driver: %s\": %lu", i ? ", " : "", event_name[i], events[i]);
    snprintf(line + n, sizeof line - (size_t)n, "}, \"stopped_early\": false}\n");
    emit(line);
    _exit(violations ? 1 : 0);
}
