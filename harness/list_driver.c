/* Exhaustive short histories and a few long ones over the C list, against a plain array; allocations are tracked. */
#include "electionguard/collections.h"
#undef malloc
#undef calloc
#undef free
#undef strdup
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#define MAXB 200000
static void *blk[MAXB]; static int nblk, live, fail_in = -1;
static char hist[4096]; static size_t hl;
static void bad(const char *w) { printf("FAIL %s | history: %s\n", w, hist); fflush(stdout); _Exit(1); }
#include <unistd.h>
void *egv_malloc(size_t n) { if (fail_in >= 0 && fail_in-- == 0) return NULL; void *p = malloc(n ? n : 1); memset(p, 0xA5, n); blk[nblk++ % MAXB] = p; live++; return p; }
void *egv_calloc(size_t a, size_t b) { void *p = egv_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
char *egv_strdup(const char *s) { int f = fail_in; fail_in = -1; char *p = egv_malloc(strlen(s) + 1); fail_in = f; strcpy(p, s); return p; }
void egv_free(void *p) {
    if (!p) return;
    for (int i = nblk - 1; i >= 0 && i > nblk - MAXB; i--) if (blk[i % MAXB] == p) { blk[i % MAXB] = NULL; live--; free(p); return; }
    bad("free of a block that is not allocated");
}
typedef struct { eg_linked_list_t *h; int n; char k[6000][24], v[6000][24]; int base; } M;
static int serial, other_blocks;
static void note(const char *s) { size_t l = strlen(s); if (hl + l + 2 < sizeof hist) { memcpy(hist + hl, s, l + 1); hl += l; } }
static void look(M *m, uint64_t p) {
    char S1, S2; char *k = &S1, *v = &S2;
    int r = eg_linked_list_get_element_at(m->h, p, &k, &v);
    if (p < (uint64_t)m->n) {
        if (r != 0) bad("get_element_at refused a valid position");
        if (strcmp(k, m->k[p]) || strcmp(v, m->v[p])) bad("get_element_at returned another element");
    } else if (r != ELECTIONGUARD_STATUS_ERROR_OUT_OF_RANGE || k != &S1 || v != &S2) bad("get_element_at beyond the end");
    v = &S2;
    r = eg_linked_list_get_value_at(m->h, p, &v);
    if (p < (uint64_t)m->n) { if (r != 0 || strcmp(v, m->v[p])) bad("get_value_at returned another element"); }
    else if (r != ELECTIONGUARD_STATUS_ERROR_OUT_OF_RANGE || v != &S2) bad("get_value_at beyond the end");
}
static void check(M *m, int all) {
    if (eg_linked_list_get_count(m->h) != (uint64_t)m->n) bad("count");
    if (all) for (int i = 0; i <= m->n + 2; i++) look(m, i);
    else { look(m, 0); look(m, m->n / 2); look(m, m->n - 1); look(m, m->n); }
    look(m, UINT64_MAX); look(m, 1ull << 32); look(m, (1ull << 32) + 1); look(m, (1ull << 63));
    if (live != m->base + (m->h ? 1 : 0) + 3 * m->n + other_blocks) bad("number of allocated blocks");
}
static void mk(M *m) { m->h = NULL; m->n = 0; if (eg_linked_list_new(&m->h) || !m->h) bad("new failed"); }
static void app(M *m) {
    char k[24], v[24];
    int e = serial++ % 5;
    if (e == 0) { strcpy(k, "same"); strcpy(v, "same"); }
    else if (e == 1) { k[0] = 0; sprintf(v, "v%d", serial); }
    else if (e == 2) { sprintf(k, "k%d", serial); v[0] = 0; }
    else { sprintf(k, "key%d", serial); sprintf(v, "value%d", serial * 7); }
    strcpy(m->k[m->n], k); strcpy(m->v[m->n], v);
    if (eg_linked_list_append(m->h, k, v)) bad("append failed");
    memset(k, 'X', sizeof k - 1); memset(v, 'X', sizeof v - 1);   /* the caller's buffers are its own */
    m->n++;
}
static void del(M *m) { if (eg_linked_list_delete_last(m->h)) bad("delete_last failed"); if (m->n) m->n--; }
static void dofree(M *m) { int want = live - 1 - 3 * m->n; if (eg_linked_list_free(m->h)) bad("free failed"); m->h = NULL; m->n = 0; if (live != want) bad("blocks left after free"); }
int main(int argc, char **argv) {
    static M m, m2;
    int depth = argc > 1 ? atoi(argv[1]) : 9;
    long runs = 0;
    if (eg_linked_list_free(NULL)) bad("free(NULL)");
    for (int len = 0; len <= depth; len++)
        for (long code = 0; code < (1L << len); code++) {
            hl = 0; hist[0] = 0;
            mk(&m); check(&m, 1);
            for (int i = 0; i < len; i++) {
                if (code >> i & 1) { note("append "); app(&m); } else { note("delete "); del(&m); }
                check(&m, 1);
            }
            note("free "); dofree(&m);
            runs++;
        }
    /* two lists interleaved */
    for (long code = 0; code < 4096; code++) {
        hl = 0; hist[0] = 0;
        mk(&m); mk(&m2);
        for (int i = 0; i < 6; i++) {
            int op = code >> (2 * i) & 3;
            if (op == 0) { note("a.append "); app(&m); } else if (op == 1) { note("a.delete "); del(&m); } else if (op == 2) { note("b.append "); app(&m2); } else { note("b.delete "); del(&m2); }
            other_blocks = 1 + 3 * m2.n; check(&m, 1);
            other_blocks = 1 + 3 * m.n; check(&m2, 1);
        }
        other_blocks = 0;
        note("a.free "); dofree(&m); check(&m2, 1); dofree(&m2); runs++;
    }
    /* allocation failure at every point */
    for (int k = 0; k < 6; k++) {
        hl = 0; hist[0] = 0; note("append with failing node allocation ");
        mk(&m);
        for (int i = 0; i < k; i++) app(&m);
        fail_in = 0;
        int r = eg_linked_list_append(m.h, "a", "b");
        if (fail_in == -1 && r != ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC) bad("failed allocation not reported");
        if (fail_in != -1 && r == 0) { strcpy(m.k[m.n], "a"); strcpy(m.v[m.n], "b"); m.n++; }
        fail_in = -1;
        check(&m, 1); app(&m); check(&m, 1); dofree(&m); runs++;
    }
    { char S1; eg_linked_list_t *h = (eg_linked_list_t *)&S1; hl = 0; note("new with failing allocation "); fail_in = 0; int r = eg_linked_list_new(&h);
      if (fail_in == -1 && (r != ELECTIONGUARD_STATUS_ERROR_BAD_ALLOC || (void *)h != (void *)&S1)) bad("failed allocation not reported"); fail_in = -1; }
    /* long histories */
    for (int big = 0; big < 3; big++) {
        static const int N[3] = {17, 300, 5000};
        hl = 0; hist[0] = 0; char t[64]; sprintf(t, "%d appends, deletes in between ", N[big]); note(t);
        mk(&m);
        for (int i = 0; i < N[big]; i++) { app(&m); if (i % 7 == 3) { del(&m); } check(&m, N[big] < 400); }
        for (int i = 0; i < m.n; i += 97) look(&m, i);
        while (m.n > N[big] / 3) { del(&m); check(&m, N[big] < 400); }
        app(&m); check(&m, N[big] < 400);
        if (big % 2) while (m.n) del(&m);
        check(&m, 0); dofree(&m); runs++;
    }
    if (live) bad("blocks left at the end");
    printf("OK %ld\n", runs);
    return 0;
}
