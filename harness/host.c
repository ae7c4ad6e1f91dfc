/* Runs programs of the Concordia VM with a scripted host and records what the
 * host sees. Reads commands from stdin, writes one JSON line per run to the
 * file given as first argument. Built by lib/build.py from /repo's sources. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <pthread.h>
#include <sys/time.h>
#include "concordia.h"
#include "compiler.h"

#define MAXPROG 8192
#define EVMAX 600

typedef struct { int n; uint8_t (*v)[8]; char** s; int* sl; int numeric; } pool_t;
typedef struct {
    int used; cnd_program prog; uint8_t* img; size_t imglen; int loaderr;
    pool_t* pools; int npools;   /* by key */
} prog_t;
static prog_t P[MAXPROG];

typedef struct { const char* t; int k; uint8_t* v; int vl; long o; int r; int used; } ev_t;

typedef struct run {
    prog_t* p; uint64_t rng; long refuse_at; int flags;
    ev_t* ev; int n, cap;
    uint8_t* buf; size_t len; int md;
    uint64_t store[512]; uint8_t has[512];
    uint32_t lastcount;
    ev_t* tape; int ntape;
    struct run* nested_of; int nest_at, nest_after; struct run* inner; int inner_err, inner_bit; size_t inner_cur;
    char* strs[64]; int nstrs;
} run_t;
enum { F_TAPE = 1, F_WILD = 2, F_NOSTORE = 4, F_NORAW = 8, F_LONGSTR = 16, F_BIGCOUNT = 32, F_REFRAW = 64, F_NULLSTR = 128, F_NOFILL = 256, F_SCRIPT = 512 };
/* S: what to answer to each notification, in order */
typedef struct { int no; uint8_t* v; int vl; } act_t;
static act_t script[EVMAX + 1]; static int nscript;
#define SCRIPTED(r) ((r)->flags & F_SCRIPT && (r)->n < nscript)

/* blocks of exactly n bytes: the sanitizer sees every access beyond, also if n is 0 */
static uint8_t* none;
static uint8_t* block(size_t n) { if (n) return malloc(n); if (!none) none = (uint8_t*)malloc(16) + 16; return none; }
static void unblock(uint8_t* p) { if (p != none) free(p); }


static uint64_t rnd(run_t* r) { uint64_t x = r->rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; r->rng = x; return x * 0x2545F4914F6CDD1DULL; }
static uint32_t rn(run_t* r, uint32_t n) { return (uint32_t)((rnd(r) >> 33) % n); }

static ev_t* add(run_t* r, const char* t, int k, const void* v, int vl, long o) {
    if (r->n == r->cap) { r->cap = r->cap ? r->cap * 2 : 32; r->ev = realloc(r->ev, r->cap * sizeof(ev_t)); }
    ev_t* e = &r->ev[r->n++];
    e->t = t; e->k = k; e->vl = vl; e->o = o; e->r = 0; e->used = 0;
    e->v = malloc(vl ? vl : 1); if (vl) memcpy(e->v, v, vl);
    return e;
}

static const char* tname(uint8_t t) {
    switch (t) {
        case OP_IO_U8: return "u8"; case OP_IO_U16: return "u16"; case OP_IO_U32: return "u32"; case OP_IO_U64: return "u64";
        case OP_IO_I8: return "i8"; case OP_IO_I16: return "i16"; case OP_IO_I32: return "i32"; case OP_IO_I64: return "i64";
        case OP_IO_F32: return "f32"; case OP_IO_F64: return "f64"; case OP_IO_BOOL: return "bool";
        case OP_IO_BIT_U: return "bitu"; case OP_IO_BIT_I: return "biti"; case OP_IO_BIT_BOOL: return "bitb";
        case OP_STR_NULL: return "str0"; case OP_STR_PRE_U8: return "str1"; case OP_STR_PRE_U16: return "str2"; case OP_STR_PRE_U32: return "str4";
        case OP_ARR_FIXED: return "arrf"; case OP_ARR_PRE_U8: return "arr1"; case OP_ARR_PRE_U16: return "arr2"; case OP_ARR_PRE_U32: return "arr4";
        case OP_ARR_DYNAMIC: return "arrd"; case OP_ARR_END: return "arre"; case OP_RAW_BYTES: return "raw"; case OP_ARR_EOF: return "arro";
        case OP_ENTER_STRUCT: return "enter"; case OP_EXIT_STRUCT: return "exit";
        case OP_CTX_QUERY: return "query"; case OP_LOAD_CTX: return "load"; case OP_STORE_CTX: return "store";
        default: return "unknown";
    }
}
static int tsize(uint8_t t) {
    switch (t) {
        case OP_IO_U8: case OP_IO_I8: case OP_IO_BOOL: case OP_IO_BIT_BOOL: case OP_ARR_PRE_U8: return 1;
        case OP_IO_U16: case OP_IO_I16: case OP_ARR_PRE_U16: return 2;
        case OP_IO_U32: case OP_IO_I32: case OP_IO_F32: case OP_ARR_PRE_U32: case OP_ARR_FIXED: case OP_ARR_DYNAMIC: return 4;
        default: return 8;
    }
}
static const uint64_t BOUND[] = {0, 1, 2, 0x7F, 0x80, 0xFF, 0x7FFF, 0x8000, 0xFFFF, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu,
    0x7FFFFFFFFFFFFFFFull, 0x8000000000000000ull, 0xFFFFFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFEull, 3, 4, 5, 100};
static const double FBOUND[] = {0.0, 1.0, -1.0, 0.5, 1.5, 2.5, -2.5, 100.25, 1e10, -3.75, 1e300, 1e-310, 65535.0, 127.0, -0.0, 255.0, 12.0, 42.5};

static pool_t* pool(run_t* r, int k) { return k < r->p->npools && r->p->pools[k].n ? &r->p->pools[k] : NULL; }

static void answer(run_t* r, uint8_t type, int key, void* ptr) {
    int sz = tsize(type); uint64_t v;
    pool_t* pl = pool(r, key);
    if (type == OP_LOAD_CTX || type == OP_CTX_QUERY) {
        if (key < 512 && r->has[key] && !(r->flags & F_NOSTORE)) { memcpy(ptr, &r->store[key], 8); return; }
    }
    if (pl && pl->numeric) { memcpy(ptr, pl->v[rn(r, pl->n)], sz); return; }
    if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32) {
        v = rn(r, 4);
        if ((r->flags & F_BIGCOUNT) && rn(r, 4) == 0) v = BOUND[rn(r, sizeof BOUND / 8)];
        memcpy(ptr, &v, sz); return;
    }
    if (type == OP_IO_BOOL || type == OP_IO_BIT_BOOL) { uint8_t b = rn(r, 12) == 0 && (r->flags & F_WILD) ? 2 : rn(r, 2); memcpy(ptr, &b, 1); return; }
    if (type == OP_IO_F64 || type == OP_IO_F32) {
        double d = rn(r, 3) ? FBOUND[rn(r, sizeof FBOUND / 8)] : (double)(int64_t)rnd(r) / 1048576.0;
        if (type == OP_IO_F32) { float f = (float)d; memcpy(ptr, &f, 4); } else memcpy(ptr, &d, 8);
        return;
    }
    switch (rn(r, 4)) {
        case 0: v = BOUND[rn(r, sizeof BOUND / 8)]; break;
        case 1: v = rn(r, 8); break;
        case 2: v = 0 - (uint64_t)rn(r, 20); break;
        default: v = rnd(r);
    }
    memcpy(ptr, &v, sz);
}

static const char* answer_str(run_t* r, int key, int* len) {
    pool_t* pl = pool(r, key); char* s; int n;
    if (pl && !pl->numeric) { int i = rn(r, pl->n); n = pl->sl[i]; s = malloc(n + 1); memcpy(s, pl->s[i], n); s[n] = 0; }
    else {
        n = rn(r, 5) == 0 ? 0 : rn(r, 7);
        if ((r->flags & F_LONGSTR) && rn(r, 3) == 0) n = rn(r, 2) ? 254 + rn(r, 4) : 250 + rn(r, 12);
        s = malloc(n + 1); for (int i = 0; i < n; i++) s[i] = 1 + rn(r, 255); s[n] = 0;
    }
    if (r->nstrs < 64) r->strs[r->nstrs++] = s;
    *len = n;
    return s;
}

static ev_t* tape_next(run_t* r, const char* t, int k) {
    for (int i = 0; i < r->ntape; i++)
        if (!r->tape[i].used && r->tape[i].k == k && !r->tape[i].r && !strcmp(r->tape[i].t, t)) { r->tape[i].used = 1; return &r->tape[i]; }
    return NULL;
}

static uint64_t sx(uint8_t type, const void* p) {
    switch (type) {
        case OP_IO_I8: return (uint64_t)(int64_t)*(const int8_t*)p;
        case OP_IO_I16: { int16_t v; memcpy(&v, p, 2); return (uint64_t)(int64_t)v; }
        case OP_IO_I32: { int32_t v; memcpy(&v, p, 4); return (uint64_t)(int64_t)v; }
        case OP_IO_F32: { float f; memcpy(&f, p, 4); double d = f; uint64_t u; memcpy(&u, &d, 8); return u; }
        default: { uint64_t v = 0; memcpy(&v, p, tsize(type)); return v; }
    }
}

static int run_case(run_t* r, cnd_vm_ctx* ctx, size_t* cur, int* bit);

static void nest(run_t* r) { /* run another program to its end from here */
    run_t* in = r->inner; cnd_vm_ctx c2; size_t cu; int bi;
    r->inner = NULL;
    r->inner_err = run_case(in, &c2, &cu, &bi); r->inner_cur = cu; r->inner_bit = bi;
}

static cnd_error_t cb1(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* ptr);
static cnd_error_t cb(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* ptr) {
    run_t* r = ctx->user_ptr;
    int here = r->nested_of == NULL && r->inner && r->n == r->nest_at;
    if (here && !r->nest_after) nest(r);
    cnd_error_t e = cb1(ctx, key, type, ptr);
    if (here && r->nest_after) nest(r);
    return e;
}

static cnd_error_t cb1(cnd_vm_ctx* ctx, uint16_t key, uint8_t type, void* ptr) {
    run_t* r = ctx->user_ptr;
    const char* t = tname(type);
    int refuse = (r->refuse_at && r->n + 1 == r->refuse_at) || r->n >= EVMAX;
    if (type == OP_RAW_BYTES && (r->flags & F_NORAW)) refuse = 1;
    act_t* act = SCRIPTED(r) ? &script[r->n] : NULL;
    if (act && act->no) refuse = 1;
    ev_t* e;
    switch (type) {
        case OP_ENTER_STRUCT: case OP_EXIT_STRUCT: case OP_ARR_END:
            e = add(r, t, key, NULL, 0, -1); break;
        case OP_ARR_FIXED: case OP_ARR_DYNAMIC: {
            uint32_t n; memcpy(&n, ptr, 4);
            e = add(r, t, key, &n, 4, n > 1073741824u ? 1073741824 : (long)n);
            r->lastcount = n; break;
        }
        case OP_RAW_BYTES: {
            long o = (uint8_t*)ptr - ctx->data_buffer;
            const uint8_t* bc = ctx->program->bytecode; size_t len = ctx->program->bytecode_len, ip = ctx->ip;
            uint32_t n = r->lastcount; int fast = ip + 3 < len && (bc[ip] == OP_IO_U8 || bc[ip] == OP_IO_I8) && bc[ip+3] == OP_ARR_END;
            if (ip >= 7 && bc[ip-7] == OP_RAW_BYTES && (bc[ip-6] | bc[ip-5] << 8) == key) {
                uint32_t m = bc[ip-4] | bc[ip-3] << 8 | bc[ip-2] << 16 | (uint32_t)bc[ip-1] << 24;
                if (!fast || m < n) n = m;
            } else if (!fast) n = 0; /* a truncated instruction: its count reads as 0 */
            if (n > 4096) n = 4096;
            if (refuse) { e = add(r, t, key, NULL, 0, o); break; }
            if (r->md == 1) { /* the content is kept (not reported) for replaying it */
                if (o < 0 || o > (long)ctx->data_len) n = 0; else if (n > ctx->data_len - o) n = ctx->data_len - o;
                e = add(r, t, key, n ? ptr : NULL, n, o); break;
            }
            ev_t* te = (r->flags & F_TAPE) ? tape_next(r, t, key) : NULL;
            pool_t* pl = pool(r, key);
            for (uint32_t i = 0; i < n; i++) ((uint8_t*)ptr)[i] = act && (int)i < act->vl ? act->v[i] : te && (int)i < te->vl ? te->v[i] : pl && pl->numeric ? pl->v[rn(r, pl->n)][0] : (uint8_t)rnd(r);
            e = add(r, t, key, ptr, n, o);
            break;
        }
        case OP_STR_NULL: case OP_STR_PRE_U8: case OP_STR_PRE_U16: case OP_STR_PRE_U32: {
            int w = type == OP_STR_NULL ? 0 : 1 << (type - OP_STR_PRE_U8);
            if (r->md == 0) {
                if (refuse) { e = add(r, t, key, NULL, 0, -1); break; }
                ev_t* te = (r->flags & F_TAPE) ? tape_next(r, t, key) : NULL; int n;
                const char* s;
                if (act) { char* d = malloc(act->vl + 1); memcpy(d, act->v, act->vl); d[act->vl] = 0; if (r->nstrs < 64) r->strs[r->nstrs++] = d; s = d; n = act->vl; }
                else if (te) { char* d = malloc(te->vl + 1); memcpy(d, te->v, te->vl); d[te->vl] = 0; if (r->nstrs < 64) r->strs[r->nstrs++] = d; s = d; n = (int)strlen(d); /* a C string ends at its first zero */ }
                else if ((r->flags & F_NULLSTR) && rn(r, 2)) { s = NULL; n = 0; }
                else s = answer_str(r, key, &n);
                memcpy(ptr, &s, sizeof s);
                e = add(r, t, key, s, n, -1);
            } else {
                const uint8_t* s = ptr; long o = s - ctx->data_buffer;
                if (o < 0 || o > (long)ctx->data_len) e = add(r, t, key, s - w, w ? w : 1, -1);
                else {
                    e = add(r, t, key, NULL, 0, o);
                    /* keep the content (not reported) for replaying it */
                    long n = 0;
                    if (w) { for (int i = 0; i < w; i++) { int j = ctx->endianness == CND_BE ? w - 1 - i : i; n |= (long)s[j - w] << (8 * i); } }
                    else n = strnlen((const char*)s, ctx->data_len - o);
                    if (n > (long)ctx->data_len - o) n = ctx->data_len - o;
                    free(e->v); e->v = malloc(n + 1); memcpy(e->v, s, n); e->vl = n;
                }
            }
            break;
        }
        default: {
            int sz = tsize(type);
            int ask = r->md == 0 || type == OP_LOAD_CTX || type == OP_CTX_QUERY;
            if (type == OP_STORE_CTX) ask = 0;
            if (ask && (r->flags & F_NOFILL) && !refuse && rn(r, 3) == 0) { e = add(r, t, key, ptr, sz, -1); break; } /* a host that leaves the value as it is */
            if (refuse && ask) { uint8_t z[8] = {0}; e = add(r, t, key, z, sz, -1); break; }
            if (ask && ((uintptr_t)t)) {
                ev_t* te = (r->flags & F_TAPE) ? tape_next(r, t, key) : NULL;
                if (act && act->vl == sz) memcpy(ptr, act->v, sz); else if (te && te->vl == sz) memcpy(ptr, te->v, sz); else answer(r, type, key, ptr);
            }
            e = add(r, t, key, ptr, sz, -1);
            if (type == OP_ARR_PRE_U8 || type == OP_ARR_PRE_U16 || type == OP_ARR_PRE_U32) { r->lastcount = (uint32_t)sx(type, ptr); break; }
            if (key < 512 && !refuse) { r->store[key] = sx(type, ptr); r->has[key] = 1; }
        }
    }
    e->r = refuse;
    return refuse ? CND_ERR_CALLBACK : CND_ERR_OK;
}

/* --- time limit ------------------------------------------------------- */
static __thread sigjmp_buf jb; static __thread volatile int armed;
static void on_alarm(int s) { (void)s; if (armed) siglongjmp(jb, 1); }
static void arm(int ms) { struct itimerval it = {{0,0},{ms / 1000, (ms % 1000) * 1000}}; setitimer(ITIMER_REAL, &it, NULL); }

static int run_case(run_t* r, cnd_vm_ctx* ctx, size_t* cur, int* bit) {
    cnd_init(ctx, r->md ? CND_MODE_DECODE : CND_MODE_ENCODE, &r->p->prog, r->buf, r->len, cb, r);
    int err = cnd_execute(ctx);
    *cur = ctx->cursor; *bit = ctx->bit_offset;
    return err;
}

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static uint8_t* unhex(const char* s, size_t* n) {
    size_t l = strlen(s) / 2; uint8_t* b = block(l);
    for (size_t i = 0; i < l; i++) b[i] = hexv(s[2*i]) << 4 | hexv(s[2*i+1]);
    *n = l; return b;
}
static void jbytes(FILE* f, const uint8_t* b, size_t n) { fputc('[', f); for (size_t i = 0; i < n; i++) fprintf(f, i ? ",%d" : "%d", b[i]); fputc(']', f); }
static void jstr(FILE* f, const char* s) { fputc('"', f); for (; *s; s++) { unsigned char c = *s; if (c < 32 || c > 126 || c == '"' || c == '\\') fprintf(f, "\\u%04x", c); else fputc(c, f); } fputc('"', f); }

static void put_run(FILE* f, const char* id, int pid, run_t* r, const uint8_t* init, int err, size_t cur, int bit) {
    fprintf(f, "{\"case\":\"%s\",\"p\":%d,\"md\":%d,\"err\":%d,\"cur\":%zu,\"bit\":%d,\"init\":", id, pid, r->md, err, cur, bit);
    jbytes(f, init, r->len); fputs(",\"buf\":", f); jbytes(f, r->buf, r->len); fputs(",\"ev\":[", f);
    for (int i = 0; i < r->n; i++) {
        ev_t* e = &r->ev[i];
        fprintf(f, "%s{\"t\":\"%s\",\"k\":%d,\"v\":", i ? "," : "", e->t, e->k);
        if (r->md == 1 && e->o >= 0 && (e->t[0] == 's' || !strcmp(e->t, "raw"))) fputs("[]", f); else jbytes(f, e->v, e->vl);
        fprintf(f, ",\"o\":%ld,\"r\":%d}", e->o, e->r);
    }
    fputs("]}\n", f);
}
static void free_run(run_t* r) {
    for (int i = 0; i < r->n; i++) free(r->ev[i].v);
    free(r->ev); for (int i = 0; i < r->nstrs; i++) free(r->strs[i]);
    memset(r, 0, sizeof *r);
}

static void set_prog(int pid, uint8_t* img, size_t n, int raw) {
    prog_t* p = &P[pid]; memset(p, 0, sizeof *p); p->used = 1; p->img = img; p->imglen = n;
    if (raw) cnd_program_load(&p->prog, img, n); else p->loaderr = cnd_program_load_il(&p->prog, img, n);
}
static uint8_t* slurp(const char* path, size_t* n) {
    FILE* f = fopen(path, "rb"); if (!f) return NULL;
    fseek(f, 0, SEEK_END); long l = ftell(f); rewind(f);
    uint8_t* b = block(l); *n = fread(b, 1, l, f); fclose(f); return b;
}
static int putimg;
static void put_prog(FILE* f, int pid) {
    prog_t* p = &P[pid];
    fprintf(f, "{\"prog\":%d,\"load\":%d,\"img\":", pid, p->loaderr); jbytes(f, p->img, putimg ? p->imglen : 0);
    if (!p->loaderr) {
        fputs(",\"code\":", f); jbytes(f, p->prog.bytecode, p->prog.bytecode_len);
        fprintf(f, ",\"verify\":%d,\"names\":[", cnd_verify_program(&p->prog));
        for (int i = 0; i < p->prog.string_count; i++) { if (i) fputc(',', f); const char* s = cnd_get_key_name(&p->prog, i); if (s) jstr(f, s); else fputs("null", f); }
        fputs("],\"namesb\":[", f);
        for (int i = 0; i < p->prog.string_count; i++) { if (i) fputc(',', f); const char* s = cnd_get_key_name(&p->prog, i); if (s) jbytes(f, (const uint8_t*)s, strlen(s)); else fputs("[-2]", f); }
        fputs("],\"ids\":[", f);
        for (int i = 0; i < p->prog.string_count; i++) { const char* s = cnd_get_key_name(&p->prog, i); fprintf(f, i ? ",%d" : "%d", s ? cnd_get_key_id(&p->prog, s) : -1); }
        fprintf(f, "],\"beyond\":%d,\"absent\":%d", cnd_get_key_name(&p->prog, p->prog.string_count) == NULL && cnd_get_key_name(&p->prog, 0xFFFF) == NULL,
                cnd_get_key_id(&p->prog, "no such name at all"));
    }
    fputs("}\n", f);
}

/* previous run, for bufspec "=" and the tape */
static uint8_t* prevbuf; static size_t prevlen, prevcap; static ev_t* prevev; static int prevn, preverr;
static void keep(run_t* r, size_t size, int err) {
    free(prevbuf); prevbuf = malloc(r->len ? r->len : 1); memcpy(prevbuf, r->buf, r->len); prevlen = size > r->len ? r->len : size; prevcap = r->len; preverr = err;
    for (int i = 0; i < prevn; i++) free(prevev[i].v);
    prevev = realloc(prevev, (r->n ? r->n : 1) * sizeof(ev_t)); prevn = r->n;
    for (int i = 0; i < r->n; i++) { prevev[i] = r->ev[i]; prevev[i].v = malloc(r->ev[i].vl + 1); memcpy(prevev[i].v, r->ev[i].v, r->ev[i].vl); }
}

/* bufspec: "z"|"fHH"|"xHEX"|"=" followed by edits -N (cut) ^N (flip bit) ~N:HH (set byte) +HEX (append); cap: number, "=" or "=+N"/"=-N" */
static uint8_t* mkbuf(const char* cap, const char* spec, size_t* len) {
    size_t n; uint8_t* b;
    if (spec[0] == '=') {
        n = prevlen; b = malloc(n + 4096); if (prevbuf) memcpy(b, prevbuf, n);
        const char* s = spec + 1;
        while (*s) {
            char c = *s++; char* e;
            if (c == '-') { size_t k = strtoul(s, &e, 10); n = k > n ? 0 : n - k; s = e; }
            else if (c == '^') { size_t k = strtoul(s, &e, 10); if (k / 8 < n) b[k / 8] ^= 1 << (k % 8); s = e; }
            else if (c == '~') { size_t k = strtoul(s, &e, 10); unsigned v = strtoul(e + 1, &e, 16); if (k < n) b[k] = v; s = e; }
            else if (c == '+') { while (s[0] && s[1] && strchr("0123456789abcdef", s[0])) { b[n++] = hexv(s[0]) << 4 | hexv(s[1]); s += 2; } }
        }
    } else if (spec[0] == 'x') { b = unhex(spec + 1, &n); }
    else {
        if (cap[0] == '=') { long d = cap[1] ? strtol(cap + 1, NULL, 10) : 0; n = (long)prevlen + d < 0 ? 0 : prevlen + d; }
        else n = strtoul(cap, NULL, 10);
        b = malloc(n ? n : 1); memset(b, spec[0] == 'f' ? hexv(spec[1]) << 4 | hexv(spec[2]) : 0, n);
    }
    uint8_t* x = block(n); memcpy(x, b, n); unblock(b); *len = n; return x;
}

typedef struct { run_t r; char id[64]; int pid; uint8_t* init; int err; size_t cur; int bit; } job_t;
static void mkjob(job_t* j, char* id, int pid, int md, char* cap, char* spec, uint64_t seed, long refuse, int flags) {
    memset(j, 0, sizeof *j); snprintf(j->id, sizeof j->id, "%s", id); j->pid = pid;
    run_t* r = &j->r; r->p = &P[pid]; r->md = md; r->rng = seed * 0x9E3779B97F4A7C15ULL + 0x1234567; if (!r->rng) r->rng = 1;
    r->refuse_at = refuse; r->flags = flags; r->buf = mkbuf(cap, spec, &r->len);
    j->init = malloc(r->len ? r->len : 1); memcpy(j->init, r->buf, r->len);
    if (flags & F_TAPE) {
        r->ntape = prevn; r->tape = malloc((prevn ? prevn : 1) * sizeof(ev_t));
        for (int i = 0; i < prevn; i++) { r->tape[i] = prevev[i]; r->tape[i].used = 0; r->tape[i].v = malloc(prevev[i].vl + 1); memcpy(r->tape[i].v, prevev[i].v, prevev[i].vl); }
    }
}
static void endjob(job_t* j) {
    if (j->r.tape) { for (int i = 0; i < j->r.ntape; i++) free(j->r.tape[i].v); free(j->r.tape); }
    uint8_t* b = j->r.buf; free_run(&j->r); unblock(b); free(j->init);
}

#define MAXJ 64
static job_t tj[MAXJ]; static int ntj;
static pthread_barrier_t bar;
static void* tmain(void* a) {
    job_t* j = a; cnd_vm_ctx ctx; memset(&ctx, 0xA5, sizeof ctx);
    pthread_barrier_wait(&bar);
    j->err = run_case(&j->r, &ctx, &j->cur, &j->bit);
    return NULL;
}

int main(int argc, char** argv) {
    if (argc < 2) return 2;
    FILE* f = fopen(argv[1], "a"); if (!f) return 2;
    static char line[1 << 20]; static cnd_vm_ctx shared; memset(&shared, 0xA5, sizeof shared);
    signal(SIGALRM, on_alarm);
    int hold = 0, ms = getenv("HOST_MS") ? atoi(getenv("HOST_MS")) : 1500;
    while (fgets(line, sizeof line, stdin)) {
        char* sv; char* cmd = strtok_r(line, " \n", &sv);
        if (!cmd) continue;
        if (!strcmp(cmd, "BC") || !strcmp(cmd, "IM")) {
            int pid = atoi(strtok_r(NULL, " \n", &sv)); char* h = strtok_r(NULL, " \n", &sv); size_t n; uint8_t* b = unhex(h ? h : "", &n);
            fprintf(f, "{\"begin\":\"load %d\"}\n", pid); fflush(f);
            set_prog(pid, b, n, cmd[0] == 'B'); put_prog(f, pid);
        } else if (!strcmp(cmd, "IL")) {
            int pid = atoi(strtok_r(NULL, " \n", &sv)); size_t n; uint8_t* b = slurp(strtok_r(NULL, " \n", &sv), &n);
            fprintf(f, "{\"begin\":\"load %d\"}\n", pid); fflush(f);
            if (b) { set_prog(pid, b, n, 0); put_prog(f, pid); } else fprintf(f, "{\"prog\":%d,\"load\":99}\n", pid);
        } else if (!strcmp(cmd, "SRC")) { /* SRC pid in out */
            int pid = atoi(strtok_r(NULL, " \n", &sv)); char* in = strtok_r(NULL, " \n", &sv); char* out = strtok_r(NULL, " \n", &sv);
            fprintf(f, "{\"begin\":\"compile %d\"}\n", pid); fflush(f);
            int rc; armed = 1; arm(8000);
            if (sigsetjmp(jb, 1)) rc = 97; else rc = cnd_compile_file(in, out, 0, 0);
            armed = 0; arm(0); fflush(stdout);
            fprintf(f, "{\"compile\":%d,\"rc\":%d}\n", pid, rc);
            size_t n; uint8_t* b = rc == 0 ? slurp(out, &n) : NULL;
            if (b) { set_prog(pid, b, n, 0); put_prog(f, pid); } else { P[pid].used = 0; }
        } else if (!strcmp(cmd, "FMT")) { /* FMT id in out */
            char* id = strtok_r(NULL, " \n", &sv); char* in = strtok_r(NULL, " \n", &sv); char* out = strtok_r(NULL, " \n", &sv);
            fprintf(f, "{\"begin\":\"format %s\"}\n", id); fflush(f);
            size_t n; uint8_t* b = slurp(in, &n); char* s = malloc(n + 1); memcpy(s, b, n); s[n] = 0; unblock(b);
            char* o; armed = 1; arm(8000);
            if (sigsetjmp(jb, 1)) o = NULL; else o = cnd_format_source(s);
            armed = 0; arm(0);
            if (o) { FILE* w = fopen(out, "wb"); fwrite(o, 1, strlen(o), w); fclose(w); free(o); }
            fprintf(f, "{\"format\":\"%s\",\"ok\":%d}\n", id, o != NULL); free(s);
        } else if (!strcmp(cmd, "V") || !strcmp(cmd, "VS") || !strcmp(cmd, "VN") || !strcmp(cmd, "VM")) { /* V pid key hex,hex,...: answers for a key (VN, VM: by name) */
            int pid = atoi(strtok_r(NULL, " \n", &sv)); char* ks = strtok_r(NULL, " \n", &sv); char* list = strtok_r(NULL, " \n", &sv);
            prog_t* p = &P[pid];
            int key = -1;
            if (!p->used || p->loaderr) continue;
            if (cmd[1] == 'N' || cmd[1] == 'M') {
                for (int i = 0; i < p->prog.string_count; i++) { const char* nm = cnd_get_key_name(&p->prog, i); if (nm && !strcmp(nm, ks)) key = i; }
                cmd[1] = cmd[1] == 'N' ? 0 : 'S';
                if (key < 0) continue;
            } else key = atoi(ks);
            if (key >= p->npools) { p->pools = realloc(p->pools, (key + 1) * sizeof(pool_t)); memset(p->pools + p->npools, 0, (key + 1 - p->npools) * sizeof(pool_t)); p->npools = key + 1; }
            pool_t* pl = &p->pools[key]; memset(pl, 0, sizeof *pl); pl->numeric = cmd[1] == 0;
            for (char* s2, *t = strtok_r(list, ",", &s2); t; t = strtok_r(NULL, ",", &s2)) {
                if (t[0] == '_') t++; size_t n; uint8_t* b = unhex(t, &n); int i = pl->n++;
                if (pl->numeric) { pl->v = realloc(pl->v, pl->n * 8); memset(pl->v[i], 0, 8); memcpy(pl->v[i], b, n > 8 ? 8 : n); unblock(b); }
                else { pl->s = realloc(pl->s, pl->n * sizeof(char*)); pl->sl = realloc(pl->sl, pl->n * sizeof(int)); pl->s[i] = (char*)b; pl->sl[i] = n; }
            }
        } else if (!strcmp(cmd, "R") || !strcmp(cmd, "T") || !strcmp(cmd, "N")) {
            /* R id pid mode cap bufspec seed refuse flags ; T: queue for threads ; N: queue as nested */
            char* id = strtok_r(NULL, " \n", &sv); int pid = atoi(strtok_r(NULL, " \n", &sv)); int md = strtok_r(NULL, " \n", &sv)[0] == 'd';
            char* cap = strtok_r(NULL, " \n", &sv); char* spec = strtok_r(NULL, " \n", &sv); uint64_t seed = strtoull(strtok_r(NULL, " \n", &sv), NULL, 10);
            long refuse = atol(strtok_r(NULL, " \n", &sv)); int flags = atoi(strtok_r(NULL, " \n", &sv));
            if (pid < 0 || pid >= MAXPROG || !P[pid].used || P[pid].loaderr) continue;
            if (cmd[0] != 'R') { if (ntj < MAXJ) mkjob(&tj[ntj++], id, pid, md, cap, spec, seed, refuse, flags); continue; }
            job_t j; mkjob(&j, id, pid, md, cap, spec, seed, refuse, flags);
            fprintf(f, "{\"begin\":\"run %s\"}\n", id); fflush(f);
            armed = 1; arm(ms);
            if (sigsetjmp(jb, 1)) { j.err = 97; j.cur = shared.cursor; j.bit = shared.bit_offset; }
            else j.err = run_case(&j.r, &shared, &j.cur, &j.bit);
            armed = 0; arm(0);
            put_run(f, id, pid, &j.r, j.init, j.err, j.cur, j.bit);
            if (!hold) keep(&j.r, j.cur + (j.bit ? 1 : 0), j.err);
            endjob(&j);
        } else if (!strcmp(cmd, "IMAGES")) { putimg = 1; /* report images too */
        } else if (!strcmp(cmd, "S")) { /* S a,b,...: bytes, _ for none, ! to refuse */
            for (int i = 0; i < nscript; i++) unblock(script[i].v);
            nscript = 0; char* list = strtok_r(NULL, " \n", &sv);
            for (char* s2, *t = list ? strtok_r(list, ",", &s2) : NULL; t && nscript < EVMAX; t = strtok_r(NULL, ",", &s2)) {
                act_t* a = &script[nscript++]; size_t n; a->no = t[0] == '!'; a->v = unhex(t[0] == '_' || t[0] == '!' ? "" : t, &n); a->vl = (int)n;
            }
        } else if (!strcmp(cmd, "HOLD")) { hold = 1; /* "=" and the tape stay with the last run */
        } else if (!strcmp(cmd, "FREE")) { hold = 0;
        } else if (!strcmp(cmd, "GO")) { /* run the queued jobs on threads, each alone on its own context */
            fprintf(f, "{\"begin\":\"threads %s\"}\n", tj[0].id); fflush(f);
            pthread_t th[MAXJ]; pthread_barrier_init(&bar, NULL, ntj);
            for (int i = 0; i < ntj; i++) pthread_create(&th[i], NULL, tmain, &tj[i]);
            for (int i = 0; i < ntj; i++) pthread_join(th[i], NULL);
            pthread_barrier_destroy(&bar);
            for (int i = 0; i < ntj; i++) { put_run(f, tj[i].id, tj[i].pid, &tj[i].r, tj[i].init, tj[i].err, tj[i].cur, tj[i].bit); endjob(&tj[i]); }
            ntj = 0;
        } else if (!strcmp(cmd, "NEST")) { /* NEST at: second queued job runs inside notification `at` of the first */
            int at = atoi(strtok_r(NULL, " \n", &sv)); char* af = strtok_r(NULL, " \n", &sv);
            if (ntj >= 2) {
                fprintf(f, "{\"begin\":\"nested %s\"}\n", tj[0].id); fflush(f);
                job_t* a = &tj[0]; job_t* b = &tj[1]; cnd_vm_ctx c1, c2; memset(&c1, 0x5A, sizeof c1); (void)c2;
                a->r.inner = &b->r; a->r.nest_at = at; a->r.nest_after = af != NULL; b->r.nested_of = &a->r;
                a->err = run_case(&a->r, &c1, &a->cur, &a->bit);
                int ran = a->r.inner == NULL; int ierr = a->r.inner_err;
                put_run(f, a->id, a->pid, &a->r, a->init, a->err, a->cur, a->bit);
                if (ran) { b->err = ierr; put_run(f, b->id, b->pid, &b->r, b->init, b->err, a->r.inner_cur, a->r.inner_bit); }
                a->r.inner = NULL;
            }
            for (int i = 0; i < ntj; i++) endjob(&tj[i]);
            ntj = 0;
        }
        fflush(f);
    }
    fclose(f);
    return 0;
}
