/* Compile a schema, encode values given by name or decode bytes, print what happened.
   drv SCHEMA e CAP name=v ...      -> "rc hexbytes"
   drv SCHEMA d HEX                 -> "rc name=v ..."
   values: 12 -3 0x1f, 1.5 (with a dot: float fields), 'text (strings); a name given several times is consumed in order */
#include "concordia.h"
#include "compiler.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static char **av; static int ac; static char *used; static cnd_program P;
static const char *val(const char *n) {
    size_t l = strlen(n); const char *last = NULL;
    for (int i = 4; i < ac; i++) if (!strncmp(av[i], n, l) && av[i][l] == '=') { last = av[i] + l + 1; if (!used[i]) { used[i] = 1; return last; } }
    return last;
}
static uint64_t seen[65536]; /* last decoded value of a key */
static long long I(const char *s) { return s ? (s[0] == '-' ? strtoll(s, 0, 0) : (long long)strtoull(s, 0, 0)) : 0; }
static cnd_error_t cb(cnd_vm_ctx *c, uint16_t k, uint8_t t, void *p) {
    const char *n = cnd_get_key_name(c->program, k); if (!n) n = "?";
    if (t == OP_ENTER_STRUCT || t == OP_EXIT_STRUCT || t == OP_ARR_END) return CND_ERR_OK;
    if (t == OP_RAW_BYTES) return CND_ERR_CALLBACK;
    int d = c->mode == CND_MODE_DECODE;
    if (t == OP_ARR_FIXED || t == OP_ARR_EOF || t == OP_ARR_DYNAMIC) return CND_ERR_OK;
    if (t >= OP_STR_NULL && t <= OP_STR_PRE_U32) {
        if (!d) { const char *s = val(n); *(const char **)p = s && *s == '\'' ? s + 1 : s; return CND_ERR_OK; }
        const uint8_t *q = p; size_t l = 0;
        if (t == OP_STR_NULL) l = strlen((char *)q);
        else if (t == OP_STR_PRE_U8) l = q[-1];
        else if (t == OP_STR_PRE_U16) l = c->endianness == CND_LE ? q[-2] | q[-1] << 8 : q[-1] | q[-2] << 8;
        else l = c->endianness == CND_LE ? q[-4] | q[-3] << 8 : q[-1] | q[-2] << 8;
        printf(" %s='%.*s", n, (int)l, (char *)q);
        return CND_ERR_OK;
    }
#define N(OP, T, F) case OP: if (d) { printf(" %s=" F, n, *(T *)p); seen[k] = (uint64_t)*(T *)p; } else *(T *)p = (T)I(val(n)); break
    if (d && (t == OP_LOAD_CTX || t == OP_CTX_QUERY)) { *(uint64_t *)p = seen[k]; return CND_ERR_OK; }
    switch (t) {
    case OP_ARR_PRE_U8: N(OP_IO_U8, uint8_t, "%u"); N(OP_IO_U16, uint16_t, "%u"); N(OP_IO_U32, uint32_t, "%u");
    case OP_ARR_PRE_U16: if (d) printf(" %s=%u", n, *(uint16_t *)p); else *(uint16_t *)p = (uint16_t)I(val(n)); break;
    case OP_ARR_PRE_U32: if (d) printf(" %s=%u", n, *(uint32_t *)p); else *(uint32_t *)p = (uint32_t)I(val(n)); break;
    N(OP_IO_I8, int8_t, "%d"); N(OP_IO_I16, int16_t, "%d"); N(OP_IO_I32, int32_t, "%d");
    case OP_LOAD_CTX: case OP_IO_BIT_U: case OP_CTX_QUERY: N(OP_IO_U64, uint64_t, "%lu");
    case OP_IO_BIT_I: N(OP_IO_I64, int64_t, "%ld");
    case OP_IO_BIT_BOOL: N(OP_IO_BOOL, uint8_t, "%u");
    case OP_IO_F32: if (d) printf(" %s=%.9g", n, *(float *)p); else { const char *s = val(n); *(float *)p = s ? strtof(s, 0) : 0; } break;
    case OP_IO_F64: if (d) printf(" %s=%.17g", n, *(double *)p); else { const char *s = val(n); *(double *)p = s ? strtod(s, 0) : 0; } break;
    case OP_STORE_CTX: if (d) printf(" %s:=%lu", n, *(uint64_t *)p); break;
    default: printf(" ?%02x", t);
    }
    return CND_ERR_OK;
}
int main(int argc, char **argv) {
    av = argv; ac = argc; used = calloc(argc, 1);
    char il[4096]; snprintf(il, sizeof il, "%s.il", argv[1]);
    fflush(stdout);
    FILE *save = stdout; (void)save;
    if (cnd_compile_file(argv[1], il, 0, 0)) { printf("compile error\n"); return 3; }
    FILE *f = fopen(il, "rb"); static uint8_t im[1 << 20]; size_t n = fread(im, 1, sizeof im, f); fclose(f);
    if (cnd_program_load_il(&P, im, n)) { printf("load error\n"); return 4; }
    cnd_vm_ctx c; memset(&c, 0, sizeof c);
    if (argc < 3) { printf("verify %d\n", cnd_verify_program(&P)); return 0; }
    if (argv[2][0] == 'e') {
        size_t cap = strtoul(argv[3], 0, 0); uint8_t *b = calloc(cap + 1, 1);
        cnd_init(&c, CND_MODE_ENCODE, &P, b, cap, cb, NULL);
        int rc = cnd_execute(&c); printf("%d ", rc);
        for (size_t i = 0; i < c.cursor + (c.bit_offset != 0) && i < cap; i++) printf("%02x", b[i]);
    } else {
        size_t l = strlen(argv[3]) / 2; uint8_t *b = malloc(l + 1);
        for (size_t i = 0; i < l; i++) { unsigned x; sscanf(argv[3] + 2 * i, "%2x", &x); b[i] = x; }
        cnd_init(&c, CND_MODE_DECODE, &P, b, l, cb, NULL);
        int rc = cnd_execute(&c); printf(" -> %d", rc);
    }
    printf("\n"); return 0;
}
