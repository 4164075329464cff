// Canonical JSON dump of a rayforce value: type tag and raw contents, independent of the
// formatter of the code under test.
#ifndef VT_CANON_H
#define VT_CANON_H
#include <stdio.h>
#include <math.h>
#include <string.h>
#include "core/rayforce.h"
#include "core/util.h"
#include "core/heap.h"
#include "core/error.h"
#include "core/runtime.h"
#include "core/eval.h"
#include "core/lambda.h"
#include "core/ops.h"
#include "core/unary.h"
#include "core/symbols.h"
#include "core/format.h"
#include "core/env.h"

extern obj_p ray_value(obj_p);
typedef struct { char *p; size_t n, cap; } vt_buf;
static void vt_put(vt_buf *b, const char *s, size_t n) {
    if (b->n + n + 1 > b->cap) { b->cap = (b->n + n + 1) * 2 + 4096; b->p = realloc(b->p, b->cap); }
    memcpy(b->p + b->n, s, n); b->n += n; b->p[b->n] = 0;
}
static void vt_puts(vt_buf *b, const char *s) { vt_put(b, s, strlen(s)); }
__attribute__((format(printf, 2, 3))) static void vt_pf(vt_buf *b, const char *f, ...) {
    char t[256]; va_list a; va_start(a, f); int n = vsnprintf(t, sizeof t, f, a); va_end(a); vt_put(b, t, n);
}
static void vt_str(vt_buf *b, const char *s, size_t n) {
    vt_puts(b, "\"");
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { char t[2] = {'\\', c}; vt_put(b, t, 2); }
        else if (c < 32 || c > 126) vt_pf(b, "\\u%04x", c);
        else vt_put(b, (char *)&c, 1);
    }
    vt_puts(b, "\"");
}
static void vt_f64(vt_buf *b, double d) {
    uint64_t u; memcpy(&u, &d, 8);
    if ((u & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (u & 0xfffffffffffffull)) vt_puts(b, "NaN");
    else if (u == 0x7ff0000000000000ull) vt_puts(b, "Infinity");
    else if (u == 0xfff0000000000000ull) vt_puts(b, "-Infinity");
    else { char t[64]; snprintf(t, sizeof t, "%.17g", d); vt_puts(b, t); if (!strpbrk(t, ".e")) vt_puts(b, ".0"); }
}
static void vt_sym(vt_buf *b, i64_t s) {
    if (s == NULL_I64) { vt_puts(b, "null"); return; }
    str_p p = str_from_symbol(s);
    vt_str(b, p, strlen(p));
}
static void vt_guid(vt_buf *b, const u8_t *g) { vt_puts(b, "\""); for (int i = 0; i < 16; i++) vt_pf(b, "%02x", g[i]); vt_puts(b, "\""); }
static const char *vt_tn(int t) {
    switch (t) {
        case TYPE_LIST: return "LIST"; case TYPE_B8: return "B8"; case TYPE_U8: return "U8"; case TYPE_I16: return "I16";
        case TYPE_I32: return "I32"; case TYPE_I64: return "I64"; case TYPE_SYMBOL: return "SYMBOL"; case TYPE_DATE: return "DATE";
        case TYPE_TIME: return "TIME"; case TYPE_TIMESTAMP: return "TIMESTAMP"; case TYPE_F64: return "F64"; case TYPE_GUID: return "GUID";
        case TYPE_C8: return "C8";
        case -TYPE_B8: return "b8"; case -TYPE_U8: return "u8"; case -TYPE_I16: return "i16";
        case -TYPE_I32: return "i32"; case -TYPE_I64: return "i64"; case -TYPE_SYMBOL: return "symbol"; case -TYPE_DATE: return "date";
        case -TYPE_TIME: return "time"; case -TYPE_TIMESTAMP: return "timestamp"; case -TYPE_F64: return "f64"; case -TYPE_GUID: return "guid";
        case -TYPE_C8: return "c8";
    }
    return "?";
}
static void vt_elem(vt_buf *b, int t, const void *p, i64_t i) {
    switch (t) {
        case TYPE_B8: vt_pf(b, "%d", (int)((const i8_t *)p)[i]); break;
        case TYPE_U8: vt_pf(b, "%d", (int)((const u8_t *)p)[i]); break;
        case TYPE_I16: vt_pf(b, "%d", (int)((const i16_t *)p)[i]); break;
        case TYPE_I32: case TYPE_DATE: case TYPE_TIME: vt_pf(b, "%d", ((const i32_t *)p)[i]); break;
        case TYPE_I64: case TYPE_TIMESTAMP: vt_pf(b, "%lld", ((const i64_t *)p)[i]); break;
        case TYPE_SYMBOL: vt_sym(b, ((const i64_t *)p)[i]); break;
        case TYPE_F64: vt_f64(b, ((const f64_t *)p)[i]); break;
        case TYPE_GUID: vt_guid(b, ((const guid_t *)p)[i]); break;
    }
}
static void vt_canon(vt_buf *b, obj_p o) {
    if (o == NULL) { vt_puts(b, "[\"CNULL\"]"); return; }
    int t = o->type;
    if (t == TYPE_NULL) { vt_puts(b, "[\"NULL\"]"); return; }
    if (t == TYPE_ERR) {
        i64_t c = err_code(o);
        vt_pf(b, "[\"ERR\",%lld]", (long long)c);
        return;
    }
    if (t < 0 && t >= -TYPE_C8) {
        vt_pf(b, "[\"%s\",", vt_tn(t));
        switch (-t) {
            case TYPE_GUID: vt_guid(b, AS_GUID(o)[0]); break;
            case TYPE_C8: vt_str(b, &o->c8, 1); break;
            default: vt_elem(b, -t, &o->i64, 0);
        }
        vt_puts(b, "]");
        return;
    }
    switch (t) {
        case TYPE_C8: vt_puts(b, "[\"C8\","); vt_str(b, AS_C8(o), o->len); vt_puts(b, "]"); return;
        case TYPE_B8: case TYPE_U8: case TYPE_I16: case TYPE_I32: case TYPE_I64: case TYPE_SYMBOL: case TYPE_DATE: case TYPE_TIME:
        case TYPE_TIMESTAMP: case TYPE_F64: case TYPE_GUID:
            vt_pf(b, "[\"%s\",[", vt_tn(t));
            for (i64_t i = 0; i < o->len; i++) { if (i) vt_puts(b, ","); vt_elem(b, t, AS_C8(o), i); }
            vt_puts(b, "]]");
            return;
        case TYPE_LIST:
            vt_puts(b, "[\"LIST\",[");
            for (i64_t i = 0; i < o->len; i++) { if (i) vt_puts(b, ","); vt_canon(b, AS_LIST(o)[i]); }
            vt_puts(b, "]]");
            return;
        case TYPE_DICT: case TYPE_TABLE:
            vt_pf(b, "[\"%s\",", t == TYPE_DICT ? "DICT" : "TABLE");
            vt_canon(b, AS_LIST(o)[0]); vt_puts(b, ","); vt_canon(b, AS_LIST(o)[1]); vt_puts(b, "]");
            return;
        case TYPE_ENUM: {
            // resolve through the value conversion: domain name and resolved symbols
            obj_p v = ray_value(o);
            vt_puts(b, "[\"ENUM\","); vt_canon(b, v); vt_puts(b, "]");
            drop_obj(v);
            return;
        }
        case TYPE_MAPLIST: {
            obj_p v = ray_value(o);
            vt_puts(b, "[\"MAPLIST\","); vt_canon(b, v); vt_puts(b, "]");
            drop_obj(v);
            return;
        }
        case TYPE_PARTEDLIST: case TYPE_PARTEDB8: case TYPE_PARTEDU8: case TYPE_PARTEDI16: case TYPE_PARTEDI32: case TYPE_PARTEDI64:
        case TYPE_PARTEDF64: case TYPE_PARTEDDATE: case TYPE_PARTEDTIME: case TYPE_PARTEDTIMESTAMP: case TYPE_PARTEDGUID: case TYPE_PARTEDENUM:
        case TYPE_MAPCOMMON:
            vt_puts(b, t == TYPE_MAPCOMMON ? "[\"COMMON\",[" : "[\"PARTED\",[");
            for (i64_t i = 0; i < o->len; i++) { if (i) vt_puts(b, ","); vt_canon(b, AS_LIST(o)[i]); }
            vt_puts(b, "]]");
            return;
        case TYPE_UNARY: case TYPE_BINARY: case TYPE_VARY: {
            vt_puts(b, "[\"FN\",\""); vt_puts(b, env_get_internal_name(o)); vt_puts(b, "\"]");
            return;
        }
        case TYPE_LAMBDA:
            vt_puts(b, "[\"LAMBDA\","); vt_canon(b, AS_LAMBDA(o)->args); vt_puts(b, ","); vt_canon(b, AS_LAMBDA(o)->body); vt_puts(b, "]");
            return;
        default: vt_pf(b, "[\"TYPE%d\"]", t);
    }
}
#endif
