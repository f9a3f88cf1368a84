/* Split, concatenate, replace: S10-S12 (and allocation failure in them, D04) over symbolic strings. */
#undef FORCEINLINE
#define FORCEINLINE
#include "raii.h"
#include "sx.h"
#include <string.h>
#include <stdarg.h>
static size_t P(const char *n, long d) { return (size_t)sx_param(n, d); }
static int at(const char *s, size_t n, size_t i, const char *p, size_t m) { /* does p occur in s at i */
    size_t j;
    if (i + m > n) return 0;
    for (j = 0; j < m; j++) if (s[i + j] != p[j]) return 0;
    return 1;
}
static unique_t *scope; static uint64_t live0; static int mode;
/* mode 0: a smart pointer, 1: the thread's scope, 2: no scope (plain allocation) */
static void begin(void) {
    mode = (int)P("mode", 0);
    if (mode == 1) { scope = raii_init(); live0 = sx_heap_live(); }
    else if (mode == 0) { scope = unique_init(); live0 = sx_heap_live(); }
    else { scope = NULL; live0 = sx_heap_live(); }
}
static void end(void *r) {
    if (mode == 2) { free(r); }
    else {
        if (r) sx_assert(sx_is_live(r), "the result lives until its scope ends");
        if (mode == 1) raii_deferred_clean(); else raii_deferred_free(scope);
    }
    if (mode != 1) sx_assert(sx_heap_live() == live0, "the result is released with its scope");
    else if (r) sx_assert(!sx_is_live(r), "the result is released with the thread's scope");
}
/* ---- S10 */
int h_split(void) {
    size_t n = P("n", 4), m = P("m", 1), i, j, start = 0, cnt = 0; char orig[64], *s = sx_str("s", n), *d = sx_str("d", m), **r; int k = -7;
    for (i = 0; i < n; i++) orig[i] = s[i];
    begin();
    r = mode == 1 ? raii_split(s, d, &k) : str_split_ex(scope, s, d, &k);
    sx_assert(r != NULL, "splitting a non-empty string gives pieces");
    for (i = 0; i <= n;) {
        int hit = i < n && at(orig, n, i, d, m);
        if (hit || i == n) {
            char *q = r[cnt];
            sx_assert(q != NULL, "there is a piece for every part between delimiters");
            for (j = start; j < i; j++) sx_assert(q[j - start] == orig[j], "a piece holds exactly the bytes between its delimiters");
            sx_assert(q[i - start] == 0, "a piece ends where the next delimiter was");
            cnt++;
            if (i == n) break;
            i += m; start = i;
        } else i++;
    }
    sx_assert(r[cnt] == NULL, "the pieces are followed by NULL");
    sx_assert(k == (int)cnt, "the number of pieces is reported");
    for (i = 0; i < n; i++) sx_assert(s[i] == orig[i], "the original string is unmodified");
    sx_cover(cnt == 1 ? "one piece" : "pieces");
    end(r);
    return 0;
}
int h_split_more(void) { /* without a counter; empty and NULL arguments as documented by the code: "" gives NULL, no delimiter means blank */
    char **r; size_t which = sx_choose("which", 3);
    begin();
    if (which == 0) { r = mode == 1 ? raii_split("", ",", NULL) : str_split_ex(scope, "", ",", NULL); sx_assert(r == NULL, "splitting the empty string gives NULL"); }
    else if (which == 1) { r = mode == 1 ? raii_split("a b", NULL, NULL) : str_split_ex(scope, "a b", NULL, NULL); sx_assert(r && r[0][0] == 'a' && r[0][1] == 0 && r[1][0] == 'b' && r[1][1] == 0 && !r[2], "the default delimiter is a blank"); }
    else { r = mode == 1 ? raii_split("a,b", ",", NULL) : str_split_ex(scope, "a,b", ",", NULL); sx_assert(r && r[0][0] == 'a' && r[0][1] == 0 && r[1][0] == 'b' && r[1][1] == 0 && !r[2], "the counter is optional"); }
    sx_cover("done");
    end(r);
    return 0;
}
/* ---- S11 */
static char *cat(int n, ...) { va_list ap; char *r; va_start(ap, n); r = str_concat_ex(scope, n, ap); va_end(ap); return r; }
int h_concat(void) {
    size_t k = P("k", 3), ln[8], i, j, o = 0; char *s[8], o0[8][24], *r; long code = P("lens", 0);
    for (i = 0; i < 8; i++) {
        ln[i] = i < k ? (size_t)(code % 20) : 0; code /= 20;
        s[i] = i < k ? sx_str("s", ln[i]) : NULL;
        for (j = 0; j < ln[i]; j++) o0[i][j] = s[i][j];
    }
    begin();
    if (mode == 1) r = raii_concat((int)k, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    else r = cat((int)k, s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]);
    sx_assert(r != NULL, "concatenation gives a string");
    for (i = 0; i < k; i++) {
        for (j = 0; j < ln[i]; j++) sx_assert(r[o + j] == o0[i][j], "the bytes of the strings follow each other in order");
        for (j = 0; j < ln[i]; j++) sx_assert(s[i][j] == o0[i][j], "the inputs are unmodified");
        sx_assert(s[i][ln[i]] == 0, "the inputs are unmodified");
        o += ln[i];
    }
    sx_assert(r[o] == 0, "the concatenation is terminated");
    sx_cover("done");
    end(r);
    return 0;
}
/* ---- S12 */
int h_replace(void) {
    size_t n = P("n", 4), m = P("m", 1), q = P("q", 2), i, j, o = 0, cnt = 0; char *h = sx_str("h", n), *d = sx_str("d", m), *w = sx_str("w", q), orig[64], exp[256], *r;
    for (i = 0; i < n; i++) orig[i] = h[i];
    for (i = 0; i < n;) {
        if (at(orig, n, i, d, m)) { for (j = 0; j < q; j++) exp[o++] = w[j]; cnt++; i += m; }
        else exp[o++] = orig[i++];
    }
    begin();
    r = mode == 1 ? raii_replace(h, d, w) : str_replace_ex(scope, h, d, w);
    if (!cnt) { sx_assert(r == NULL, "without an occurrence the result is NULL"); sx_cover("none"); }
    else {
        sx_assert(r != NULL, "with an occurrence there is a result");
        sx_assert(sx_block_size(r) >= o + 1, "the result has room for its text");
        for (i = 0; i < o; i++) sx_assert(r[i] == exp[i], "every occurrence and nothing else is replaced");
        sx_assert(r[o] == 0, "the result is terminated");
        sx_cover(cnt > 1 ? "several" : "one");
    }
    for (i = 0; i < n; i++) sx_assert(h[i] == orig[i], "the haystack is unmodified");
    end(r);
    return 0;
}
/* ---- long inputs: many pieces, occurrences or strings; the first byte of each is arbitrary, the layout is fixed */
static size_t piece(size_t i, size_t mul, size_t cyc) { return cyc ? i * mul % cyc : 0; }
static char *layout(size_t k, const char *d, size_t m, size_t mul, size_t cyc, size_t *st, size_t *total) {
    size_t i, j, o = 0; char *s; uint8_t a;
    for (i = 0; i < k; i++) o += piece(i, mul, cyc) + (i + 1 < k ? m : 0);
    s = malloc(o + 1); *total = o; o = 0;
    for (i = 0; i < k; i++) {
        size_t l = piece(i, mul, cyc);
        st[i] = o;
        for (j = 0; j < l; j++) s[o + j] = (char)('a' + (i + j) % 20);
        if (l && (k <= 300 || i < 5 || i + 5 > k)) { a = sx_u8("a"); sx_assume(a != 0); sx_assume(a != (uint8_t)d[0]); s[o] = (char)a; }
        o += l;
        if (i + 1 < k) { for (j = 0; j < m; j++) s[o + j] = d[j]; o += m; }
    }
    s[o] = 0;
    return s;
}
static size_t st_[70010];
static const char *longdel(size_t m) { char *p = malloc(m + 1); memset(p, '-', m); p[m - 1] = '|'; p[m] = 0; return p; }
int h_split_long(void) {
    size_t k = P("k", 20), m = P("m", 1), mul = P("mul", 1), cyc = P("cyc", 3), n, i, j; const char *d = m == 1 ? "," : m == 2 ? "<>" : m == 3 ? "--|" : longdel(m);
    char *s = layout(k, d, m, mul, cyc, st_, &n), **r; int cnt = -7;
    begin();
    r = mode == 1 ? raii_split(s, d, &cnt) : str_split_ex(scope, s, d, &cnt);
    sx_assert(r != NULL && cnt == (int)k, "the number of pieces is reported");
    for (i = 0; i < k; i++) {
        size_t l = piece(i, mul, cyc);
        sx_assert(r[i] != NULL, "there is a piece for every part between delimiters");
        for (j = 0; j < l; j++) sx_assert(r[i][j] == s[st_[i] + j], "a piece holds exactly the bytes between its delimiters");
        sx_assert(r[i][l] == 0, "a piece ends where the next delimiter was");
    }
    sx_assert(r[k] == NULL, "the pieces are followed by NULL");
    sx_cover("done");
    end(r);
    return 0;
}
int h_replace_long(void) {
    size_t k = P("k", 20), m = P("m", 1), mul = P("mul", 1), cyc = P("cyc", 3), q = P("q", 2), n, i, j, o = 0; const char *d = m == 1 ? "," : m == 2 ? "<>" : m == 3 ? "--|" : longdel(m);
    char *s = layout(k, d, m, mul, cyc, st_, &n), *w = sx_str("w", q), *r;
    begin();
    r = mode == 1 ? raii_replace(s, d, w) : str_replace_ex(scope, s, d, w);
    sx_assert(r != NULL && sx_block_size(r) >= n + (k - 1) * q - (k - 1) * m + 1, "the result has room for its text");
    for (i = 0; i < k; i++) {
        size_t l = piece(i, mul, cyc);
        for (j = 0; j < l; j++) sx_assert(r[o++] == s[st_[i] + j], "every occurrence and nothing else is replaced");
        if (i + 1 < k) for (j = 0; j < q; j++) sx_assert(r[o++] == w[j], "every occurrence and nothing else is replaced");
    }
    sx_assert(r[o] == 0, "the result is terminated");
    sx_cover("done");
    end(r);
    return 0;
}
int h_concat_long(void) {
    size_t k = P("k", 20), mul = P("mul", 1), cyc = P("cyc", 3), i, j, o = 0; char *s[24], *r;
    for (i = 0; i < 24; i++) {
        size_t l = i < k ? piece(i, mul, cyc) : 0; uint8_t a = 'x';
        s[i] = malloc(l + 1);
        for (j = 0; j < l; j++) s[i][j] = (char)('a' + (i + j) % 20);
        if (l) { a = sx_u8("a"); sx_assume(a != 0); s[i][0] = (char)a; a = sx_u8("z"); sx_assume(a != 0); s[i][l - 1] = (char)a; }
        s[i][l] = 0;
    }
    begin();
#define S4(i) s[i], s[i + 1], s[i + 2], s[i + 3]
    if (mode == 1) r = raii_concat((int)k, S4(0), S4(4), S4(8), S4(12), S4(16), S4(20));
    else r = cat((int)k, S4(0), S4(4), S4(8), S4(12), S4(16), S4(20));
    sx_assert(r != NULL, "concatenation gives a string");
    for (i = 0; i < k; i++) for (j = 0; j < piece(i, mul, cyc); j++) sx_assert(r[o++] == s[i][j], "the bytes of the strings follow each other in order");
    sx_assert(r[o] == 0, "the concatenation is terminated");
    sx_assert(sx_block_size(r) >= o + 1, "the result has room for its text");
    sx_cover("done");
    end(r);
    return 0;
}
