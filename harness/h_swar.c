/* String, number and base64 primitives: S01-S09, S13, B01-B03 over symbolic buffers. */
#undef FORCEINLINE
#define FORCEINLINE /* plain declarations of the library functions */
#include "raii.h"
#include "sx.h"
#include <string.h>

static size_t P(const char *n, long d) { return (size_t)sx_param(n, d); }

/* sparse buffers: only the bytes at the ends, around word 0/1 boundaries and in the middle are symbolic, the others a fixed text */
static int hot(size_t i, size_t n) {
    return !P("sparse", 0) || i == 0 || i == 7 || i == 8 || i == n / 2 || i + 1 == n || i + 2 == n || i + 8 == n || i + 9 == n;
}
static void fill(char *p, size_t n, const char *name) {
    size_t i;
    if (!P("sparse", 0)) { sx_bytes(p, n, name); return; }
    for (i = 0; i < n; i++) if (hot(i, n)) sx_bytes(p + i, 1, name); else p[i] = (char)('a' + i * 7 % 23);
}
/* a string of n symbolic non-zero bytes whose first byte has alignment `al` */
static char *astr(const char *name, size_t n, size_t al) {
    char *b = malloc(n + 1 + al), *p = b + al;
    size_t i;
    fill(p, n, name);
    for (i = 0; i < n; i++) if (hot(i, n)) sx_assume(p[i] != 0);
    p[n] = 0;
    return p;
}

/* ---- S01 */
int h_strlen(void) {
    size_t n = P("n", 3), al = P("al", 0);
    char *s = astr("s", n, al);
    sx_assert(simd_strlen(s) == n, "simd_strlen returns the number of bytes before the terminator");
    sx_cover("done");
    return 0;
}
/* the terminator itself is symbolic: first zero anywhere in the buffer */
int h_strlen_any(void) {
    size_t n = P("n", 9), al = P("al", 0), i, r;
    char *b = malloc(n + 1 + al), *s = b + al;
    sx_bytes(s, n, "s");
    s[n] = 0;
    r = simd_strlen(s);
    sx_assert(r <= n, "length within the buffer");
    r = sx_conc(r);
    sx_assert(s[r] == 0, "the byte at the returned length is the terminator");
    for (i = 0; i < r; i++) sx_assert(s[i] != 0, "no terminator before the returned length");
    sx_cover(r == n ? "full" : "short");
    return 0;
}

/* ---- S02 */
static int refcmp(const char *a, const char *b, size_t n) { /* branch-free sign of the first difference, n bytes */
    int r = 0; size_t i;
    for (i = n; i-- > 0;) {
        int d = (unsigned char)a[i] - (unsigned char)b[i];
        r = (int)sx_ite(d, d, r);
    }
    return r;
}
int h_strcmp(void) {
    size_t n = P("n", 3), m = P("m", 3), aa = P("aa", 0), ab = P("ab", 0);
    char *a = astr("a", n, aa), *b = astr("b", m, ab);
    int r = simd_strcmp(a, b), w = refcmp(a, b, (n < m ? n : m) + 1);
    sx_assert((r == 0) == (w == 0), "simd_strcmp is zero exactly for equal strings");
    sx_assert((r < 0) == (w < 0), "simd_strcmp has the sign of the first difference as unsigned char");
    if (n != m || w) sx_cover("differ"); else sx_cover("equal");
    return 0;
}
int h_streq(void) {
    size_t n = P("n", 3), m = P("m", 3);
    char *a = astr("a", n, 0), *b = astr("b", m, 0);
    int w = refcmp(a, b, (n < m ? n : m) + 1) == 0;
    sx_assert(is_str_eq(a, b) == w, "is_str_eq is true exactly for equal strings");
    sx_assert(is_str_empty(a) == (n == 0), "is_str_empty is true exactly for the empty string");
    sx_assert(!is_str_eq(a, NULL) && !is_str_eq(NULL, a) && !is_str_eq(NULL, NULL) && !is_str_empty(NULL), "NULL equals nothing");
    sx_cover(w ? "equal" : "differ");
    return 0;
}

/* ---- S03 */
static long firstof(const unsigned char *b, size_t n, unsigned char c) {
    long r = -1; size_t i;
    for (i = n; i-- > 0;) r = (long)sx_ite(b[i] == c, i, r);
    return r;
}
static long lastof(const unsigned char *b, size_t n, unsigned char c) {
    long r = -1; size_t i;
    for (i = 0; i < n; i++) r = (long)sx_ite(b[i] == c, i, r);
    return r;
}
/* mode 0 binary, 1 binary known, 2 printable, 3 printable known; the buffer is followed and preceded by symbolic bytes */
int h_memchr(void) {
    size_t n = P("n", 3), mode = P("mode", 0), rev = P("rev", 0), pad = P("pad", 8), i, tot = n + 2 * pad;
    unsigned char *buf = malloc(tot ? tot : 1), *s = buf + pad, c = sx_u8("c");
    long w;
    fill((char *)buf, tot, "b");
    if (mode >= 2) { /* printable text and character */
        sx_assume((c >= 0x20) & (c < 0x7f));
        for (i = 0; i < tot; i++) if (hot(i, tot)) sx_assume((buf[i] >= 0x20) & (buf[i] < 0x7f));
    }
    w = rev ? lastof(s, n, c) : firstof(s, n, c);
    if (mode & 1) sx_assume(w >= 0);
    if (mode == 0) {
        char *r = rev ? simd_memrchr((char *)s, c, n) : simd_memchr((char *)s, c, n);
        if (w < 0) {
            sx_assert(r == NULL, "byte search returns NULL when the byte is not in the buffer");
            sx_cover("absent");
        } else {
            sx_assert(r == (char *)s + w, rev ? "simd_memrchr returns the last position of the byte" : "simd_memchr returns the first position of the byte");
            sx_cover("present");
        }
    } else {
        uint32_t r;
        if (mode == 1) r = rev ? memrchrk((char *)s, n, c) : memchrk((char *)s, n, c);
        else if (mode == 2) r = rev ? pmemrchr((char *)s, n, c) : pmemchr((char *)s, n, c);
        else r = rev ? pmemrchrk((char *)s, n, c) : pmemchrk((char *)s, n, c);
        sx_assert(r == (uint32_t)w, rev ? "reverse search index is the last occurrence" : "forward search index is the first occurrence");
        sx_cover(w < 0 ? "absent" : "present");
    }
    return 0;
}
int h_hasbyte(void) {
    uint64_t x = sx_u64("x"); uint8_t c = sx_u8("c"); char b[8]; long w; int any0 = 0, i;
    memcpy(b, &x, 8);
    w = firstof((unsigned char *)b, 8, c);
    for (i = 0; i < 8; i++) any0 |= (b[i] == 0);
    sx_assert((haszero(x) != 0) == any0, "haszero is true exactly when a byte is zero");
    sx_assert((hasbyte(x, c) != 0) == (w >= 0), "hasbyte is true exactly when the byte occurs");
    sx_assert(memchr8(b, c) == (uint32_t)w, "memchr8 returns the first index or -1");
    if (w >= 0) { sx_cover("has"); sx_assert(memchr8k(b, c) == (uint32_t)w, "memchr8k returns the first index"); }
    else sx_cover("has not");
    return 0;
}
int h_words(void) { /* extend, cast, cast8, countr/countl */
    uint64_t x = sx_u64("x"); uint8_t c = sx_u8("c"); char b[8]; uint32_t len = sx_choose("len", 9); int i, z = 0;
    uint64_t m = 0;
    memcpy(b, &x, 8);
    for (i = 7; i >= 0; i--) m = m << 8 | (i < (int)len ? (unsigned char)b[i] : 0);
    sx_assert(cast(b) == x, "cast loads the word");
    sx_assert(cast8(b, len) == m, "cast8 keeps exactly the given number of bytes");
    sx_assert(extend((char)c) == c * 0x0101010101010101ull, "extend repeats the byte");
    for (i = 63; i >= 0; i--) z = (int)sx_ite(x >> i & 1, i + 1, z);
    sx_assert(countr_index(x) == z, "countr_index is the index of the lowest set bit");
    sx_cover("done");
    return 0;
}

/* ---- S04 */
/* n decimal digits: d[i] in 0..9 symbolic (the first at least `first`), written as text to p when given */
static uint64_t dig[24];
static void digits(char *p, size_t n, const char *nm, uint64_t first) {
    size_t i;
    for (i = 0; i < n; i++) { dig[i] = sx_range(nm, i ? 0 : first, 9); if (p) p[i] = (char)('0' + dig[i]); }
}
/* n digits whose value is at most that of `max` (n digits): every position of the first smaller digit, and equality */
static void digits_max(char *p, size_t n, const char *max, const char *nm, uint64_t first) {
    size_t k = sx_choose("prefix", (uint32_t)n + 1), i;
    for (i = 0; i < n; i++) {
        uint64_t m = (uint64_t)(max[i] - '0'), lo = i ? 0 : first;
        if (i < k) dig[i] = m;
        else if (i == k) { char q[8] = "lt??"; q[2] = (char)('a' + i); q[3] = nm[0]; sx_assume(m > lo); dig[i] = sx_range(q, lo, m - 1); }
        else { char q[8] = "fr??"; q[2] = (char)('a' + i); q[3] = nm[0]; dig[i] = sx_range(q, 0, 9); }
        if (p) p[i] = (char)('0' + dig[i]);
    }
}
static void rest(char *p, size_t n) { size_t i; for (i = 0; i < n; i++) p[i] = (char)sx_range("rest", 0, 255); } /* any bytes */
static uint64_t dsum(size_t n) { uint64_t v = 0; size_t i; for (i = 0; i < n; i++) v = v * 10 + dig[i]; return v; }
int h_atou8(void) {
    size_t n = P("n", 3);
    char *b = malloc(16);
    rest(b, 16);
    digits(b, n, "d", 0);
    sx_assert(atou8(b, n) == dsum(n), "atou8 returns the number written");
    sx_cover("done");
    return 0;
}
/* mode 0 simd_atou, 1 simd_atoi with a symbolic sign character (or none) */
int h_atou(void) {
    size_t n = P("n", 3), mode = P("mode", 0), sg = P("sign", 0);
    char *b = malloc(n + 10), *d = b + sg;
    uint64_t v; int neg = 0;
    rest(b, n + 10);
    if (mode && sg) { neg = (int)sx_choose("neg", 2); b[0] = neg ? '-' : '+'; }
    if (mode && n == 19) digits_max(d, n, neg ? "9223372036854775808" : "9223372036854775807", neg ? "n" : "p", 0);
    else if (n == 20) digits_max(d, n, "18446744073709551615", "d", 0);
    else digits(d, n, "d", 0);
    v = dsum(n);
    if (!mode) {
        sx_assert(simd_atou(b, n) == v, "simd_atou returns the number written");
    } else {
        sx_assert((uint64_t)simd_atoi(b, n + sg) == (neg ? 0 - v : v), "simd_atoi returns the number written");
        sx_cover(neg ? "neg" : "pos");
    }
    sx_cover("done");
    return 0;
}

/* ---- S05 */
static char text[32];
static void itoa_text(const char *buf, uint32_t r, size_t nd, size_t neg) {
    size_t i;
    sx_assert(r == nd + neg, "integer formatting returns the length of the canonical representation");
    sx_assert(buf[nd + neg] == 0, "integer formatting terminates the text");
    if (neg) sx_assert(buf[0] == '-', "integer formatting writes the minus sign");
    for (i = 0; i < nd; i++) sx_assert(buf[neg + i] == (char)('0' + dig[i]), "integer formatting writes the decimal digits");
    for (i = 0; i < nd; i++) text[neg + i] = (char)('0' + dig[i]); /* the text just shown to be in buf */
    text[0] = neg ? '-' : text[0];
}
int h_itoa8(void) { /* all integers of nd digits and the given sign */
    size_t nd = P("nd", 3), neg = P("neg", 0); char *buf = malloc(16); uint32_t r; uint64_t u;
    digits(NULL, nd, "d", nd > 1 || neg);
    u = dsum(nd);
    r = itoa8(neg ? -(int32_t)u : (int32_t)u, buf);
    itoa_text(buf, r, nd, neg);
    sx_assert(simd_atoi(text, r) == (neg ? -(int64_t)u : (int64_t)u), "parsing the text gives the integer back");
    sx_cover("done");
    return 0;
}
int h_itoa(void) {
    size_t nd = P("nd", 3), neg = P("neg", 0); char *buf = malloc(22); uint32_t r; uint64_t u;
    if (nd == 19) digits_max(NULL, nd, neg ? "9223372036854775808" : "9223372036854775807", neg ? "n" : "p", 1);
    else digits(NULL, nd, "d", nd > 1 || neg);
    u = dsum(nd);
    r = simd_itoa(neg ? (int64_t)(0 - u) : (int64_t)u, buf);
    itoa_text(buf, r, nd, neg);
    sx_assert((uint64_t)simd_atoi(text, r) == (neg ? 0 - u : u), "parsing the text gives the integer back");
    sx_cover("done");
    return 0;
}
int h_itoa_edge(void) { /* extreme values, concrete */
    static const int64_t v[] = { INT64_MIN, INT64_MIN + 1, -2147483648ll, -2147483649ll, 2147483648ll, INT64_MAX, 4294967296ll, -4294967296ll, -4294967297ll, 0, -1, 100, -100 };
    static const char *t[] = { "-9223372036854775808", "-9223372036854775807", "-2147483648", "-2147483649", "2147483648", "9223372036854775807", "4294967296", "-4294967296", "-4294967297", "0", "-1", "100", "-100" };
    uint32_t k = sx_choose("k", 13), i; char *buf = malloc(22);
    uint32_t r = simd_itoa(v[k], buf);
    sx_assert(r == strlen(t[k]), "simd_itoa length at the extremes");
    for (i = 0; i <= strlen(t[k]); i++) sx_assert(buf[i] == t[k][i], "simd_itoa text at the extremes");
    sx_cover("done");
    return 0;
}

/* ---- S06 */
static uint64_t hv(char c) { uint64_t v = sx_ite((c >= 'A') & (c <= 'F'), (uint64_t)(c - 'A' + 10), (uint64_t)(c - '0')); return sx_ite(c >= 'a', (uint64_t)(c - 'a' + 10), v); }
int h_htou(void) {
    size_t n = P("n", 3), mode = P("mode", 0), i; uint64_t v = 0; char *b = malloc(n + 10);
    sx_bytes(b, n + 10, "rest");
    for (i = 0; i < n; i++) { int ok = (b[i] >= '0') & (b[i] <= '9') | (b[i] >= 'a') & (b[i] <= 'f') | (b[i] >= 'A') & (b[i] <= 'F'); sx_assume(ok); }
    for (i = 0; i < n; i++) v = v << 4 | hv(b[i]);
    if (mode) sx_assert(simd_htou(b, n) == v, "simd_htou returns the number written");
    else sx_assert(htou8(b, n) == (uint32_t)v, "htou8 returns the number written");
    sx_cover("done");
    return 0;
}

/* ---- S07 */
int h_utoa2p(void) {
    uint64_t x; char b[4] = { 1, 2, 3, 4 }; uint16_t t;
    digits(NULL, 2, "d", 0);
    x = dsum(2);
    t = utoa2p(x);
    utoa2p_ex(x, b + 1);
    sx_assert((t & 255) == '0' + dig[0] && t >> 8 == '0' + dig[1], "utoa2p gives the two decimal digits");
    sx_assert(b[1] == (char)('0' + dig[0]) && b[2] == (char)('0' + dig[1]), "utoa2p_ex writes the two decimal digits");
    sx_assert(b[0] == 1 && b[3] == 4, "utoa2p_ex writes two bytes only");
    sx_cover("done");
    return 0;
}
int h_utoap(void) { /* any value of at most N digits */
    size_t n = P("n", 3), i, sz = P("sz", 24); char *b = malloc(sz), *r;
    if (n == 20) digits_max(NULL, n, "18446744073709551615", "d", 0);
    else digits(NULL, n, "d", 0);
    r = utoap((int)n, dsum(n), b);
    sx_assert(r == b && b[n] == 0, "utoap terminates at N characters");
    for (i = 0; i < n; i++) sx_assert(b[i] == (char)('0' + dig[i]), "utoap writes the zero padded number");
    sx_cover("done");
    return 0;
}

/* ---- S08 */
int h_atod(void) {
    size_t ni = P("ni", 1), nf = P("nf", 1), sg = P("sign", 1), i, o = 0; char *b = malloc(ni + nf + 12); int neg = 0; uint64_t v;
    for (i = 0; i < ni + nf + 12; i++) b[i] = '7';
    if (sg) { neg = (int)sx_choose("neg", 2); b[o++] = neg ? '-' : '+'; }
    digits(b + o, ni, "i", 0); v = dsum(ni); o += ni;
    if (nf || P("dot", 0)) {
        b[o++] = '.';
        digits(b + o, nf, "f", 0);
        for (i = 0; i < nf; i++) v = v * 10 + dig[i];
        o += nf;
    }
    sx_close(simd_atod(b, (uint32_t)o), v, (int)nf, neg, 1e-15, "simd_atod gives the number written, within a few units in the last place");
    sx_cover(neg ? "neg" : "pos");
    return 0;
}

/* ---- S09 */
int h_strpos(void) {
    /* pat: patterns whose parts repeat, in any text */
    static const char *pats[] = { "", "abcaX", "aabaac", "ababac", "aaaab", "abcabcabd", "abacabad", "aaaaaaaa" };
    size_t n = P("n", 4), m = P("pat", 0) ? strlen(pats[P("pat", 0)]) : P("m", 2), i, j; char *t = astr("t", n, 0), *p; int w = -1, r;
    if (P("pat", 0)) { p = malloc(m + 1); memcpy(p, pats[P("pat", 0)], m + 1); } else p = astr("p", m, 0);
    for (i = n + 1; i-- > 0;) {
        int ok = i + m <= n;
        for (j = 0; j < m && i + j <= n; j++) ok &= (t[i + j] == p[j]);
        w = (int)sx_ite(ok, i, w);
    }
    r = strpos(t, p);
    sx_assert(r == w, "strpos returns the smallest offset of the pattern or -1");
    sx_assert(is_str_in(t, p) == (w >= 0), "is_str_in is true exactly when the pattern occurs");
    sx_cover(w < 0 ? "absent" : "present");
    return 0;
}

/* ---- S13 */
int h_memdup(void) {
    size_t n = P("n", 5), i; unsigned char *s = malloc(n ? n : 1), *d, orig[1100]; unique_t *u = unique_init(); uint64_t live = sx_heap_live();
    fill((char *)s, n, "s");
    for (i = 0; i < n; i++) orig[i] = s[i];
    d = (unsigned char *)str_memdup_ex(u, s, n);
    sx_assert(d != NULL && d != s && sx_block_size(d) >= n + 1, "memdup returns a block of its own with room for the terminator");
    for (i = 0; i < n; i++) sx_assert(d[i] == orig[i] && s[i] == orig[i], "memdup copies the bytes and leaves the source alone");
    sx_assert(d[n] == 0, "memdup terminates the copy");
    raii_deferred_free(u);
    sx_assert(sx_heap_live() == live, "the copy is released with its scope");
    sx_cover("done");
    return 0;
}
int h_memdup_default(void) {
    size_t n = P("n", 5), i; unsigned char *s = malloc(n ? n : 1), *d;
    sx_bytes(s, n, "s");
    raii_init();
    d = raii_memdup(s, n);
    for (i = 0; i < n; i++) sx_assert(d[i] == s[i], "raii_memdup copies the bytes");
    sx_assert(d[n] == 0, "raii_memdup terminates the copy");
    sx_assert(sx_is_live(d), "the copy is live");
    raii_deferred_clean();
    sx_assert(!sx_is_live(d), "the copy is released with the thread's scope");
    sx_cover("done");
    return 0;
}
int h_strcopy(void) {
    size_t n = P("n", 5), len = P("len", 0), i, k = len ? len : n, tot = k + 8; char *s, *d = malloc(tot), pre[1100];
    sx_assume(len <= n);
    if (P("raw", 0)) { s = malloc(n); sx_bytes(s, n, "s"); } else s = astr("s", n, 0); /* raw: any bytes, as many as asked for */
    fill(d, tot, "d");
    for (i = 0; i < tot; i++) pre[i] = d[i];
    sx_assert(str_copy(d + 4, s, len) == d + 4, "str_copy returns the destination");
    for (i = 0; i < tot; i++) sx_assert(d[i] == (i >= 4 && i < 4 + k ? s[i - 4] : pre[i]), "str_copy writes exactly the given bytes");
    sx_cover("done");
    return 0;
}

/* ---- base64 */
static const char *AL = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static unsigned char b64c(unsigned v) { /* branch-free */
    uint64_t r;
    v &= 63;
    r = sx_ite(v >= 26, 'a' + v - 26, 'A' + v);
    r = sx_ite(v >= 52, '0' + v - 52, r);
    r = sx_ite(v == 62, '+', r);
    return (unsigned char)sx_ite(v == 63, '/', r);
}
static int b64v(unsigned char c) { /* 0..63, 64 for '=', -1 otherwise */
    uint64_t r = (uint64_t)-1;
    r = sx_ite((c >= 'A') & (c <= 'Z'), c - 'A', r);
    r = sx_ite((c >= 'a') & (c <= 'z'), c - 'a' + 26, r);
    r = sx_ite((c >= '0') & (c <= '9'), c - '0' + 52, r);
    r = sx_ite(c == '+', 62, r);
    r = sx_ite(c == '/', 63, r);
    return (int)sx_ite(c == '=', 64, r);
}
int h_enc(void) {
    size_t n = P("n", 3), i, o = 0; unsigned char *s = (unsigned char *)astr("s", n, 0), *e; unique_t *u = unique_init();
    e = str_encode64_ex(u, s);
    sx_assert(e != NULL && sx_block_size(e) >= (n + 2) / 3 * 4 + 1, "the encoding has room for its text and terminator");
    for (i = 0; i < n; i += 3, o += 4) {
        unsigned b0 = s[i], b1 = i + 1 < n ? s[i + 1] : 0, b2 = i + 2 < n ? s[i + 2] : 0;
        sx_assert(e[o] == b64c(b0 >> 2), "first character of each group is standard base64");
        sx_assert(e[o + 1] == b64c(b0 << 4 | b1 >> 4), "second character of each group is standard base64");
        sx_assert(e[o + 2] == (i + 1 < n ? b64c(b1 << 2 | b2 >> 6) : '='), "third character of each group is standard base64 or padding");
        sx_assert(e[o + 3] == (i + 2 < n ? b64c(b2) : '='), "fourth character of each group is standard base64 or padding");
    }
    sx_assert(e[o] == 0, "the encoding is terminated after its last group");
    sx_cover("done");
    return 0;
}
int h_round(void) {
    size_t n = P("n", 3), i; unsigned char *s = (unsigned char *)astr("s", n, 0), *e, *d; unique_t *u = unique_init();
    e = str_encode64_ex(u, s);
    sx_assert(is_base64(e), "the encoded text is recognised as base64");
    d = str_decode64_ex(u, e);
    sx_assert(d != NULL && sx_block_size(d) >= n + 1, "an encoding decodes");
    for (i = 0; i < n; i++) sx_assert(d[i] == s[i], "decoding the encoding gives the original bytes");
    sx_assert(d[n] == 0, "the decoded text is terminated");
    raii_delete(u);
    sx_cover("done");
    return 0;
}
int h_isb64(void) {
    size_t n = P("n", 3), i; unsigned char *s = (unsigned char *)astr("s", n, 0); int bad = 0;
    for (i = 0; i < n; i++) bad |= b64v(s[i]) < 0;
    sx_assert(is_base64(s) == !bad, "texts with a character outside alphabet and padding are not base64, others are");
    sx_cover(bad ? "bad" : "good");
    return 0;
}
/* any text; k characters are alphabet or padding, the others are not (their positions fork) */
int h_dec(void) {
    size_t n = P("n", 4), i, c = 0; unsigned char *s = (unsigned char *)astr("s", n, 0), *d, orig[64]; int v[64]; unique_t *u = unique_init();
    uint64_t live = sx_heap_live();
    if (P("alpha", 0)) for (i = 0; i < n; i++) sx_assume(b64v(s[i]) >= 0);
    for (i = 0; i < n; i++) { orig[i] = s[i]; if (b64v(s[i]) >= 0) v[c++] = b64v(s[i]); }
    d = str_decode64_ex(u, s);
    if (c == 0 || c % 4) { sx_assert(d == NULL, "text whose characters are not whole groups does not decode"); sx_cover("not whole"); }
    else {
        size_t g, o = 0; int done = 0, over = 0, pad = 0;
        unsigned char w[64];
        for (g = 0; g < c && !done; g += 4) {
            int x[4], p = 0, q;
            for (q = 0; q < 4; q++) { p += v[g + q] == 64; x[q] = v[g + q] == 64 ? 0 : v[g + q]; }
            w[o] = x[0] << 2 | x[1] >> 4; w[o + 1] = x[1] << 4 | x[2] >> 2; w[o + 2] = x[2] << 6 | x[3];
            o += 3;
            if (p) { done = 1; pad = p; if (p > 2) over = 1; else o -= p; }
        }
        if (over) { sx_assert(d == NULL, "over-padded text does not decode"); sx_cover("over-padded"); }
        else {
            sx_assert(d != NULL, "well formed text decodes");
            sx_assert(sx_block_size(d) >= o + 1, "result has room for its bytes and terminator");
            for (i = 0; i < o; i++) sx_assert(d[i] == w[i], "decoded bytes are those encoded");
            sx_assert(d[o] == 0, "decoded text is terminated");
            sx_cover(pad == 2 ? "two pads" : pad ? "one pad" : "no pad");
        }
    }
    for (i = 0; i < n; i++) sx_assert(s[i] == orig[i], "the text is not modified");
    raii_deferred_free(u);
    sx_assert(sx_heap_live() == live, "the result is released with its scope");
    return 0;
}
int h_dec_default(void) { /* the thread-scope variants on a thread that has not initialised its scope */
    unsigned char *d; uint32_t pre = sx_choose("init", 2);
    if (pre) raii_init();
    d = raii_decode64((u_string_t)"YWJj");
    sx_assert(d && d[0] == 'a' && d[1] == 'b' && d[2] == 'c' && d[3] == 0, "raii_decode64 decodes");
    d = raii_encode64(d);
    sx_assert(d && d[0] == 'Y' && d[1] == 'W' && d[2] == 'J' && d[3] == 'j' && !d[4], "raii_encode64 encodes");
    raii_deferred_clean();
    sx_assert(!sx_is_live(d), "released with the thread's scope");
    sx_cover(pre ? "initialised" : "fresh");
    return 0;
}

/* ---- buffers beyond 64 KB (or 1 MB): a repeated text with a few symbolic bytes; sizes and places are parameters */
static char *large(const char *name, size_t n, char c) {
    char *p = malloc(n + 1);
    memset(p, c, n);
    if (n) { sx_bytes(p, 1, name); sx_bytes(p + n - 1, 1, name); sx_assume(p[0] != 0); sx_assume(p[n - 1] != 0); }
    p[n] = 0;
    return p;
}
static void eq_large(const unsigned char *a, const unsigned char *b, size_t n, const char *what) { size_t i; for (i = 0; i < n; i += i < 40 || i + 40 > n || (i & 0xffff) < 6 || (i & 0xffff) > 0xfff8 ? 1 : i % 61 + 1) sx_assert(a[i] == b[i], what); }
int h_large_str(void) {
    size_t n = P("n", 70001), at = P("at", n - 1); char *a = large("a", n, 'q'), *b;
    if (P("one", 0)) { sx_assert(simd_strlen(a) == n, "simd_strlen returns the number of bytes before the terminator"); sx_cover("done"); return 0; }
    sx_assert(simd_strlen(a) == n, "simd_strlen returns the number of bytes before the terminator");
    b = malloc(n + 1); memcpy(b, a, n + 1);
    sx_bytes(b + at, 1, "b"); sx_assume(b[at] != 0);
    {
        int w = (unsigned char)a[at] - (unsigned char)b[at], r = simd_strcmp(a, b);
        sx_assert((r == 0) == (w == 0), "simd_strcmp is zero exactly for equal strings");
        sx_assert((r < 0) == (w < 0), "simd_strcmp has the sign of the first difference as unsigned char");
        sx_assert(is_str_eq(a, b) == (w == 0), "is_str_eq is true exactly for equal strings");
        b[n - 1] = 0;
        r = simd_strcmp(a, b);
        if (at + 1 < n) sx_assert((r < 0) == (w < 0), "a difference comes before the length"); else sx_assert(r > 0, "the longer string is greater");
        sx_cover(w ? "differ" : "equal");
    }
    return 0;
}
int h_large_chr(void) { /* the byte searched for can be at either end and at `at` */
    size_t n = P("n", 70001), at = P("at", n / 2), mode = P("mode", 0); char *s = large("s", n, 'q'); uint8_t c = 'Z'; long w = -1, l = -1;
    size_t k[3]; int i;
    sx_bytes(s + at, 1, "s");
    k[0] = 0; k[1] = at; k[2] = n - 1;
    for (i = 2; i >= 0; i--) if (s[k[i]] == c) { w = (long)k[i]; if (l < 0) l = (long)k[i]; }
    if (mode >= 2) for (i = 0; i < 3; i++) sx_assume((s[k[i]] >= 0x20) & (s[k[i]] < 0x7f));
    if (mode & 1) sx_assume(w >= 0);
    if (mode == 0) {
        char *f = simd_memchr(s, c, (uint32_t)n), *r = simd_memrchr(s, c, (uint32_t)n);
        sx_assert(w < 0 ? f == NULL : f == s + w, "simd_memchr returns the first position of the byte");
        sx_assert(l < 0 ? r == NULL : r == s + l, "simd_memrchr returns the last position of the byte");
    } else {
        uint32_t f = mode == 1 ? memchrk(s, (uint32_t)n, c) : mode == 2 ? pmemchr(s, (uint32_t)n, c) : pmemchrk(s, (uint32_t)n, c);
        uint32_t r = mode == 1 ? memrchrk(s, (uint32_t)n, c) : mode == 2 ? pmemrchr(s, (uint32_t)n, c) : pmemrchrk(s, (uint32_t)n, c);
        sx_assert(f == (uint32_t)w, "forward search index is the first occurrence");
        sx_assert(r == (uint32_t)l, "reverse search index is the last occurrence");
    }
    sx_cover(w < 0 ? "absent" : "present");
    return 0;
}
int h_large_pos(void) { /* the pattern `qZ` can be at the end and at `at` */
    size_t n = P("n", 40001), at = P("at", n / 2), m = P("m", 2); char *s = malloc(n + 1), *p = malloc(m + 1); int w, r;
    memset(s, 'r', n); s[n] = 0; memset(p, 'q', m); p[m - 1] = 'Z'; p[m] = 0;
    memset(s + at, 'q', m); memset(s + n - m, 'q', m);
    sx_bytes(s + at + m - 1, 1, "s"); sx_bytes(s + n - 1, 1, "s"); sx_assume(s[at + m - 1] != 0); sx_assume(s[n - 1] != 0);
    w = s[at + m - 1] == 'Z' ? (int)at : s[n - 1] == 'Z' ? (int)(n - m) : -1;
    r = strpos(s, p);
    sx_assert(r == w, "strpos returns the smallest offset of the pattern or -1");
    sx_cover(w < 0 ? "absent" : "present");
    return 0;
}
int h_large_copy(void) {
    size_t n = P("n", 70001), k = P("k", 0); unsigned char *s = (unsigned char *)large("s", n, 'q'), *d; unique_t *u = unique_init(); uint64_t live = sx_heap_live();
    sx_bytes(s + n / 2, 1, "s");
    d = (unsigned char *)str_memdup_ex(u, s, n);
    sx_assert(d != NULL && d != s && sx_block_size(d) >= n + 1, "memdup returns a block of its own with room for the terminator");
    eq_large(d, s, n, "memdup copies the bytes and leaves the source alone");
    sx_assert(d[n] == 0, "memdup terminates the copy");
    memset(d, 'e', n);
    sx_assume(s[n / 2] != 0);
    sx_assert(str_copy((char *)d, (char *)s, k) == (char *)d, "str_copy returns the destination");
    eq_large(d, s, k ? k : n, "str_copy writes exactly the given bytes");
    if (k && k < n) sx_assert(d[k] == 'e' && d[n - 1] == 'e', "str_copy writes exactly the given bytes");
    raii_deferred_free(u);
    sx_assert(sx_heap_live() == live, "the copy is released with its scope");
    sx_cover("done");
    return 0;
}
int h_large_b64(void) { /* job 0: the encoding; 1: and back */
    size_t n = P("n", 70001), i, o = 0; unsigned char *s = (unsigned char *)large("s", n, 'q'), *e, *d; unique_t *u = unique_init();
    sx_bytes(s + n / 2, 1, "s"); sx_assume(s[n / 2] != 0);
    if (P("back", 0) < 2) {
        e = str_encode64_ex(u, s);
        sx_assert(e != NULL && sx_block_size(e) >= (n + 2) / 3 * 4 + 1, "the encoding has room for its text and terminator");
        for (i = 0; i < n; i += 3, o += 4) {
            unsigned b0, b1, b2;
            if (!(i < 30 || i + 30 > n || i % 999 == 0 || i + 4 > n / 2 && i < n / 2 + 4)) continue;
            b0 = s[i], b1 = i + 1 < n ? s[i + 1] : 0, b2 = i + 2 < n ? s[i + 2] : 0;
            sx_assert(e[o] == b64c(b0 >> 2), "first character of each group is standard base64");
            sx_assert(e[o + 1] == b64c(b0 << 4 | b1 >> 4), "second character of each group is standard base64");
            sx_assert(e[o + 2] == (i + 1 < n ? b64c(b1 << 2 | b2 >> 6) : '='), "third character of each group is standard base64 or padding");
            sx_assert(e[o + 3] == (i + 2 < n ? b64c(b2) : '='), "fourth character of each group is standard base64 or padding");
        }
        sx_assert(e[o] == 0, "the encoding is terminated after its last group");
    } else { /* an encoded text, one character of which may be outside the alphabet */
        int bad;
        e = malloc(n + 1); memset(e, 'A', n); e[n] = 0; sx_bytes(e + n - 2, 1, "e"); sx_assume(e[n - 2] != 0);
        bad = b64v(e[n - 2]) < 0;
        sx_assert(is_base64(e) == !bad, "texts with a character outside alphabet and padding are not base64, others are");
        sx_cover("done");
        return 0;
    }
    if (P("back", 0)) {
        sx_assert(is_base64(e), "the encoded text is recognised as base64");
        d = str_decode64_ex(u, e);
        sx_assert(d != NULL && sx_block_size(d) >= n + 1, "an encoding decodes");
        eq_large(d, s, n, "decoding the encoding gives the original bytes");
        sx_assert(d[n] == 0, "the decoded text is terminated");
    }
    raii_delete(u);
    sx_cover("done");
    return 0;
}
