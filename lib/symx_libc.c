/* C library functions for code run under symx */
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#define VP_SYMX
#include "vp.h"
static const unsigned short ctab[384] = {0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,2,2,2,2,2,2,2,2,2,8195,8194,8194,8194,8194,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,2,24577,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,49156,55304,55304,55304,55304,55304,55304,55304,55304,55304,55304,49156,49156,49156,49156,49156,49156,49156,54536,54536,54536,54536,54536,54536,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,50440,49156,49156,49156,49156,49156,49156,54792,54792,54792,54792,54792,54792,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,50696,49156,49156,49156,49156,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0};
static const int lotab[384] = {128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,91,92,93,94,95,96,97,98,99,100,101,102,103,104,105,106,107,108,109,110,111,112,113,114,115,116,117,118,119,120,121,122,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255};
static const int uptab[384] = {128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63,64,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,91,92,93,94,95,96,65,66,67,68,69,70,71,72,73,74,75,76,77,78,79,80,81,82,83,84,85,86,87,88,89,90,123,124,125,126,127,128,129,130,131,132,133,134,135,136,137,138,139,140,141,142,143,144,145,146,147,148,149,150,151,152,153,154,155,156,157,158,159,160,161,162,163,164,165,166,167,168,169,170,171,172,173,174,175,176,177,178,179,180,181,182,183,184,185,186,187,188,189,190,191,192,193,194,195,196,197,198,199,200,201,202,203,204,205,206,207,208,209,210,211,212,213,214,215,216,217,218,219,220,221,222,223,224,225,226,227,228,229,230,231,232,233,234,235,236,237,238,239,240,241,242,243,244,245,246,247,248,249,250,251,252,253,254,255};
static const unsigned short* ctabp = ctab + 128; static const int* lop = lotab + 128; static const int* upp = uptab + 128;
const unsigned short** __ctype_b_loc(void) { return &ctabp; }
const int** __ctype_tolower_loc(void) { return &lop; }
const int** __ctype_toupper_loc(void) { return &upp; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return (c >= '0') & (c <= '9'); }
int isalpha(int c) { return ((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')); }
int isxdigit(int c) { return ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
int isspace(int c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
int memcmp(const void* a, const void* b, size_t n)
{
    const unsigned char *p = a, *q = b; uint64_t r = 0; size_t i;
    n = vpi_concretize(n);
    for (i = n; i > 0; i--) { uint64_t d = (uint64_t)((int64_t)p[i - 1] - (int64_t)q[i - 1]); r = vpi_ite(p[i - 1] != q[i - 1], d, r); }
    return (int)(int64_t)r;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = s; size_t i; for (i = 0; i < n; i++) if (p[i] == (unsigned char)c) return (void*)(p + i); return 0; }
void* memrchr(const void* s, int c, size_t n) { const unsigned char* p = s; while (n > 0) { n--; if (p[n] == (unsigned char)c) return (void*)(p + n); } return 0; }
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n > 0 && *a && *a == *b) { a++; b++; n--; } if (n == 0) return 0; return (int)(unsigned char)*a - (int)(unsigned char)*b; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { char* r = 0; for (;; s++) { if (*s == (char)c) r = (char*)s; if (!*s) return r; } }
size_t strcspn(const char* s, const char* r) { size_t n = 0; for (; s[n]; n++) if (strchr(r, s[n])) break; return n; }
size_t strspn(const char* s, const char* r) { size_t n = 0; for (; s[n]; n++) if (!strchr(r, s[n])) break; return n; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* r = d; d += strlen(d); while (n-- > 0 && *s) *d++ = *s++; *d = 0; return r; }
int abs(int x) { return x < 0 ? -x : x; }
/* the engine passes variadic arguments as further parameters */
static size_t fmt_put(char* d, size_t n, size_t pos, char c) { if (pos + 1 < n) d[pos] = c; return pos + 1; }
int snprintf(char* d, size_t n, const char* f, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3, uint64_t a4, uint64_t a5, uint64_t a6, uint64_t a7)
{
    uint64_t a[8] = { a0, a1, a2, a3, a4, a5, a6, a7 }; int k = 0; size_t pos = 0;
    for (; *f; f++) {
        if (*f != '%') { pos = fmt_put(d, n, pos, *f); continue; }
        f++;
        int zero = 0, width = 0, lng = 0, prec = -1;
        if (*f == '0') { zero = 1; f++; }
        while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
        if (*f == '.') { f++; if (*f == '*') { prec = (int)a[k++]; f++; } else { prec = 0; while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); } }
        while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') lng = 1; f++; }
        if (*f == '%') pos = fmt_put(d, n, pos, '%');
        else if (*f == 'c') pos = fmt_put(d, n, pos, (char)a[k++]);
        else if (*f == 's') { const char* s = (const char*)(uintptr_t)a[k++]; int i = 0; while ((prec < 0 || i < prec) && *s) { pos = fmt_put(d, n, pos, *s++); i++; } }
        else if (*f == 'd' || *f == 'i' || *f == 'u' || *f == 'x' || *f == 'X') {
            uint64_t v = a[k++]; char b[24]; int i = 0, neg = 0, base = (*f == 'x' || *f == 'X') ? 16 : 10;
            if (!lng) v = (*f == 'd' || *f == 'i') ? (uint64_t)(int64_t)(int32_t)v : (uint32_t)v;
            if ((*f == 'd' || *f == 'i') && (int64_t)v < 0) { neg = 1; v = -v; }
            do { int t = (int)(v % (unsigned)base); b[i++] = (char)(t < 10 ? '0' + t : (*f == 'X' ? 'A' : 'a') + t - 10); v /= (unsigned)base; } while (v);
            while (i < width) b[i++] = zero ? '0' : ' ';
            if (neg) b[i++] = '-';
            while (i > 0) pos = fmt_put(d, n, pos, b[--i]);
        }
    }
    if (n > 0) d[pos < n ? pos : n - 1] = 0;
    return (int)pos;
}
int printf(const char* f) { (void)f; return 0; }
int puts(const char* f) { (void)f; return 0; }
