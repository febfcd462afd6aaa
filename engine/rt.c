// C library string routines for symbolic execution (compiled to bitcode, linked with the code under test)
typedef unsigned long size_t;
typedef unsigned char u8;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
int memcmp(const void* a, const void* b, size_t n)
{
    const u8 *x = a, *y = b;
    for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n)
{
    const u8 *x = a, *y = b;
    u8 d = 0;
    for (size_t i = 0; i < n; i++) d |= x[i] ^ y[i];
    return d != 0;
}
void* memchr(const void* a, int c, size_t n)
{
    const u8* x = a;
    for (size_t i = 0; i < n; i++) if (x[i] == (u8)c) return (void*)(x + i);
    return 0;
}
int strcmp(const char* a, const char* b)
{
    while (*a && *a == *b) a++, b++;
    return (int)(u8)*a - (int)(u8)*b;
}
int strncmp(const char* a, const char* b, size_t n)
{
    for (; n; n--, a++, b++) { if (*a != *b) return (int)(u8)*a - (int)(u8)*b; if (!*a) return 0; }
    return 0;
}
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)); return r; }
extern int* __errno_location(void);
static long long strtoll_(const char* s, char** end, int base, int uns)
{
    const char* p = s;
    while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
    int neg = 0;
    if (*p == '+' || *p == '-') neg = *p++ == '-';
    unsigned long long v = 0, lim = uns ? ~0ull : (neg ? 0x8000000000000000ull : 0x7fffffffffffffffull);
    int any = 0, ov = 0;
    while (*p >= '0' && *p <= '9')
    {
        unsigned d = *p - '0';
        if (v > (lim - d) / 10) ov = 1;
        v = v * 10 + d;
        any = 1;
        p++;
    }
    if (end) *end = (char*)(any ? p : s);
    if (ov) { *__errno_location() = 34; return (long long)(lim); }
    return neg ? -(long long)v : (long long)v;
}
long long strtoll(const char* s, char** e, int b) { return strtoll_(s, e, b, 0); }
long strtol(const char* s, char** e, int b) { return strtoll_(s, e, b, 0); }
long __isoc23_strtol(const char* s, char** e, int b) { return strtoll_(s, e, b, 0); }
long long __isoc23_strtoll(const char* s, char** e, int b) { return strtoll_(s, e, b, 0); }
unsigned long strtoul(const char* s, char** e, int b) { return strtoll_(s, e, b, 1); }
unsigned long __isoc23_strtoul(const char* s, char** e, int b) { return strtoll_(s, e, b, 1); }
unsigned long long __isoc23_strtoull(const char* s, char** e, int b) { return strtoll_(s, e, b, 1); }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
