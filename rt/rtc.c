/* C library functions for symbolic execution that C++ headers overload. */
#define NULL ((void *)0)
typedef unsigned long size_t;
extern int strncmp(const char *, const char *, size_t);
extern size_t strlen(const char *);
extern void *malloc(size_t);
extern void *memcpy(void *, const void *, size_t);
extern long long pfs_strtoll(const char *, char **, int);
extern unsigned long long pfs_strtoull(const char *, char **, int);
extern double pfs_strtod(const char *, char **);
unsigned long long strtoull(const char *s, char **e, int b) { return pfs_strtoull(s, e, b); }
unsigned long strtoul(const char *s, char **e, int b) { return pfs_strtoull(s, e, b); }
long long strtoll(const char *s, char **e, int b) { return pfs_strtoll(s, e, b); }
long strtol(const char *s, char **e, int b) { return pfs_strtoll(s, e, b); }
unsigned long long __isoc23_strtoull(const char *s, char **e, int b) { return pfs_strtoull(s, e, b); }
unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return pfs_strtoull(s, e, b); }
long long __isoc23_strtoll(const char *s, char **e, int b) { return pfs_strtoll(s, e, b); }
long __isoc23_strtol(const char *s, char **e, int b) { return pfs_strtoll(s, e, b); }
double strtod(const char *s, char **e) { return pfs_strtod(s, e); }
float strtof(const char *s, char **e) { return (float)pfs_strtod(s, e); }
double atof(const char *s) { return pfs_strtod(s, NULL); }
char *strstr(const char *h, const char *n)
{
    size_t k = strlen(n);
    for (;; h++) {
        if (!strncmp(h, n, k)) return (char *)h;
        if (!*h) return NULL;
    }
}
char *strrchr(const char *s, int c)
{
    const char *r = NULL;
    for (;; s++) {
        if (*s == (char)c) r = s;
        if (!*s) return (char *)r;
    }
}
int atoi(const char *s) { return (int)strtoll(s, NULL, 10); }
long atol(const char *s) { return strtoll(s, NULL, 10); }
int isspace(int c) { return (c == ' ') | ((unsigned)c - 9u <= 4u); }
int isdigit(int c) { return (unsigned)c - '0' <= 9u; }
int isalpha(int c) { return ((unsigned)c | 32) - 'a' <= 25u; }
int isupper(int c) { return (unsigned)c - 'A' <= 25u; }
int islower(int c) { return (unsigned)c - 'a' <= 25u; }
int isalnum(int c) { return isalpha(c) | isdigit(c); }
int isxdigit(int c) { return isdigit(c) | (((unsigned)c | 32) - 'a' <= 5u); }
int isprint(int c) { return (unsigned)c - 32 < 95u; }
int ispunct(int c) { return isprint(c) & !isalnum(c) & (c != 32); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int puts(const char *s) { return 0; }
int putchar(int c) { return 0; }
int printf(const char *f, ...) { return 0; }
int fprintf(void *s, const char *f, ...) { return 0; }
int fputs(const char *f, void *s) { return 0; }
size_t fwrite(const void *p, size_t a, size_t b, void *s) { return b; }
int fflush(void *s) { return 0; }
int usleep(unsigned u) { return 0; }
static unsigned short ctb[384];
static int ctl[384], ctu[384];
static int ctInit;
static void init(void)
{
    int i;
    if (ctInit) return;
    ctInit = 1;
    for (i = -128; i < 256; i++) {
        int c = i < 0 ? 256 + i : i;
        unsigned short m = 0;
        if (isupper(c)) m |= 1 << 8;
        if (islower(c)) m |= 1 << 9;
        if (isalpha(c)) m |= 1 << 10;
        if (isdigit(c)) m |= 1 << 11;
        if (isxdigit(c)) m |= 1 << 12;
        if (isspace(c)) m |= 1 << 13;
        if (isprint(c)) m |= 1 << 14;
        if (isprint(c) && c != 32) m |= 1 << 15;
        if (c == 32 || c == 9) m |= 1;
        if (c < 32 || c == 127) m |= 2;
        if (ispunct(c)) m |= 4;
        if (isalnum(c)) m |= 8;
        ctb[i + 128] = m;
        ctl[i + 128] = i < 128 ? tolower(i) : i;
        ctu[i + 128] = i < 128 ? toupper(i) : i;
    }
}
static const unsigned short *pb;
static const int *pl, *pu;
const unsigned short **__ctype_b_loc(void) { init(); pb = ctb + 128; return &pb; }
const int **__ctype_tolower_loc(void) { init(); pl = ctl + 128; return &pl; }
const int **__ctype_toupper_loc(void) { init(); pu = ctu + 128; return &pu; }
char *strdup(const char *s)
{
    size_t n = strlen(s) + 1;
    char *p = malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
