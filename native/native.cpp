// Native side of the harness interface: replays one list of inputs against the real code.
//   PFS_REPLAY=<file>; lines "param NAME VALUE" and "in NAME BITS HEX"
#include "../harness/pfs.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <pthread.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <map>
#include <string>
#include <unistd.h>
#include <sys/stat.h>
#include <vector>

struct In { std::string name; uint64_t v; };
static std::map<std::string, uint64_t> params;
static std::vector<In> ins;
static size_t pos;
static bool failed;
static std::string dir, selfDir;
static std::map<std::string, std::string> readCache;

static void empty(const std::string &at, int depth)
{
    if (DIR *d = opendir(at.c_str())) {
        while (dirent *e = readdir(d)) {
            if (e->d_name[0] == '.') continue;
            std::string p = at + "/" + e->d_name;
            if (unlink(p.c_str()) && depth) empty(p, depth - 1);
        }
        closedir(d);
    }
    rmdir(at.c_str());
}
static void cleanup()
{
    if (!dir.empty()) empty(dir, 1);
}
static uint64_t next(const std::string &n)
{
    if (pos >= ins.size()) { printf("EXTRA-INPUT %s\n", n.c_str()); return 0; }
    if (ins[pos].name != n) {
        printf("DIVERGED expected input %s, harness asks %s\n", ins[pos].name.c_str(), n.c_str());
        fflush(stdout);
        cleanup();
        _exit(4);
    }
    return ins[pos++].v;
}
extern "C" {
int pfs_locks_count;
uint64_t pfs_sym(const char *n, unsigned bits)
{
    uint64_t v = next(n);
    return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void pfs_sym_bytes(void *p, uint64_t n, const char *nm)
{
    for (uint64_t i = 0; i < n; i++) ((uint8_t *)p)[i] = (uint8_t)next(std::string(nm) + "[" + std::to_string(i) + "]");
}
uint64_t pfs_choice_(const char *n, uint64_t k)
{
    uint64_t v = next(n);
    return k ? v % k : 0;
}
void pfs_assume_(int c)
{
    if (c) return;
    puts(pos >= ins.size() ? "ASSUME-STOP" : "ASSUME-FAILED");
    fflush(stdout);
    cleanup();
    _exit(failed ? 1 : 5);
}
void pfs_check_(int c, const char *l)
{
    if (c) return;
    printf("CHECK-FAILED %s\n", l);
    fflush(stdout);
    failed = true;
}
void pfs_reach(const char *l) { printf("REACH %s\n", l); }
void pfs_fail(const char *l)
{
    printf("CHECK-FAILED %s\n", l);
    fflush(stdout);
    cleanup();
    _exit(1);
}
void pfs_observe_bytes(const char *n, const void *p, uint64_t k)
{
    printf("OBS %s ", n);
    for (uint64_t i = 0; i < k; i++) printf("%02x", ((const uint8_t *)p)[i]);
    puts("");
    fflush(stdout);
}
void pfs_observe(const char *n, uint64_t v) { pfs_observe_bytes(n, &v, 8); }
uint64_t pfs_engine() { return 0; }
uint64_t pfs_param(const char *n, uint64_t d) { return params.count(n) ? params[n] : d; }
// --- locks, and bytes that may only be used under one
#define PFS_MUTEX(F, D) \
    int F(pthread_mutex_t *m) \
    { \
        static int (*real)(pthread_mutex_t *); \
        if (!real) real = (int (*)(pthread_mutex_t *))dlsym(RTLD_NEXT, #F); \
        int r = real(m); \
        if (!r) { pfs_locks_count += D; if (D > 0) held.insert(m); else held.erase(m); } \
        return r; \
    }
}
static std::set<void *> &lockSet() { static std::set<void *> *s = new std::set<void *>; return *s; }
#define held lockSet()
extern "C" {
PFS_MUTEX(pthread_mutex_lock, 1)
PFS_MUTEX(pthread_mutex_trylock, 1)
PFS_MUTEX(pthread_mutex_unlock, -1)
}
static uintptr_t watchP, watchN, pageP, pageN;
static bool watchSeen;
static int watchProt;
static std::set<void *> watchLocks;
static void onFault(int, siginfo_t *i, void *u)
{
    uintptr_t a = (uintptr_t)i->si_addr;
    if (!pageN || a < pageP || a >= pageP + pageN) { signal(SIGSEGV, SIG_DFL); return; }
    mprotect((void *)pageP, pageN, PROT_READ | PROT_WRITE);
    if (a >= watchP && a < watchP + watchN) {
        std::set<void *> h;
        for (void *m : held) if (!watchSeen || watchLocks.count(m)) h.insert(m);
        if (h.empty()) { pfs_check_(0, watchProt == PROT_READ ? "what configurations say is changed without the lock" : "shared settings are accessed without their lock"); _exit(1); }
        watchSeen = true;
        watchLocks.swap(h);
    }
    ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] |= 0x100; // one step, then watch again
}
static void onStep(int, siginfo_t *, void *u)
{
    ((ucontext_t *)u)->uc_mcontext.gregs[REG_EFL] &= ~0x100;
    if (watchP) mprotect((void *)pageP, pageN, watchProt);
}
extern "C" {
static void watch(void *p, uint64_t n, int prot)
{
    if (watchP) mprotect((void *)pageP, pageN, PROT_READ | PROT_WRITE);
    watchP = (uintptr_t)p;
    if (!p) return;
    watchN = n;
    watchProt = prot;
    pageP = watchP & ~4095ul;
    pageN = ((watchP + n + 4095) & ~4095ul) - pageP;
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_flags = SA_SIGINFO;
    sa.sa_sigaction = onFault;
    sigaction(SIGSEGV, &sa, nullptr);
    sa.sa_sigaction = onStep;
    sigaction(SIGTRAP, &sa, nullptr);
    mprotect((void *)pageP, pageN, prot);
}
void pfs_watch(void *p, uint64_t n) { watch(p, n, PROT_NONE); }
void pfs_watch_writes(void *p, uint64_t n) { watch(p, n, PROT_READ); }
uint64_t pfs_locks_held() { return (uint64_t)pfs_locks_count; }
void pfs_note(const char *n, uint64_t v) { fprintf(stderr, "note: %s %lld\n", n, (long long)v); }
void pfs_note_str(const char *s) { fprintf(stderr, "note: %s\n", s); }
int pfs_vfs_write(const char *path, const char *p, size_t n, int append)
{
    std::string up(path);
    up.resize(up.rfind('/') == std::string::npos ? 0 : up.rfind('/'));
    if (up.size() > dir.size() && up.compare(0, dir.size() + 1, dir + "/") == 0 && up.find("/missing") == std::string::npos)
        for (size_t i = dir.size() + 1; i != std::string::npos; i = up.find('/', i + 1)) mkdir(i == dir.size() + 1 ? up.substr(0, up.find('/', i)).c_str() : up.substr(0, up.find('/', i + 1)).c_str(), 0700);
    FILE *f = fopen(path, append ? "a" : "w");
    if (!f) return 1;
    fwrite(p, 1, n, f);
    fclose(f);
    return 0;
}
int pfs_vfs_read(const char *path, const char **p, size_t *n)
{
    FILE *f = fopen(path, "r");
    if (!f) return 1;
    std::string &s = readCache[path];
    s.clear();
    char b[4096];
    size_t k;
    while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
    fclose(f);
    *p = s.data();
    *n = s.size();
    return 0;
}
size_t pfs_fmt_double(char *buf, double v, int kind, int prec, int)
{
    char f[8] = {'%', '.', '*', (char)kind, 0};
    return (size_t)snprintf(buf, 500, f, prec, v);
}
// the loader, unless the harness stands in for it
void *harness_dlopen(const char *) __attribute__((weak));
void *harness_dlsym(void *, const char *) __attribute__((weak));
void harness_dlclose(void *) __attribute__((weak));
void *pfs_n_dlopen(const char *n, int f) { return harness_dlopen ? harness_dlopen(n) : dlopen(n, f); }
void *pfs_n_dlsym(void *h, const char *n) { return harness_dlsym ? harness_dlsym(h, n) : dlsym(h, n); }
int pfs_n_dlclose(void *h)
{
    if (!harness_dlclose) return dlclose(h);
    harness_dlclose(h);
    return 0;
}
const char *pfs_dir() { return dir.c_str(); }
const char *pfs_pluginlib() { return "libpfsplugin.so"; }
const char *pfs_plugindir() { return selfDir.c_str(); }
}
int main()
{
    const char *rf = getenv("PFS_REPLAY");
    if (FILE *f = rf ? fopen(rf, "r") : nullptr) {
        char kind[16], name[256], val[64];
        unsigned bits;
        char line[512];
        while (fgets(line, sizeof line, f)) {
            if (sscanf(line, "param %255s %63s", name, val) == 2) params[name] = (uint64_t)strtoll(val, nullptr, 0);
            else if (sscanf(line, "in %255s %u %63s", name, &bits, val) == 3) ins.push_back({name, strtoull(val, nullptr, 16)});
        }
        (void)kind;
        fclose(f);
    }
    char self[4096];
    ssize_t k = readlink("/proc/self/exe", self, sizeof self - 1);
    if (k > 0) {
        self[k] = 0;
        selfDir = self;
        selfDir = selfDir.substr(0, selfDir.rfind('/'));
    }
    const char *base = getenv("PFS_TMP");
    std::string tmpl = std::string(base ? base : "/tmp") + "/pfsrun.XXXXXX";
    std::vector<char> t(tmpl.begin(), tmpl.end());
    t.push_back(0);
    if (mkdtemp(t.data())) dir = t.data();
    harness_main();
    puts("FINISHED");
    fflush(stdout);
    cleanup();
    _exit(failed ? 1 : 0);
}
extern "C" size_t pfs_fmt_uint(char *b, uint64_t v, unsigned base, int up)
{
    char t[72];
    int n = 0;
    do { unsigned d = v % base; t[n++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; v /= base; } while (v);
    for (int i = 0; i < n; i++) b[i] = t[n - 1 - i];
    return n;
}
