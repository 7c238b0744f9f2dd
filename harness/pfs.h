// Harness interface: implemented by the symbolic executor (engine/builtins.cpp) and, for replay, by native/native.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
uint64_t pfs_sym(const char *name, unsigned bits);
void pfs_sym_bytes(void *p, uint64_t n, const char *name);
uint64_t pfs_choice_(const char *name, uint64_t n);
void pfs_assume_(int c);
void pfs_check_(int c, const char *label);
void pfs_reach(const char *label);
void pfs_fail(const char *label);
void pfs_observe(const char *name, uint64_t v);
void pfs_observe_bytes(const char *name, const void *p, uint64_t n);
uint64_t pfs_engine();
uint64_t pfs_param(const char *name, uint64_t dflt);
uint64_t pfs_locks_held();
void pfs_watch(void *p, uint64_t n); // from here on these bytes may only be used under a lock, always the same; null: no longer
void pfs_watch_writes(void *p, uint64_t n); // the same for writes only, in place of what was watched; the lock stays the same one
void pfs_note(const char *name, uint64_t v);
void pfs_note_str(const char *s);

int pfs_vfs_write(const char *path, const char *p, size_t n, int append);
int pfs_vfs_read(const char *path, const char **p, size_t *n);
size_t pfs_fmt_double(char *buf, double v, int kind, int prec, int flags);
const char *pfs_dir();      // scratch directory of this run
const char *pfs_pluginlib(); // file name of the plug-in library in pfs_plugindir()
const char *pfs_plugindir();
void harness_main();
}
#define CHECK(c, label) pfs_check_((c) ? 1 : 0, label)
#define ASSUME(c) pfs_assume_((c) ? 1 : 0)
#define REACH(label) pfs_reach(label)
static inline uint64_t sym(const char *n, unsigned bits) { return pfs_sym(n, bits); }
static inline unsigned choice(const char *n, unsigned k) { return (unsigned)pfs_choice_(n, k); }
static inline bool maybe(const char *n) { return pfs_choice_(n, 2) != 0; }
static inline int64_t param(const char *n, int64_t d = 0) { return (int64_t)pfs_param(n, (uint64_t)d); }
static inline double asDouble(uint64_t u) { double d; __builtin_memcpy(&d, &u, 8); return d; }
static inline float asFloat(uint32_t u) { float d; __builtin_memcpy(&d, &u, 4); return d; }
static inline uint64_t bitsOf(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return u; }
static inline uint32_t bitsOf(float d) { uint32_t u; __builtin_memcpy(&u, &d, 4); return u; }
// text of k arbitrary bytes
static inline std::string symText(const char *n, size_t k)
{
    std::string s(k, '?');
    if (k) pfs_sym_bytes(&s[0], k, n);
    return s;
}
static inline std::string itoa64(int64_t v) { return std::to_string((long long)v); }
static inline void observe(const char *n, const std::string &s) { pfs_observe_bytes(n, s.data(), s.size()); }
// exact text of a double (17 significant digits)
static inline std::string dtoa(double v)
{
    char b[600];
    return std::string(b, pfs_fmt_double(b, v, 'g', 17, 0));
}
// byte-wise comparison without forking per byte
static inline int sameBytes(const std::string &a, const std::string &b)
{
    if (a.size() != b.size()) return 0;
    int ok = 1;
    for (size_t i = 0; i < a.size(); i++) ok &= (a[i] == b[i]);
    return ok;
}
