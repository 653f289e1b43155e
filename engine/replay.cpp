// Native runtime of a harness: inputs come from a counterexample file.
// usage: prog HARNESS REPLAYFILE TIER       exit 1 = a check failed (reproduced)
#include "sx.hpp"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <unistd.h>

static std::map<std::string, std::string> vals;
static std::map<std::string, int> nameUse;
static int tierLevel = 0, failures = 0;
static std::string uniq(const char* n)
{
    int k = nameUse[n]++;
    return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
static double get(const char* n, double dflt)
{
    std::string u = uniq(n);
    auto it = vals.find(u);
    double v = it == vals.end() ? dflt : strtod(it->second.c_str(), nullptr);
    printf("input %s = %.9g\n", u.c_str(), v);
    return v;
}
struct Reg { const char *n, *o; void (*f)(); };
static Reg regs[256];
static int nregs;
extern "C" {
float __sx_api_real(const char* n, float lo, float hi) { return get(n, lo > 0 ? lo : hi < 0 ? hi : 0); }
float __sx_api_lattice(const char* n, int lo, int hi, int s) { return get(n, std::ldexp(lo > 0 ? lo : hi < 0 ? hi : 0, -s)); }
float __sx_api_fp(const char* n) { return get(n, 0); }
int __sx_api_int(const char* n, int lo, int hi) { return (int)get(n, lo > 0 ? lo : hi < 0 ? hi : 0); }
bool __sx_api_bool(const char* n) { return get(n, 0) != 0; }
int __sx_choose(const char* n, int) { return (int)get(n, 0); }
void __sx_api_assume(bool c)
{
    if (!c)
    {
        printf("assumption does not hold natively (rounding)\n");
        fflush(stdout);
        _exit(failures ? 1 : 4);
    }
}
void __sx_api_check(const char* l, bool c)
{
    if (!c)
    {
        printf("FAILED %s\n", l);
        fflush(stdout);
        ++failures;
    }
}
void __sx_api_eq(const char* l, float a, float b, float tol)
{
    if (!(std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b))))
    {
        printf("FAILED %s: %.9g != %.9g\n", l, a, b);
        fflush(stdout);
        ++failures;
    }
}
void __sx_api_observe(const char* n, float v) { printf("observe %s %.9g\n", uniq((std::string("obs:") + n).c_str()).c_str(), v); }
void __sx_fail(const char* l)
{
    printf("FAILED %s\n", l);
    fflush(stdout);
    ++failures;
}
void __sx_done()
{
    fflush(stdout);
    _exit(failures ? 1 : 0);
}
int __sx_tier() { return tierLevel; }
int __sx_symbolic() { return 0; }
void __sx_symbolize(void* p, uint64_t n, const char* name)
{
    for (uint64_t i = 0; i + 4 <= n; i += 4)
    {
        float v = get(name, 0);
        memcpy((char*)p + i, &v, 4);
        asm volatile("" ::: "memory");
    }
}
void __sx_register(const char* n, const char* o, void (*f)()) { regs[nregs++] = {n, o, f}; }
}
static void onSig(int s)
{
    static const char m[] = "FAILED crash or hang\n";
    if (write(1, m, sizeof m - 1) < 0) {}
    _exit(1);
}
static void onTerm()
{
    printf("FAILED uncaught exception / terminate\n");
    fflush(stdout);
    _exit(1);
}
int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    tierLevel = argc > 3 ? atoi(argv[3]) : 0;
    FILE* f   = fopen(argv[2], "r");
    if (!f) return 2;
    char n[256], v[256];
    while (fscanf(f, "%255s %255s", n, v) == 2) vals[n] = v;
    fclose(f);
#ifndef SX_SAN
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) signal(s, onSig);
#endif
    signal(SIGALRM, onSig);
    alarm(60);
    std::set_terminate(onTerm);
    for (int i = 0; i < nregs; ++i)
        if (!strcmp(regs[i].n, argv[1]))
        {
            regs[i].f();
            printf("%s\n", failures ? "violation reproduced" : "no check failed");
            fflush(stdout);
            return failures ? 1 : 0;
        }
    return 2;
}
