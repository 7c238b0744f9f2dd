// pfsym: symbolic execution of LLVM bitcode with an SMT solver.
//   pfsym [-o out.json] [-p name=value]... [--time s] [--paths n] [--samples n] [--timeout ms] [--repo] a.bc ... [--rt] b.bc ...
#include "pf.h"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <pthread.h>
#include <sstream>
#include <cxxabi.h>
#include <chrono>

static int gArgc;
static char **gArgv;
static std::string demangle(const std::string &n)
{
    int st = 0;
    char *d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
    std::string r = st == 0 && d ? d : n;
    free(d);
    return r;
}
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void *realMain(void *)
{
    Interp I;
    std::vector<std::string> files;
    std::vector<bool> repo;
    bool isRepo = true;
    for (int i = 1; i < gArgc; i++) {
        std::string a = gArgv[i];
        auto nx = [&] { return std::string(gArgv[++i]); };
        if (a == "-o") I.opt.out = nx();
        else if (a == "-p") {
            std::string p = nx();
            size_t e = p.find('=');
            I.opt.params[p.substr(0, e)] = p.substr(e + 1);
        } else if (a == "--time") I.opt.maxTime = atof(nx().c_str());
        else if (a == "--paths") I.opt.maxPaths = atoll(nx().c_str());
        else if (a == "--insts") I.opt.maxInsts = atoll(nx().c_str());
        else if (a == "--samples") I.opt.samples = atoi(nx().c_str());
        else if (a == "--timeout") gTimeoutMs = atoi(nx().c_str());
        else if (a == "--seed") I.opt.seed = atoll(nx().c_str());
        else if (a == "--entry") I.opt.entry = nx();
        else if (a == "--repo") isRepo = true;
        else if (a == "--rt") isRepo = false;
        else if (a == "--trace") I.opt.traceCalls = true;
        else {
            files.push_back(a);
            repo.push_back(isRepo);
        }
    }
    double t0 = now();
    initBuiltins();
    decoderInit(I, files, repo);
    double tl = now() - t0;
    I.runAll();
    double wall = now() - t0;
    std::ostringstream o;
    o << "{\"load_s\":" << tl << ",\"wall_s\":" << wall << ",\"paths\":{\"done\":" << I.nDone << ",\"assume\":" << I.nAssume << ",\"violation\":" << I.nViol
      << ",\"incomplete\":" << I.nIncomplete << "},\"forks\":" << I.nForks << ",\"instructions\":" << I.totalInsts
      << ",\"checks\":{\"evaluated\":" << I.checks << ",\"constant\":" << I.checksConst << ",\"discharged\":" << I.checksDischarged << ",\"unknown\":" << I.checksUnknown << "}";
    auto mp = [&](const char *n, const std::map<std::string, uint64_t> &m) {
        o << ",\"" << n << "\":{";
        bool f = true;
        for (auto &p : m) { o << (f ? "" : ",") << jsonEsc(p.first) << ":" << p.second; f = false; }
        o << "}";
    };
    mp("incomplete", I.incomplete);
    mp("reach", I.reach);
    mp("labels", I.checkLabels);
    o << ",\"violations\":[";
    for (size_t i = 0; i < I.viols.size(); i++) {
        auto &v = I.viols[i];
        o << (i ? "," : "") << "{\"kind\":" << jsonEsc(v.kind) << ",\"label\":" << jsonEsc(v.label) << ",\"detail\":" << jsonEsc(v.detail) << ",\"trace\":[";
        for (size_t k = 0; k < v.trace.size(); k++) o << (k ? "," : "") << jsonEsc(demangle(v.trace[k]).substr(0, 160));
        o << "],\"inputs\":[";
        for (size_t k = 0; k < v.inputs.size(); k++)
            o << (k ? "," : "") << "[" << jsonEsc(v.inputs[k].name) << "," << v.inputs[k].w << ",\"" << hexU128(v.vals[k]) << "\"]";
        o << "]}";
    }
    o << "],\"samples\":[";
    for (size_t i = 0; i < I.samples.size(); i++) o << (i ? "," : "") << I.samples[i];
    o << "],\"solver\":{\"queries\":" << gStats.queries << ",\"cache_hits\":" << gStats.cacheHits << ",\"finite_domain\":" << gStats.fdDecided
      << ",\"model_reuse\":" << gStats.modelReuse << ",\"smt_calls\":" << gStats.smtCalls << ",\"sat\":" << gStats.smtSat << ",\"unsat\":" << gStats.smtUnsat
      << ",\"unknown\":" << gStats.smtUnknown << ",\"second_solver\":" << gStats.external << ",\"time_s\":" << gStats.smtTime << ",\"max_s\":" << gStats.maxTime << "}";
    o << ",\"functions\":[";
    bool first = true;
    size_t nf = 0;
    for (Fn *f : I.fns)
        if (f->entered) {
            nf++;
            if (f->fromRepo) { o << (first ? "" : ",") << jsonEsc(demangle(f->name).substr(0, 200)); first = false; }
        }
    o << "],\"functions_total\":" << nf << ",\"expr_nodes\":" << exprCount() << "}\n";
    if (I.opt.out.empty()) fputs(o.str().c_str(), stdout);
    else std::ofstream(I.opt.out) << o.str();
    fflush(stdout);
    _exit(0);
}
int main(int c, char **v)
{
    gArgc = c;
    gArgv = v;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 2ull << 30);
    pthread_t t;
    pthread_create(&t, &at, realMain, nullptr);
    pthread_join(t, nullptr);
    return 0;
}
