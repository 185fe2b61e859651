// hsim: worker (seeded search), replayer and minimiser of simulated runs.
#include <dirent.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include "check/frame.h"
#include "core/pool.h"
using namespace hsim;
typedef std::chrono::steady_clock Clock;
static double since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }
static std::string gLib, gRepo = "/repo", gScratchRoot;

static void rmTree(const std::string &p) {
    // only ever called on directories made by mkdtemp below
    struct stat st; if (lstat(p.c_str(), &st)) return;
    if (S_ISDIR(st.st_mode)) {
        if (DIR *d = opendir(p.c_str())) {
            while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") rmTree(p + "/" + n); }
            closedir(d);
        }
        rmdir(p.c_str());
    } else unlink(p.c_str());
}

struct Out { bool viol = false; Violation v; uint64_t hash = 0; std::vector<Decisions> rec; };
static Out exec(Pool &pool, const Case &c, Stats &st) {
    Out o;
    // fixed-length path, cleaned and reused: identical for every run
    std::string scratch = gScratchRoot + "/run";
    rmTree(scratch); mkdir(scratch.c_str(), 0755);
    Ctx ctx(pool, c, scratch, st, gLib, gRepo);
    try { registry().at(c.prop).run(ctx); }
    catch (Violation &v) { o.viol = true; o.v = v; ctx.hash = hashBytes(ctx.hash, v.cls.data(), v.cls.size()); }
    o.hash = ctx.hash; o.rec = ctx.rec;
    if (!getenv("HSIM_KEEP")) rmTree(scratch);
    return o;
}
static size_t weight(const Case &c) { size_t n = 0; for (auto &t : c.traces) n += t.size(); return n; }

static Case shrink(Pool &pool, Case best, const std::string &cls, double budget, int &tries) {
    auto t0 = Clock::now(); Stats dummy; tries = 0;
    const Property &P = registry().at(best.prop);
    auto fails = [&](Case &c) {
        if (since(t0) > budget) return false;
        tries++;
        try { Out o = exec(pool, c, dummy); if (!(o.viol && o.v.cls == cls)) return false; c.traces = o.rec; c.replay = true; return true; }
        catch (HarnessError &) { return false; }
    };
    // 1. canonical schedule everywhere
    { Case c = best; for (auto &t : c.traces) t.clear(); if (weight(best) && fails(c)) best = c; }
    // 2. values and lists, to a fixpoint
    for (bool progress = true; progress && since(t0) < budget;) {
        progress = false;
        for (auto &k : P.shrinkLists) {
            auto it = best.kv.find(k); if (it == best.kv.end()) continue;
            std::vector<std::string> v = split(it->second, ';');
            for (size_t chunk = v.size(); chunk >= 1; chunk /= 2) {
                for (size_t i = 0; i < v.size() && since(t0) < budget;) {
                    std::vector<std::string> w(v.begin(), v.begin() + i); w.insert(w.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
                    Case c = best; std::string s; for (auto &x : w) s += (s.empty() ? "" : ";") + x; c.kv[k] = s;
                    if (!w.empty() && fails(c)) { best = c; v = w; progress = true; } else i += chunk;
                }
            }
        }
        for (auto &k : P.shrinkInts) {
            auto it = best.kv.find(k.first); if (it == best.kv.end()) continue;
            int64_t cur = atoll(it->second.c_str()), lo = k.second;
            std::vector<int64_t> cand; for (int64_t d = cur - lo; d; d /= 2) cand.push_back(cur - d);
            for (int64_t x : cand) { if (x == cur) continue; Case c = best; c.set(k.first, x); if (fails(c)) { best = c; progress = true; break; } }
        }
        // canonical schedule may have become sufficient
        if (progress && weight(best)) { Case c = best; for (auto &t : c.traces) t.clear(); if (fails(c)) best = c; }
    }
    // 3. decisions: drop jobs, kinds, then ddmin
    for (size_t j = 0; j < best.traces.size(); j++) { if (best.traces[j].empty()) continue; Case c = best; c.traces[j].clear(); if (fails(c)) best = c; }
    for (int kind = 0; kind < D_NKIND; kind++) {
        Case c = best; bool any = false;
        for (auto &t : c.traces) { Decisions d; for (auto &x : t) if (x.kind != kind) d.push_back(x); else any = true; t = d; }
        if (any && fails(c)) best = c;
    }
    for (size_t j = 0; j < best.traces.size(); j++) {
        for (size_t chunk = std::max<size_t>(1, best.traces[j].size() / 2);; chunk /= 2) {
            for (size_t i = 0; i < best.traces[j].size() && since(t0) < budget;) {
                Case c = best; auto &t = c.traces[j]; t.erase(t.begin() + i, t.begin() + std::min(t.size(), i + chunk));
                size_t before = weight(best);
                if (fails(c) && weight(c) < before) best = c; else i += chunk;
            }
            if (chunk <= 1) break;
        }
    }
    return best;
}
static std::string jstr(const std::string &s) {
    std::string o = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else if (c >= 127) o += '?'; else o += c; } return o + "\"";
}
static void writeStats(const std::string &path, const Stats &st, double wall, uint64_t detChecks, uint64_t detBad, const std::vector<std::string> &samples) {
    std::ofstream o(path + ".tmp");
    o << "{\"runs\":" << st.runs << ",\"jobs\":" << st.jobs << ",\"parJobs\":" << st.parJobs << ",\"steps\":" << st.steps << ",\"simTime\":" << st.simTime << ",\"wall\":" << wall << ",\"detChecks\":" << detChecks << ",\"detBad\":" << detBad << ",\"counters\":{";
    bool f = true; for (auto &c : st.counters) { o << (f ? "" : ",") << jstr(c.first) << ":" << c.second; f = false; }
    o << "},\"ranks\":{"; f = true; for (auto &c : st.ranks) { o << (f ? "" : ",") << "\"" << c.first << "\":" << c.second; f = false; }
    o << "},\"hashes\":["; f = true; for (auto h : st.hashes) { o << (f ? "" : ",") << "\"" << std::hex << h << std::dec << "\""; f = false; }
    o << "],\"samples\":["; f = true; for (auto &s : samples) { o << (f ? "" : ",") << jstr(s); f = false; }
    o << "]}\n"; o.close(); rename((path + ".tmp").c_str(), path.c_str());
}
static uint64_t caseSeed(uint64_t seed, const std::string &prop, uint64_t idx) { uint64_t h = hashBytes(0xcbf29ce484222325ull, prop.data(), prop.size()); return hashU(hashU(h, seed), idx); }

int main(int argc, char **argv) {
    if (argc >= 5 && std::string(argv[1]) == "--zygote") return zygoteMain(argv[2], atoi(argv[3]), atoi(argv[4]));
    char self[4096]; ssize_t sl = readlink("/proc/self/exe", self, sizeof self - 1); self[sl > 0 ? sl : 0] = 0;
    std::string base = std::string(self).substr(0, std::string(self).rfind('/'));
    gLib = base;
    if (!getenv("HSIM_READY")) {
        setenv("HSIM_READY", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        // a fixed environment: nothing of the caller's reaches a simulated rank
        std::vector<std::string> env = {"HSIM_READY=1", "PATH=/usr/bin:/bin", "HOME=/nonexistent", "LC_ALL=C", "LD_LIBRARY_PATH=" + base + "/fake", "GLIBC_TUNABLES=glibc.rtld.optional_static_tls=400000:glibc.rtld.nns=16:glibc.malloc.tcache_count=0:glibc.malloc.perturb=165", "OMP_NUM_THREADS=1", "OPENBLAS_NUM_THREADS=1"};
        for (const char *k : {"HSIM_STDOUT", "HSIM_STDERR", "HSIM_TMP", "HSIM_KEEP", "HSIM_CPU"}) if (getenv(k)) env.push_back(std::string(k) + "=" + getenv(k));
        std::vector<char *> e; for (auto &s : env) e.push_back(&s[0]); e.push_back(nullptr);
        execve("/proc/self/exe", argv, e.data());
        perror("execve"); return 2;
    }
    std::map<std::string, std::string> opt; std::vector<std::string> pos;
    for (int i = 1; i < argc; i++) { std::string a = argv[i]; if (a.rfind("--", 0) == 0 && i + 1 < argc) { opt[a.substr(2)] = argv[++i]; } else pos.push_back(a); }
    if (opt.count("repo")) gRepo = opt["repo"];
    if (pos.empty()) { fprintf(stderr, "usage: hsim work PROP | replay FILE | gen PROP\n"); return 2; }
    signal(SIGPIPE, SIG_IGN);
    std::string tmp = getenv("HSIM_TMP") ? getenv("HSIM_TMP") : "/tmp";
    std::string tmpl = tmp + "/hsim.XXXXXX"; std::vector<char> tb(tmpl.begin(), tmpl.end()); tb.push_back(0);
    if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; }
    gScratchRoot = tb.data();
    struct Cleanup { ~Cleanup() { if (!getenv("HSIM_KEEP")) rmTree(gScratchRoot); } } cleanup;
    Pool pool(self); pool.maxRanks = opt.count("maxranks") ? atoi(opt["maxranks"].c_str()) : 8;
    try {
        if (pos[0] == "replay") {
            std::string t; if (!Ctx::slurp(pos[1], t)) { fprintf(stderr, "cannot read %s\n", pos[1].c_str()); return 2; }
            Case c = Case::fromText(t); Stats st;
            Out o = exec(pool, c, st);
            if (o.viol) { printf("VIOLATED class=%s hash=%016lx\n%s\n", o.v.cls.c_str(), o.hash, o.v.msg.c_str()); return 1; }
            printf("HELD hash=%016lx\n", o.hash); return 0;
        }
        if (pos[0] == "mesh") {  // hsim mesh n=3 m.shape=1 m.nx=4 m.ny=2 ... : prints a distributed mesh file
            Case c; c.kv = {{"n", "1"}, {"m.shape", "1"}, {"m.nx", "3"}, {"m.ny", "3"}, {"m.nz", "1"}, {"m.perx", "0"}, {"m.pery", "0"}, {"m.perz", "0"}, {"m.nzones", "1"}, {"m.jitter", "0"}, {"m.shuffle", "0"}, {"m.seed", "1"}, {"m.pseed", "1"}, {"m.part", "0"}, {"m.version", "2"}};
            for (size_t i = 1; i < pos.size(); i++) { auto e = pos[i].find('='); c.kv[pos[i].substr(0, e)] = pos[i].substr(e + 1); }
            MMesh m = buildMesh(c); distribute(m, c); fputs(m.write(c.i("m.version")).c_str(), stdout); return 0;
        }
        if (pos[0] == "work" || pos[0] == "list") {
            std::string prop = pos[1];
            if (!registry().count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
            const Property &P = registry()[prop];
            uint64_t seed = strtoull(opt["seed"].c_str(), 0, 10), start = strtoull(opt["start"].c_str(), 0, 10), stride = opt.count("stride") ? strtoull(opt["stride"].c_str(), 0, 10) : 1, count = strtoull(opt["count"].c_str(), 0, 10);
            double tmax = opt.count("tmax") ? atof(opt["tmax"].c_str()) : 1e9, shr = opt.count("shrink") ? atof(opt["shrink"].c_str()) : 60;
            bool thorough = opt["tier"] == "thorough"; bool keepGoing = opt.count("keepgoing");
            Stats st; auto t0 = Clock::now(); uint64_t det = 0, detBad = 0; int rc = 0; std::vector<std::string> samples; int nondet = 0;
            for (uint64_t idx = start; idx < count && since(t0) < tmax; idx += stride) {
                Case c = P.gen(caseSeed(seed, prop, idx), thorough); c.prop = prop;
                if (pos[0] == "list") { printf("--- %lu\n%s", idx, c.text().c_str()); continue; }
                Out o = exec(pool, c, st); st.runs++;
                if (samples.size() < 2) { std::string s = "run " + std::to_string(idx) + ":"; for (auto &x : c.kv) s += " " + x.first + "=" + x.second.substr(0, 60); samples.push_back(s); }
                if (opt.count("verbose")) printf("%lu %s %016lx %s\n", idx, o.viol ? o.v.cls.c_str() : "held", o.hash, o.viol ? o.v.msg.c_str() : ""), fflush(stdout);
                if (!o.viol) {
                    if (st.runs % 20 == 1) { Stats d; Out o2 = exec(pool, c, d); det++; if (o2.hash != o.hash || o2.viol) { detBad++; fprintf(stderr, "hsim: run %lu of %s is not deterministic\n", idx, prop.c_str()); } }
                    continue;
                }
                if (keepGoing) continue;
                // gate: same seed twice, then its recorded trace
                Stats d; bool slow = o.v.cls.rfind("outcome:hang", 0) == 0;  // endless loops: every further run costs the whole CPU allowance
                Out o2 = slow ? o : exec(pool, c, d);
                Case rc0 = c; rc0.replay = true; rc0.traces = o.rec;
                Out o3 = exec(pool, rc0, d);
                if (!o2.viol || o2.v.cls != o.v.cls || !o3.viol || o3.v.cls != o.v.cls) {
                    fprintf(stderr, "hsim: violation of run %lu did not reproduce (%s: %s)\n", idx, o.v.cls.c_str(), o.v.msg.c_str());
                    if (++nondet >= 3) { rc = 3; break; }
                    rc = 3; continue;
                }
                int tries = 0; Case m = slow ? rc0 : shrink(pool, rc0, o.v.cls, shr, tries);
                Out fin = slow ? o3 : exec(pool, m, d);
                if (!fin.viol) { m = rc0; fin = o3; }
                std::string file = opt["replaydir"] + "/" + prop + "-seed" + std::to_string(seed) + "-run" + std::to_string(idx) + ".replay";
                std::ofstream f(file);
                f << "# " << prop << ": " << fin.v.cls << "\n"; { std::istringstream is(fin.v.msg); std::string l; while (std::getline(is, l)) f << "# " << l << "\n"; }
                f << "# VERIF_SEED " << seed << " run " << idx << "; " << weight(rc0) << " non-canonical decisions before, " << weight(m) << " after " << tries << " shrinking runs\n";
                f << m.text(); f.close();
                printf("FOUND\t%s\t%s\t%016lx\t%s\n", file.c_str(), fin.v.cls.c_str(), fin.hash, fin.v.msg.substr(0, 400).c_str()); fflush(stdout);
                rc = 1; break;
            }
            if (opt.count("out")) writeStats(opt["out"], st, since(t0), det, detBad, samples);
            return rc;
        }
    } catch (std::exception &e) { fprintf(stderr, "hsim: %s\n", e.what()); return 2; }
    return 2;
}
