#include "files.h"
#include <dirent.h>
#include <sys/stat.h>
namespace hsim {
bool parseXml(const std::string &s, Xml &root, std::string &err) {
    size_t p = 0; std::vector<Xml> st; bool done = false;
    auto ws = [](char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; };
    while (p < s.size()) {
        if (s[p] != '<') { size_t q = s.find('<', p); if (q == std::string::npos) q = s.size(); std::string t = s.substr(p, q - p); bool blank = true; for (char c : t) if (!ws(c)) blank = false; if (!blank) { if (st.empty()) { err = "text outside of elements"; return false; } st.back().text += t; } p = q; continue; }
        size_t q = s.find('>', p); if (q == std::string::npos) { err = "unfinished tag"; return false; }
        std::string t = s.substr(p + 1, q - p - 1); p = q + 1;
        if (t.empty()) { err = "empty tag"; return false; }
        if (t[0] == '?' || t[0] == '!') continue;
        if (done) { err = "content after the end of the document"; return false; }
        if (t[0] == '/') { if (st.empty() || st.back().name != t.substr(1)) { err = "</" + t.substr(1) + "> closes nothing"; return false; } Xml x = st.back(); st.pop_back(); if (st.empty()) { root = x; done = true; } else st.back().kids.push_back(x); continue; }
        bool self = t.back() == '/'; if (self) t.pop_back();
        Xml x; size_t i = 0; while (i < t.size() && !ws(t[i])) x.name += t[i++];
        while (true) {
            while (i < t.size() && ws(t[i])) i++;
            if (i >= t.size()) break;
            size_t e = t.find("=\"", i); if (e == std::string::npos) { err = "malformed attribute in <" + x.name + ">"; return false; }
            size_t f = t.find('"', e + 2); if (f == std::string::npos) { err = "malformed attribute in <" + x.name + ">"; return false; }
            x.at[t.substr(i, e - i)] = t.substr(e + 2, f - e - 2); i = f + 1;
        }
        if (self) { if (st.empty()) { root = x; done = true; } else st.back().kids.push_back(x); } else st.push_back(x);
    }
    if (!st.empty()) { err = "<" + st.back().name + "> is not closed"; return false; }
    if (!done) { err = "no document"; return false; }
    return true;
}
static bool unbase64(const std::string &s, std::string &out) {
    out.clear(); if (s.size() % 4) return false;
    auto v = [](char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; };
    for (size_t i = 0; i < s.size(); i += 4) {
        int a = v(s[i]), b = v(s[i + 1]), c = v(s[i + 2]), d = v(s[i + 3]); bool last = i + 4 == s.size();
        if (a < 0 || b < 0) return false;
        out += (char)(a << 2 | b >> 4);
        if (c < 0) { if (!last || s[i + 2] != '=' || s[i + 3] != '=') return false; continue; }
        out += (char)((b << 4 & 0xf0) | c >> 2);
        if (d < 0) { if (!last || s[i + 3] != '=') return false; continue; }
        out += (char)((c << 6 & 0xc0) | d);
    }
    return true;
}
Files readFiles(const std::string &dir, const std::string &sub) {
    Files f; DIR *d = opendir((dir + "/" + sub).c_str()); if (!d) return f;
    while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n == "." || n == "..") continue; std::string p = dir + "/" + sub + "/" + n; struct stat st; if (stat(p.c_str(), &st) || !S_ISREG(st.st_mode)) continue; std::string t; Ctx::slurp(p, t); f[n] = t; }
    closedir(d); return f;
}
static std::vector<double> array(const std::string &file, const Xml &a, const std::string &type, size_t count, size_t comps) {
    std::string nm = a.at.count("Name") ? a.at.at("Name") : "coordinates"; auto it = a.at.find("type"); if (it == a.at.end() || it->second != type) FAIL("vtk-format", file << ": array " << nm << " is not of type " << type);
    size_t c = a.at.count("NumberOfComponents") ? (size_t)atol(a.at.at("NumberOfComponents").c_str()) : 1; if (comps && c != comps) FAIL("vtk-format", file << ": array " << nm << " has " << c << " components");
    size_t n = count * c, sz = type == "Float64" ? 8 : type == "UInt32" ? 4 : 1; std::string t; for (char ch : a.text) if (!isspace((unsigned char)ch)) t += ch;
    if (a.at.count("format") && a.at.at("format") == "ascii") { std::vector<double> v; std::istringstream is(a.text); double q; while (is >> q) v.push_back(q); if (v.size() != n) FAIL("vtk-format", file << ": array " << nm << " has " << v.size() << " values, " << n << " are declared"); return v; }
    std::string h, b; if (t.size() < 8 || !unbase64(t.substr(0, 8), h) || h.size() != 4 || !unbase64(t.substr(8), b)) FAIL("vtk-format", file << ": array " << nm << " is not valid base64");
    uint32_t len; memcpy(&len, h.data(), 4); if (len != b.size()) FAIL("vtk-format", file << ": array " << nm << " announces " << len << " bytes but has " << b.size());
    if (b.size() != n * sz) FAIL("vtk-format", file << ": array " << nm << " has " << b.size() / sz << " values, " << n << " are declared");
    std::vector<double> v(n); for (size_t i = 0; i < n; i++) { if (sz == 8) { double q; memcpy(&q, b.data() + 8 * i, 8); v[i] = q; } else if (sz == 4) { uint32_t q; memcpy(&q, b.data() + 4 * i, 4); v[i] = q; } else v[i] = (unsigned char)b[i]; }
    return v;
}
static const Xml &need(const std::string &file, const Xml &x, const std::string &n) { auto *p = x.one(n); if (!p) FAIL("vtk-format", file << ": <" << x.name << "> should have one <" << n << ">"); return *p; }
static size_t num(const std::string &file, const Xml &x, const std::string &n) { auto it = x.at.find(n); if (it == x.at.end()) FAIL("vtk-format", file << ": <" << x.name << "> has no " << n); return atol(it->second.c_str()); }
static Xml doc(const std::string &file, const std::string &text, const std::string &type) { Xml x; std::string e; if (!parseXml(text, x, e)) FAIL("vtk-format", file << ": " << e); if (x.name != "VTKFile" || !x.at.count("type") || x.at["type"] != type) FAIL("vtk-format", file << " is not a " << type << " file"); if (x.at["byte_order"] != "LittleEndian") FAIL("vtk-format", file << ": wrong byte order"); return x; }
VPiece readVtu(const std::string &file, const std::string &text, int dim) {
    (void)dim;
    Xml x = doc(file, text, "UnstructuredGrid"); const Xml &pc = need(file, need(file, x, "UnstructuredGrid"), "Piece"); size_t np = num(file, pc, "NumberOfPoints"), nc = num(file, pc, "NumberOfCells"); VPiece v;
    auto X = array(file, need(file, need(file, pc, "Points"), "DataArray"), "Float64", np, 3); std::map<std::string, std::vector<double>> cells;
    const Xml &cl = need(file, pc, "Cells");
    for (auto *a : cl.all("DataArray")) { std::string n = a->at.count("Name") ? a->at.at("Name") : ""; if (n == "offsets") cells[n] = array(file, *a, "UInt32", nc, 1); if (n == "types") cells[n] = array(file, *a, "UInt8", nc, 1); }
    if (!cells.count("offsets") || !cells.count("types")) FAIL("vtk-format", file << ": no cell offsets or types");
    size_t tot = nc ? (size_t)cells["offsets"].back() : 0; for (auto *a : cl.all("DataArray")) if (a->at.count("Name") && a->at.at("Name") == "connectivity") cells["connectivity"] = array(file, *a, "UInt32", tot, 1);
    if (!cells.count("connectivity")) FAIL("vtk-format", file << ": no connectivity");
    std::map<std::string, std::vector<double>> data; for (auto *a : need(file, pc, "PointData").all("DataArray")) { std::string n = a->at.count("Name") ? a->at.at("Name") : ""; if (data.count(n)) FAIL("vtk-format", file << ": array " << n << " appears twice"); int c = a->at.count("NumberOfComponents") ? atoi(a->at.at("NumberOfComponents").c_str()) : 1; data[n] = array(file, *a, "Float64", np, 0); v.arrays[n] = c; }
    size_t o = 0;
    for (size_t i = 0; i < nc; i++) {
        VCell c; c.type = (int)cells["types"][i]; size_t e = (size_t)cells["offsets"][i]; if (e < o || e > tot) FAIL("vtk-format", file << ": offsets are not increasing");
        for (; o < e; o++) { size_t p = (size_t)cells["connectivity"][o]; if (p >= np) FAIL("vtk-format", file << ": connectivity refers to point " << p << " of " << np); c.x.push_back({X[3 * p], X[3 * p + 1], X[3 * p + 2]}); for (auto &d : data) for (int q = 0; q < v.arrays[d.first]; q++) c.data[d.first].push_back(d.second[p * v.arrays[d.first] + q]); }
        v.cells.push_back(c);
    }
    return v;
}
VFrame readPvtu(const Files &f, const std::string &name, int nproc, int dim, std::set<std::string> &used) {
    auto it = f.find(name); if (it == f.end()) FAIL("vtk-missing", "there is no file " << name); used.insert(name);
    Xml x = doc(name, it->second, "PUnstructuredGrid"); const Xml &g = need(name, x, "PUnstructuredGrid"); VFrame fr; fr.time = 0; std::map<std::string, int> arrays;
    for (auto *a : need(name, g, "PPointData").all("PDataArray")) arrays[a->at.count("Name") ? a->at.at("Name") : ""] = a->at.count("NumberOfComponents") ? atoi(a->at.at("NumberOfComponents").c_str()) : 1;
    need(name, g, "PPoints"); auto pcs = g.all("Piece"); if ((int)pcs.size() != nproc) FAIL("vtk-pieces", name << " lists " << pcs.size() << " pieces, there are " << nproc << " processes");
    for (auto *p : pcs) {
        std::string s = p->at.count("Source") ? p->at.at("Source") : ""; auto q = f.find(s); if (q == f.end()) FAIL("vtk-missing", name << " lists " << s << " which does not exist");
        if (!used.insert(s).second) FAIL("vtk-pieces", s << " is listed twice");
        VPiece v = readVtu(s, q->second, dim); if (v.arrays != arrays) FAIL("vtk-format", s << " holds other data arrays than " << name << " announces"); fr.pieces.push_back(v);
    }
    return fr;
}
std::vector<VFrame> readPvd(const Files &f, const std::string &name, int nproc, int dim, std::set<std::string> &used) {
    auto it = f.find(name); if (it == f.end()) FAIL("vtk-missing", "there is no file " << name); used.insert(name);
    Xml x = doc(name, it->second, "Collection"); std::vector<VFrame> v;
    for (auto *d : need(name, x, "Collection").all("DataSet")) { std::string fn = d->at.count("file") ? d->at.at("file") : ""; if (used.count(fn)) FAIL("vtk-pieces", fn << " is listed twice"); VFrame fr = readPvtu(f, fn, nproc, dim, used); fr.time = d->at.count("timestep") ? atof(d->at.at("timestep").c_str()) : -1e9; v.push_back(fr); }
    return v;
}
TFile readTecplot(const std::string &name, const std::string &text, int dim, int missing) {
    TFile t; std::vector<std::string> L; { std::istringstream is(text); std::string l; while (std::getline(is, l)) L.push_back(l); }
    if (L.size() < 2 || L[0].rfind("TITLE = ", 0) || L[1].rfind("VARIABLES = ", 0)) FAIL("tecplot-format", name << " has no proper header");
    { std::string q = L[1]; size_t p = 0; while ((p = q.find('"', p)) != std::string::npos) { size_t e = q.find('"', p + 1); if (e == std::string::npos) FAIL("tecplot-format", name << ": bad variable list"); t.vars.push_back(q.substr(p + 1, e - p - 1)); p = e + 1; } }
    if (!text.empty() && text.back() != '\n') FAIL("tecplot-format", name << " ends in the middle of a line");
    size_t i = 2, per = (size_t)1 << dim, prevN = 0, prevE = 0; bool have = false;
    while (i < L.size()) {
        if (L[i].rfind("ZONE ", 0)) FAIL("tecplot-format", name << ": line " << i + 1 << " should start a zone");
        TZone z; z.header = L[i]; z.per = per; size_t a = L[i].find(", N = "), b = L[i].find(", E = "), s = L[i].find("SOLUTIONTIME = "); if (a == std::string::npos || b == std::string::npos || s == std::string::npos) FAIL("tecplot-format", name << ": bad zone header");
        z.time = atof(L[i].c_str() + s + 15); char *e1, *e2; size_t N = strtoul(L[i].c_str() + a + 6, &e1, 10), E = strtoul(L[i].c_str() + b + 6, &e2, 10); if (e1 == L[i].c_str() + a + 6 || e2 == L[i].c_str() + b + 6) FAIL("tecplot-format", name << ": zone header without numbers");
        z.geometry = L[i].find("FECONNECT") == std::string::npos; if (!z.geometry && (!have || N != prevN || E != prevE)) FAIL("tecplot-format", name << ": zone shares the geometry of another one with other sizes");
        if (N != E * per) FAIL("tecplot-format", name << ": " << N << " nodes for " << E << " elements"); have = true; prevN = N; prevE = E; z.cells = E; i++;
        for (size_t k = 0; k < N; k++, i++) { if (i >= L.size()) FAIL("tecplot-format", name << " ends inside a zone"); std::vector<std::string> w; std::istringstream is(L[i]); std::string q; while (is >> q) w.push_back(q); if (w.size() != t.vars.size() - missing - (z.geometry ? 0 : dim)) FAIL("tecplot-format", name << ": line " << i + 1 << " has " << w.size() << " values"); z.lines.push_back(w); }
        if (z.geometry) { size_t c = 1; for (size_t k = 0; k < E; k++, i++) { if (i >= L.size()) FAIL("tecplot-format", name << " ends inside a zone"); std::istringstream is(L[i]); size_t q, m = 0; while (is >> q) { if (q != c++) FAIL("tecplot-format", name << ": unexpected connectivity in line " << i + 1); m++; } if (m != per) FAIL("tecplot-format", name << ": unexpected connectivity in line " << i + 1); } }
        t.zones.push_back(z);
    }
    return t;
}
}
