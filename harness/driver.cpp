/*
 * Conformance driver: executes a script of public API calls, one per line
 *     op key=value key=value ...
 * (values are comma separated lists, strings percent encoded) and writes one
 * JSON object with the results of each call.  It knows nothing about what the
 * results should be: that is for the TLA+ specification to say.
 *
 * Only the public interface is used.  Arrays handed to calls that copy them
 * are overwritten and released right after the call; arrays that the class
 * documents to refer to are kept, and checked not to be modified.
 */
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <new>
#include <sstream>
#include <string>
#include <vector>
#include <cerrno>
#include <sys/wait.h>
#include <unistd.h>
#include "SgConserveInterp2D.h"
#include "SgNodeInterp2D.h"
#include "SgFlowInterp2D.h"
#include "SgFindPointInCell.h"
#include "SgFindOverlappingCells2D.h"
#include "SgQuadIntersect.h"
#include "SgQuadLineIntersect.h"
#include "SgQuadLineFlows.h"
#include "SgTriangulate.h"
#include "SgLinearSolve.h"
#include "SgBoxIterator.h"
#include "SgSideIterator.h"
#include "SgOctreePoints.h"
#include "SgTripolarGrid.h"
#include "SgLine.h"
#include "SgTriangle.h"
#include "SgTetrahedron.h"
#include "createGrids2D.h"
#include "CmdLineArgParser.h"

/* The accessors are explicit specialisations defined in CmdLineArgParser.cpp */
template <> double CmdLineArgParser::get<double>(const std::string&) const;
template <> int CmdLineArgParser::get<int>(const std::string&) const;
template <> bool CmdLineArgParser::get<bool>(const std::string&) const;
template <> std::string CmdLineArgParser::get<std::string>(const std::string&) const;
template <> const char* CmdLineArgParser::get<const char*>(const std::string&) const;
template <> std::vector<double> CmdLineArgParser::get<std::vector<double> >(const std::string&) const;
template <> std::vector<int> CmdLineArgParser::get<std::vector<int> >(const std::string&) const;

/* The key stored for a point of the set; a tree without that (public) table
   computes the point's key at the tree's own number of levels. */
template <class T> static auto storedKey(T* t, size_t i, const double*, int, int) -> decltype(t->node2Key.find(i)->second.size(), std::vector<size_t>()) {
    auto it = t->node2Key.find(i);
    if (it == t->node2Key.end()) return std::vector<size_t>();
    return std::vector<size_t>(it->second.begin(), it->second.end());
}
template <class T> static std::vector<size_t> storedKey(T* t, size_t, const double* pt, int lev, long) { return t->getKey(pt, (size_t) lev); }

/* ---------------------------------------------------------------- heap -- */
/* Blocks acquired by the library (between API_IN and API_OUT) and not yet
   released; a release of a block that is not live is left to the sanitizer. */
static int apiDepth = 0;
static long liveBlocks = 0, mismatches = 0;
static const size_t NTAB = 1u << 22;
static void* tabP[NTAB];
static char tabK[NTAB];
static size_t inTab = 0;
static size_t slot(void* p) { return ((size_t) p >> 4) * 0x9E3779B97F4A7C15ull >> 42; }
static void tabAdd(void* p, char k) {
    size_t i = slot(p) & (NTAB - 1);
    if (inTab > NTAB / 2) abort();          // more than two million blocks at a time
    while (tabP[i]) i = (i + 1) & (NTAB - 1);
    tabP[i] = p; tabK[i] = k; ++liveBlocks; ++inTab;
}
static void tabDel(void* p, char k) {
    size_t i = slot(p) & (NTAB - 1);
    while (tabP[i]) {
        if (tabP[i] == p) {
            if (tabK[i] != k) ++mismatches;
            --liveBlocks; --inTab;
            // close the gap: move up what would no longer be found
            for (size_t j = i;;) {
                tabP[i] = NULL;
                size_t h;
                do {
                    j = (j + 1) & (NTAB - 1);
                    if (!tabP[j]) return;
                    h = slot(tabP[j]) & (NTAB - 1);
                } while (i <= j ? (i < h && h <= j) : (i < h || h <= j));
                tabP[i] = tabP[j]; tabK[i] = tabK[j]; i = j;
            }
        }
        i = (i + 1) & (NTAB - 1);
    }
}
static void* acquire(size_t n, char k) {
    void* p = malloc(n ? n : 1);
    if (!p) abort();
    static const int garbage = getenv("FILL") ? atoi(getenv("FILL")) : 0xA5;
    memset(p, garbage, n);        // by default no read of a fresh block sees zeros by luck
    if (apiDepth > 0) tabAdd(p, k);
    return p;
}
void* operator new(size_t n) { return acquire(n, 'n'); }
void* operator new[](size_t n) { return acquire(n, 'a'); }
void operator delete(void* p) noexcept { if (p) { tabDel(p, 'n'); free(p); } }
void operator delete[](void* p) noexcept { if (p) { tabDel(p, 'a'); free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { tabDel(p, 'n'); free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { tabDel(p, 'a'); free(p); } }

struct Api { Api() { ++apiDepth; } ~Api() { --apiDepth; } };
#define API(call) do { Api api_; call; } while (0)
/* a call of which only the status is not otherwise recorded */
static int status;
#define ST(call) do { Api api_; int st_ = call; if (st_) status = st_; } while (0)

/* -------------------------------------------------------------- script -- */
typedef std::vector<double> VD;
typedef std::vector<int> VI;
typedef std::vector<std::string> VS;
static std::map<std::string, std::string> A;   // arguments of the current call
static FILE* out;
static int lineNo;

static void fail(const char* what) { fprintf(stderr, "driver: line %d: %s\n", lineNo, what); exit(97); }
static std::string S(const char* k) {
    std::map<std::string, std::string>::iterator it = A.find(k);
    if (it == A.end()) fail(k);
    return it->second;
}
static bool has(const char* k) { return A.find(k) != A.end(); }
static VS split(const std::string& s) {
    VS r; if (s.empty()) return r;
    size_t a = 0;
    for (;;) { size_t b = s.find(',', a); r.push_back(s.substr(a, b == std::string::npos ? b : b - a)); if (b == std::string::npos) break; a = b + 1; }
    return r;
}
static std::string decode(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '%') { r += (char) strtol(s.substr(i + 1, 2).c_str(), NULL, 16); i += 2; } else r += s[i];
    return r;
}
static double D(const char* k) { return strtod(S(k).c_str(), NULL); }
static int I(const char* k) { return atoi(S(k).c_str()); }
static VD LD(const char* k) { VS s = split(S(k)); VD r; for (size_t i = 0; i < s.size(); ++i) r.push_back(strtod(s[i].c_str(), NULL)); return r; }
static VI LI(const char* k) { VS s = split(S(k)); VI r; for (size_t i = 0; i < s.size(); ++i) r.push_back(atoi(s[i].c_str())); return r; }
static VS LS(const char* k) { VS s = split(S(k)); for (size_t i = 0; i < s.size(); ++i) s[i] = decode(s[i]); return s; }

/* -------------------------------------------------------------- output -- */
static std::string js;
static void key(const char* k) { if (js.size() > 1) js += ","; js += "\""; js += k; js += "\":"; }
static std::string num(double x) {
    char b[64];
    if (std::isnan(x)) return "\"nan\"";
    if (std::isinf(x)) return x > 0 ? "\"inf\"" : "\"-inf\"";
    snprintf(b, sizeof b, "\"%a\"", x); return b;
}
static void o(const char* k, double x) { key(k); js += num(x); }
static void oi(const char* k, long x) { key(k); char b[32]; snprintf(b, sizeof b, "%ld", x); js += b; }
static void ob(const char* k, bool x) { key(k); js += x ? "true" : "false"; }
static void o(const char* k, const double* x, size_t n) {
    key(k); js += "["; for (size_t i = 0; i < n; ++i) { if (i) js += ","; js += num(x[i]); } js += "]";
}
static void o(const char* k, const VD& x) { o(k, x.empty() ? NULL : &x[0], x.size()); }
static void oi(const char* k, const VI& x) {
    key(k); js += "["; char b[32];
    for (size_t i = 0; i < x.size(); ++i) { snprintf(b, sizeof b, "%s%d", i ? "," : "", x[i]); js += b; } js += "]";
}
static void os(const char* k, const std::string& s) {
    key(k); js += "\"";
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i]; char b[8];
        if (c == '"' || c == '\\') { js += '\\'; js += (char) c; }
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); js += b; }
        else js += (char) c;
    }
    js += "\"";
}

static void os(const char* k, const VS& v) {
    key(k); js += "["; std::string t;
    for (size_t i = 0; i < v.size(); ++i) { std::swap(js, t); js = "{"; os("s", v[i]); std::string e = js.substr(5); std::swap(js, t); js += (i ? "," : "") + e; }
    js += "]";
}

/* --------------------------------------------------------------- grids -- */
struct Grid { VI n; std::vector<VD> c; };
static std::map<int, Grid> grids;
/* The caller's arrays are exactly sized blocks on the heap, scrambled once they have been handed over.
   In every other script they are then released, in the others the next call of the family with an
   array of the size gets the same block: same address, new contents. */
static bool reuse; static std::string family;
static std::map<std::pair<std::string, size_t>, std::vector<void*> > spare;
static void* take(size_t n) {
    std::vector<void*>& s = spare[std::make_pair(family, n)];
    if (reuse && !s.empty()) { void* p = s.back(); s.pop_back(); return p; }
    return malloc(n ? n : 1);
}
static void give(void* p, size_t n) { if (reuse) spare[std::make_pair(family, n)].push_back(p); else free(p); }
/* an array of component arrays */
struct Buf {
    std::vector<double*> p; std::vector<size_t> n; std::vector<VD> keep;
    Buf(const std::vector<VD>& c) : keep(c) {
        for (size_t i = 0; i < c.size(); ++i) {
            double* d = (double*) take(sizeof(double) * c[i].size());
            if (!c[i].empty()) memcpy(d, &c[i][0], sizeof(double) * c[i].size());
            p.push_back(d); n.push_back(c[i].size());
        }
    }
    bool modified() const {
        for (size_t i = 0; i < p.size(); ++i)
            if (n[i] && memcmp(p[i], &keep[i][0], sizeof(double) * n[i])) return true;
        return false;
    }
    const double** ptr() { return (const double**) &p[0]; }
    ~Buf() {   // the caller reuses and releases its arrays
        for (size_t i = p.size(); i-- > 0; ) { for (size_t k = 0; k < n[i]; ++k) p[i][k] = -7.7e77; give(p[i], sizeof(double) * n[i]); }
    }
private:
    Buf(const Buf&); Buf& operator=(const Buf&);
};
static std::vector<VD> one(const VD& v) { return std::vector<VD>(1, v); }
/* exactly sized int array: scrambled and released by the caller as well */
struct IBuf {
    int* p; size_t n;
    IBuf(const VI& v) : n(v.size()) { p = (int*) take(sizeof(int) * n); for (size_t i = 0; i < n; ++i) p[i] = v[i]; }
    ~IBuf() { for (size_t i = 0; i < n; ++i) p[i] = -12345; give(p, sizeof(int) * n); }
private:
    IBuf(const IBuf&); IBuf& operator=(const IBuf&);
};
// the rows and columns asked for (all of them if not said) of an array of rows of n numbers
static VD some(const VD& v, size_t n) {
    if (!has("rows")) return v;
    VI r = LI("rows"), c = LI("cols"); VD w;
    for (size_t i = 0; i < r.size(); ++i) for (size_t j = 0; j < c.size(); ++j) { size_t k = r[i] * n + c[j]; w.push_back(k < v.size() ? v[k] : NAN); }
    return w;
}
static const double UNTOUCHED = -1.2345678901e200;

/* ------------------------------------------------------------- objects -- */
template <class T> struct Pool {
    std::map<int, T*> m;
    T** at(int id) { typename std::map<int, T*>::iterator it = m.find(id); if (it == m.end()) fail("no such object"); return &it->second; }
    T** make(int id) { if (m.count(id)) fail("object exists"); return &m[id]; }
};
static Pool<SgConserveInterp2D_type> cons;
static Pool<SgNodeInterp2D_type> node;
static Pool<SgFlowInterp2D_type> flow;
static Pool<SgFindPointInCell_type> finder;
static Pool<SgFindOverlappingCells2D_type> ovl;
static Pool<SgQuadIntersect_type> qi;
static Pool<SgQuadLineIntersect_type> qli;
static Pool<SgQuadLineFlows_type> qlf;
static Pool<SgLinearSolve_type> ls;
static Pool<SgBoxIterator_type> box;
static Pool<SgSideIterator_type> side;
static Pool<SgOctreePoints_type> oct;
static Pool<SgLine_type> line;
static Pool<SgTriangle_type> triangle;
static Pool<SgTetrahedron_type> tetra;
static Pool<SgTripolarGrid_type> tripolar;
static Pool<SgTriangulate_type> hull;
static Pool<CmdLineArgParser> cmd;
/* arrays that an object refers to */
static std::map<std::string, Buf*> refs;
static Buf* ref(const std::string& k, const VD& v) {
    Buf*& b = refs[k]; Buf* old = b;
    if (reuse) { delete old; old = NULL; }    // overwritten in place
    b = new Buf(one(v));
    delete old; return b;
}
static void unref(const std::string& pre) {
    std::vector<std::string> ks;
    for (std::map<std::string, Buf*>::iterator it = refs.begin(); it != refs.end(); ++it)
        if (it->first.compare(0, pre.size(), pre) == 0) ks.push_back(it->first);
    for (size_t i = ks.size(); i-- > 0; ) { delete refs[ks[i]]; refs.erase(ks[i]); }
}
static bool refModified(const std::string& pre) {
    for (std::map<std::string, Buf*>::iterator it = refs.begin(); it != refs.end(); ++it)
        if (it->first.compare(0, pre.size(), pre) == 0 && it->second->modified()) return true;
    return false;
}
/* What a call returned is the object's, and stays valid until the next call on the object */
struct Shown { std::vector<std::pair<const double*, size_t> > d; std::vector<std::pair<const int*, size_t> > i; };
static std::map<std::string, Shown> shown;
static void show(const double* p, size_t n) { shown[family + "." + S("o")].d.push_back(std::make_pair(p, n)); }
static void show(const int* p, size_t n) { shown[family + "." + S("o")].i.push_back(std::make_pair(p, n)); }
static std::string pre(const char* c) { return std::string(c) + S("o") + "."; }
static const Grid& G() { std::map<int, Grid>::iterator it = grids.find(I("g")); if (it == grids.end()) fail("no such grid"); return it->second; }

static bool conserveOps(const std::string& op) {
    int r = 0;
    if (op == "cons.new") { API(r = SgConserveInterp2D_new(cons.make(I("o")))); oi("ret", r); }
    else if (op == "cons.del") { API(r = SgConserveInterp2D_del(cons.at(I("o")))); cons.m.erase(I("o")); oi("ret", r); }
    else if (op == "cons.src") {
        const Grid& g = G(); Buf b(g.c); IBuf n(g.n), p(LI("per"));
        API(r = SgConserveInterp2D_setSrcGrid(cons.at(I("o")), n.p, p.p, b.ptr())); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "cons.dst") {
        const Grid& g = G(); Buf b(g.c); IBuf n(g.n);
        API(r = SgConserveInterp2D_setDstGrid(cons.at(I("o")), n.p, b.ptr())); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "cons.compute") { API(r = SgConserveInterp2D_computeWeights(cons.at(I("o")))); oi("ret", r); }
    else if (op == "cons.reset") { API(r = SgConserveInterp2D_reset(cons.at(I("o")))); oi("ret", r); }
    else if (op == "cons.next") { API(r = SgConserveInterp2D_next(cons.at(I("o")))); oi("ret", r); }
    else if (op == "cons.get") {
        int s = -77, d = -77; double w = UNTOUCHED;
        API(r = SgConserveInterp2D_get(cons.at(I("o")), &s, &d, &w)); oi("ret", r); oi("s", s); oi("d", d); o("w", w);
    }
    else if (op == "cons.dump") {
        int max = I("max"), s, d, stop = 0, k = 0; double w; VI vs, vd; VD vw;
        SgConserveInterp2D_type** c = cons.at(I("o"));
        ST(SgConserveInterp2D_reset(c));
        while (!stop && k < max) {
            s = d = -77; w = UNTOUCHED;
            ST(SgConserveInterp2D_get(c, &s, &d, &w)); vs.push_back(s); vd.push_back(d); vw.push_back(w);
            API(stop = SgConserveInterp2D_next(c)); ++k;
        }
        oi("stop", stop); oi("s", vs); oi("d", vd); o("w", vw);
    }
    else if (op == "cons.apply") {
        VD f = LD("f"), init = LD("init"); Buf fb(one(f)), ib(one(init));
        API(r = SgConserveInterp2D_apply(cons.at(I("o")), fb.p[0], ib.p[0])); oi("ret", r); ob("mod", fb.modified());
        o("out", ib.p[0], init.size());
    }
    else if (op == "cons.unit") {   // the response to every unit field: the matrix that apply uses
        int ns = I("ns"), nd = I("nd"); VI vs, vd, touched; VD vw; std::vector<char> t(nd, 0);
        const bool vast = ns > 2000;   // then one array for all the unit fields
        VD all(vast ? ns : 0, 0.0); Buf ab(one(all)); int id = I("o");
        for (int s = 0; s < ns; ++s) {
            VD f(vast ? 0 : ns, 0.0), init(nd, UNTOUCHED); if (vast) ab.p[0][s] = 1.0; else f[s] = 1.0;
            Buf fb(one(f)), ib(one(init));
            ST(SgConserveInterp2D_apply(cons.at(id), vast ? ab.p[0] : fb.p[0], ib.p[0]));
            if (vast) ab.p[0][s] = 0.0;
            for (int d = 0; d < nd; ++d) if (ib.p[0][d] != UNTOUCHED) { t[d] = 1; if (ib.p[0][d] != 0) { vs.push_back(s); vd.push_back(d); vw.push_back(ib.p[0][d]); } }
        }
        for (int d = 0; d < nd; ++d) if (t[d]) touched.push_back(d);
        oi("s", vs); oi("d", vd); o("w", vw); oi("touched", touched);
    }
    else return false;
    return true;
}

static bool nodeOps(const std::string& op) {
    int r = 0;
    if (op == "node.new") { API(r = SgNodeInterp2D_new(node.make(I("o")), I("nit"), D("tol"))); oi("ret", r); }
    else if (op == "node.del") { API(r = SgNodeInterp2D_del(node.at(I("o")))); node.m.erase(I("o")); oi("ret", r); }
    else if (op == "node.src") {
        const Grid& g = G(); Buf b(g.c); IBuf n(g.n), p(LI("per"));
        API(r = SgNodeInterp2D_setSrcGrid(node.at(I("o")), n.p, p.p, b.ptr())); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "node.dst") {
        const Grid& g = G(); Buf b(g.c); IBuf n(g.n);
        API(r = SgNodeInterp2D_setDstGrid(node.at(I("o")), n.p, b.ptr())); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "node.compute") { API(r = SgNodeInterp2D_computeWeights(node.at(I("o")))); oi("ret", r); }
    else if (op == "node.apply") {
        VD f = LD("f"), init = LD("init"); Buf fb(one(f)), ib(one(init));
        API(r = SgNodeInterp2D_apply(node.at(I("o")), fb.p[0], ib.p[0])); oi("ret", r); ob("mod", fb.modified());
        o("out", ib.p[0], init.size());
    }
    else if (op == "node.unit") {
        int ns = I("ns"), nd = I("nd"); VI vs, vd, touched; VD vw; std::vector<char> t(nd, 0);
        const bool vast = ns > 2000;   // then one array for all the unit fields
        VD all(vast ? ns : 0, 0.0); Buf ab(one(all)); int id = I("o");
        for (int s = 0; s < ns; ++s) {
            VD f(vast ? 0 : ns, 0.0), init(nd, UNTOUCHED); if (vast) ab.p[0][s] = 1.0; else f[s] = 1.0;
            Buf fb(one(f)), ib(one(init));
            ST(SgNodeInterp2D_apply(node.at(id), vast ? ab.p[0] : fb.p[0], ib.p[0]));
            if (vast) ab.p[0][s] = 0.0;
            for (int d = 0; d < nd; ++d) if (ib.p[0][d] != UNTOUCHED) { t[d] = 1; if (ib.p[0][d] != 0) { vs.push_back(s); vd.push_back(d); vw.push_back(ib.p[0][d]); } }
        }
        for (int d = 0; d < nd; ++d) if (t[d]) touched.push_back(d);
        // one destination node after the other
        VI order(nd + 1, 0), ws(vs.size()), wd(vs.size()); VD ww(vs.size());
        for (size_t i = 0; i < vd.size(); ++i) ++order[vd[i] + 1];
        for (int d = 0; d < nd; ++d) order[d + 1] += order[d];
        for (size_t i = 0; i < vd.size(); ++i) { int at = order[vd[i]]++; ws[at] = vs[i]; wd[at] = vd[i]; ww[at] = vw[i]; }
        oi("s", ws); oi("d", wd); o("w", ww); oi("touched", touched);
    }
    else return false;
    return true;
}

static bool flowOps(const std::string& op) {
    int r = 0;
    if (op == "flow.new") { API(r = SgFlowInterp2D_new(flow.make(I("o")))); oi("ret", r); }
    else if (op == "flow.del") { API(r = SgFlowInterp2D_del(flow.at(I("o")))); flow.m.erase(I("o")); oi("ret", r); }
    else if (op == "flow.src") {
        const Grid& g = G(); Buf b(g.c); IBuf n(g.n);
        API(r = SgFlowInterp2D_setSrcGrid(flow.at(I("o")), n.p, b.ptr())); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "flow.dst") {
        const Grid& g = G(); Buf b(g.c); IBuf n(g.n);
        API(r = SgFlowInterp2D_setDstGrid(flow.at(I("o")), n.p, b.ptr())); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "flow.compute") { API(r = SgFlowInterp2D_computeWeights(flow.at(I("o")))); oi("ret", r); }
    else if (op == "flow.apply") {
        std::vector<VD> f; f.push_back(LD("f0")); f.push_back(LD("f1")); VD init = LD("init"); Buf fb(f), ib(one(init));
        API(r = SgFlowInterp2D_apply(flow.at(I("o")), fb.ptr(), ib.p[0])); oi("ret", r); ob("mod", fb.modified());
        o("out", ib.p[0], init.size());
    }
    else if (op == "flow.debug") {   // writes to standard error
        std::ostringstream text; std::streambuf* old = std::cerr.rdbuf(text.rdbuf());
        API(r = SgFlowInterp2D_debug(flow.at(I("o")))); std::cerr.rdbuf(old); oi("ret", r);
    }
    else return false;
    return true;
}

static void findState(SgFindPointInCell_type** f, int nd) {
    VD idx(nd, UNTOUCHED), pos(nd, UNTOUCHED); double err = UNTOUCHED; int n = -1; double* h = NULL;
    ST(SgFindPointInCell_getIndices(f, &idx[0])); ST(SgFindPointInCell_getPosition(f, &pos[0]));
    ST(SgFindPointInCell_getError(f, &err)); ST(SgFindPointInCell_getErrorHistory(f, &n, &h));
    o("idx", idx); o("pos", pos); o("err", err); oi("nh", n); o("hist", h, n > 0 && n < 100000 ? n : 0); show(h, n > 0 && n < 100000 ? n : 0);
}
static bool findOps(const std::string& op) {
    int r = 0;
    if (op == "find.new") { API(r = SgFindPointInCell_new(finder.make(I("o")), I("nit"), D("tol"))); oi("ret", r); }
    else if (op == "find.del") { API(r = SgFindPointInCell_del(finder.at(I("o")))); finder.m.erase(I("o")); oi("ret", r); }
    else if (op == "find.grid") {
        const Grid& g = G(); Buf b(g.c); IBuf n(g.n), p(LI("per"));
        API(r = SgFindPointInCell_setGrid(finder.at(I("o")), (int) g.n.size(), n.p, p.p, b.ptr())); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "find.reset") {
        VD i = LD("idx"), t = LD("tgt"); Buf ib(one(i)), tb(one(t));
        API(r = SgFindPointInCell_reset(finder.at(I("o")), ib.p[0], tb.p[0])); oi("ret", r); ob("mod", ib.modified() || tb.modified());
    }
    else if (op == "find.next") { API(r = SgFindPointInCell_next(finder.at(I("o")))); oi("ret", r); if (!has("quiet")) findState(finder.at(I("o")), I("nd")); }
    else if (op == "find.look") findState(finder.at(I("o")), I("nd"));
    else if (op == "find.run") {   // next until it stops
        int max = I("max"), k = 0; r = 0;
        while (r == 0 && k < max) { API(r = SgFindPointInCell_next(finder.at(I("o")))); ++k; }
        oi("ret", r); oi("steps", k); if (!has("quiet")) findState(finder.at(I("o")), I("nd"));
    }
    else return false;
    return true;
}

static bool ovlOps(const std::string& op) {
    int r = 0;
    if (op == "ovl.new") { API(r = SgFindOverlappingCells2D_new(ovl.make(I("o")))); oi("ret", r); }
    else if (op == "ovl.del") { API(r = SgFindOverlappingCells2D_del(ovl.at(I("o")))); ovl.m.erase(I("o")); oi("ret", r); }
    else if (op == "ovl.src") {
        const Grid& g = G(); Buf b(g.c); IBuf n(g.n), p(LI("per"));
        API(r = SgFindOverlappingCells2D_setSrcGrid(ovl.at(I("o")), n.p, p.p, b.ptr())); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "ovl.poly") {
        VD p = LD("pts"); Buf b(one(p));
        API(r = SgFindOverlappingCells2D_setPolygonPoints(ovl.at(I("o")), (int) p.size() / 2, b.p[0])); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "ovl.find") {
        int n = -1; int* p = NULL; VI v;
        API(r = SgFindOverlappingCells2D_findSrcCellIndices(ovl.at(I("o"))));
        ST(SgFindOverlappingCells2D_getNumberOfSrcCellIndices(ovl.at(I("o")), &n));
        ST(SgFindOverlappingCells2D_getSrcCellIndices(ovl.at(I("o")), &p));
        for (int i = 0; i < n; ++i) v.push_back(p[i]);
        show(p, v.size());
        oi("ret", r); oi("num", n); oi("cells", v);
    }
    else return false;
    return true;
}

static bool geomOps(const std::string& op) {
    int r = 0;
    if (op == "hull.new") {
        VD p = LD("pts"); Buf b(one(p));
        API(r = SgTriangulate_new(hull.make(I("o")), (int) p.size() / 2, b.p[0])); oi("ret", r); ob("mod", b.modified());
        refs[pre("hull")] = new Buf(one(p));
    }
    else if (op == "hull.area") {
        // the points are the caller's until the area has been asked for
        double a = UNTOUCHED; VD p = LD("pts"); Buf b(one(p)); SgTriangulate_type* t = NULL;
        ST(SgTriangulate_new(&t, (int) p.size() / 2, b.p[0]));
        API(r = SgTriangulate_getConvexHullArea(&t, &a)); oi("ret", r); o("area", a);
        ST(SgTriangulate_getConvexHullArea(&t, &a)); o("again", a);
        ST(SgTriangulate_del(&t)); ob("mod", b.modified());
    }
    else if (op == "qi.new") { API(r = SgQuadIntersect_new(qi.make(I("o")))); oi("ret", r); }
    else if (op == "qi.del") { API(r = SgQuadIntersect_del(qi.at(I("o")))); qi.m.erase(I("o")); unref(pre("qi")); oi("ret", r); }
    else if (op == "qi.set") {
        if (reuse) unref(pre("qi"));
        Buf* a = new Buf(one(LD("a"))); Buf* b = new Buf(one(LD("b")));
        API(r = SgQuadIntersect_setQuadPoints(qi.at(I("o")), a->p[0], b->p[0])); oi("ret", r);
        unref(pre("qi")); refs[pre("qi") + "a"] = a; refs[pre("qi") + "b"] = b;
    }
    else if (op == "qi.get") {
        int n = -1; double* p = NULL;
        API(r = SgQuadIntersect_getIntersectPoints(qi.at(I("o")), &n, &p)); oi("ret", r); oi("num", n);
        o("pts", p, n > 0 && n < 100000 ? 2 * n : 0); show(p, n > 0 && n < 100000 ? 2 * n : 0); ob("mod", refModified(pre("qi")));
    }
    else if (op == "qli.new") { API(r = SgQuadLineIntersect_new(qli.make(I("o")))); oi("ret", r); }
    else if (op == "qli.del") { API(r = SgQuadLineIntersect_del(qli.at(I("o")))); qli.m.erase(I("o")); unref(pre("qli")); oi("ret", r); }
    else if (op == "qli.quad") { Buf* b = ref(pre("qli") + "q", LD("q")); API(r = SgQuadLineIntersect_setQuadPoints(qli.at(I("o")), b->p[0])); oi("ret", r); }
    else if (op == "qli.line") { Buf* b = ref(pre("qli") + "l", LD("l")); API(r = SgQuadLineIntersect_setLinePoints(qli.at(I("o")), b->p[0])); oi("ret", r); }
    else if (op == "qli.get") {
        int n = -1; double* p = NULL;
        API(r = SgQuadLineIntersect_collectIntersectPoints(qli.at(I("o")), &n, &p)); oi("ret", r); oi("num", n);
        o("pts", p, n > 0 && n < 100000 ? 2 * n : 0); show(p, n > 0 && n < 100000 ? 2 * n : 0); ob("mod", refModified(pre("qli")));
    }
    else if (op == "qlf.new") { API(r = SgQuadLineFlows_new(qlf.make(I("o")))); oi("ret", r); }
    else if (op == "qlf.del") { API(r = SgQuadLineFlows_del(qlf.at(I("o")))); qlf.m.erase(I("o")); unref(pre("qlf")); oi("ret", r); }
    else if (op == "qlf.quad") { Buf* b = ref(pre("qlf") + "q", LD("q")); API(r = SgQuadLineFlows_setQuadPoints(qlf.at(I("o")), b->p[0])); oi("ret", r); }
    else if (op == "qlf.line") { Buf* b = ref(pre("qlf") + "l", LD("l")); API(r = SgQuadLineFlows_setLinePoints(qlf.at(I("o")), b->p[0])); oi("ret", r); }
    else if (op == "qlf.compute") {
        VD v(4, UNTOUCHED);
        API(r = SgQuadLineFlows_computeProjections(qlf.at(I("o")))); oi("ret", r);
        for (int i = 0; i < 4; ++i) ST(SgQuadLineFlows_getProjection(qlf.at(I("o")), i, &v[i]));
        o("proj", v); ob("mod", refModified(pre("qlf")));
    }
    else return false;
    return true;
}

static bool miscOps(const std::string& op) {
    int r = 0;
    if (op == "ls.new") { API(r = SgLinearSolve_new(ls.make(I("o")), I("nr"), I("nc"))); oi("ret", r); }
    else if (op == "ls.del") { API(r = SgLinearSolve_del(ls.at(I("o")))); ls.m.erase(I("o")); oi("ret", r); }
    else if (op == "ls.mat") { Buf b(one(LD("a"))); API(r = SgLinearSolve_setMatrix(ls.at(I("o")), b.p[0])); oi("ret", r); ob("mod", b.modified()); }
    else if (op == "ls.rhs") { Buf b(one(LD("b"))); API(r = SgLinearSolve_setRightHandSide(ls.at(I("o")), b.p[0])); oi("ret", r); ob("mod", b.modified()); }
    else if (op == "ls.solve") { API(r = SgLinearSolve_solve(ls.at(I("o")))); oi("ret", r); }
    else if (op == "ls.sol") { double* x = NULL; API(r = SgLinearSolve_getSolution(ls.at(I("o")), &x)); oi("ret", r); o("x", x, I("nc")); show(x, I("nc")); }
    else if (op == "ls.res") { double x = UNTOUCHED; API(r = SgLinearSolve_getResidual(ls.at(I("o")), &x)); oi("ret", r); o("res", x); }
    else if (op == "box.new") { VI b = LI("b"), e = LI("e"); IBuf bb(b), eb(e); API(r = SgBoxIterator_new(box.make(I("o")), (int) b.size(), bb.p, eb.p)); oi("ret", r); }
    else if (op == "box.del") { API(r = SgBoxIterator_del(box.at(I("o")))); box.m.erase(I("o")); oi("ret", r); }
    else if (op == "box.num") { int n = -77; API(r = SgBoxIterator_getNumberOfElements(box.at(I("o")), &n)); oi("ret", r); oi("num", n); }
    else if (op == "box.elem") { VI v(I("nd"), -77777); API(r = SgBoxIterator_getElement(box.at(I("o")), I("i"), &v[0])); oi("ret", r); oi("inds", v); }
    else if (op == "box.index") { int n = -77; IBuf b(LI("inds")); API(r = SgBoxIterator_getIndex(box.at(I("o")), b.p, &n)); oi("ret", r); oi("i", n); }
    else if (op == "side.new") { SgSideIterator_type** s = side.make(I("o")); API(*s = new SgSideIterator_type(I("nd"))); oi("ret", 0); }
    else if (op == "side.del") { API(delete *side.at(I("o"))); side.m.erase(I("o")); oi("ret", 0); }
    else if (op == "side.num") { API(r = (int) (*side.at(I("o")))->getNumberOfElements()); oi("num", r); }
    else if (op == "side.reset") { API((*side.at(I("o")))->reset()); oi("ret", 0); }
    else if (op == "side.next") { API(r = (*side.at(I("o")))->next()); oi("ret", r); }
    else if (op == "side.get") { VI v; API(v = (*side.at(I("o")))->get()); oi("side", v); }
    else if (op == "oct.new") {
        VD p = LD("pts"); Buf b(one(p));
        API(r = SgOctreePoints_new(oct.make(I("o")), I("lev"), I("nd"), (int) p.size() / I("nd"), b.p[0])); oi("ret", r); ob("mod", b.modified());
    }
    else if (op == "oct.del") { API(r = SgOctreePoints_del(oct.at(I("o")))); oct.m.erase(I("o")); oi("ret", r); }
    else if (op == "oct.key") {
        VD p = LD("pt"); Buf b(one(p)); std::vector<size_t> k; VI v;
        API(k = (*oct.at(I("o")))->getKey(b.p[0], (size_t) I("lev")));
        for (size_t i = 0; i < k.size(); ++i) v.push_back((int) k[i]);
        oi("key", v);
    }
    else if (op == "oct.node") {
        VD p = LD("pt"); Buf b(one(p)); std::vector<size_t> k; VI v;
        API(k = storedKey(*oct.at(I("o")), (size_t) I("i"), b.p[0], I("lev"), 0));
        for (size_t i = 0; i < k.size(); ++i) v.push_back((int) k[i]);
        oi("key", v);
    }
    else if (op == "oct.box") {
        VI k = LI("key"); std::vector<size_t> kk(k.begin(), k.end()); VD lo, hi;
        API(lo = (*oct.at(I("o")))->getLo(kk)); API(hi = (*oct.at(I("o")))->getHi(kk)); o("lo", lo); o("hi", hi);
    }
    else if (op == "mk.rect" || op == "mk.polar" || op == "mk.rot") {
        VI n = LI("n"); size_t tot = (size_t) n[0] * n[1];
        std::vector<VD> c(2, VD(tot + 2, UNTOUCHED)); double* p[2] = {&c[0][1], &c[1][1]}; IBuf nb(n);
        if (op == "mk.rect") { Buf lo(one(LD("lo"))), hi(one(LD("hi"))); API(createRectangularGrid(nb.p, lo.p[0], hi.p[0], p)); }
        else if (op == "mk.polar") { Buf ce(one(LD("c"))); API(createPolarGrid(nb.p, ce.p[0], D("r"), p)); }
        else API(createRotatedPoleGrid(nb.p, D("dlat"), D("dlon"), p));
        ob("guard", c[0][0] == UNTOUCHED && c[1][0] == UNTOUCHED && c[0][tot + 1] == UNTOUCHED && c[1][tot + 1] == UNTOUCHED);
        VD x(c[0].begin() + 1, c[0].end() - 1), y(c[1].begin() + 1, c[1].end() - 1);
        long written = 0; for (size_t i = 0; i < tot; ++i) written += x[i] != UNTOUCHED && y[i] != UNTOUCHED;
        oi("written", written); o("x", some(x, n[1])); o("y", some(y, n[1]));
    }
    else if (op == "tri.new") { IBuf n(LI("n")); API(r = SgTripolarGrid_new(tripolar.make(I("o")), n.p, I("cap"))); oi("ret", r); }
    else if (op == "tri.del") { API(r = SgTripolarGrid_del(tripolar.at(I("o")))); tripolar.m.erase(I("o")); oi("ret", r); }
    else if (op == "tri.get" || op == "tri.some") {
        int d[2] = {-1, -1}; double** c = NULL; API(r = SgTripolarGrid_getGrid(tripolar.at(I("o")), d, &c)); oi("ret", r);
        VI dv(d, d + 2); oi("dims", dv); size_t tot = d[0] > 0 && d[1] > 0 ? (size_t) d[0] * d[1] : 0;
        VD la(c[0], c[0] + tot), lo(c[1], c[1] + tot), ext(4, 0.0); if (tot) { ext[0] = ext[1] = la[0]; ext[2] = ext[3] = lo[0]; }
        for (size_t i = 0; i < tot; ++i) {   // !(a <= b): also not a number
            if (!(ext[0] <= la[i])) ext[0] = la[i]; if (!(la[i] <= ext[1])) ext[1] = la[i]; if (!(ext[2] <= lo[i])) ext[2] = lo[i]; if (!(lo[i] <= ext[3])) ext[3] = lo[i];
            if (la[i] != la[i] || lo[i] != lo[i]) { ext[0] = NAN; break; }
        }
        o("ext", ext); o("lat", some(la, d[0] > 0 ? d[0] : 1)); o("lon", some(lo, d[0] > 0 ? d[0] : 1)); if (!has("rows")) { show(c[0], tot); show(c[1], tot); }
    }
    else if (op == "line.new") { VD p = LD("p"); Buf b(one(p)); API(r = SgLine_new(line.make(I("o")), b.p[0], b.p[0] + 3)); oi("ret", r); ob("mod", b.modified()); }
    else if (op == "line.del") { API(r = SgLine_del(line.at(I("o")))); line.m.erase(I("o")); oi("ret", r); }
    else if (op == "line.get") {
        int n = -1; VD v; API(r = SgLine_getNumberOfPoints(line.at(I("o")), &n));
        for (int i = 0; i < n && i < 10; ++i) { double* p; ST(SgLine_getPoint(line.at(I("o")), i, &p)); v.insert(v.end(), p, p + 3); show(p, 3); }
        oi("ret", r); oi("np", n); o("p", v);
    }
    else if (op == "triangle.new") { VD p = LD("p"); Buf b(one(p)); API(r = SgTriangle_new(triangle.make(I("o")), b.p[0], b.p[0] + 3, b.p[0] + 6)); oi("ret", r); ob("mod", b.modified()); }
    else if (op == "triangle.del") { API(r = SgTriangle_del(triangle.at(I("o")))); triangle.m.erase(I("o")); oi("ret", r); }
    else if (op == "triangle.get") {
        SgTriangle_type** t = triangle.at(I("o")); int n = -1, ne = -1; VD v; VI e;
        API(r = SgTriangle_getNumberOfPoints(t, &n)); ST(SgTriangle_getNumberOfEdges(t, &ne));
        for (int i = 0; i < n && i < 10; ++i) { double* p; ST(SgTriangle_getPoint(t, i, &p)); v.insert(v.end(), p, p + 3); show(p, 3); }
        for (int i = 0; i < ne && i < 20; ++i) { int* p; ST(SgTriangle_getEdge(t, i, &p)); e.insert(e.end(), p, p + 2); show(p, 2); }
        oi("ret", r); oi("np", n); oi("ne", ne); o("p", v); oi("e", e);
    }
    else if (op == "tetra.new") { VD p = LD("p"); Buf b(one(p)); API(r = SgTetrahedron_new(tetra.make(I("o")), b.p[0], b.p[0] + 3, b.p[0] + 6, b.p[0] + 9)); oi("ret", r); ob("mod", b.modified()); }
    else if (op == "tetra.del") { API(r = SgTetrahedron_del(tetra.at(I("o")))); tetra.m.erase(I("o")); oi("ret", r); }
    else if (op == "tetra.get") {
        SgTetrahedron_type** t = tetra.at(I("o")); int n = -1, ne = -1, nf = -1; VD v; VI e, f;
        API(r = SgTetrahedron_getNumberOfPoints(t, &n)); ST(SgTetrahedron_getNumberOfEdges(t, &ne)); ST(SgTetrahedron_getNumberOfFaces(t, &nf));
        for (int i = 0; i < n && i < 10; ++i) { double* p; ST(SgTetrahedron_getPoint(t, i, &p)); v.insert(v.end(), p, p + 3); show(p, 3); }
        for (int i = 0; i < ne && i < 20; ++i) { int* p; ST(SgTetrahedron_getEdge(t, i, &p)); e.insert(e.end(), p, p + 2); show(p, 2); }
        for (int i = 0; i < nf && i < 20; ++i) { int* p; ST(SgTetrahedron_getFace(t, i, &p)); f.insert(f.end(), p, p + 3); show(p, 3); }
        oi("ret", r); oi("np", n); oi("ne", ne); oi("nf", nf); o("p", v); oi("e", e); oi("f", f);
    }
    else if (op == "held") {   // the last answer of an object, read again where it is
        Shown& s = shown[S("kind") + "." + S("o")]; VD d; VI v;
        for (size_t i = 0; i < s.d.size(); ++i) d.insert(d.end(), s.d[i].first, s.d[i].first + s.d[i].second);
        for (size_t i = 0; i < s.i.size(); ++i) v.insert(v.end(), s.i[i].first, s.i[i].first + s.i[i].second);
        o("d", d); oi("i", v);
    }
    else if (op == "mem.live") { oi("live", liveBlocks); oi("mismatch", mismatches); }
    else return false;
    return true;
}

static bool cmdOps(const std::string& op) {
    if (op == "cmd.new") { CmdLineArgParser** c = cmd.make(I("o")); API(*c = new CmdLineArgParser()); oi("ret", 0); }
    else if (op == "cmd.del") { API(delete *cmd.at(I("o"))); cmd.m.erase(I("o")); oi("ret", 0); }
    else if (op == "cmd.set") {
        CmdLineArgParser* c = *cmd.at(I("o")); std::string n = decode(S("name")), t = S("t"), v = decode(S("v"));
        std::string h = decode(S("h"));
        Api a;
        if (t == "double") c->set(n, strtod(v.c_str(), NULL), h);
        else if (t == "int") c->set(n, atoi(v.c_str()), h);
        else if (t == "string") c->set(n, v, h);
        else if (t == "char") c->set(n, v.c_str(), h);
        else if (t == "bool") c->set(n, v == "true", h);
        else fail("type");
    }
    else if (op == "cmd.parse") {
        VS v = LS("argv"); std::vector<char*> argv; bool ok = false;
        for (size_t i = 0; i < v.size(); ++i) argv.push_back(strdup(v[i].c_str()));
        argv.push_back(NULL);
        API(ok = (*cmd.at(I("o")))->parse((int) v.size(), &argv[0]));
        bool mod = false;
        for (size_t i = 0; i < v.size(); ++i) { mod = mod || v[i] != argv[i]; memset(argv[i], 'Z', strlen(argv[i])); free(argv[i]); }
        ob("ok", ok); ob("mod", mod);
    }
    else if (op == "cmd.help") {
        CmdLineArgParser* c = *cmd.at(I("o"));
        std::ostringstream sink; std::streambuf* was = std::cout.rdbuf(sink.rdbuf());
        API(c->help());
        std::cout.rdbuf(was);
        VS v; std::istringstream is(sink.str()); std::string s; while (std::getline(is, s)) v.push_back(s);
        os("lines", v);
    }
    else if (op == "cmd.purpose") { std::string s = decode(S("text")); API((*cmd.at(I("o")))->setPurpose(s)); }
    else if (op == "cmd.note") { std::string s = decode(S("text")); API((*cmd.at(I("o")))->addFootnote(s)); }
    else if (op == "cmd.get") {
        CmdLineArgParser* c = *cmd.at(I("o")); std::string n = decode(S("name")), t = S("t");
        Api a;
        if (t == "double") o("v", c->get<double>(n));
        else if (t == "int") oi("v", c->get<int>(n));
        else if (t == "string") os("v", c->get<std::string>(n));
        else if (t == "char") { const char* p = c->get<const char*>(n); os("v", p ? std::string(p) : std::string("<null>")); }
        else if (t == "bool") ob("v", c->get<bool>(n));
        else if (t == "vd") { VD v = c->get<std::vector<double> >(n); o("v", v); }
        else if (t == "vi") { VI v = c->get<std::vector<int> >(n); oi("v", v); }
        else fail("type");
    }
    else return false;
    return true;
}

/* The calls of one script, in a process of its own */
static void runScript(const VS& lines, int first) {
    const char* lim = getenv("SCRIPT_TIMEOUT");
    alarm(lim ? atoi(lim) : 20);
    for (size_t i = 0; i < lines.size(); ++i) {
        lineNo = first + (int) i; A.clear();
        std::istringstream is(lines[i]); std::string op, tok;
        if (!(is >> op)) continue;
        while (is >> tok) { size_t p = tok.find('='); if (p == std::string::npos) fail("token"); A[tok.substr(0, p)] = tok.substr(p + 1); }
        js = "{"; status = 0; family = op.substr(0, op.find('.'));
        if (has("o") && op != "held") shown.erase(family + "." + S("o"));
        if (op == "start") reuse = has("id") && I("id") % 2 == 1;
        else if (op == "grid") {
            Grid g; g.n = LI("n"); g.c.push_back(LD("x"));
            if (has("y")) g.c.push_back(LD("y"));
            if (has("z")) g.c.push_back(LD("z"));
            if (has("w")) g.c.push_back(LD("w"));
            grids[I("id")] = g;
        }
        else if (!(conserveOps(op) || nodeOps(op) || flowOps(op) || findOps(op) || ovlOps(op) || geomOps(op) || miscOps(op) || cmdOps(op)))
            fail(op.c_str());
        oi("st", status); js += "}\n"; fputs(js.c_str(), out); fflush(out);
    }
}

int main(int argc, char** argv) {
    if (argc != 3) { fprintf(stderr, "usage: driver SCRIPT RESULTS\n"); return 98; }
    FILE* in = fopen(argv[1], "r"); out = fopen(argv[2], "a");
    if (!in || !out) { perror("driver"); return 98; }
    char* buf = NULL; size_t cap = 0; ssize_t len;
    std::vector<VS> scripts; std::vector<int> first; int n = 0;
    while ((len = getline(&buf, &cap, in)) > 0) {
        std::string s(buf, len); ++n;
        if (s.compare(0, 5, "start") == 0) { scripts.push_back(VS()); first.push_back(n); }
        if (scripts.empty()) { fprintf(stderr, "driver: no start\n"); return 98; }
        scripts.back().push_back(s);
    }
    fclose(in); free(buf);
    for (size_t i = 0; i < scripts.size(); ++i) {
        pid_t p = fork();
        if (p < 0) { perror("driver: fork"); return 98; }
        if (p == 0) { runScript(scripts[i], first[i]); exit(0); }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) if (errno != EINTR) { perror("driver: waitpid"); return 98; }
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 97) return WEXITSTATUS(st);   // the script is wrong
        fprintf(out, "{\"end\":\"%s %d\"}\n", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st)); fflush(out);
    }
    return 0;
}
