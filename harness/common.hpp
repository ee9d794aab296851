// Shared pieces of the conformance harness: JSON output with scaled integers, construction of storage-unit
// trees from a small textual description, and complete snapshots of such a tree through the public interface.
#pragma once
#include "slide.hpp"
#include "procedures/procedure_util.hpp"
#include <cstdint>
#include <cstring>
#include <cmath>
#include <iostream>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>

namespace vh {
using namespace slide;

constexpr long long BIG = 2000000000LL; // clamp: everything that reaches TLC fits a 32-bit integer
constexpr long long NANV = 2000000001LL;
inline long long sc(double x, double scale)
{
  if (std::isnan(x)) return NANV;
  const double y = x * scale;
  if (y > 2e9) return BIG;
  if (y < -2e9) return -BIG;
  return std::llround(y);
}
// residuals and relative quantities that must be resolved below the unit: ceil-like magnitude
struct J {
  std::string s;
  bool first = true;
  J() { s = "{"; }
  void key(const char *k) { if (!first) s += ','; first = false; s += '"'; s += k; s += "\":"; }
  J &i(const char *k, long long v) { key(k); s += std::to_string(v); return *this; }
  J &b(const char *k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
  J &t(const char *k, const std::string &v) { key(k); s += '"'; for (char c : v) { if (c == '"' || c == '\\') s += '\\'; if (c == '\n') { s += "\\n"; continue; } s += c; } s += '"'; return *this; }
  J &raw(const char *k, const std::string &v) { key(k); s += v; return *this; }
  J &ints(const char *k, const std::vector<long long> &v) { key(k); s += '['; for (size_t q = 0; q < v.size(); q++) { if (q) s += ','; s += std::to_string(v[q]); } s += ']'; return *this; }
  J &strs(const char *k, const std::vector<std::string> &v) { key(k); s += '['; for (size_t q = 0; q < v.size(); q++) { if (q) s += ','; s += '"' + v[q] + '"'; } s += ']'; return *this; }
  std::string str() const { return s + "}"; }
};

inline std::string hashD(const std::vector<double> &v)
{ // FNV-1a over the bit patterns (-0.0 normalised)
  uint64_t h = 1469598103934665603ULL;
  for (double d : v) {
    if (d == 0) d = 0;
    uint64_t u; std::memcpy(&u, &d, 8);
    for (int k = 0; k < 8; k++) { h ^= (u >> (8 * k)) & 0xff; h *= 1099511628211ULL; }
  }
  char b[24]; std::snprintf(b, sizeof b, "%016llx", (unsigned long long)h);
  return b;
}

// ---------------------------------------------------------------- tree construction
// leaf:   b:cap:soc | e1:cap:soc | e2:cap:soc | e1p:cap:soc:Rdc:Rp:invtau | k[:capf:resf:sei:lam:deg]
// module: s(child,child;rc=0.001,0.002;cool=HVAC|open|cool|none;ctl=1;par=1;id=NAME) , p(...) ; battery: B(module;ns=2;np=3)
struct Cfg { // what the description asked for, per unit in preorder: the specification compares the object with this
  std::string k; std::vector<long long> rc, rp, it; long long ns = 1, np = 1, R = 0, cap = 0; std::string id;
  std::string str() const { J j; j.t("k", k).ints("rc", rc).ints("rp", rp).ints("it", it).i("ns", ns).i("np", np).i("R", R).i("cap", cap).t("id", id); return j.str(); }
};
struct Parser {
  std::string t; size_t p = 0; int cnt = 0;
  int forcePar = -1;                // >= 0: every module is (not) threaded
  std::vector<Cfg> cfg;             // preorder of what parse() returned last
  explicit Parser(std::string s) : t(std::move(s)) {}
  std::string word(const char *stop) { std::string r; while (p < t.size() && !std::strchr(stop, t[p])) r += t[p++]; return r; }
  static std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> v; std::string cur; for (char x : s) { if (x == c) { v.push_back(cur); cur.clear(); } else cur += x; } v.push_back(cur); return v; }
  static DEG_ID deg(const std::string &s)
  { // "2+1-0_0-0_2+3-1_1" : SEI models - porosity _ CS models - diffusion _ LAM models _ pl   (own grammar, see spec)
    DEG_ID d;
    auto f = split(s, '_');
    auto addAll = [](auto &id, const std::string &m) { for (auto &x : split(m, '+')) if (!x.empty()) id.add_model(std::stoi(x)); };
    auto a = split(f.at(0), '-'); addAll(d.SEI_id, a.at(0)); d.SEI_porosity = std::stoi(a.at(1));
    auto b = split(f.at(1), '-'); addAll(d.CS_id, b.at(0)); d.CS_diffusion = std::stoi(b.at(1));
    addAll(d.LAM_id, f.at(2));
    d.pl_id = std::stoi(f.at(3));
    return d;
  }
  Deep_ptr<StorageUnit> leaf(const std::string &w)
  {
    auto a = split(w, ':');
    const std::string id = "c" + std::to_string(cnt++);
    auto D = [&](size_t k) { return std::stod(a.at(k)); };
    {
      Cfg c; c.k = a[0].substr(0, 2) == "e1" ? "e1" : a[0].substr(0, 2) == "e2" ? "e2" : a[0][0] == 'b' ? "b" : "k"; c.id = id;
      c.R = sc(2e-3, 1e8);
      const int nrc = c.k == "e1" ? 1 : c.k == "e2" ? 2 : 0;
      if (nrc >= 1) { c.rp = { sc(15.8e-3, 1e8) }; c.it = { sc(1.0 / (15.8e-3 * 38e3), 1e9) }; }
      if (nrc == 2) { c.rp.push_back(sc(2.5e-3, 1e8)); c.it.push_back(sc(0.01, 1e9)); }
      if (c.k != "k") c.cap = sc(D(1), 1e3);
      if (a[0].size() > 1 && a[0].back() == 'p') { c.R = sc(D(3), 1e8); for (int q = 0; q < nrc; q++) { c.rp[q] = sc(D(4 + q), 1e8); c.it[q] = sc(D(4 + nrc + q), 1e9); } }
      cfg = { c };
    }
    if (a[0] == "b") return make_SU<Cell_Bucket>(id, D(1), D(2));
    if (a[0] == "e1") return make_SU<Cell_ECM<1>>(id, D(1), D(2));
    if (a[0] == "e2") return make_SU<Cell_ECM<2>>(id, D(1), D(2));
    if (a[0] == "e1p") return make_SU<Cell_ECM<1>>(id, D(1), D(2), D(3), std::array<double, 1>{ D(4) }, std::array<double, 1>{ D(5) });
    if (a[0] == "e2p") return make_SU<Cell_ECM<2>>(id, D(1), D(2), D(3), std::array<double, 2>{ D(4), D(5) }, std::array<double, 2>{ D(6), D(7) });
    if (a[0] == "b0p") return make_SU<Cell_Bucket>(id, D(1), D(2), D(3), std::array<double, 0>{}, std::array<double, 0>{});
    if (a[0] == "k") {
      DEG_ID d; if (a.size() > 5) d = deg(a[5]);
      auto c = make_SU<Cell_SPM>(id, d, a.size() > 1 ? D(1) : 1.0, a.size() > 2 ? D(2) : 1.0, a.size() > 3 ? D(3) : 1.0, a.size() > 4 ? D(4) : 1.0);
      return c;
    }
    if (a[0] == "K") { // exact Cell_SPM type (typeid matters for the procedures)
      DEG_ID d; if (a.size() > 5) d = deg(a[5]);
      return make_SU<Cell_SPM>(id, d, a.size() > 1 ? D(1) : 1.0, a.size() > 2 ? D(2) : 1.0, a.size() > 3 ? D(3) : 1.0, a.size() > 4 ? D(4) : 1.0);
    }
    throw std::runtime_error("leaf " + w);
  }
  Deep_ptr<StorageUnit> parse(bool top = true)
  {
    std::string w = word("(,;)");
    if (p >= t.size() || t[p] != '(') return leaf(w);
    p++; // (
    std::vector<Deep_ptr<StorageUnit>> ch;
    std::vector<Cfg> mine(1);
    if (t[p] != ')' && t[p] != ';')
      while (true) { ch.push_back(parse(false)); mine.insert(mine.end(), cfg.begin(), cfg.end()); if (t[p] == ',') { p++; continue; } break; }
    cfg = mine;
    std::map<std::string, std::string> o;
    while (t[p] == ';') { p++; auto kv = word(";)"); auto e = kv.find('='); o[kv.substr(0, e)] = kv.substr(e + 1); }
    p++; // )
    const std::string id = o.count("id") ? o["id"] : (w + std::to_string(cnt++));
    cfg[0].k = w; cfg[0].id = id;
    if (w == "B") {
      cfg[0].ns = o.count("ns") ? std::stoi(o["ns"]) : 1; cfg[0].np = o.count("np") ? std::stoi(o["np"]) : 1;
      auto bat = make<Battery>(id);
      bat->setSeriesandParallel(o.count("ns") ? std::stoi(o["ns"]) : 1, o.count("np") ? std::stoi(o["np"]) : 1);
      auto *m = dynamic_cast<Module *>(ch[0]->copy());
      bat->setModule(Deep_ptr<Module>(m));
      return bat;
    }
    size_t nc = 0; for (auto &c : ch) nc += c->getNcells();
    const int ctl = o.count("ctl") ? std::stoi(o["ctl"]) : 1;
    const std::string cool = o.count("cool") ? o["cool"] : (top ? "HVAC" : "cool");
    const int ct = cool == "HVAC" ? 1 : cool == "open" ? 2 : 0;
    const bool par = forcePar >= 0 ? forcePar : (o.count("par") && o["par"] == "1");
    cfg[0].rc.assign(ch.size(), 0);
    if (o.count("rc")) { size_t q = 0; for (auto &x : split(o["rc"], ',')) cfg[0].rc.at(q++) = sc(std::stod(x), 1e8); }
    const double T0 = o.count("T") ? std::stod(o["T"]) : settings::T_ENV;
    if (o.count("n")) nc = std::stoi(o["n"]);
    auto fin = [&](auto &&m) {
      m->setSUs(ch, true, true);
      if (o.count("rc")) { std::vector<double> rc; for (auto &x : split(o["rc"], ',')) rc.push_back(std::stod(x)); m->setRcontact(rc); }
    };
    if (w == "s") { auto m = make<Module_s>(id, T0, true, par, (int)nc, ctl, ct); fin(m); return m; }
    if (w == "p") { auto m = make<Module_p>(id, T0, true, par, (int)nc, ctl, ct); fin(m); return m; }
    throw std::runtime_error("module " + w);
  }
};
inline Deep_ptr<StorageUnit> build(const std::string &s, int forcePar = -1, std::string *cfg = nullptr)
{
  Parser q(s); q.forcePar = forcePar;
  auto r = q.parse();
  if (cfg) { *cfg = "["; for (size_t k = 0; k < q.cfg.size(); k++) { if (k) *cfg += ','; *cfg += q.cfg[k].str(); } *cfg += "]"; }
  return r;
}

inline Cell *asCell(StorageUnit *su) { return dynamic_cast<Cell *>(su); }
inline std::vector<StorageUnit *> children(StorageUnit *su)
{
  std::vector<StorageUnit *> v;
  if (auto b = dynamic_cast<Battery *>(su)) v.push_back(b->getCells());
  else if (auto m = dynamic_cast<Module *>(su)) for (auto &c : m->getSUs()) v.push_back(c.get());
  return v;
}
inline void leaves(StorageUnit *su, std::vector<Cell *> &v)
{
  if (auto c = asCell(su)) v.push_back(c);
  else for (auto *k : children(su)) leaves(k, v);
}
inline std::string kind(StorageUnit *su)
{
  if (dynamic_cast<Cell_SPM *>(su)) return "k";
  if (dynamic_cast<Cell_Bucket *>(su)) return "b";
  if (dynamic_cast<Cell_ECM<1> *>(su)) return "e1";
  if (dynamic_cast<Cell_ECM<2> *>(su)) return "e2";
  if (dynamic_cast<Module_s *>(su)) return "s";
  if (dynamic_cast<Module_p *>(su)) return "p";
  if (dynamic_cast<Battery *>(su)) return "B";
  return "?";
}
template <class F> double guarded(F &&f, double bad = -1) { try { return f(); } catch (...) { return bad; } }
inline std::vector<double> statesOf(StorageUnit *su) { std::vector<double> v; su->getStates(v); return v; }

// A second object of the same configuration whose only knowledge of the first is the state vector: no cached value can survive.
// Rebuilt through copy() and a state detour (set a different state, then the wanted one) so that cached values are dropped.
inline double freshV(StorageUnit *su)
{
  if (asCell(su)) {
    std::unique_ptr<StorageUnit> c(su->copy());
    auto s = statesOf(su);
    auto *cell = asCell(c.get());
    if (auto k = dynamic_cast<Cell_SPM *>(cell)) { State_SPM st; std::copy(s.begin(), s.begin() + st.size(), st.begin()); k->setStateObj(st); }
    return guarded([&] { return c->V(); });
  }
  return 0;
}
// the voltage a cell would have with another current, found on a copy
inline double trialV(Cell *cell, double I)
{
  std::unique_ptr<StorageUnit> c(cell->copy());
  if (auto k = dynamic_cast<Cell_SPM *>(c.get())) { auto st = k->getStateObj(); st.I() = I; k->setStateObj(st); }
  else c->setCurrent(I, false, false);
  return guarded([&] { return c->V(); });
}

struct NullBuf : std::streambuf { // discards everything, without a state that threads could fight over
  int overflow(int c) override { return c == EOF ? 0 : c; }
  std::streamsize xsputn(const char *, std::streamsize n) override { return n; }
};
struct Quiet { // the code under test prints a lot
  inline static NullBuf nb;
  std::streambuf *o, *e;
  Quiet() : o(std::cout.rdbuf(&nb)), e(std::cerr.rdbuf(&nb)) {}
  ~Quiet() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};

inline std::string nodeJ(StorageUnit *su, StorageUnit *expectParent, int par, int idx, const std::vector<int> &ch)
{
  J j;
  j.i("n", idx).i("up", par).t("k", kind(su)).t("id", su->getID()).t("full", su->getFullID());
  { std::vector<long long> c; for (int x : ch) c.push_back(x); j.ints("ch", c); }
  j.i("nc", (long long)su->getNcells());
  j.b("pok", su->getParent() == expectParent);
  { const double I = su->I(); j.i("I", sc(I, 1e5)).i("sg", I > 0 ? 1 : I < 0 ? -1 : 0); }
  j.i("V", sc(guarded([&] { return su->V(); }), 1e6));
  j.i("ocv", sc(guarded([&] { return su->getOCV(); }), 1e6)).i("r", sc(guarded([&] { return su->getRtot(); }), 1e8));
  j.i("cap", sc(su->Cap(), 1e3));
  j.i("vmin", sc(su->Vmin(), 1e4)).i("vmax", sc(su->Vmax(), 1e4)).i("VMIN", sc(su->VMIN(), 1e4)).i("VMAX", sc(su->VMAX(), 1e4));
  j.i("vh", sc(guarded([&] { return su->getVhigh(); }), 1e6)).i("vl", sc(guarded([&] { return su->getVlow(); }), 1e6));
  j.i("T", sc(su->T(), 1e3)).i("hot", sc(su->getThotSpot(), 1e3));
  { double v = 0; const auto s = su->checkVoltage(v, false); j.i("chk", (int)s).i("chkv", sc(v, 1e6)); }
  j.t("h", hashD(statesOf(su)));
  if (auto c = asCell(su)) {
    auto th = c->getThroughputs();
    j.i("fv", sc(freshV(su), 1e6));
    j.i("soc", sc(c->SOC(), 1e9)).i("tm", sc(th.time(), 1e3)).i("ah", sc(th.Ah(), 1e7)).i("wh", sc(th.Wh(), 1e6));
    std::vector<long long> ir;
    if (auto e = dynamic_cast<Cell_ECM<1> *>(c)) ir = { sc(e->getStateObj().Ir(0), 1e5) };
    if (auto e = dynamic_cast<Cell_ECM<2> *>(c)) ir = { sc(e->getStateObj().Ir(0), 1e5), sc(e->getStateObj().Ir(1), 1e5) };
    j.ints("ir", ir);
  }
  return j.str();
}
inline int snapRec(StorageUnit *su, StorageUnit *expectParent, int par, std::vector<std::string> &out)
{
  const int idx = (int)out.size() + 1;
  out.emplace_back();
  std::vector<int> ch;
  for (auto *c : children(su)) ch.push_back(snapRec(c, su, idx, out));
  out[idx - 1] = nodeJ(su, expectParent, par, idx, ch);
  return idx;
}
inline std::string snap(StorageUnit *su, StorageUnit *expectParent = nullptr)
{
  std::vector<std::string> out;
  { Quiet q; snapRec(su, expectParent, 0, out); }
  std::string s = "[";
  for (size_t i = 0; i < out.size(); i++) { if (i) s += ','; s += out[i]; }
  return s + "]";
}
} // namespace vh
