// Drives a tree of storage units through its public interface, one command per input line, and records one event per command
// (arguments, returned status or exception, and the complete state of the tree afterwards) as a line of JSON.
#include "common.hpp"
using namespace vh;

struct Slot { Deep_ptr<StorageUnit> su; std::string desc; };
static std::map<int, Slot> slots;
static int cur = 0;
static StorageUnit *root() { return slots.at(cur).su.get(); }
static void pre(StorageUnit *su, std::vector<StorageUnit *> &v) { v.push_back(su); for (auto *c : children(su)) pre(c, v); }
static StorageUnit *node(int n) { std::vector<StorageUnit *> v; pre(root(), v); return v.at((n - 1) % v.size()); }
static int nodeNo(int n) { std::vector<StorageUnit *> v; pre(root(), v); return (n - 1) % (int)v.size() + 1; }

// the cells below su that all carry its current (a string of cells in series)
static void seriesLeaves(StorageUnit *su, std::vector<Cell *> &v, bool &pure)
{
  if (auto c = asCell(su)) { v.push_back(c); return; }
  if (dynamic_cast<Module_s *>(su)) { for (auto *k : children(su)) seriesLeaves(k, v, pure); return; }
  pure = false;
}
// first cell below su and the factor between su's current and the cell's
static Cell *firstCell(StorageUnit *su) { while (!asCell(su)) { auto c = children(su); if (c.empty()) return nullptr; su = c[0]; } return asCell(su); }

// where the states of each cell begin in the state vector of su
static void offsets(StorageUnit *su, std::vector<int> &at, int &pos)
{
  if (asCell(su)) { at.push_back(pos); pos += (int)statesOf(su).size(); return; }
  for (auto *k : children(su)) offsets(k, at, pos);
  pos++; // its own temperature comes last
}
static std::map<int, std::map<int, std::vector<double>>> saved; // per tree
static long long seq = 0;

static J exec(const std::string &line, int &st, int &exc, long long &excv)
{
  std::istringstream is(line);
  std::string op; is >> op;
  J j; st = 99; exc = 0; excv = 0; // 99: the operation has no status
  auto run = [&](auto &&f) { Quiet q; try { f(); } catch (int e) { exc = 1; excv = e; } catch (const std::exception &) { exc = 2; } catch (...) { exc = 3; } };
  j.i("seq", seq).t("op", op == "aimI" ? "setI" : op == "aimV" ? "setV" : op == "loadx" ? "load" : op);
  int n = 1;
  if (op == "setI" || op == "aimI") {
    double I; int chk;
    if (op == "aimI") { // the current at which the first cell of the unit comes off mV above/below one of its limits (m M: operating, l L: safety)
      char t; double off; is >> n >> t >> off >> chk;
      auto *c = firstCell(node(n));
      const double tgt = (t == 'm' ? c->Vmin() : t == 'M' ? c->Vmax() : t == 'l' ? c->VMIN() : c->VMAX()) + off * 1e-3;
      Quiet q; const double v0 = trialV(c, 0), r = c->getRtot();
      I = (v0 - tgt) / r;
      for (int k = 0; k < 3; k++) { const double v = trialV(c, I); if (v > 0) I += (v - tgt) / r; }
      if (!std::isfinite(I)) I = 0;
      I = std::round(I * 1e5) / 1e5;
      if (std::abs(I) > 1e4) I = I > 0 ? 1e4 : -1e4;
    } else is >> n >> I >> chk;
    auto *su = node(n);
    std::vector<Cell *> lv; bool pure = true; seriesLeaves(su, lv, pure);
    std::string tv = "[";
    if (pure) for (size_t k = 0; k < lv.size(); k++) { Quiet q; if (k) tv += ','; tv += std::to_string(sc(trialV(lv[k], I), 1e6)); }
    tv += "]";
    run([&] { st = (int)su->setCurrent(I, chk, false); });
    j.i("n", nodeNo(n)).i("x", sc(I, 1e5)).i("chk", chk).b("pure", pure).raw("tv", tv);
  }
  else if (op == "setV" || op == "aimV") {
    double V; int chk; 
    if (op == "aimV") { double off; is >> n >> off >> chk; Quiet q; V = guarded([&] { return node(n)->getOCV(); }) + off * 1e-3; }
    else is >> n >> V >> chk;
    auto *su = node(n);
    double ocv = 0, r = 0; { Quiet q; ocv = guarded([&] { return su->getOCV(); }); r = su->getRtot(); }
    run([&] { st = (int)su->setVoltage(V, chk, false); });
    j.i("n", nodeNo(n)).i("x", sc(V, 1e6)).i("chk", chk).i("ocv", sc(ocv, 1e6)).i("r", sc(r, 1e8));
  }
  else if (op == "setSOC") {
    double s; int chk; is >> n >> s >> chk;
    auto *c = asCell(node(n)); if (!c) { c = firstCell(node(n)); std::vector<StorageUnit *> v; pre(root(), v); for (size_t q = 0; q < v.size(); q++) if (v[q] == c) n = (int)q + 1; }
    long long tv = 0; { Quiet q; std::unique_ptr<StorageUnit> cc(c->copy()); asCell(cc.get())->setSOC(s, false, false); tv = sc(guarded([&] { return cc->V(); }), 1e6); }
    run([&] { st = (int)c->setSOC(s, chk, false); });
    j.i("n", nodeNo(n)).i("x", sc(s, 1e9)).i("chk", chk).i("tv", tv).b("spm", dynamic_cast<Cell_SPM *>(c) != nullptr);
  }
  else if (op == "setT") {
    double T; is >> n >> T;
    run([&] { node(n)->setT(T); });
    j.i("n", nodeNo(n)).i("x", sc(T, 1e3));
  }
  else if (op == "step") {
    double dt; int k; is >> n >> dt >> k;
    run([&] { node(n)->timeStep_CC(dt, k); });
    j.i("n", nodeNo(n)).i("x", sc(dt, 1e3)).i("k", k);
  }
  else if (op == "save") {
    int s; is >> n >> s;
    auto &v = saved[cur][s];
    v.clear(); bool pref = true;
    run([&] { std::vector<double> w{ 7.5 }; node(n)->getStates(w); pref = w.at(0) == 7.5; v.assign(w.begin() + 1, w.end()); }); // appends, keeps what was there
    j.i("n", nodeNo(n)).i("slot", s).i("len", (long long)v.size()).t("hash", hashD(v)).b("pref", pref);
  }
  else if (op == "load" || op == "loadx") { // loadx: with one entry of the vector overwritten
    int s, chk; is >> n >> s >> chk;
    if (!saved[cur].count(s)) saved[cur][s] = statesOf(node(n));
    auto v = saved[cur].at(s);
    int idx = -1; double val = 0;
    if (op == "loadx") { // entry "cell.field"
      std::string a; is >> a >> val;
      const int leaf = std::stoi(a.substr(0, a.find('.'))), field = std::stoi(a.substr(a.find('.') + 1));
      std::vector<int> at; int pos = 0; offsets(node(n), at, pos);
      idx = at.at(leaf % at.size()) + field;
      if (idx < 0 || idx >= (int)v.size()) { std::cerr << "bad entry " << line << "\n"; std::exit(3); }
      v[idx] = val;
    }
    const size_t need = statesOf(node(n)).size();
    if (v.size() != need) { v = statesOf(node(n)); idx = -1; }
    std::vector<Cell *> lv; leaves(node(n), lv);
    bool okv = true; // every cell of the vector within its limits
    { std::vector<int> at; int pos = 0; offsets(node(n), at, pos);
      for (size_t q = 0; q < at.size(); q++) if (!dynamic_cast<Cell_SPM *>(lv[q])) okv = okv && v[at[q]] >= 273.15 && v[at[q]] <= 333.15 && v[at[q] + 1] >= 0 && v[at[q] + 1] <= 1; }
    v.push_back(12345.0); // must remain unconsumed
    std::span<double> sp(v.data(), v.size());
    run([&] { st = (int)node(n)->setStates(sp, chk, false); });
    j.i("n", nodeNo(n)).i("slot", s).i("chk", chk).i("idx", idx).i("x", sc(val, 1e3)).i("left", (long long)sp.size()).b("okv", okv).i("len", (long long)v.size() - 1);
    v.pop_back(); j.t("hash", hashD(v));
  }
  else if (op == "copy") { // copy the whole current tree into a slot
    int s; is >> s;
    run([&] { Slot x; x.desc = slots.at(cur).desc; x.su = Deep_ptr<StorageUnit>(root()->copy()); slots[s] = std::move(x); saved[s] = saved[cur]; });
    j.i("slot", s);
  }
  else if (op == "use") { int s; is >> s; if (slots.count(s)) cur = s; j.i("slot", cur); }
  else if (op == "drop") { // destroy another tree
    int s; is >> s;
    if (s != cur && slots.count(s)) { slots.erase(s); saved.erase(s); }
    j.i("slot", s);
  }
  else if (op == "steal") { // another module may not take units which have a parent
    is >> n;
    auto *su = node(n);
    long long k = 0; bool took = false;
    { std::unique_ptr<StorageUnit> c(root()->copy());
      std::vector<StorageUnit *> v; pre(c.get(), v);
      auto *t = v.at((n - 1) % v.size());
      const std::string h0 = hashD(statesOf(c.get()));
      if (auto *m = dynamic_cast<Module *>(t)) {
        Module_s other("thief", settings::T_ENV, true, false, 1, 1, 0);
        k = (long long)m->getNSUs();
        run([&] { other.setSUs(m->getSUs(), true, false); });
        took = other.getNSUs() != 0;
        if (took) exc = 99;
        else if (hashD(statesOf(c.get())) != h0) took = true;
      } }
    (void)su;
    j.i("n", nodeNo(n)).i("kids", k).b("took", took);
  }
  else if (op == "block") { // degradation and thermal model of everything below the root
    int d; is >> d;
    run([&] { root()->setBlockDegAndTherm(d); });
    j.i("x", d);
  }
  else if (op == "nop") {}
  else { std::cerr << "bad command " << line << "\n"; std::exit(3); }
  j.i("st", st).i("exc", exc).i("excv", excv);
  return j;
}
static std::string hashes() { std::vector<StorageUnit *> v; pre(root(), v); std::vector<double> d; std::string s; for (auto *u : v) { Quiet q; s += hashD(statesOf(u)).substr(0, 8); d.push_back(guarded([&] { return u->V(); })); } return s + hashD(d); }

int main(int argc, char **argv)
{
  std::ios::sync_with_stdio(false);
  const bool twin = argc > 1 && std::string(argv[1]) == "twin"; // every command also goes to an identical tree without threads
  std::string line;
  std::ostream out(std::cout.rdbuf());
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == '#') continue;
    ++seq;
    std::istringstream is(line);
    std::string op; is >> op;
    int st, exc; long long excv; J j;
    if (op == "build") {
      std::string d, cfg; is >> d;
      Quiet q;
      slots.clear(); cur = 0; saved.clear();
      j.i("seq", seq).t("op", op);
      try {
        slots[0] = { build(d, twin ? 1 : -1, &cfg), d };
        if (twin) slots[1000] = { build(d, 0), d };
      } catch (...) { std::cerr << "build failed " << d << "\n"; return 3; }
      j.t("desc", d).raw("cfg", cfg).i("st", 99).i("exc", 0).i("excv", 0);
      st = 99; exc = 0;
    }
    else {
      if (twin && (op == "copy" || op == "use" || op == "drop")) line = "nop";
      j = exec(line, st, exc, excv);
    }
    if (twin) {
      const std::string h1 = hashes();
      int st2 = st, exc2 = exc; long long e2;
      cur = 1000;
      if (op != "build") exec(line, st2, exc2, e2);
      const std::string h2 = hashes();
      cur = 0;
      j.i("tst", st2).i("texc", exc2).t("h1", h1).t("h2", h2);
    }
    j.i("slotno", cur).b("obs", true);
    j.raw("sn", snap(root()));
    // every tree that exists: only a fingerprint
    std::string ob = "["; bool f = true;
    { Quiet q; for (auto &[k, s] : slots) { auto sn = snap(s.su.get()); uint64_t h = std::hash<std::string>{}(sn); char b[80]; std::snprintf(b, 80, "{\"s\":%d,\"h\":\"%016llx\"}", k, (unsigned long long)h); if (!f) ob += ','; f = false; ob += b; } }
    j.raw("all", ob + "]");
    out << j.str() << "\n";
  }
  return 0;
}
