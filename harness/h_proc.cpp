#include <functional>
// Degradation procedures (ageing cycles, balancing, check-ups) and the files they write, on units which record how they are used.
// Built with the paths of the project relative to the working directory, which is a scratch directory removed at the end.
#include "common.hpp"
#include <filesystem>
#include <unistd.h>
using namespace vh;
namespace fs = std::filesystem;
using V = std::vector<double>;
static std::string scratch;
static void cleanup() { if (!scratch.empty()) { chdir("/"); std::error_code ec; fs::remove_all(scratch, ec); } }
static std::vector<long long> scs(const V &v, double s) { std::vector<long long> r; for (double x : v) r.push_back(sc(x, s)); return r; }

// ---------------------------------------------------------------- what is in the files
static std::vector<std::vector<std::string>> rowsOf(const fs::path &f)
{ std::vector<std::vector<std::string>> r; std::ifstream in(f); std::string l; while (std::getline(in, l)) { while (!l.empty() && (l.back() == '\r')) l.pop_back(); r.push_back(Parser::split(l, ',')); } return r; }
static double num(const std::string &s) { try { size_t k; double d = std::stod(s, &k); while (k < s.size() && s[k] == ' ') k++; return k == s.size() ? d : NAN; } catch (...) { return NAN; } }
static fs::path res(const std::string &n) { return fs::path("results") / n; }
static std::string full; // of the unit
static long long count(const std::string &suffix, const std::string &start)
{ long long n = 0; std::ifstream in(res(full + suffix)); std::string l; while (std::getline(in, l)) if (l.rfind(start, 0) == 0) n++; return n; }
static long long dataRows(const std::string &suffix)
{ long long n = 0; std::ifstream in(res(full + suffix)); std::string l; while (std::getline(in, l)) if (!l.empty() && (std::isdigit(l[0]) || l[0] == '-')) n++; return n; }

// ---------------------------------------------------------------- a unit which records how it is used
struct Log {
  std::ostream *out = nullptr; bool on = false, rows = false; int depth = 0;
  double t = 0, ah = 0, wh = 0, q = 0, vend = 0, iend = 0; long long steps = 0; double loss = 0;
  StorageUnit *su = nullptr;
  std::string lastKey; bool pending = false; J pend;
  void leavesJ(J &j)
  {
    std::vector<Cell *> v; leaves(su, v); double lo = 1e9, hi = -1e9, im = 0; bool safe = true, any = false;
    for (auto *c : v) if (dynamic_cast<Cell_SPM *>(c)) { any = true; const double x = guarded([&] { return c->V(); }); lo = std::min(lo, x); hi = std::max(hi, x); im = std::max(im, std::abs(c->I())); }
    bool up = false, dn = false; for (auto *c : v) { const double x = guarded([&] { return c->V(); }); up |= x >= c->Vmax(); dn |= x <= c->Vmin(); }
    j.b("any", any).i("lo", any ? sc(lo, 1e6) : 0).i("hi", any ? sc(hi, 1e6) : 0).i("im", sc(im, 1e6)).b("up", up).b("dn", dn);
  }
  // closes what happened since the last event and begins the next
  void event(const std::string &o, double v, const std::string &s = "")
  {
    if (!on) return;
    const std::string key = o + ":" + std::to_string(v) + ":" + s;
    if ((o == "I" || o == "V") && key == lastKey) return; // the same again
    flush();
    lastKey = key; pending = true; pend = J(); pend.t("op", "p").t("o", o).i("v", sc(v, 1e5)).t("s", s);
    Quiet q;
    pend.i("V0", sc(guarded([&] { return su->V(); }), 1e6)).i("I0", sc(su->I(), 1e5)); leavesJ(pend);
    pend.i("cu", count("_checkUp.csv", "ID,var_cap")).i("thr", dataRows("_throughput.csv")).i("sf", fs::exists(res(full + "_state.csv")) ? (long long)num(rowsOf(res(full + "_state.csv")).at(0).at(0)) : -1);
  }
  void flush()
  {
    if (!pending) return;
    Quiet qq;
    pend.i("t", sc(t, 1e3)).i("ah", sc(ah, 1e6)).i("wh", sc(wh, 1e5)).i("n", steps).i("V1", sc(guarded([&] { return su->V(); }), 1e6)).i("I1", sc(iend, 1e5)).i("ls", sc(loss, 1e6));
    { bool up = false, dn = false; std::vector<Cell *> v; leaves(su, v); for (auto *c : v) { const double x = guarded([&] { return c->V(); }); up |= x >= c->Vmax(); dn |= x <= c->Vmin(); } pend.b("up1", up).b("dn1", dn); double vv = 0; pend.i("vs", (int)su->checkVoltage(vv, false)); }
    *out << pend.str() << "\n"; pending = false; lastKey.clear(); t = ah = wh = loss = 0; steps = 0;
  }
};
static Log L;
struct Guard { Guard() { L.depth++; } ~Guard() { L.depth--; } };
struct Point { std::vector<long long> r; };
static std::string pointsJ(StorageUnit *su)
{
  std::vector<Cell *> v; leaves(su, v); std::string s = "[";
  for (size_t k = 0; k < v.size(); k++) { auto th = v[k]->getThroughputs(); std::vector<long long> r = scs({ v[k]->I(), guarded([&] { return v[k]->V(); }), v[k]->SOC(), v[k]->T() }, 1e6); r[3] = sc(v[k]->T(), 1e4); r.push_back(sc(th.time(), 1e2)); r.push_back(sc(th.Ah(), 1e5)); r.push_back(sc(th.Wh(), 1e5)); J j; j.ints("r", r); s += (k ? "," : "") + j.str().substr(5, j.str().size() - 6); }
  return s + "]";
}
template <class B> struct Probe : B {
  explicit Probe(const B &b) : B(b) {}
  Status setCurrent(double I, bool c = true, bool p = true) override { if (!L.depth) L.event("I", I); Guard g; return B::setCurrent(I, c, p); }
  Status setVoltage(double v, bool c = true, bool p = true) override { if (!L.depth) L.event("V", v); Guard g; return B::setVoltage(v, c, p); }
  void timeStep_CC(double dt, int n = 1) override
  {
    const bool top = !L.depth; Guard g; double I = 0; if (top) I = this->I();
    B::timeStep_CC(dt, n);
    if (top) { L.t += dt * n; L.steps += n; L.ah += std::abs(I) * dt * n / 3600; { Quiet q; L.wh += std::abs(I) * dt * n / 3600 * guarded([&] { return this->V(); }, 0); } L.iend = I; }
  }
  void setBlockDegAndTherm(bool b) override { if (!L.depth) L.event("b", b); Guard g; B::setBlockDegAndTherm(b); }
  void storeData() override
  {
    if (!L.depth && L.rows) { Quiet q; J j; j.t("op", "st").raw("pt", pointsJ(this)); *L.out << j.str() << "\n"; }
    Guard g; B::storeData();
  }
  void writeData(const std::string &p) override
  {
    if (!L.depth && L.rows) { J j; j.t("op", "wr").t("pre", p); *L.out << j.str() << "\n"; }
    if (!L.depth) L.event("w", 0, p); Guard g; B::writeData(p);
  }
};
template <class B> static StorageUnit *tryProbe(StorageUnit *u) { if (typeid(*u) != typeid(B)) return nullptr; return new Probe<B>(*static_cast<B *>(u)); }
static std::unique_ptr<StorageUnit> probe(StorageUnit *u)
{
  StorageUnit *p = nullptr;
  if (!p) p = tryProbe<Module_s>(u); if (!p) p = tryProbe<Module_p>(u); if (!p) p = tryProbe<Battery>(u); if (!p) p = tryProbe<Cell_Bucket>(u);
  if (!p) p = tryProbe<Cell_ECM<1>>(u); if (!p) p = tryProbe<Cell_ECM<2>>(u); if (!p) p = tryProbe<Cell_SPM>(u);
  if (!p) throw std::runtime_error("probe");
  for (auto *c : children(p)) c->setParent(p);
  return std::unique_ptr<StorageUnit>(p);
}
struct Access : StorageUnit { static bool blocked(StorageUnit *u) { return u->*(&Access::blockDegAndTherm); } };
static void allBlocked(StorageUnit *u, bool &any) { any |= Access::blocked(u); for (auto *c : children(u)) allBlocked(c, any); }

static V ageing(Cell *c)
{
  V r; if (auto k = dynamic_cast<Cell_SPM *>(c)) { auto &s = k->getStateObj(); r = { s.delta(), s.LLI(), s.thickp(), s.thickn(), s.ep(), s.en(), s.ap(), s.an(), s.CS(), s.Dp(), s.Dn(), s.delta_pl(), s.rDCp(), s.rDCn(), s.rDCcc() }; }
  return r;
}
static std::string leafJ(StorageUnit *su)
{
  std::vector<Cell *> v; leaves(su, v); std::string s = "[";
  for (size_t k = 0; k < v.size(); k++) {
    auto *c = v[k]; auto th = c->getThroughputs(); J j;
    j.t("k", kind(c)).t("id", c->getFullID()).i("V", sc(guarded([&] { return c->V(); }), 1e6)).i("I", sc(c->I(), 1e6)).i("T", sc(c->T(), 1e4)).i("soc", sc(c->SOC(), 1e6)).i("cap", sc(c->Cap(), 1e5)).t("age", hashD(ageing(c))).t("h", hashD(statesOf(c)));
    { auto s2 = V(c->viewStates().begin(), c->viewStates().end()); j.i("ns", (long long)s2.size()); }
    j.i("tm", sc(th.time(), 1e2)).i("ah", sc(th.Ah(), 1e5)).i("wh", sc(th.Wh(), 1e5)).i("vmin", sc(c->Vmin(), 1e6)).i("vmax", sc(c->Vmax(), 1e6));
    s += (k ? "," : "") + j.str();
  }
  return s + "]";
}
static void modsRec(StorageUnit *su, std::string &s)
{
  auto add = [&](auto *u) { J j; j.t("id", u->getFullID()).i("n", (long long)u->getNcells()).i("tm", sc(u->getCoolSystem()->getTotalTime(), 1)).i("ev", sc(u->getCoolSystem()->getHeatEvac(), 1)).i("ab", sc(u->getCoolSystem()->getHeatabsorbed(), 1)); s += (s.size() > 1 ? "," : "") + j.str(); };
  if (auto b = dynamic_cast<Battery *>(su)) add(b); else if (auto m = dynamic_cast<Module *>(su)) add(m); else return;
  for (auto *c : children(su)) modsRec(c, s);
}
static std::string modFile()
{
  std::string s = "["; auto r = rowsOf(res(full + "_checkModules_overall.csv"));
  for (size_t k = 1; k < r.size(); k++) { if (r[k].size() != 5) { s += (k > 1 ? "," : "") + J().t("id", "?").str(); continue; } J j; j.t("id", r[k][0]).i("n", sc(num(r[k][1]), 1)).i("tm", sc(num(r[k][2]), 1)).i("ev", sc(num(r[k][3]), 1)).i("ab", sc(num(r[k][4]), 1)); s += (k > 1 ? "," : "") + j.str(); }
  return s + "]";
}
// rows of the check-up file, from block b0 on
static std::string cuFile(long long b0)
{
  std::string s = "["; long long b = 0; auto r = rowsOf(res(full + "_checkUp.csv"));
  for (auto &x : r) {
    if (x.empty() || (x.size() == 1 && x[0].empty())) continue;
    if (x[0] == "ID") { b++; continue; }
    if (b <= b0) continue;
    J j; j.i("b", b).t("id", x[0]);
    V f; for (size_t k = 1; k < x.size(); k++) f.push_back(num(x[k])); while (f.size() < 10) f.push_back(NAN);
    j.ints("var", scs({ f[0], f[1], f[2], f[3] }, 1e5)).i("Ah", sc(f[4], 1e5)).i("nr", sc(f[5], 1)).i("tm", sc(f[6], 1e2)).i("ah", sc(f[7], 1e5)).i("wh", sc(f[8], 1e5)).i("cap", sc(f[9], 1e5)).ints("st", scs(V(f.begin() + 10, f.end()), 1e5));
    s += (s.size() > 1 ? "," : "") + j.str();
  }
  return s + "]";
}
// what a check-up of the unit must find: one entry per cell
static std::string wantCu(StorageUnit *ref)
{
  std::string s = "["; std::vector<Cell *> v; leaves(ref, v);
  for (auto *c : v) {
    auto var = c->getVariations(); auto th = c->getThroughputs(); V st(c->viewStates().begin(), c->viewStates().end());
    std::unique_ptr<StorageUnit> cp(c->copy()); ThroughputData t0{}; const double cap = Cycler(cp.get()).testCapacity();
    J j; j.t("id", c->getFullID()).ints("var", scs({ var[0], var[1], var[2], var[3] }, 1e5)).i("tm", sc(th.time(), 1e2)).i("ah", sc(th.Ah(), 1e5)).i("wh", sc(th.Wh(), 1e5)).i("cap", sc(cap, 1e5));
    if (typeid(*c) == typeid(Cell_SPM)) st.erase(st.begin(), st.begin() + 2 * settings::nch);
    j.ints("st", scs(st, 1e5)); s += (s.size() > 1 ? "," : "") + j.str();
  }
  return s + "]";
}
static std::string thrFile()
{
  std::string s = "["; bool head = true; auto r = rowsOf(res(full + "_throughput.csv"));
  for (auto &x : r) { if (head) { head = false; continue; } V f; for (auto &y : x) f.push_back(num(y)); while (f.size() < 4) f.push_back(NAN); J j; j.i("ah", sc(f[0], 1e6)).i("wh", sc(f[1], 1e5)).i("cl", sc(f[2], 1e4)).i("cv", sc(f[3], 1e4)).i("k", (long long)x.size()); s += (s.size() > 1 ? "," : "") + j.str(); }
  return s + "]";
}

int main(int argc, char **argv)
{
  std::ios::sync_with_stdio(false);
  char tmpl[] = "/tmp/vproc.XXXXXX"; scratch = mkdtemp(tmpl); std::atexit(cleanup);
  chdir(scratch.c_str()); fs::create_directory_symlink(argc > 1 ? argv[1] : "/repo/data", "data");
  std::string line; std::ostream out(std::cout.rdbuf()); L.out = &out;
  std::unique_ptr<StorageUnit> su; std::string prefix;
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line); std::string op; is >> op;
    Quiet quiet; J j; j.t("op", op);
    if (op == "build") { // an empty folder of results, and a unit
      std::string d, how; is >> d >> how; { std::error_code ec; fs::remove_all("results", ec); fs::create_directories("results"); }
      L = Log(); L.out = &out;
      { auto u = build(d); if (how == "plain") su.reset(u->copy()); else su = probe(u.operator->()); } L.su = su.get(); full = su->getFullID();
      j.t("d", d).t("k", kind(su.get())).raw("u", leafJ(su.get())).i("cap", sc(su->Cap(), 1e5)).i("vmin", sc(su->Vmin(), 1e6)).i("vmax", sc(su->Vmax(), 1e6)).i("nmax", (long long)settings::CELL_NDATA_MAX).t("full", full);
    } else if (op == "setI") { double I; is >> I; j.i("v", sc(I, 1e5)); const auto s = su->setCurrent(I * su->Cap(), true, false); j.i("st", (int)s);
    } else if (op == "run") { // some seconds at the present current
      double dt; int n; is >> dt >> n; int ex = 0; try { for (int k = 0; k < n; k++) { su->setCurrent(su->I(), false, false); su->timeStep_CC(dt); } } catch (int e) { ex = e; } catch (...) { ex = -1; } j.i("exc", ex).raw("u", leafJ(su.get()));
    } else if (op == "soc") { // the cells to different states of charge: cell k by steps of -1C
      int k; double s; is >> k >> s; std::vector<Cell *> v; leaves(su.get(), v); auto *c = v.at(k % v.size()); int ex = 0;
      try { c->setCurrent(c->Cap() * (s > 0 ? 1 : -1), false, false); for (int q = 0; q < std::abs(s); q++) { c->timeStep_CC(1, 1); double x; if (c->checkVoltage(x, false) != Status::Success) break; } c->setCurrent(0, false, false); } catch (...) { ex = -1; }
      j.i("exc", ex); { const auto st = su->setCurrent(0, false, false); j.i("st", (int)st); }
    } else if (op == "bal") { // balancing (and check-up) as an ageing procedure does it
      int bal, chk, nr, ut; double Vb, Ah; is >> Vb >> bal >> chk >> Ah >> nr >> ut;
      j.i("vb", sc(Vb, 1e6)).b("bal", bal).b("chk", chk).i("Ah", sc(Ah, 1e5)).i("nr", nr).b("ut", ut).raw("u0", leafJ(su.get()));
      const V s0 = statesOf(su.get()); bool blk = false; int ex = 0; Procedure p(bal, Vb, 0, ut); const long long cu0 = count("_checkUp.csv", "ID,var_cap"), th0 = count("_throughput.csv", "ID number");
      { std::error_code ec; fs::remove(res(full + "_state.csv"), ec); }
      std::unique_ptr<StorageUnit> ref(su->copy()); const bool same = hashD(statesOf(ref.get())) == hashD(s0);
      try { p.balanceCheckup(su.get(), bal, chk, Ah, nr, "aging"); } catch (int e) { ex = e; } catch (...) { ex = -1; }
      allBlocked(su.get(), blk);
      V sf; { auto r = rowsOf(res(full + "_state.csv")); for (auto &x : r) if (!x.empty() && !(x.size() == 1 && x[0].empty())) sf.push_back(num(x[0])); }
      bool st = sf.size() == s0.size() + 1 && sf[0] == nr; for (size_t k = 0; st && k < s0.size(); k++) st = std::abs(sf[k + 1] - s0[k]) <= 1e-5 * std::abs(s0[k]) + 1e-30;
      j.b("same", same).i("exc", ex).b("blk", blk).b("sf", st).b("sfile", fs::exists(res(full + "_state.csv"))).raw("u1", leafJ(su.get())).i("I1", sc(su->I(), 1e6)).i("cu", count("_checkUp.csv", "ID,var_cap") - cu0).i("th", count("_throughput.csv", "ID number"));
    } else if (op == "checkup") { // a check-up on its own; the same preparation on a copy of the unit tells what it must find
      double Ah; int nr; is >> Ah >> nr; int ex = 0, ex2 = 0; const long long b0 = count("_checkUp.csv", "ID,var_cap");
      const double cap = su->Cap(), vm = su->Vmax(), vn = su->Vmin();
      std::unique_ptr<StorageUnit> ref(su->copy()); ThroughputData th{};
      try { Cycler(ref.get(), "x").setDiagnostic(true).CC(-cap / 25.0, 0.75 * vm + 0.25 * vn, TIME_INF, 2, 0, th); } catch (...) { ex2 = -1; }
      std::string want = wantCu(ref.get());
      Procedure p(true, 3.65, 0, true); try { p.checkUp(su.get(), Ah, nr); } catch (int e) { ex = e; } catch (...) { ex = -1; }
      j.i("Ah", sc(Ah, 1e5)).i("nr", nr).i("exc", ex).i("exr", ex2).b("same", hashD(statesOf(su.get())) == hashD(statesOf(ref.get()))).i("b0", b0).i("b1", count("_checkUp.csv", "ID,var_cap")).raw("want", want).raw("got", cuFile(b0)).i("V", sc(guarded([&] { return su->V(); }), 1e6)).i("prep", sc(0.75 * vm + 0.25 * vn, 1e6));
    } else if (op == "mods") {
      Procedure p(true, 3.65, 0, true); std::string w = "["; modsRec(su.get(), w); p.checkMod(su.get()); j.raw("want", w + "]").raw("got", modFile());
    } else if (op == "cycle" || op == "use" || op == "cyc15") { // ageing procedures, step by step
      int N = 20, Nc = 10, Nb = 7, cv = 0, nd = 0, bal = 1, ut = 1; double cc = 1, cd = 1, vmax = 1, vmin = 0, vb = 3.65;
      if (op == "cycle") is >> N >> Nc >> Nb >> cv >> cc >> cd >> vmin >> vmax >> nd >> bal >> vb >> ut; else is >> nd >> bal >> vb >> ut;
      if (op == "cyc15") { is >> cv; N = 15; Nc = 250; Nb = 10; }
      const double lo = su->Vmin(), hi = su->Vmax(), Vm = op == "cycle" ? lo + vmax * (hi - lo) : hi, Vn = op == "cycle" ? lo + vmin * (hi - lo) : lo;
      j.i("N", N).i("Nc", Nc).i("Nb", Nb).b("cv", cv).i("Ic", sc(-cc * su->Cap(), 1e5)).i("Id", sc(cd * su->Cap(), 1e5)).i("cap", sc(su->Cap(), 1e5)).i("Vmax", sc(Vm, 1e6)).i("Vmin", sc(Vn, 1e6)).i("prep", sc(0.75 * hi + 0.25 * lo, 1e6)).b("bal", bal).i("vb", sc(vb, 1e6)).b("ut", ut).i("nd", nd);
      double P0 = 0; // cooling power of a system which is always on
      { std::error_code ec; fs::remove_all("results", ec); fs::create_directories("results"); }
      std::function<double(StorageUnit *)> load = [&load](StorageUnit *u) { // energy for cooling since the last time, of every system in the unit
        double e = 0; auto take = [&e](CoolSystem *k) { if (k) { e += k->getEoperation(); k->reset_Eoperation(); } };
        if (auto m = dynamic_cast<Module *>(u)) { take(m->getCoolSystem()); for (auto &q : m->getSUs()) e += load(q.get()); }
        else if (auto b = dynamic_cast<Battery *>(u)) { take(b->getCoolSystem()); e += load(b->getCells()); }
        return e;
      };
      auto loss = [](StorageUnit *u) { if (auto b = dynamic_cast<Battery *>(u)) return b->getAndResetConvLosses(); return 0.0; };
      { std::unique_ptr<StorageUnit> c(su->copy()); load(c.get()); try { c->setCurrent(0, false, false); for (int k = 0; k < 40; k++) c->timeStep_CC(1, 10); load(c.get()); for (int k = 0; k < 40; k++) c->timeStep_CC(1, 10); P0 = load(c.get()) / 400; } catch (...) {} }
      load(su.get()); loss(su.get()); const double tot0 = [&] { auto b = dynamic_cast<Battery *>(su.get()); return b ? b->getConvLosses_total() : 0.0; }();
      j.i("P0", sc(P0, 1e5)).t("full", full).raw("u0", leafJ(su.get())); out << j.str() << "\n" << std::flush;
      L.on = true; L.t = L.ah = L.wh = 0; L.steps = 0; int ex = 0; Procedure p(bal, vb, nd, ut);
      try { if (op == "cycle") p.cycleAge(su.get(), N, Nc, Nb, cv, cc, cd, Vm, Vn); else if (op == "cyc15") p.cycleAge(su.get(), cv); else p.useCaseAge(su.get(), 0); } catch (int e) { ex = e; } catch (...) { ex = -1; }
      L.event("end", 0); L.flush(); L.on = false; j = J();
      auto b = dynamic_cast<Battery *>(su.get()); const double rl = loss(su.get());
      std::string w = "["; modsRec(su.get(), w);
      j.t("op", "fin").i("exc", ex).raw("thr", thrFile()).i("hd", count("_throughput.csv", "ID number")).raw("cu", cuFile(0)).raw("mods", modFile()).raw("modw", w + "]").raw("u", leafJ(su.get())).i("cl", sc(load(su.get()) / 3600, 1e4)).i("cv", sc(rl / 3600, 1e4)).i("ct", sc(b ? (b->getConvLosses_total() - tot0) / 3600 : 0, 1e4));
      { std::vector<std::string> names; for (auto &f : fs::directory_iterator("results")) names.push_back(f.path().filename().string()); std::sort(names.begin(), names.end()); j.strs("files", names); }
    } else if (op == "rows") { int on; is >> on; L.rows = on; j.b("on", on); // data points are recorded
    } else if (op == "store") { out << j.str() << "\n"; su->storeData(); continue;
    } else if (op == "write") { std::string p; is >> p; j.t("pre", p); out << j.str() << "\n"; su->writeData(p); continue;
    } else if (op == "copyw") { // a copy has its own data
      std::string p; is >> p; std::unique_ptr<StorageUnit> c(su->copy()); c->writeData(p); j.t("pre", p);
    } else if (op == "cyc") { // part of a test through the cycler, which stores and writes
      std::string what, pre; double C, lim, dt; int nd; is >> what >> C >> lim >> dt >> nd >> pre; int ex = 0, st = 0; ThroughputData th{}; auto cyc = Cycler(su.get(), pre);
      out << j.t("w", what).str() << "\n";
      try { if (what == "cc") st = (int)cyc.CC(C * su->Cap(), C < 0 ? su->Vmax() : su->Vmin(), lim, dt, nd, th); else if (what == "rest") st = (int)cyc.rest(lim, dt, nd, th); else st = (int)cyc.CV(su->V() + C, 0.001, lim, dt, nd, th); } catch (int e) { ex = e; } catch (...) { ex = -1; }
      j = J(); j.t("op", "cyced").i("st", st).i("exc", ex).i("tm", sc(th.time(), 1e2)).i("nd", nd).i("dt", sc(dt, 1e2));
    } else if (op == "files") { // every file of cell data, and how much of it there is
      std::vector<Cell *> v; leaves(su.get(), v); std::string s = "[";
      std::vector<fs::path> fl; for (auto &f : fs::directory_iterator("results")) if (f.path().string().find("_cellData.csv") != std::string::npos) fl.push_back(f.path()); std::sort(fl.begin(), fl.end());
      for (auto &f : fl) {
        const std::string n = f.filename().string(); std::string pre, id; long long leaf = -1;
        for (size_t k = 0; k < v.size(); k++) { const std::string suf = "_" + v[k]->getFullID() + "_cellData.csv"; if (n.size() > suf.size() && n.compare(n.size() - suf.size(), suf.size(), suf) == 0) { leaf = (long long)k + 1; pre = n.substr(0, n.size() - suf.size()); } }
        long long heads = 0, bad = 0; std::string rw = "[";
        for (auto &x : rowsOf(f)) {
          if (x.empty() || (x.size() == 1 && x[0].empty())) continue;
          if (x[0] == "States:") { heads++; continue; }
          if (x.size() != 7) { bad++; continue; }
          V q; for (auto &y : x) q.push_back(num(y)); std::vector<long long> r = scs({ q[0], q[1], q[2] }, 1e6); r.push_back(sc(q[3], 1e4)); r.push_back(sc(q[4], 1e2)); r.push_back(sc(q[5], 1e5)); r.push_back(sc(q[6], 1e5));
          J a; a.ints("r", r); rw += (rw.size() > 1 ? "," : "") + a.str().substr(5, a.str().size() - 6);
        }
        J a; a.t("pre", pre).i("leaf", leaf).i("heads", heads).i("bad", bad).raw("rows", rw + "]"); s += (s.size() > 1 ? "," : "") + a.str();
      }
      j.raw("f", s + "]").i("n", (long long)v.size());
    } else { std::cerr << "unknown " << op << "\n"; return 3; }
    out << j.str() << "\n" << std::flush;
  }
}
