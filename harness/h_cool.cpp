// Cooling systems on their own, and packs with their cooling systems, thermal model and converter.
#include "common.hpp"
using namespace vh;

struct Kind { std::string k; int n; };
static std::unique_ptr<CoolSystem> cs; static std::string ck; static int cn, cctl; static double cq0;
static Deep_ptr<StorageUnit> root;
static bool exact(double t) { return std::abs(t * 1e4 - std::round(t * 1e4)) < 1e-7; }
static double acPower(CoolSystem *c)
{ // what the air conditioning would take away per second: tried on a copy
  auto h = dynamic_cast<CoolSystem_HVAC *>(c); if (!h) return 0;
  std::unique_ptr<CoolSystem_HVAC> k(h->copy()); const double a = k->getQcoolAC_tot(); k->dstate(0, 0, 1.0); return k->getQcoolAC_tot() - a;
}
struct Cnt { double ev, ab, tm, op, ac; };
static Cnt cnt(CoolSystem *c) { auto h = dynamic_cast<CoolSystem_HVAC *>(c); return { c->getHeatEvac(), c->getHeatabsorbed(), c->getTotalTime(), c->getEoperation(), h ? h->getQcoolAC_tot() : 0 }; }
static void deltas(J &j, Cnt a, Cnt b) { j.i("ev", sc(b.ev - a.ev, 1e3)).i("ab", sc(b.ab - a.ab, 1e3)).i("tm", sc(b.tm - a.tm, 1e3)).i("en", sc(b.op - a.op, 1e5)).i("enk", sc(b.op - a.op, 10)).i("ac", sc(b.ac - a.ac, 1e3)); }
static void look(J &j, CoolSystem *c, int n) { j.i("T", sc(c->T(), 1e4)).b("ex", exact(c->T())).i("f", sc(c->getFlr() / n, 1e11)).i("h", sc(c->getH(), 1e6)).i("q", sc(acPower(c), 1e4)).i("ctl", c->getControl()); }

// ------------------------------------------------------------------ packs
struct Node { StorageUnit *u; int up; std::vector<long long> ch; CoolSystem *c = nullptr; int n = 0; };
static std::vector<Node> nodes;
static CoolSystem *coolOf(StorageUnit *u) { if (auto b = dynamic_cast<Battery *>(u)) return b->getCoolSystem(); if (auto m = dynamic_cast<Module *>(u)) return m->getCoolSystem(); return nullptr; }
static int collect(StorageUnit *u, int up)
{
  const int k = (int)nodes.size(); nodes.push_back({ u, up, {}, coolOf(u), (int)u->getNcells() });
  for (auto *c : children(u)) { const int x = collect(c, k + 1); nodes[k].ch.push_back(x + 1); }
  return k;
}
static std::string coolKind(CoolSystem *c) { return !c ? "none" : dynamic_cast<CoolSystem_HVAC *>(c) ? "hvac" : dynamic_cast<CoolSystem_open *>(c) ? "open" : "std"; }
static double hotOf(size_t k) { double t = nodes[k].u->T(); for (auto x : nodes[k].ch) t = std::max(t, hotOf(x - 1)); return t; }
static double locOf(size_t k)
{ // hottest of the units this one cools; a battery regulates on the children of its module
  auto kids = nodes[k].ch; if (dynamic_cast<Battery *>(nodes[k].u)) kids = nodes[kids.at(0) - 1].ch;
  double t = 0; for (auto x : kids) t = std::max(t, nodes[x - 1].u->T()); return t;
}
static double elec(Cell_SPM *c) { auto &s = c->getStateObj(); return c->getAnodeSurface() / (s.an() * s.thickn()); }
static double entropy(double z)
{ // volt per kelvin, from the table of the cell
  static std::vector<double> x, y;
  if (x.empty()) { std::ifstream is(PathVar::data / "Kokam_entropic_cell.csv"); std::string l; while (std::getline(is, l)) { for (auto &ch : l) if (ch == ',') ch = ' '; std::istringstream s(l); double a, b; if (s >> a >> b) { x.push_back(a); y.push_back(b); } } }
  size_t k = 1; while (k + 1 < x.size() && x[k] < z) k++;
  return y[k - 1] + (z - x[k - 1]) / (x[k] - x[k - 1]) * (y[k] - y[k - 1]);
}
static bool blocked = false;

struct Before { double T, h, f, q, qgen, I, p0, p1, loc, glo; Cnt c; };
static double therm(StorageUnit *u) { auto k = dynamic_cast<Cell_SPM *>(u); return k ? k->thermal_getTotalHeat() : 0; }
static std::string pack(const std::vector<Before> *b, double dt, double Tfac)
{ // everything the specification needs to know of every unit
  std::string out = "[";
  for (size_t k = 0; k < nodes.size(); k++) {
    auto &n = nodes[k]; J j; const double T = n.u->T();
    j.i("up", n.up).ints("ch", n.ch).t("k", n.c ? coolKind(n.c) : kind(n.u)).i("nc", n.n).i("A", sc(n.u->getThermalSurface(), 1e6)).i("T", sc(T, 1e4)).b("ex", exact(T));
    if (n.c) {
      const double loc = locOf(k), glo = hotOf(k);
      j.i("loc", sc(loc, 1e4)).i("glo", sc(glo, 1e4)).b("lex", exact(loc) && exact(glo)).i("f", sc(n.c->getFlr() / n.n, 1e11)).i("q", sc(acPower(n.c), 1e4)).i("ctl", n.c->getControl()).i("h", sc(n.c->getH(), 1e6));
      if (b) { auto &w = (*b)[k]; deltas(j, w.c, cnt(n.c)); j.i("f0", sc(w.f / n.n, 1e11)).i("q0", sc(w.q, 1e4)).i("h0", sc(w.h, 1e6)).i("p0", sc(w.p0, 1e5)).i("p1", sc(w.p1, 1e5)).i("loc0", sc(w.loc, 1e4)).i("glo0", sc(w.glo, 1e4)).b("lex0", exact(w.loc) && exact(w.glo)); }
    } else j.i("f", 0);
    if (b) { auto &w = (*b)[k]; j.i("t0", sc(w.T, 1e6)).i("dT", sc(T - w.T, 1e7)).i("qg", sc((therm(n.u) - w.qgen) / Tfac, 1e5)); }
    if (auto c = dynamic_cast<Cell_SPM *>(n.u)) {
      j.i("es", sc(elec(c), 1e6));
      if (b) { // heat this cell gives off, from its voltages at the temperature it had
        std::unique_ptr<StorageUnit> q(c->copy()); q->setParent(nullptr); const double t0 = (*b)[k].T, I = (*b)[k].I; { auto sp = dynamic_cast<Cell_SPM *>(q.get()); auto st = sp->getStateObj(); st.I() = I; st.T() = t0; sp->setStateObj(st); }
        double cp, cn; dynamic_cast<Cell_SPM *>(q.get())->getCSurf(cp, cn, false);
        const double loss = guarded([&] { return q->getOCV() - q->V(); });
        j.i("qw", sc(I * (loss - t0 * entropy(cp / 51385)), 1e5));
      }
    }
    if (k) out += ','; out += j.str();
  }
  return out + "]";
}
// resistors of a module as asked for in the description, in preorder of the modules
static std::vector<std::vector<double>> rcOf;
static void parseRc(const std::string &d)
{ // preorder of modules: an opening bracket is a module; its options follow after its children
  rcOf.clear(); std::vector<int> st;
  for (size_t p = 0; p < d.size(); p++) {
    if (d[p] == '(') { st.push_back((int)rcOf.size()); rcOf.emplace_back(); }
    else if (d[p] == ')') st.pop_back();
    else if (d[p] == ';' && d.compare(p, 4, ";rc=") == 0) { size_t e = d.find_first_of(";)", p + 1); for (auto &x : Parser::split(d.substr(p + 4, e - p - 4), ',')) rcOf[st.back()].push_back(std::stod(x)); p = e - 1; }
  }
}
static double contactPower(size_t k, const std::vector<int> &modIndex)
{ // sum of r I^2 over the resistors of module k
  auto &r = rcOf.at(modIndex[k]); if (r.empty()) return 0;
  double p = 0; const auto &ch = nodes[k].ch;
  if (dynamic_cast<Module_s *>(nodes[k].u)) { const double I = nodes[k].u->I(); for (double x : r) p += x * I * I; }
  else for (size_t i = 0; i < ch.size(); i++) { double I = 0; for (size_t q = i; q < ch.size(); q++) I += nodes[ch[q] - 1].u->I(); p += r[i] * I * I; }
  return p;
}
static std::vector<int> modIx()
{ std::vector<int> v; int m = 0; for (auto &n : nodes) v.push_back(n.c ? m++ : -1); return v; }

int main()
{
  std::ios::sync_with_stdio(false);
  std::string line; std::ostream out(std::cout.rdbuf());
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line); std::string op; is >> op;
    Quiet q; J j; j.t("op", op == "cool" ? "build" : op);
    auto exc = [&](auto &&f) { try { f(); return 0; } catch (int e) { return e; } catch (...) { return -1; } };
    if (op == "cool") {
      is >> ck >> cn >> cctl >> cq0;
      if (ck == "hvac") cs = std::make_unique<CoolSystem_HVAC>(cn, cctl, cq0);
      else if (ck == "open") cs = std::make_unique<CoolSystem_open>(cn, cctl);
      else cs = std::make_unique<CoolSystem>((size_t)cn, cctl);
      j.b("lone", true).t("k", ck).i("n", cn).i("c0", cctl).i("Q0", sc(cq0, 1e4)); look(j, cs.get(), cn);
    } else if (op == "ctrl") {
      double a, b; is >> a >> b; a += PhyConst::Kelvin; b += PhyConst::Kelvin; auto c0 = cnt(cs.get());
      cs->control(a, b); j.i("a", sc(a, 1e4)).i("b", sc(b, 1e4)); deltas(j, c0, cnt(cs.get())); look(j, cs.get(), cn);
    } else if (op == "setT") {
      double t; is >> t; auto c0 = cnt(cs.get()); j.i("t", sc(t + PhyConst::Kelvin, 1e4)).i("exc", exc([&] { cs->setT(t + PhyConst::Kelvin); })); deltas(j, c0, cnt(cs.get())); look(j, cs.get(), cn);
    } else if (op == "dst") { // heat to the coolant in some time; h: of which from the units it cools
      double e, t, h; int set; is >> e >> t >> set; if (!(is >> h)) h = e;
      auto c0 = cnt(cs.get()); double Tn = cs->T(); const double T0 = cs->T();
      const int x = exc([&] { Tn = cs->dstate(e, h, t); });
      const int y = set && !x ? exc([&] { cs->setT(Tn); }) : 0;
      j.i("e", sc(e, 1e3)).i("hc", sc(h, 1e3)).i("t", sc(t, 1e3)).i("exc", x).b("set", set).i("sx", y).i("dT", sc(Tn - T0, 1e7)).i("Tn", sc(Tn, 1e4)); deltas(j, c0, cnt(cs.get())); look(j, cs.get(), cn);
    } else if (op == "strat") { int k; is >> k; auto c0 = cnt(cs.get()); cs->setControl(k); j.i("s", k); deltas(j, c0, cnt(cs.get())); look(j, cs.get(), cn);
    } else if (op == "reset") { auto c0 = cnt(cs.get()); cs->reset_Eoperation(); auto c1 = cnt(cs.get()); c0.op = 0; deltas(j, c0, c1); look(j, cs.get(), cn);
    } else if (op == "copy") { // go on with the copy; the original goes another way
      auto c0 = cnt(cs.get()); std::unique_ptr<CoolSystem> k(cs->copy()); cs->dstate(777, 777, 33); cs->control(330, 270); guarded([&] { cs->setT(333); return 0; }); cs.swap(k);
      deltas(j, c0, cnt(cs.get())); look(j, cs.get(), cn);
    } else if (op == "build") {
      std::string d; is >> d; nodes.clear(); root = build(d); parseRc(d); blocked = false; collect(root.get(), 0);
      j.b("lone", false).i("tm", settings::T_MODEL).b("bat", dynamic_cast<Battery *>(root.get()) != nullptr).raw("u", pack(nullptr, 0, 1));
    } else if (op == "setI") { double i; std::string unit; is >> i >> unit; if (unit == "C") i *= root->Cap(); j.i("st", (int)root->setCurrent(i, false, false)).raw("u", pack(nullptr, 0, 1));
    } else if (op == "setTu") { // temperature of the unit at this position (modulo)
      int k; double t; is >> k >> t; k %= (int)nodes.size(); j.i("w", k + 1).i("t", sc(t + PhyConst::Kelvin, 1e4)).i("exc", exc([&] { nodes[k].u->setT(t + PhyConst::Kelvin); })).raw("u", pack(nullptr, 0, 1));
    } else if (op == "block") { int b; is >> b; blocked = b; root->setBlockDegAndTherm(b); j.b("blk", b).raw("u", pack(nullptr, 0, 1));
    } else if (op == "strats") { int k, s; is >> k >> s; std::vector<CoolSystem *> v; for (auto &n : nodes) if (n.c) v.push_back(n.c); if (!v.empty()) v[k % v.size()]->setControl(s); j.raw("u", pack(nullptr, 0, 1));
    } else if (op == "heat") { // some heat reaches one of the cooling systems
      int k; double e, t; is >> k >> e >> t; std::vector<CoolSystem *> v; for (auto &n : nodes) if (n.c) v.push_back(n.c); if (!v.empty()) v[k % v.size()]->dstate(e, e, t); j.raw("u", pack(nullptr, 0, 1));
    } else if (op == "load") { // energy the cooling has taken since the last time
      double want = 0; std::vector<long long> each; for (auto &n : nodes) if (n.c) want += n.c->getEoperation();
      auto m = dynamic_cast<Module *>(root.get()); auto b = dynamic_cast<Battery *>(root.get());
      const double l = m ? m->getCoolingLoad() : b ? b->getCoolingLoad() : 0;
      for (auto &n : nodes) if (n.c) each.push_back(sc(n.c->getEoperation(), 1e5));
      j.i("l", sc(l, 1e4)).i("want", sc(want, 1e4)).ints("left", each).raw("u", pack(nullptr, 0, 1));
    } else if (op == "step") {
      double dt; int n; is >> dt >> n;
      std::vector<Before> b; auto mi = modIx();
      auto pc = [&](size_t k) { return nodes[k].c && dynamic_cast<Module *>(nodes[k].u) ? contactPower(k, mi) : 0; };
      for (size_t k = 0; k < nodes.size(); k++) { auto &x = nodes[k]; x.u->V(); b.push_back({ x.u->T(), x.c ? x.c->getH() : 0, x.c ? x.c->getFlr() : 0, x.c ? acPower(x.c) : 0, therm(x.u), x.u->I(), pc(k), 0, x.c ? locOf(k) : 0, x.c ? hotOf(k) : 0, x.c ? cnt(x.c) : Cnt{} }); }
      auto bat = dynamic_cast<Battery *>(root.get()); const double l0 = bat ? bat->getConvLosses_total() : 0;
      const int x = exc([&] { root->timeStep_CC(dt, n); });
      for (size_t k = 0; k < nodes.size(); k++) b[k].p1 = pc(k);
      j.i("dt", sc(dt * n, 1e3)).i("n", n).i("exc", x).b("blk", blocked);
      if (bat) { const double r = bat->getAndResetConvLosses(), r2 = bat->getAndResetConvLosses();
        j.i("V", sc(bat->V(), 1e4)).i("I", sc(bat->I(), 1e4)).i("P", sc(bat->Cap() * bat->Vmax(), 1)).i("loss", sc((bat->getConvLosses_total() - l0), 10)).i("per", sc(r, 10)).i("again", sc(r2, 10)); }
      else j.i("V", 0).i("I", 0).i("P", 0).i("loss", 0).i("per", 0).i("again", 0);
      j.raw("u", pack(&b, dt * n, dt * n > 0 ? dt * n : 1));
    } else if (op == "copyp") { // go on with a copy of the pack
      auto *k = root->copy(); guarded([&] { root->setT(300); root->timeStep_CC(1, 1); return 0; }); root.reset(k); nodes.clear(); collect(root.get(), 0); j.raw("u", pack(nullptr, 0, 1));
    } else { std::cerr << "unknown " << op << "\n"; return 3; }
    out << j.str() << "\n" << std::flush;
  }
}
