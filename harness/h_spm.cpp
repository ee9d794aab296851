// One physics-based cell with a choice of ageing models, and next to it cells with a single model each: before every time step they get
// the states of the first cell, so that what each model contributes in that step can be compared.
#include "common.hpp"
using namespace vh;

constexpr double Fa = 96487, Rg = 8.314, Rp = 8.5e-6, Rn = 1.25e-5, CP = 51385, CN = 30555; // constants of the cell
using Cl = Cell_SPM;
static double area(Cl *c) { auto &s = c->getStateObj(); return c->getAnodeSurface() / (s.an() * s.thickn()); }
struct Deg { std::vector<int> sei, cs, lam; int por = 0, csd = 0, pl = 0; };
static Deg parseDeg(const std::string &t)
{
  Deg d; auto f = Parser::split(t, '_');
  auto all = [](std::vector<int> &v, const std::string &m) { for (auto &x : Parser::split(m, '+')) if (!x.empty() && x != "0") v.push_back(std::stoi(x)); };
  auto a = Parser::split(f.at(0), '-'), b = Parser::split(f.at(1), '-');
  all(d.sei, a.at(0)); d.por = std::stoi(a.at(1)); all(d.cs, b.at(0)); d.csd = std::stoi(b.at(1)); all(d.lam, f.at(2)); d.pl = std::stoi(f.at(3));
  return d;
}
static DEG_ID degOf(const Deg &d)
{
  DEG_ID g; for (int x : d.sei) g.SEI_id.add_model(x); for (int x : d.cs) g.CS_id.add_model(x); for (int x : d.lam) g.LAM_id.add_model(x);
  g.SEI_porosity = d.por; g.CS_diffusion = d.csd; g.pl_id = d.pl; return g;
}
static std::vector<double> ageing(Cl *c) { auto &s = c->getStateObj(); return { s.delta(), s.LLI(), s.thickp(), s.thickn(), s.ep(), s.en(), s.ap(), s.an(), s.CS(), s.Dp(), s.Dn(), s.delta_pl(), s.rDCp(), s.rDCn(), s.rDCcc() }; }
static std::vector<double> rest(Cl *c) { auto &s = c->getStateObj(); auto t = c->getThroughputs(); std::vector<double> v{ s.I(), s.T(), s.SOC(), t.time(), t.Ah(), t.Wh() }; for (size_t j = 0; j < s.nch; j++) v.push_back(s.zp(j)); return v; }
static Model_SPM *mod() { static Model_SPM *m = Model_SPM::makeModel(); return m; }
static double meanp(Cl *c) { auto k = (size_t)mod()->Input[3]; return c->getStateObj().zp(k) * (-3 / Rp) / mod()->Bp[k]; } // mean concentrations
static double meann(Cl *c) { auto k = (size_t)mod()->Input[3]; return c->getStateObj().zn(k) * (-3 / Rn) / mod()->Bn[k]; }

struct Curve { std::vector<double> x, y; };
static Curve readCurve(const std::string &f) { Curve c; std::ifstream is(PathVar::data / f); std::string l; while (std::getline(is, l)) { for (auto &ch : l) if (ch == ',') ch = ' '; std::istringstream s(l); double a, b; if (s >> a >> b) { c.x.push_back(a); c.y.push_back(b); } } if (c.x.size() < 2) { std::cerr << "no curve " << f << "\n"; exit(3); } return c; }
static std::vector<long long> bracket(const Curve &c, double x, double ys)
{ // the two points of the table around x
  size_t k = 1; while (k + 1 < c.x.size() && c.x[k] < x) k++;
  return { sc(c.x[k - 1], 1e9), sc(c.y[k - 1], ys), sc(c.x[k], 1e9), sc(c.y[k], ys) };
}

static std::unique_ptr<Cl> own; static Cl *cell = nullptr; // own, or within a module
static std::unique_ptr<Module_s> nest;
struct Twin { std::string name; std::unique_ptr<Cl> c; };
static std::vector<Twin> twins;
static Deg deg; static double capf, resf, fsei, flam; static bool blocked = false;
static std::vector<double> saved;

static void volt(J &j)
{ // the voltage and what it should be made of
  static const Curve op = readCurve("Kokam_OCV_NMC.csv"), on = readCurve("Kokam_OCV_C.csv"), dt = readCurve("Kokam_entropic_cell.csv");
  auto &s = cell->getStateObj(); Cl *c = cell;
  double cps, cns; const bool in = c->getCSurf(cps, cns, false);
  const double es = area(c), V = guarded([&] { return c->V(); }, -9);
  j.b("ok", in && V > 0).i("V", sc(V, 1e6)).i("I", sc(s.I(), 1e6)).i("T", sc(s.T(), 1e4)).i("ocv", sc(guarded([&] { return c->getOCV(); }, -9), 1e6));
  j.i("zp", sc(cps / CP, 1e9)).i("zn", sc(cns / CN, 1e9)).ints("cvp", bracket(op, cps / CP, 1e6)).ints("cvn", bracket(on, cns / CN, 1e6)).ints("cve", bracket(dt, cps / CP, 1e9));
  const double ar = (1 / 298.0 - 1 / s.T()) / Rg;
  const double i0p = in ? 5e-11 * std::exp(58000 * ar) * Fa * std::sqrt(1000 * cps * (CP - cps)) : 1, i0n = in ? 1.764e-11 * std::exp(20000 * ar) * Fa * std::sqrt(1000 * cns * (CN - cns)) : 1;
  j.i("xp", sc(0.5 * s.I() / (es * s.ap() * s.thickp()) / i0p, 1e7)).i("xn", sc(0.5 * s.I() / (es * s.an() * s.thickn()) / i0n, 1e7)); // arguments of the kinetic law
  j.i("R", sc(c->getRdc(), 1e9)).i("Rs", sc(s.delta() * 2037.4 * 50 / (es * s.an() * s.thickn()), 1e9)).i("Rp", sc(s.rDCp() / (es * s.ap() * s.thickp()), 1e9)).i("Rn", sc(s.rDCn() / (es * s.an() * s.thickn()), 1e9)).i("Rc", sc(s.rDCcc() / es, 1e9));
  // concentrations in the particles
  const int N = (int)settings::nch + 2; double cp[N], cn[N]; c->getC(cp, cn);
  double dp = 0, dn = 0, mp = 0, mn = 0; const auto k = (size_t)mod()->Input[3];
  for (int q = 0; q < N; q++) { dp = std::max(dp, std::abs(cp[q] - meanp(c)) / CP); dn = std::max(dn, std::abs(cn[q] - meann(c)) / CN); }
  for (size_t q = 0; q < s.nch; q++) if (q != k) { mp = std::max(mp, std::abs(s.zp(q))); mn = std::max(mn, std::abs(s.zn(q))); }
  j.i("cp", sc(meanp(c) / CP, 1e9)).i("cn", sc(meann(c) / CN, 1e9)).i("sp", sc(cp[0] / CP, 1e9)).i("sn", sc(cn[0] / CN, 1e9)).i("dp", sc(dp, 1e9)).i("dn", sc(dn, 1e9)).i("mp", sc(mp, 1e9)).i("mn", sc(mn, 1e9));
  // surface minus mean in the steady profile of a sphere: -j R / (5 D)
  const double Dp = s.Dp() * std::exp(29000 * ar), Dn = s.Dn() * std::exp(7000 * ar);
  j.i("qp", sc(s.I() / (es * s.ap() * s.thickp() * Fa) * Rp / (5 * Dp) / CP, 1e9)).i("qn", sc(-s.I() / (es * s.an() * s.thickn() * Fa) * Rn / (5 * Dn) / CN, 1e9));
  j.i("soc", sc(s.SOC(), 1e9)).t("ha", hashD(ageing(c))).i("lp", sc(Fa * s.ep() * s.thickp() * es * meanp(c), 1e4)).i("ln", sc(Fa * s.en() * s.thickn() * es * meann(c), 1e4));
  { auto v = statesOf(c); v.erase(v.begin() + 1); j.t("h", hashD(v)); }
}
static std::unique_ptr<Cl> mk(const Deg &d, double cf, double rf, double sf, double lf) { return std::make_unique<Cl>("c", degOf(d), cf, rf, sf, lf); }

int main()
{
  std::ios::sync_with_stdio(false);
  std::string line; std::ostream out(std::cout.rdbuf());
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    std::string op; is >> op;
    Quiet q;
    if (op == "build") {
      std::string ds, in; is >> capf >> resf >> fsei >> flam >> ds >> in; deg = parseDeg(ds);
      cell = nullptr; own.reset(); nest.reset(); own = mk(deg, capf, resf, fsei, flam); cell = own.get();
      if (in == "in") { // the cell in a module, which in turn is in a module
        std::vector<Deep_ptr<StorageUnit>> v; v.push_back(Deep_ptr<StorageUnit>(own.release()));
        auto m = make<Module_p>("p", settings::T_ENV, true, false, 1, 1, 2); m->setSUs(v, false, true);
        std::vector<Deep_ptr<StorageUnit>> w; w.push_back(std::move(m));
        nest = std::make_unique<Module_s>("s", settings::T_ENV, true, false, 1, 1, 1); nest->setSUs(w, false, true);
      } twins.clear(); blocked = false; saved.clear();
      auto add = [&](const std::string &n, Deg d) { for (auto &t : twins) if (t.name == n) return; twins.push_back({ n, mk(d, capf, resf, 1, 1) }); };
      Deg none; none.por = deg.por; none.csd = deg.csd;
      auto known = [](const std::vector<int> &v, int m) { for (int x : v) if (x < 1 || x > m) return false; return true; };
      const bool ok = known(deg.sei, 4) && known(deg.cs, 5) && known(deg.lam, 4) && deg.por <= 1 && deg.csd <= 1 && deg.pl <= 1;
      if (ok) {
        add("0", none);
        for (int m : deg.sei) { Deg d = none; d.sei = { m }; add("s" + std::to_string(m), d); }
        for (int m : deg.cs) { Deg d = none; d.cs = { m }; add("c" + std::to_string(m), d); }
        for (int m : deg.lam) { Deg d = none; d.lam = { m }; add("l" + std::to_string(m), d); }
        if (deg.pl) { Deg d = none; d.pl = deg.pl; add("p1", d); }
      }
      auto R = [&](double cf, double rf) { return mk(none, cf, rf, 1, 1)->getRdc(); };
      auto ll = [](const std::vector<int> &v) { return std::vector<long long>(v.begin(), v.end()); };
      auto v = cell->getVariations();
      J j; j.t("op", op).b("known", ok).ints("sei", ll(deg.sei)).i("por", deg.por).ints("cs", ll(deg.cs)).i("csd", deg.csd).ints("lam", ll(deg.lam)).i("pl", deg.pl);
      j.i("capf", sc(capf, 1e6)).i("resf", sc(resf, 1e6)).i("fs", sc(fsei, 1e6)).i("fl", sc(flam, 1e6)).i("v1", sc(v[0], 1e6)).i("v2", sc(v[1], 1e6)).i("v3", sc(v[2], 1e6)).i("v4", sc(v[3], 1e6));
      j.i("cap", sc(cell->Cap(), 1e6)).i("R1", sc(R(1, 1), 1e9)).i("R2", sc(R(1, 2), 1e9)).i("R0", sc(cell->getRdc(), 1e9)).i("C0", sc(mk(none, 1, 1, 1, 1)->Cap(), 1e6));
      volt(j); out << j.str() << "\n"; continue;
    }
    Cl *c = cell;
    guarded([&] { return c->V(); }); // cached in the states
    if (op == "step") {
      double dt; int n; is >> dt >> n;
      for (auto &t : twins) { auto s = c->getStateObj(); t.c->setStateObj(s); t.c->setBlockDegAndTherm(blocked); }
      // the same cell of standard size with the same current density
      auto big = mk(deg, 1, 1, fsei, flam); { auto s = c->getStateObj(); s.I() /= capf; big->setStateObj(s); big->setBlockDegAndTherm(true); }
      auto &s = c->getStateObj();
      const auto a0 = ageing(c); const double es = area(c), cp0 = meanp(c), cn0 = meann(c), lli0 = s.LLI();
      const double wp = Fa * s.ep() * s.thickp() * es, wn = Fa * s.en() * s.thickn() * es;
      J j; j.t("op", op).i("dt", sc(dt, 1e3)).i("n", n).b("blk", blocked).i("gp", sc(3 * s.ep() / Rp / s.ap(), 1e9)).i("gn", sc(3 * s.en() / Rn / s.an(), 1e9)).i("crack", sc(s.CS() / (s.an() * s.thickn() * es), 1e9));
      const double soc0 = s.SOC(); std::vector<double> z0; for (size_t k = 0; k < 2 * s.nch; k++) z0.push_back(s.z(k));
      const double rbig = big->getRdc(), r0 = c->getRdc();
      int exc = 0;
      try { if (nest) nest->timeStep_CC(dt, n); else c->timeStep_CC(dt, n); } catch (int e) { exc = e == 0 ? -1 : e; }
      int texc = 0;
      for (auto &t : twins) try { t.c->timeStep_CC(dt, n); } catch (int e) { texc = e; }
      j.i("exc", exc).i("texc", texc).i("dlp", sc(wp * (meanp(c) - cp0), 1e6)).i("dln", sc(wn * (meann(c) - cn0), 1e6)).i("dll", sc(s.LLI() - lli0, 1e6)).i("it", sc(s.I() * dt * n, 1e6)).i("dsoc", sc(s.SOC() - soc0, 1e9));
      // the direction in which each ageing state moved
      const auto a1 = ageing(c); std::vector<long long> dir; for (size_t k = 0; k < a0.size(); k++) dir.push_back(a1[k] > a0[k] ? 1 : a1[k] < a0[k] ? -1 : 0);
      j.ints("dir", dir);
      // and by how much, like in the cells with one model
      std::vector<std::vector<double>> d; std::vector<double> top(a0.size(), 0);
      auto inc = [&](Cl *x) { auto a = ageing(x); std::vector<double> r; for (size_t k = 0; k < a.size(); k++) { r.push_back(a[k] - a0[k]); top[k] = std::max(top[k], std::abs(r[k])); } return r; };
      d.push_back(inc(c)); for (auto &t : twins) d.push_back(inc(t.c.get()));
      std::vector<long long> eps; std::string rows; std::vector<std::string> names; bool same = true; const auto hr = hashD(rest(c));
      for (size_t k = 0; k < a0.size(); k++) eps.push_back(top[k] > 0 ? sc(std::abs(a0[k]) * 4.5e-16 / top[k] * 1e8 + 1, 1) : 1);
      for (size_t m = 1; m < d.size(); m++) { names.push_back(twins[m - 1].name); same = same && hashD(rest(twins[m - 1].c.get())) == hr; }
      for (size_t m = 0; m < d.size(); m++) { rows += m ? "," : "["; std::vector<long long> v; for (size_t k = 0; k < a0.size(); k++) v.push_back(top[k] > 0 ? sc(d[m][k] / top[k], 1e8) : 0); std::string r = "["; for (size_t k = 0; k < v.size(); k++) { if (k) r += ','; r += std::to_string(v[k]); } rows += r + "]"; }
      j.strs("who", names).raw("row", rows + "]").ints("eps", eps).b("same", same);
      j.i("capDn", top[10] > 0 ? sc(-2e-7 * a0[10] * dt * n / top[10], 1e8) : -BIG).i("capEp", top[4] > 0 ? sc(-5e-6 * dt * n / top[4], 1e8) : -BIG).i("capAp", top[6] > 0 ? sc(-5e-6 * dt * n / top[6] * 3 / Rp, 1e8) : -BIG);
      // size
      { int be = 0; try { big->timeStep_CC(dt, n); } catch (int e) { be = e; }
        double uz = 0; for (size_t k = 0; k < 2 * s.nch; k++) { if (!blocked && k >= s.nch) continue; uz = std::max(uz, std::abs((s.z(k) - z0[k]) - (big->getStateObj().z(k) - z0[k]))); }
        j.i("uexc", be).i("uz", sc(uz, 1e12)).i("uR", sc(rbig, 1e9)).i("uR0", sc(r0, 1e9)).i("us", sc(big->getStateObj().SOC() - soc0, 1e9)); }
      volt(j); out << j.str() << "\n"; continue;
    }
    int st = 99, exc = 0; const auto ha = hashD(ageing(c)); const double lp = meanp(c), ln = meann(c);
    try {
      if (op == "setI") { double x; is >> x; st = (int)c->setCurrent(x * c->Cap(), true, false); }
      else if (op == "setIf") { double x; is >> x; st = (int)c->setCurrent(x * c->Cap(), false, false); }
      else if (op == "setT") { double x; is >> x; c->setT(x + 273.15); }
      else if (op == "setV") { double x; is >> x; st = (int)c->setVoltage(c->V() + x, true, false); }
      else if (op == "block") { int b; is >> b; blocked = b; if (nest) nest->setBlockDegAndTherm(b); else c->setBlockDegAndTherm(b); }
      else if (op == "setC") { double a, b; is >> a >> b; c->setC(a, b); }
      else if (op == "save") saved = statesOf(c);
      else if (op == "load") { if (!saved.empty()) { std::span<double> sp{ saved }; st = (int)c->setStates(sp, false, false); } }
      else { std::cerr << "bad command " << line << "\n"; return 3; }
    } catch (int e) { exc = e == 0 ? -1 : e; }
    J j; j.t("op", op).i("st", st).i("exc", exc).b("aged", hashD(ageing(c)) != ha).i("dcp", sc(meanp(c) - lp, 1e9)).i("dcn", sc(meann(c) - ln, 1e9)).b("blk", blocked);
    volt(j); out << j.str() << "\n";
  }
  return 0;
}
