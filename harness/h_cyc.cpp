// Runs cycler commands on a storage unit seen through a recording proxy: every call by which the cycler acts on the unit (set a current
// or voltage, advance in time, store a data point) is one event, followed by the result of the command.
// The proxy can also make the unit fail at a chosen call (refuse a current, throw in a time step).
#include "common.hpp"
using namespace vh;

struct Fault { int step = 0, setI = 0, code = 0; } fault; // call number (1-based) within the command, 0: none
static std::vector<std::string> buf;                        // events of the running command
struct Seg { bool on = false; long long n = 0; double ms = 0, ah = 0, Ilo = 0, Ihi = 0, V0 = 0, Vp = 0, V1 = 0; int vs = 0; } seg;
static bool aggregate = false;
static void flushSeg()
{
  if (!seg.on) return;
  J j; j.t("op", "seg").i("n", seg.n).i("ms", sc(seg.ms, 1e3)).i("ah", sc(seg.ah, 1e7)).i("lo", sc(seg.Ilo, 1e5)).i("hi", sc(seg.Ihi, 1e5)).i("v0", sc(seg.V0, 1e6)).i("vp", sc(seg.Vp, 1e6)).i("v1", sc(seg.V1, 1e6)).i("vs", seg.vs);
  buf.push_back(j.str()); seg = {};
}

struct Spy : StorageUnit {
  StorageUnit *in; int nStep = 0, nSet = 0;
  explicit Spy(StorageUnit *s) : in(s) { ID = s->getID(); }
  std::string getFullID() override { return in->getFullID(); }
  double Cap() const override { return in->Cap(); }
  double I() const override { return in->I(); }
  double getRtot() override { return in->getRtot(); }
  size_t getNcells() override { return in->getNcells(); }
  void getStates(getStates_t s) override { in->getStates(s); }
  viewStates_t viewStates() override { return in->viewStates(); }
  void setBlockDegAndTherm(bool b) override { in->setBlockDegAndTherm(b); }
  double getOCV() override { return in->getOCV(); }
  double V() override { return in->V(); }
  Status checkVoltage(double &v, bool print) noexcept override { return in->checkVoltage(v, print); }
  double getVhigh() override { return in->getVhigh(); }
  double getVlow() override { return in->getVlow(); }
  double Vmin() const override { return in->Vmin(); }
  double VMIN() const override { return in->VMIN(); }
  double Vmax() const override { return in->Vmax(); }
  double VMAX() const override { return in->VMAX(); }
  double T() override { return in->T(); }
  double getThotSpot() override { return in->getThotSpot(); }
  double getThermalSurface() override { return in->getThermalSurface(); }
  double thermalModel(int a, double b[], double c[], double d[], double t) override { return in->thermalModel(a, b, c, d, t); }
  void setT(double t) override { in->setT(t); }
  bool validStates(bool p) override { return in->validStates(p); }
  StorageUnit *copy() override { return in->copy(); }
  void backupStates() override { in->backupStates(); }
  void restoreStates() override { in->restoreStates(); }

  Status setCurrent(double Inew, bool checkV, bool print) override
  {
    const double v0 = guarded([&] { return in->V(); });
    const bool f = fault.setI && ++nSet == fault.setI;
    const Status st = f ? (Status)fault.code : in->setCurrent(Inew, checkV, print);
    if (aggregate) { if (isStatusBad(st)) { flushSeg(); } else return st; }
    J j; j.t("op", "setI").i("x", sc(Inew, 1e5)).b("chk", checkV).i("st", (int)st).i("pV", sc(v0, 1e6)).i("V", sc(guarded([&] { return in->V(); }), 1e6)).i("I", sc(in->I(), 1e5));
    buf.push_back(j.str());
    return st;
  }
  Status setVoltage(double Vnew, bool checkI, bool print) override
  {
    Status st{}; int exc = 0;
    try { st = in->setVoltage(Vnew, checkI, print); } catch (int e) { exc = e; }
    J j; j.t("op", "setV").i("x", sc(Vnew, 1e6)).i("st", (int)st).i("exc", exc).i("V", sc(guarded([&] { return in->V(); }), 1e6)).i("I", sc(in->I(), 1e5));
    buf.push_back(j.str());
    if (exc) throw exc;
    return st;
  }
  Status setStates(setStates_t s, bool chk, bool print) override
  {
    flushSeg();
    const auto st = in->setStates(s, chk, print);
    J j; j.t("op", "restore").i("st", (int)st);
    buf.push_back(j.str());
    return st;
  }
  void timeStep_CC(double dt, int k) override
  {
    const double pI = in->I(), pV = guarded([&] { return in->V(); });
    int exc = 0;
    if (fault.step && ++nStep == fault.step) exc = 77;
    else try { in->timeStep_CC(dt, k); } catch (int e) { exc = e == 0 ? -1 : e; }
    double v = 0; const auto vs = in->checkVoltage(v, false);
    const double V = guarded([&] { return in->V(); });
    if (aggregate && !exc) {
      if (seg.on && (pI > 0) != (seg.Ihi > 0)) flushSeg();
      if (!seg.on) { seg = {}; seg.on = true; seg.V0 = pV; seg.Ilo = seg.Ihi = pI; }
      seg.n++; seg.ms += dt * k; seg.ah += std::abs(pI) * dt * k / 3600; seg.Ilo = std::min(seg.Ilo, pI); seg.Ihi = std::max(seg.Ihi, pI); seg.Vp = pV; seg.V1 = V; seg.vs = (int)vs;
    } else {
      flushSeg();
      J j; j.t("op", "time").i("dt", sc(dt, 1e3)).i("k", k).i("pI", sc(pI, 1e5)).i("pV", sc(pV, 1e6)).i("V", sc(V, 1e6)).i("I", sc(in->I(), 1e5)).i("vs", (int)vs).i("exc", exc);
      buf.push_back(j.str());
    }
    if (exc) throw exc;
  }
  long long nstore = 0;
  void storeData() override { flushSeg(); J j; j.t("op", "store").i("no", ++nstore); buf.push_back(j.str()); in->storeData(); }
  void writeData(const std::string &p) override { J j; j.t("op", "write"); buf.push_back(j.str()); }
};

static Deep_ptr<StorageUnit> su;
static std::unique_ptr<Spy> spy;
static std::unique_ptr<Cycler> cyc;
static ThroughputData th;
static bool diag = false;

int main()
{
  std::ios::sync_with_stdio(false);
  std::string line; std::ostream out(std::cout.rdbuf());
  long long seq = 0;
  auto vOf = [&](const std::string &s) -> double { // m M: operating limits of the unit, l L: safety, +-x: x mV per 3.6 V from its open circuit voltage
    if (s == "m") return su->Vmin(); if (s == "M") return su->Vmax(); if (s == "l") return su->VMIN(); if (s == "L") return su->VMAX();
    double ocv = guarded([&] { return su->getOCV(); }); if (!(ocv > 0.5)) ocv = guarded([&] { return su->V(); }); if (!(ocv > 0.5)) ocv = (su->Vmin() + su->Vmax()) / 2;
    return std::round((ocv + std::stod(s) * 1e-3 * std::max(1.0, std::round(ocv / 3.6))) * 1e6) / 1e6;
  };
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line);
    std::string op; is >> op;
    Quiet q; ++seq; buf.clear(); seg = {}; aggregate = false;
    if (op == "build") {
      std::string d; is >> d;
      try { su = build(d); } catch (...) { std::cerr << "build failed " << d << "\n"; return 3; }
      spy = std::make_unique<Spy>(su.get()); cyc = std::make_unique<Cycler>(spy.get(), "cyc"); th = {}; diag = false; fault = {};
      J j; j.t("op", op).t("desc", d).t("k", kind(su.get())).i("cap", sc(su->Cap(), 1e3)).i("r", sc(su->getRtot(), 1e8)).i("vmin", sc(su->Vmin(), 1e6)).i("vmax", sc(su->Vmax(), 1e6)).i("VMIN", sc(su->VMIN(), 1e6)).i("VMAX", sc(su->VMAX(), 1e6)).i("nc", (long long)su->getNcells());
      out << j.str() << "\n"; continue;
    }
    if (op == "diag") { is >> diag; cyc->setDiagnostic(diag); continue; }
    if (op == "fault") { std::string w; is >> w; if (w == "step") is >> fault.step; else is >> fault.setI >> fault.code; continue; }
    if (op == "soc") { double s; is >> s; std::vector<Cell *> lv; leaves(su.get(), lv); int n = 0; for (auto *c : lv) if (!dynamic_cast<Cell_SPM *>(c)) c->setSOC(std::min(1.0, std::max(0.0, s + 0.003 * (n++ % 3))), false, false); su->setCurrent(0, false, false); continue; }
    if (op == "setI") { double c; is >> c; su->setCurrent(c * su->Cap(), false, false); continue; }
    if (op == "zero") { th = {}; continue; }
    // a cycler command
    J b; b.t("op", "begin").t("cmd", op).i("seq", seq).b("diag", diag).b("faulty", fault.step || fault.setI);
    b.i("I0", sc(su->I(), 1e5)).i("V0", sc(guarded([&] { return su->V(); }), 1e6));
    const auto st0 = statesOf(su.get()); // after reading the voltage: cells cache it in their states
    std::string v; double c = 0, il = 0, tl = 0, dt = 1, V = 0; int ndt = 0;
    if (op == "rest") is >> tl >> dt >> ndt;
    else if (op == "cc") { is >> c >> v >> tl >> dt >> ndt; V = vOf(v); }
    else if (op == "cv") { is >> v >> il >> tl >> dt >> ndt; V = vOf(v); }
    else if (op == "cccv") { is >> c >> v >> il >> tl >> dt >> ndt; V = vOf(v); }
    else if (op == "cap") {}
    else { std::cerr << "bad command " << line << "\n"; return 3; }
    auto rnd = [](double x) { return std::round(x * 1e5) / 1e5; };
    const double I = rnd(c * su->Cap()), Il = rnd(il * su->Cap());
    const bool inf = tl < 0; // no time limit
    b.i("I", sc(I, 1e5)).i("v", sc(V, 1e6)).i("il", sc(Il, 1e5)).i("tl", inf ? BIG : sc(tl, 1e3)).i("dt", sc(dt, 1e3)).i("ndt", ndt).i("thtm", sc(th.time(), 1e3)).i("thah", sc(th.Ah(), 1e7)).i("thwh", sc(th.Wh(), 1e6));
    int st = 99, exc = 0; double Ah = 0, tt = 0, ret = 0;
    const double tlv = inf ? TIME_INF : tl;
    const long long n0 = spy->nstore; spy->nStep = spy->nSet = 0;
    const double tc0 = 12.5; // the capacity test adds to the time it is given
    tt = tc0;
    try {
      if (op == "rest") st = (int)cyc->rest(tlv, dt, ndt, th);
      else if (op == "cc") st = (int)cyc->CC(I, V, tlv, dt, ndt, th);
      else if (op == "cv") st = (int)cyc->CV(V, Il, tlv, dt, ndt, th);
      else if (op == "cccv") st = (int)(inf ? cyc->CCCV(I, V, Il, dt, ndt, th) : cyc->CCCV_with_tlim(I, V, Il, tlv, dt, ndt, th));
      else { aggregate = true; ret = cyc->testCapacity(Ah, tt); flushSeg(); aggregate = false; }
    } catch (int e) { exc = e == 0 ? -1 : e; } catch (...) { exc = -2; }
    fault = {};
    const auto st1 = statesOf(su.get());
    J e; e.t("op", "end").t("cmd", op).i("st", st).i("exc", exc).i("tm", sc(th.time(), 1e3)).i("ah", sc(th.Ah(), 1e7)).i("wh", sc(th.Wh(), 1e6)).i("I", sc(su->I(), 1e5)).i("V", sc(guarded([&] { return su->V(); }), 1e6)).b("same", hashD(st0) == hashD(st1)).i("cah", sc(Ah, 1e7)).i("ctm", sc(tt - tc0, 1e3)).i("ret", sc(ret, 1e7)).i("stores", spy->nstore - n0);
    out << b.str() << "\n";
    for (auto &s : buf) out << s << "\n";
    out << e.str() << "\n";
  }
  return 0;
}
