// Numerical utilities and data files: interpolation, histograms, grids, CSV files, open circuit voltage curves and their fit.
// Built with the paths of the project relative to the working directory, which is a scratch directory removed at the end.
#include "common.hpp"
#include "procedures/determine_OCV.hpp"
#include <filesystem>
#include <unistd.h>
#include <limits>
using namespace vh;
namespace fs = std::filesystem;
using V = std::vector<double>;
static std::vector<long long> ints(const std::string &s)
{ std::vector<long long> v; if (s == "-") return v; for (auto &x : Parser::split(s, ',')) if (!x.empty()) v.push_back(std::stoll(x)); return v; }
static V over(const std::vector<long long> &v, double d) { V r; for (auto x : v) r.push_back(x / d); return r; }
static std::vector<long long> scs(const V &v, double s) { std::vector<long long> r; for (double x : v) r.push_back(sc(x, s)); return r; }
struct Padded { // data with poison on both sides: a value read from outside shows
  V d; size_t n;
  explicit Padded(const V &v) : d(v.size() + 8, std::numeric_limits<double>::quiet_NaN()), n(v.size()) { std::copy(v.begin(), v.end(), d.begin() + 4); }
  std::span<double> span() { return { d.data() + 4, n }; }
};
template <class X, class Y> void lin(J &j, X &x, Y &y, int n, double q, bool bound, bool fixed)
{
  auto [v, st] = slide::linInt_noexcept(bound, x, y, n, q, fixed);
  double w = 0; int ex = 0;
  try { w = slide::linInt(false, bound, x, y, n, q, fixed); } catch (int e) { ex = e; } catch (...) { ex = -1; }
  j.i("st", st).i("y", sc(v, 1e6)).i("exc", ex).i("yt", ex ? 0 : sc(w, 1e6));
}
template <class XY> void viaXY(J &j, XY &c, double q, bool bound)
{
  double w = 0; int ex = 0;
  try { w = c.interp(q, false, bound); } catch (int e) { ex = e; } catch (...) { ex = -1; }
  j.i("exc", ex).i("yt", ex ? 0 : sc(w, 1e6));
}
static std::string num(long long m, int style) { char b[64]; std::snprintf(b, sizeof b, style == 1 ? "%.6e" : style == 2 ? " %.3f" : "%.3f", m / 1000.0); return b; }
static void writeCsv(const std::string &f, const std::vector<std::vector<long long>> &rows, bool bom, bool crlf, const std::string &tail, int style)
{
  std::ofstream o(f, std::ios::binary);
  if (bom) o << "\xEF\xBB\xBF";
  for (size_t r = 0; r < rows.size(); r++) {
    for (size_t c = 0; c < rows[r].size(); c++) o << (c ? "," : "") << num(rows[r][c], style);
    if (r + 1 < rows.size()) o << (crlf ? "\r\n" : "\n");
  }
  if (tail == "nl") o << (crlf ? "\r\n" : "\n");
  if (tail == "empty") o << "\n\n";
}
static std::string nested(const std::vector<V> &m, double s)
{ std::string r = "["; for (size_t i = 0; i < m.size(); i++) { r += i ? ",[" : "["; for (size_t k = 0; k < m[i].size(); k++) r += (k ? "," : "") + std::to_string(sc(m[i][k], s)); r += "]"; } return r + "]"; }
template <size_t R, size_t C> std::vector<V> matrix(const fs::path &f)
{ slide::Matrix<double, R, C> m{}; slide::loadCSV_mat(f, m); std::vector<V> r; for (auto &row : m) r.emplace_back(row.begin(), row.end()); return r; }
static slide::XYdata_vv curve(const V &x, const V &y) { slide::XYdata_vv c; c.x = x; c.y = y; return c; }

static std::string scratch;
static void cleanup() { if (!scratch.empty()) { chdir("/"); std::error_code ec; fs::remove_all(scratch, ec); } }

int main(int argc, char **argv)
{
  std::ios::sync_with_stdio(false);
  char tmpl[] = "/tmp/vutil.XXXXXX"; scratch = mkdtemp(tmpl); std::atexit(cleanup);
  chdir(scratch.c_str()); fs::create_directories("data"); fs::create_directories("results");
  std::string line; std::ostream out(std::cout.rdbuf());
  std::unique_ptr<Histogram<>> hist; std::vector<size_t> was; long long hn = 0, added = 0;
  int files = 0;
  while (std::getline(std::cin, line)) {
    if (line.empty() || line[0] == '#') continue;
    std::istringstream is(line); std::string op; is >> op;
    Quiet quiet; J j; j.t("op", op);
    if (op == "build") {
    } else if (op == "lin") { // interpolation of the points X/den, Y/1000 at q/den, moved by some last places
      std::string kind, xs, ys, qs; double den; int ulp, bound, fixed; is >> kind >> den >> xs >> ys >> qs >> ulp >> bound >> fixed;
      auto X = ints(xs), Y = ints(ys); V x = over(X, den), y = over(Y, 1000);
      const bool nan = qs == "nan"; double q = nan ? std::nan("") : std::stoll(qs) / den;
      for (int k = 0; k < std::abs(ulp); k++) q = std::nextafter(q, ulp > 0 ? 1e300 : -1e300);
      j.t("k", kind).ints("X", X).ints("Y", Y).i("q", nan ? 0 : std::stoll(qs)).b("nan", nan).i("ulp", ulp).b("bound", bound).b("fix", fixed);
      Padded px(x), py(y); auto sx = px.span(), sy = py.span(); const int n = (int)x.size();
      if (kind == "vec") lin(j, x, y, n, q, bound, fixed);
      else if (kind == "span") lin(j, sx, sy, n, q, bound, fixed);
      else if (kind == "part") { V xx = x, yy = y; for (int k = 1; k < 4; k++) { xx.push_back(x.back() + k * 1000); yy.push_back(777); } lin(j, xx, yy, n, q, bound, fixed); } // the arrays are longer than the data
      else if (kind == "fd") { slide::FixedData<double> fx(x[0], n > 1 ? x[1] - x[0] : 1, n); lin(j, fx, sy, n, q, bound, fixed); }
      else if (kind == "xyv") { slide::XYdata_vv c(x, y); viaXY(j, c, q, bound); }
      else if (kind == "xys") { slide::XYdata_ss c(sx, sy); viaXY(j, c, q, bound); }
      else if (kind == "xyf") { slide::FixedData<double> fx(x[0], n > 1 ? x[1] - x[0] : 1, n); slide::XYdata_fv c; c.x = fx; c.y = y; if (fixed) c.check_is_fixed(); viaXY(j, c, q, bound); }
      else return 3;
    } else if (op == "hist") {
      long long lo, hi, n; double den; is >> lo >> hi >> n >> den; hn = n; added = 0;
      hist = n ? std::make_unique<Histogram<>>(lo / den, hi / den, (int)n) : std::make_unique<Histogram<>>();
      was.assign(hist->viewBinValues().begin(), hist->viewBinValues().end());
      V edges; { auto e = hist->getEdgeValues(); for (size_t k = 0; k < e.size(); k++) edges.push_back(e[(int)k]); }
      j.i("lo", lo).i("hi", hi).i("n", n).i("den", (long long)den).i("bins", (long long)hist->size()).ints("edges", scs(edges, 1e6));
    } else if (op == "add") {
      std::string v; double den; is >> v >> den;
      const double x = v == "inf" ? INFINITY : v == "-inf" ? -INFINITY : v == "huge" ? 1e300 : v == "-huge" ? -1e300 : v == "big" ? 1e12 : v == "-big" ? -1e12 : std::stoll(v) / den;
      hist->add(x); added++;
      std::vector<long long> ch; size_t k = 0; long long tot = 0;
      for (auto b : hist->viewBinValues()) { if (b != was[k]) { ch.push_back((long long)k); ch.push_back((long long)b - (long long)was[k]); was[k] = b; } tot += b; k++; }
      const bool sym = v.back() > '9'; j.t("sym", sym ? v : "").i("v", sym ? 0 : std::stoll(v)).i("den", sym ? 0 : (long long)den).ints("ch", ch).i("tot", tot).i("added", added);
    } else if (op == "show") { // what is printed of a histogram
      std::ostringstream o; o.precision(12); o << *hist; std::istringstream in(o.str()); std::string l1, l2, l3, l4; std::getline(in, l1); std::getline(in, l2); std::getline(in, l3); std::getline(in, l4);
      V e, b; for (auto &x : Parser::split(l2, ',')) if (!x.empty()) e.push_back(std::stod(x)); for (auto &x : Parser::split(l4, ',')) if (!x.empty()) b.push_back(std::stod(x));
      std::vector<long long> now; for (auto x : hist->viewBinValues()) now.push_back((long long)x);
      j.t("t1", l1).t("t2", l3).ints("edges", scs(e, 1e6)).ints("bins", scs(b, 1)).ints("now", now);
    } else if (op == "grid") {
      std::string kind; long long a, b, n; double den; is >> kind >> a >> b >> n >> den;
      V v, w; double front = 0, back = 0, pv = 0, nx = 0; int thr = 0; long long size = 0; const double A = a / den, B = b / den;
      auto take = [&](slide::FixedData<double> f) {
        size = (long long)f.size(); for (int k = 0; k < (int)f.size(); k++) v.push_back(f[k]); for (auto x : f) w.push_back(x);
        if (size) { front = f.front(); back = f.back(); pv = f.prev(f[(int)size / 2]); nx = f.next(f[(int)size / 2]); }
        slide::FixedData<double, false> g(A, B, (int)n); for (int k : { -1, (int)n }) try { g[k]; } catch (const std::out_of_range &) { thr++; } for (int k = 0; k < (int)n; k++) try { g[k]; } catch (const std::out_of_range &) { thr = -99; }
      };
      if (kind == "linspace") { v = w = slide::linspace(A, B, (int)n); size = (long long)v.size(); if (size) front = v.front(), back = v.back(); thr = 2; }
      else if (kind == "array") { auto z = slide::linspace<7>(A, B); v.assign(z.begin(), z.end()); w = v; size = 7; front = v.front(); back = v.back(); thr = 2; }
      else if (kind == "linspace_fix") take(slide::linspace_fix(A, B, (int)n));
      else if (kind == "linstep_fix") take(slide::linstep_fix(A, B, (int)n));
      else if (kind == "logstep_fix") take(slide::logstep_fix(A, B, (int)n));
      else if (kind == "range_fix") { take(slide::range_fix(A, B, n / den)); }
      else return 3;
      j.t("k", kind).i("a", a).i("b", b).i("n", n).i("den", (long long)den).i("size", size).ints("v", scs(v, 1e6)).b("same", v == w).i("front", sc(front, 1e6)).i("back", sc(back, 1e6)).i("pv", sc(pv, 1e6)).i("nx", sc(nx, 1e6)).i("thr", thr);
    } else if (op == "csv") {
      std::string loader, tail, text; int bom, crlf, n, style; is >> loader >> bom >> crlf >> tail >> style >> n >> text;
      std::vector<std::vector<long long>> rows; if (text != "-" && text != "missing") for (auto &r : Parser::split(text, ';')) if (!r.empty()) rows.push_back(ints(r));
      static fs::path f; if (loader != "again") { f = fs::path("data") / ("d" + std::to_string(files / 2)); fs::create_directories(f); f /= files % 2 ? "b.csv" : "a.csv"; files++; } // many files of the same name
      static std::vector<std::vector<long long>> last; if (loader == "again") rows = last; else { last = rows; if (text != "missing") writeCsv(f.string(), rows, bom, crlf, tail, style); }
      std::vector<V> got; int ex = 0; long long d0 = -1, d1 = -1;
      try {
        if (loader == "vec") { V x(9, 5), y(7, 6); slide::loadCSV_2col(f, x, y, n); for (size_t k = 0; k < x.size(); k++) got.push_back({ x[k], y.at(k) }); d0 = (long long)x.size(); d1 = (long long)y.size(); }
        else if (loader == "xyv") { slide::XYdata_vv c(4); slide::loadCSV_2col(f, c, n); for (size_t k = 0; k < c.x.size(); k++) got.push_back({ c.x[k], c.y.at(k) }); d0 = (long long)c.x.size(); d1 = (long long)c.y.size(); }
        else if (loader == "arr") { struct { std::array<double, 6> x; double g1; std::array<double, 6> y; double g2; } z; z.x.fill(-4.5); z.y.fill(-4.5); z.g1 = z.g2 = -4.5; slide::loadCSV_2col(f, z.x, z.y, n); for (size_t k = 0; k < 6 && !(z.x[k] == -4.5 && z.y[k] == -4.5); k++) got.push_back({ z.x[k], z.y[k] }); d0 = z.g1 == -4.5 ? 6 : -2; d1 = z.g2 == -4.5 ? 6 : -2; }
        else if (loader == "span" || loader == "again") { std::span<double> x, y; slide::loadCSV_2col(f, x, y, n); d0 = (long long)x.size(); d1 = (long long)y.size(); if (d0 == d1 && d0 < 5000) for (size_t k = 0; k < x.size(); k++) got.push_back({ x[k], y[k] }); }
        else if (loader == "mat32") got = matrix<3, 2>(f), d0 = 3, d1 = 2;
        else if (loader == "mat23") got = matrix<2, 3>(f), d0 = 2, d1 = 3;
        else if (loader == "col4") { std::array<double, 4> x{}; slide::loadCSV_1col(f, x); for (double q : x) got.push_back({ q }); d0 = 4; d1 = 1; }
        else if (loader == "ncol") { slide::DynamicMatrix<double> m; slide::loadCSV_Ncol(f, m, n); d0 = m.cols(); d1 = m.rows(); if ((long long)m.data.size() == d0 * d1) for (int r = 0; r < m.cols(); r++) { V q; for (int c = 0; c < m.rows(); c++) q.push_back(m(c, r)); got.push_back(q); } }
        else return 3;
      } catch (int e) { ex = e; } catch (...) { ex = -1; }
      if (loader != "span" && loader != "again") { std::error_code ec; fs::remove(f, ec); } else if (loader == "again") { std::error_code ec; fs::remove(f, ec); }
      std::vector<V> want; for (auto &r : rows) want.push_back(over(r, 1));
      j.t("k", loader).b("missing", text == "missing").i("n", n).raw("rows", nested(want, 1)).raw("got", nested(got, 1000)).i("exc", ex).i("d0", d0).i("d1", d1);
    } else if (op == "models") { // how many ageing models fit
      int n; is >> n; int refused = 0; DEG_ID d; d.SEI_id.add_model(0); std::vector<long long> got;
      for (int k = 1; k <= n; k++) try { d.CS_id.add_model((DEG_ID::data_t)(1 + k % 5)); } catch (...) { refused++; }
      for (auto m : d.CS_id) got.push_back(m);
      j.i("n", n).i("refused", refused).i("len", DEG_ID::len).ints("got", got).i("none", (long long)(d.SEI_id.end() - d.SEI_id.begin())).i("after", d.CS_diffusion);
    } else if (op == "valid") { // is it an open circuit voltage curve? x in 1e-6, y in 1e-3
      int check; std::string xs, ys; is >> check >> xs >> ys; auto X = ints(xs), Y = ints(ys); auto c = curve(over(X, 1e6), over(Y, 1e3));
      j.b("check", check).ints("X", X).ints("Y", Y).b("ok", slide::validOCV(check, c));
    } else if (op == "ocvin") { // three curves from files
      std::string t[3][2]; for (auto &r : t) is >> r[0] >> r[1]; int ex = 0; std::vector<V> got[3];
      const char *nm[3] = { "pos.csv", "neg.csv", "cell.csv" }; std::string raw = "[";
      for (int k = 0; k < 3; k++) { auto X = ints(t[k][0]), Y = ints(t[k][1]); std::error_code ec; fs::remove(fs::path("data") / nm[k], ec);
        if (!X.empty()) { std::vector<std::vector<long long>> r; for (size_t q = 0; q < X.size(); q++) r.push_back({ X[q], Y[q] }); writeCsv(std::string("data/") + nm[k], r, k == 1, false, "nl", 0); }
        J a; a.ints("X", X).ints("Y", Y); raw += (k ? "," : "") + a.str(); }
      slide::XYdata_vv c[3]; try { slide::readOCVinput(nm[0], nm[1], nm[2], c[0], c[1], c[2]); } catch (int e) { ex = e; } catch (...) { ex = -1; }
      std::string g = "["; for (int k = 0; k < 3; k++) { J a; a.ints("X", scs(c[k].x, 1e3)).ints("Y", scs(c[k].y, 1e3)); g += (k ? "," : "") + a.str(); }
      j.raw("in", raw + "]").i("exc", ex).raw("got", g + "]");
    } else if (op == "rmse") { // x in 1e-3, y in 1e-3
      int bound; std::string x1, y1, x2, y2; is >> bound >> x1 >> y1 >> x2 >> y2; auto X1 = ints(x1), Y1 = ints(y1), X2 = ints(x2), Y2 = ints(y2);
      auto a = curve(over(X1, 1e3), over(Y1, 1e3)), b = curve(over(X2, 1e3), over(Y2, 1e3));
      j.b("bound", bound).ints("X1", X1).ints("Y1", Y1).ints("X2", X2).ints("Y2", Y2).i("r", sc(slide::calculateError(bound, a, b), 1e6));
    } else if (op == "dis") { // slow discharge: electrode curves (x in 1e-3, y in mV), capacities of cell and electrodes [mAh], start fractions 1e-6, end voltage mV
      std::string xp, yp, xn, yn; double cap, Qp, Qn, sp, sn, ve; is >> xp >> yp >> xn >> yn >> cap >> Qp >> Qn >> sp >> sn >> ve;
      auto Xp = ints(xp), Yp = ints(yp), Xn = ints(xn), Yn = ints(yn); auto cp = curve(over(Xp, 1e3), over(Yp, 1e3)), cn = curve(over(Xn, 1e3), over(Yn, 1e3));
      const double cmp = 51385, cmn = 30555; const double AMp = Qp / 1e3 * 3600 / (PhyConst::F * cmp), AMn = Qn / 1e3 * 3600 / (PhyConst::F * cmn);
      slide::XYdata_vv O, A, C; double fp[3]{}, fn[3]{}; int ex = 0;
      try { slide::discharge(cp, cn, cap / 1e3, AMp, AMn, cmp, cmn, sp / 1e6, sn / 1e6, ve / 1e3, O, A, C, fp, fn); } catch (int e) { ex = e; } catch (...) { ex = -1; }
      j.ints("Xp", Xp).ints("Yp", Yp).ints("Xn", Xn).ints("Yn", Yn).i("cap", (long long)cap).i("Qp", (long long)Qp).i("Qn", (long long)Qn).i("sp", (long long)sp).i("sn", (long long)sn).i("ve", (long long)ve).i("exc", ex);
      j.ints("ah", scs(O.x, 1e8)).ints("v", scs(O.y, 1e6)).ints("ax", scs(A.x, 1e8)).ints("ay", scs(A.y, 1e6)).ints("cx", scs(C.x, 1e8)).ints("cy", scs(C.y, 1e6)).ints("fp", scs({ fp[0], fp[1], fp[2] }, 1e8)).ints("fn", scs({ fn[0], fn[1], fn[2] }, 1e8));
    } else { std::cerr << "unknown " << op << "\n"; return 3; }
    out << j.str() << "\n" << std::flush;
  }
}
