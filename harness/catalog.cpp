// C23: source catalogs built from tables
#include "vp.h"
#include "SourceCatalog/Catalog.h"
#include "SourceCatalog/CatalogFromTable.h"
#include "SourceCatalog/PhotometryParsingException.h"
#include "SourceCatalog/SourceAttributes/Coordinates.h"
#include "SourceCatalog/SourceAttributes/PdfFromRow.h"
#include "SourceCatalog/SourceAttributes/PhotometryAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/TableRowAttribute.h"
#include "SourceCatalog/SourceAttributes/TableRowAttributeFromRow.h"
#include <cmath>
using namespace Euclid::SourceCatalog;
namespace T = Euclid::Table;
using Cell  = T::Row::cell_type;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN(), Inf = std::numeric_limits<double>::infinity();
using Id = Source::id_type;

std::string show(const Id& id) {
  std::ostringstream o;
  o << id;
  return o.str();
}
// what a cell of flux and error should give
struct Options {
  bool   missing, upper;
  double missing_flag, upper_flag;
};
struct Expect {
  bool   refused = false;
  double flux = 0, error = 0;
  bool   missing = false, upper = false;
};
Expect expected(const Options& o, double flux, double error, float n, bool mag) {
  Expect e;
  if (mag) {
    if (flux == o.missing_flag || std::isnan(flux)) {
      flux  = o.missing_flag;
      error = 0;
    } else {
      double m = flux;
      flux     = 3.631e9 * std::pow(10., -0.4 * m);
      if (error != o.upper_flag) {
        error = 0.4 * std::log(10.) * flux * error;
      }
    }
  }
  e.flux = flux;
  if (std::isinf(flux) || (!o.missing && std::isnan(flux))) {
    e.refused = true;
  } else if (o.missing && (flux == o.missing_flag || std::isnan(flux))) {
    e.missing = true;
    e.error   = 0;
  } else if (error == 0 || (error < 0 && (!o.upper || flux <= 0))) {
    e.refused = true;
  } else if (error < 0) {
    e.upper = true;
    e.error = error == o.upper_flag ? std::fabs(flux / n) : -error;
  } else {
    e.error = error;
  }
  return e;
}
bool near(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b)) || std::fabs(a - b) <= 1e-12 * std::fabs(b);
}
double fluxOf(vp::Rng& r, const Options& o, bool mag) {
  if (r.chance(0.02)) {
    return r.chance(0.5) ? Inf : -Inf;
  }
  if (r.chance(0.05)) {
    // next to the flag, or far away
    return r.chance(0.5) ? o.missing_flag * (r.chance(0.5) ? 0.999 : 1.001) : mag ? r.real(-500, 500) : r.real(0, 1) * std::pow(10., r.in(-30, 30));
  }
  switch (r.below(10)) {
  case 0:
    return o.missing_flag;
  case 1:
    return NaN;
  case 2:
    return 0;
  case 3:
    return -r.real(0, 10);
  case 4:
    return o.upper_flag;
  default:
    return mag ? r.real(10, 30) : r.real(0, 1) * std::pow(10., r.in(-10, 10));
  }
}
double errorOf(vp::Rng& r, const Options& o) {
  if (r.chance(0.08)) {
    return r.chance(0.5) ? o.upper_flag * (r.chance(0.5) ? 0.999 : 1.001) : (r.chance(0.5) ? 1 : -1) * std::pow(10., r.in(-30, 30));
  }
  switch (r.below(10)) {
  case 0:
    return o.upper_flag;
  case 1:
    return r.chance(0.3) ? 0 : 0.5;
  case 2:
  case 3:
    return -r.real(0.001, 10);
  default:
    return r.real(0.001, 10);
  }
}
Options options(vp::Rng& r) {
  return Options{r.chance(0.5), r.chance(0.5), r.pick(std::vector<double>{-99, -1e10, 1.12345e-12}), r.pick(std::vector<double>{-99, -98, -1e6})};
}
struct Filters {
  std::vector<std::pair<std::string, std::pair<std::string, std::string>>> mapping;
  std::vector<std::pair<std::string, float>>                               n;
  std::vector<std::pair<std::string, bool>>                                mag;
  bool                                                                     any_mag = false;
};
}  // namespace

VP_SCENARIO(catalogs, 4) {
  // the table: identifiers, fluxes and errors, redshift, PDF, in any order of columns
  Options o = options(rng);
  Filters f;
  size_t  nf = rng.chance(0.05) ? rng.in(6, 40) : rng.in(1, 5);
  bool    give_mag = rng.chance(0.5);
  for (size_t i = 0; i < nf; ++i) {
    std::string name = (rng.chance(0.1) ? std::string(rng.in(10, 100), 'B') : "band") + std::to_string(i) + (rng.chance(0.5) ? "/x" : "");
    f.mapping.push_back({name, {"F" + std::to_string(i), "E" + std::to_string(i)}});
    f.n.push_back({name, float(rng.pick(std::vector<double>{1, 3, 5, 2.5, 0.1, 1e-3, 1000, 1.0001}))});
    f.mag.push_back({name, give_mag && rng.chance(0.5)});
    f.any_mag = f.any_mag || f.mag.back().second;
  }
  rng.shuffle(f.mapping);
  for (size_t i = 0; i < nf; ++i) {
    f.n[i].first = f.mag[i].first = f.mapping[i].first;
  }
  struct Col {
    std::string     name;
    std::type_index type;
  };
  int              id_kind = rng.below(3);
  int              type    = rng.below(3);  // of the numbers: double, float, string
  std::type_index  number  = type == 0 ? std::type_index(typeid(double)) : type == 1 ? std::type_index(typeid(float)) : std::type_index(typeid(std::string));
  std::vector<Col> cols{{"id", id_kind == 0 ? std::type_index(typeid(int32_t)) : id_kind == 1 ? std::type_index(typeid(int64_t)) : std::type_index(typeid(std::string))}, {"z", number}, {"dz", number}, {"pdf", typeid(std::vector<double>)}, {"noise", typeid(int32_t)}};
  for (size_t i = 0; i < nf; ++i) {
    cols.push_back({"F" + std::to_string(i), number});
    cols.push_back({"E" + std::to_string(i), number});
  }
  rng.shuffle(cols);
  std::vector<T::ColumnInfo::info_type> infos;
  for (auto& c : cols) {
    infos.push_back(T::ColumnInfo::info_type(c.name, c.type));
  }
  auto info = std::make_shared<T::ColumnInfo>(infos);
  auto cell = [&](double v, double& used) -> Cell {
    if (type == 1) {
      used = float(v);
      return Cell{float(v)};
    }
    used = v;
    if (type == 0) {
      return Cell{v};
    }
    std::ostringstream s;
    s.precision(17);
    s << v;
    return Cell{s.str()};
  };
  struct Src {
    Id                  id;
    double              z, dz;
    std::vector<double> pdf, flux, error;
    T::Row              row;
  };
  std::vector<Src>    srcs;
  std::vector<T::Row> rows;
  std::set<std::string> ids;
  bool                refused = false;
  // how many sources may be refused
  bool risky = rng.chance(0.3);
  for (size_t n = rng.chance(0.02) ? rng.in(100, 400) : rng.in(1, 12), k = 0; k < n; ++k) {
    std::map<std::string, Cell> m;
    Id                          id;
    int64_t                     num = id_kind == 1 && rng.chance(0.3) ? int64_t(rng.next()) : rng.in(-1000, 1000);
    if (rng.chance(0.1)) {
      num = id_kind == 0 ? rng.pick(std::vector<int64_t>{INT32_MIN, INT32_MAX, INT32_MAX - 1}) : rng.pick(std::vector<int64_t>{INT64_MIN, INT64_MAX, INT64_MAX - 1, int64_t(1) << 53, (int64_t(1) << 53) + 1, int64_t(1) << 32, INT32_MAX});
    }
    if (id_kind == 0) {
      m["id"] = int32_t(num);
      id      = int64_t(int32_t(num));
    } else if (id_kind == 1) {
      m["id"] = num;
      id      = num;
    } else {
      std::string s = (rng.chance(0.1) ? std::string(rng.in(1, 200), 'S') : rng.chance(0.5) ? "src " : rng.chance(0.2) ? "0" : "") + std::to_string(num);
      m["id"]       = s;
      id            = s;
    }
    if (!ids.insert(show(id)).second) {
      continue;
    }
    double z, dz;
    m["z"]     = cell(rng.chance(0.1) ? rng.real(-1e-6, 2000) : rng.real(0, 6), z);
    m["dz"]    = cell(rng.chance(0.1) ? std::pow(10., rng.in(-20, 3)) : rng.real(0, 1), dz);
    std::vector<double> pdf{rng.real(0, 1), rng.real(0, 1), rng.real(0, 1), rng.real(0, 1)};
    m["pdf"]   = pdf;
    m["noise"] = int32_t(k);
    std::vector<double> flux(nf), error(nf);
    for (size_t i = 0; i < nf; ++i) {
      size_t at = 0;
      while (f.mapping[at].second.first != "F" + std::to_string(i)) {
        ++at;
      }
      while (true) {
        Cell cf = cell(fluxOf(rng, o, f.mag[at].second), flux[i]), ce = cell(errorOf(rng, o), error[i]);
        // flags that are no longer exact are another case
        if (type == 1 && (std::fabs(flux[i] / o.missing_flag - 1) < 1e-5 || std::fabs(error[i] / o.upper_flag - 1) < 1e-5) && (flux[i] != o.missing_flag || error[i] != o.upper_flag)) {
          if ((std::fabs(flux[i] / o.missing_flag - 1) < 1e-5 && flux[i] != o.missing_flag) || (std::fabs(error[i] / o.upper_flag - 1) < 1e-5 && error[i] != o.upper_flag)) {
            continue;
          }
        }
        auto e = expected(o, flux[i], error[i], f.n[at].second, f.mag[at].second);
        if (e.refused && !risky) {
          continue;
        }
        refused = refused || e.refused;
        m["F" + std::to_string(i)] = cf;
        m["E" + std::to_string(i)] = ce;
        break;
      }
    }
    std::vector<Cell> cells;
    for (auto& c : cols) {
      cells.push_back(m.at(c.name));
    }
    T::Row row(cells, info);
    rows.push_back(row);
    srcs.push_back(Src{id, z, dz, pdf, flux, error, row});
  }
  T::Table table(rows);
  // the attributes, in any order
  bool with_error = rng.chance(0.7);
  std::vector<std::shared_ptr<AttributeFromRow>> from{
      std::make_shared<PhotometryAttributeFromRow>(info, f.mapping, o.missing, o.missing_flag, o.upper, f.n, o.upper_flag, give_mag ? f.mag : std::vector<std::pair<std::string, bool>>{}),
      with_error ? std::make_shared<SpectroscopicRedshiftAttributeFromRow>(info, "z", "dz") : std::make_shared<SpectroscopicRedshiftAttributeFromRow>(info, "z"),
      std::make_shared<TableRowAttributeFromRow>(),
      std::make_shared<PdfFromRow<double>>(std::map<std::string, std::vector<double>>{{"Z", {0, 1, 2, 3}}}, std::map<std::string, std::string>{{"Z", "pdf"}})};
  rng.shuffle(from);
  CatalogFromTable maker(info, "id", from);
  if (refused) {
    VP_THROWS(maker.createCatalog(table), "bad-photometry-accepted", "photometry");
    vp::cover("refused_photometry");
    return;
  }
  Catalog c = maker.createCatalog(table);
  VP_CHECK(c.size() == srcs.size() && size_t(c.end() - c.begin()) == srcs.size(), "wrong-catalog", c.size() << " sources instead of " << srcs.size());
  auto check = [&](const Source& s, const Src& w) {
    VP_CHECK(s.getId() == w.id, "wrong-source", "source " << show(s.getId()) << " instead of " << show(w.id));
    auto z = s.getAttribute<SpectroscopicRedshift>();
    VP_CHECK(z && z->getValue() == w.z && z->getError() == (with_error ? w.dz : 0.), "wrong-redshift", "of " << show(w.id));
    auto r = s.getAttribute<TableRowAttribute>();
    VP_CHECK(r && r->getRow().size() == w.row.size(), "wrong-row", "of " << show(w.id));
    for (size_t i = 0; i < w.row.size(); ++i) {
      VP_CHECK(r->getRow()[i].type() == w.row[i].type(), "wrong-row", "of " << show(w.id));
      auto d = boost::get<double>(&w.row[i]);
      auto q = boost::get<float>(&w.row[i]);
      VP_CHECK(r->getRow()[i] == w.row[i] || (d && std::isnan(*d)) || (q && std::isnan(*q)), "wrong-row", "cell " << i << " of " << show(w.id));
    }
    VP_CHECK(r->getRow()["id"] == w.row["id"], "wrong-row", "of " << show(w.id));
    auto p = s.getAttribute<Pdf<double>>();
    VP_CHECK(p, "wrong-pdf", "none for " << show(w.id));
    auto& grid = p->getPdf("Z");
    VP_CHECK(grid.size() == 4 && std::equal(grid.begin(), grid.end(), w.pdf.begin()), "wrong-pdf", "of " << show(w.id));
    VP_CHECK(!s.getAttribute<Coordinates>(), "wrong-attribute", "coordinates");
    auto ph = s.getAttribute<Photometry>();
    VP_CHECK(ph && ph->size() == nf && ph->getFilterNames()->size() == nf, "wrong-photometry", "of " << show(w.id));
    const Photometry& cph = *ph;
    auto              it  = cph.begin();
    auto              jt  = ph->begin();
    for (size_t k = 0; k < nf; ++k, ++it, ++jt) {
      size_t i = std::stoul(f.mapping[k].second.first.substr(1));
      auto   e = expected(o, w.flux[i], w.error[i], f.n[k].second, f.mag[k].second);
      auto   g = ph->find(f.mapping[k].first);
      std::ostringstream what;
      what.precision(17);
      what << "band " << f.mapping[k].first << " of " << show(w.id) << ": flux " << w.flux[i] << " error " << w.error[i] << " missing " << o.missing << " " << o.missing_flag << " upper " << o.upper << " " << o.upper_flag << " n " << f.n[k].second << (f.mag[k].second ? " magnitude" : "");
      VP_CHECK(g && near(g->flux, e.flux) && near(g->error, e.error) && g->missing_photometry_flag == e.missing && g->upper_limit_flag == e.upper, "wrong-photometry",
               what.str() << " gives " << (g ? g->flux : 0) << " " << (g ? g->error : 0) << " missing " << (g && g->missing_photometry_flag) << " upper " << (g && g->upper_limit_flag) << " instead of " << e.flux << " " << e.error << " " << e.missing << " " << e.upper);
      VP_CHECK(it.filterName() == f.mapping[k].first && jt.filterName() == f.mapping[k].first && near((*it).flux, e.flux) && near(it->error, e.error) && near(jt->flux, e.flux), "wrong-photometry", "iterator, " << what.str());
      VP_CHECK(it - cph.begin() == ssize_t(k) && it != cph.end() && !(it == cph.end()), "wrong-photometry", "iterator position");
      vp::cover(e.missing ? "missing" : e.upper ? "upper_limits" : "fluxes");
      if (f.mag[k].second) {
        vp::cover("magnitudes");
      }
    }
    VP_CHECK(it == cph.end() && jt == ph->end() && Photometry::const_iterator(jt) == it, "wrong-photometry", "iterator end");
    VP_CHECK(!ph->find("no such band"), "wrong-photometry", "band found");
    vp::cover("sources");
  };
  size_t k = 0;
  for (auto& s : c) {
    check(s, srcs[k++]);
  }
  for (auto& w : srcs) {
    auto s = c.find(w.id);
    VP_CHECK(s, "wrong-source", "not found: " << show(w.id));
    check(*s, w);
    // the same digits as the other kind of identifier
    if (auto n = boost::get<int64_t>(&w.id)) {
      VP_CHECK(!c.find(std::to_string(*n)), "wrong-source", "number found as text");
    }
  }
  for (int q = 0; q < 3; ++q) {
    auto& w = srcs[rng.below(srcs.size())];
    Id    other;
    if (auto n = boost::get<int64_t>(&w.id)) {
      other = int64_t(uint64_t(*n) ^ (uint64_t(1) << rng.below(64)));
    } else {
      auto t = boost::get<std::string>(w.id);
      other  = rng.chance(0.5) ? t + (rng.chance(0.5) ? " " : "0") : t.substr(0, t.size() - 1);
    }
    VP_CHECK(bool(c.find(other)) == (ids.count(show(other)) > 0), "wrong-source", show(other) << " found or not");
  }
  VP_CHECK(!c.find(Id{std::string("nobody")}) && !c.find(Id{int64_t(123456789)}), "wrong-source", "found one that is not there");
  // twice the same
  auto  twice = rows;
  twice.insert(twice.begin() + rng.below(twice.size() + 1), rows[rng.below(rows.size())]);
  VP_THROWS(maker.createCatalog(T::Table(twice)), "duplicate-accepted", "two sources with the same identifier");
  std::string sig;
  for (auto& w : srcs) {
    sig += show(w.id) + " ";
    for (size_t i = 0; i < nf; ++i) {
      sig += std::to_string(w.flux[i]) + "," + std::to_string(w.error[i]) + " ";
    }
  }
  vp::distinct(vp::fnv(sig));
  if (vp::wantSample()) {
    vp::sample(sig);
  }
}
VP_SCENARIO(refusals, 1) {
  auto info = std::make_shared<T::ColumnInfo>(std::vector<T::ColumnInfo::info_type>{{"id", typeid(double)}, {"F", typeid(double)}, {"E", typeid(double)}, {"flag", typeid(bool)}});
  T::Table t({T::Row({Cell{1.}, Cell{2.}, Cell{3.}, Cell{true}}, info)});
  VP_THROWS(CatalogFromTable(info, "no such", {}), "bad-column-accepted", "identifier");
  CatalogFromTable d(info, rng.chance(0.5) ? "id" : "flag", {});
  VP_THROWS(d.createCatalog(t), "bad-id-accepted", "identifier that is neither text nor integer");
  VP_THROWS(PhotometryAttributeFromRow(info, {{"f", {"X", "E"}}}, true, -99, true, {{"f", 3.f}}, -99), "bad-column-accepted", "flux");
  VP_THROWS(PhotometryAttributeFromRow(info, {{"f", {"F", "X"}}}, true, -99, true, {{"f", 3.f}}, -99), "bad-column-accepted", "error");
  VP_THROWS(SpectroscopicRedshiftAttributeFromRow(info, "X", "E"), "bad-column-accepted", "redshift");
  VP_THROWS(SpectroscopicRedshiftAttributeFromRow(info, "F", "X"), "bad-column-accepted", "redshift error");
  VP_THROWS(SpectroscopicRedshiftAttributeFromRow(info, "X"), "bad-column-accepted", "redshift");
  PdfFromRow<double> p({{"Z", {1, 2, 3}}}, {{"Z", "F"}});
  VP_THROWS(p.createAttribute(t[0]), "bad-pdf-accepted", "size");
  VP_THROWS(Photometry(nullptr, {}), "bad-photometry-accepted", "no names");
  VP_THROWS(Photometry(std::make_shared<std::vector<std::string>>(std::vector<std::string>{"a", "b"}), {FluxErrorPair(1, 1)}), "bad-photometry-accepted", "sizes");
  // less thresholds than bands: refused, or all the same not read past their end
  try {
    PhotometryAttributeFromRow less(info, {{"f", {"F", "E"}}, {"g", {"F", "E"}}}, rng.chance(0.5), -99, rng.chance(0.5), {{"f", 3.f}}, -99);
    less.createAttribute(t[0]);
  } catch (const Elements::Exception&) {
  }
  // sources with several attributes of one type give the first
  auto   a = std::make_shared<Coordinates>(1, 2), b = std::make_shared<Coordinates>(3, 4);
  Source s(int64_t(1), {std::make_shared<SpectroscopicRedshift>(5, 6), a, b});
  VP_CHECK(s.getAttribute<Coordinates>() == a && s.getAttribute<Coordinates>()->getRa() == 1 && s.getAttribute<Coordinates>()->getDec() == 2, "wrong-attribute", "first of its type");
  VP_THROWS(Catalog({s, Source(std::string("1"), {}), s}), "duplicate-accepted", "identifier");
  VP_CHECK(Catalog({s, Source(std::string("1"), {})}).size() == 2, "wrong-catalog", "text and number");
  vp::cover("refusals");
}
VP_SCENARIO(pairs, 1) {
  double        f = rng.in(0, 2), e = rng.in(0, 2), g = rng.in(0, 2), h = rng.in(0, 2);
  bool          m = rng.chance(0.3), u = rng.chance(0.3), n = rng.chance(0.3), v = rng.chance(0.3);
  FluxErrorPair a(f, e, m, u), b(g, h, n, v);
  VP_CHECK(a.flux == f && a.error == e && a.missing_photometry_flag == m && a.upper_limit_flag == u, "wrong-pair", "values");
  VP_CHECK((a == b) != (a != b), "wrong-pair", "comparison");
  if (m == n) {
    VP_CHECK((a == b) == (m || (f == g && e == h && u == v)), "wrong-pair", "equal");
    vp::cover("pairs");
  }
}
VP_MAIN()
