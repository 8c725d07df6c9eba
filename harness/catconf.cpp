// C25: the catalog configurations: from options and files to the catalog the user described
#include "vp.h"
#include "Table/FitsWriter.h"
#include "Configuration/CatalogConfig.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/PdfCatalogConfig.h"
#include "Configuration/PhotometricBandMappingConfig.h"
#include "Configuration/PhotometryCatalogConfig.h"
#include "Configuration/SpecZCatalogConfig.h"
#include "SourceCatalog/SourceAttributes/PdfFromRow.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshift.h"
#include "Table/AsciiWriter.h"
#include "Table/Table.h"
#include <boost/filesystem.hpp>
#include <fstream>
namespace C  = Euclid::Configuration;
namespace T  = Euclid::Table;
namespace S  = Euclid::SourceCatalog;
namespace po = boost::program_options;
namespace fs = boost::filesystem;
using Cell   = T::Row::cell_type;

namespace {
const double NaN = std::numeric_limits<double>::quiet_NaN();

struct Seen : S::Attribute {
  explicit Seen(double v) : value(v) {}
  double value;
};
struct SeenFromRow : S::AttributeFromRow {
  std::string column;
  explicit SeenFromRow(std::string c) : column(std::move(c)) {}
  std::unique_ptr<S::Attribute> createAttribute(const T::Row& row) override {
    return std::unique_ptr<S::Attribute>(new Seen(boost::get<double>(row[column])));
  }
};

// what the user's own configuration does
struct Setup {
  bool        set_base = false;
  std::string base;
  bool        own = false;  // adds an attribute of its own
  bool        pdf = false, pdf2 = false;
  std::vector<double> keys;
  std::string wrong;
};
Setup* setup = nullptr;

struct Own : C::Configuration {
  explicit Own(long id) : C::Configuration(id) {
    declareDependency<C::CatalogConfig>();
    declareDependency<C::PhotometricBandMappingConfig>();
    if (setup->pdf) {
      declareDependency<C::PdfCatalogConfig<double>>();
    }
  }
  void must(bool ok, const char* what) {
    if (!ok && setup->wrong.empty()) {
      setup->wrong = what;
    }
  }
  template <typename F>
  bool throws(F f) {
    try {
      f();
    } catch (const std::exception&) {
      return true;
    }
    return false;
  }
  void preInitialize(const UserValues&) override {
    auto& cat = getDependency<C::CatalogConfig>();
    auto& map = getDependency<C::PhotometricBandMappingConfig>();
    if (setup->set_base) {
      cat.setBaseDir(setup->base);
      map.setBaseDir(setup->base);
    }
    if (setup->pdf) {
      getDependency<C::PdfCatalogConfig<double>>().addPdfColumn("distribution", "pdf", setup->keys);
      if (setup->pdf2) {
        getDependency<C::PdfCatalogConfig<double>>().addPdfColumn("another", "pdf2", {1, 2, 3});
      }
    }
    must(throws([&] { cat.getColumnInfo(); }), "columns given before the initialization");
    must(throws([&] { cat.getFilename(); }), "file given before the initialization");
    must(throws([&] { cat.readAsTable(); }), "table read before the initialization");
    must(throws([&] { map.getPhotometricBandMapping(); }), "bands given before the initialization");
    must(throws([&] { map.getUpperLimitThresholdMapping(); }), "thresholds given before the initialization");
    must(throws([&] { map.getConvertFromMagMapping(); }), "conversions given before the initialization");
  }
  void initialize(const UserValues&) override {
    auto& cat = getDependency<C::CatalogConfig>();
    auto& map = getDependency<C::PhotometricBandMappingConfig>();
    if (setup->own) {
      cat.addAttributeHandler(std::make_shared<SeenFromRow>("extra"));
    }
    must(cat.getColumnInfo() != nullptr, "no columns after the initialization");
    must(throws([&] { cat.readAsTable(); }), "table read before the end of the initialization");
    must(throws([&] { cat.readAsCatalog(); }), "catalog read before the end of the initialization");
    must(throws([&] { cat.getTableReader(); }), "reader given before the end of the initialization");
    must(throws([&] { cat.getTableToCatalogConverter(); }), "converter given before the end of the initialization");
    must(throws([&] { cat.setBaseDir("/elsewhere"); }), "base directory set after the initialization");
    must(throws([&] { map.setBaseDir("/elsewhere"); }), "base directory set after the initialization");
    if (setup->pdf) {
      must(throws([&] { getDependency<C::PdfCatalogConfig<double>>().addPdfColumn("late", "pdf", setup->keys); }), "PDF accepted after the initialization");
    }
  }
};

struct Band {
  std::string name, flux, error;
  bool        has_n, has_mag;
  float       n;
  bool        mag;
};
template <typename V>
void set(C::Configuration::UserValues& v, const std::string& k, V x) {
  v[k].value() = boost::any(x);
}

struct Outcome {
  bool                                           refused = false;
  std::string                                    why;
  C::ConfigManager*                              m = nullptr;
};
}  // namespace

VP_SCENARIO(catalogs, 5) {
  vp::ScratchDir dir;
  // ---------------------------------------------------------------- the catalog
  bool                many = rng.chance(0.05);
  size_t              nb = many ? rng.in(6, 40) : rng.in(0, 5);
  std::vector<Band>   bands;
  for (size_t i = 0; i < nb; ++i) {
    Band b;
    std::string k = std::to_string(i);
    b.name        = rng.pick(std::vector<std::string>{"vis", "g/r", "Band_", "f.l-t", "", "VIS", std::string(70, 'n'), "(a)", "*", "\xc3\xa9"}) + k;
    bool other    = rng.chance(0.2);
    b.flux        = (other ? rng.pick(std::vector<std::string>{"flux.", "1F", "f-", "FLUX_OF_A_BAND_WITH_A_LONG_NAME_"}) : "F") + k;
    b.error       = (other ? b.flux + "_ERR" : "E" + k);
    b.has_n       = rng.chance(0.6);
    b.n           = b.has_n ? rng.pick(std::vector<float>{1, 5, 2.5f, 10, 0.25f, 0.1f, 12345.5f, 1e-5f, 3e10f}) : 3.f;
    b.has_mag     = b.has_n && rng.chance(0.5);
    b.mag         = b.has_mag && rng.chance(0.5);
    bands.push_back(b);
  }
  std::string id_col = rng.chance(0.4) ? "ID" : rng.pick(std::vector<std::string>{"id", "Source", "ID2"});
  std::vector<T::ColumnInfo::info_type> infos;
  std::vector<std::string>              names{id_col, "z", "dz", "pdf", "pdf2", "extra"};
  for (auto& b : bands) {
    names.push_back(b.flux);
    names.push_back(b.error);
  }
  rng.shuffle(names);
  bool text_id = rng.chance(0.3);
  for (auto& n : names) {
    infos.push_back({n, n == id_col ? std::type_index(text_id ? typeid(std::string) : typeid(int64_t))
                                    : n.compare(0, 3, "pdf") == 0 ? std::type_index(typeid(std::vector<double>)) : std::type_index(typeid(double))});
  }
  auto info = std::make_shared<T::ColumnInfo>(infos);
  bool   missing_on = rng.chance(0.5), upper_on = rng.chance(0.5), upper_flag_given = upper_on && rng.chance(0.5);
  double missing_flag = rng.pick(std::vector<double>{-99, 0, -1e5, -1, 99, 0.5, 1e30, -99.5}), upper_flag = upper_flag_given ? rng.pick(std::vector<double>{-77, -99, -1, -0.5, -1e30}) : -99;
  struct Src {
    std::string                   id;
    std::map<std::string, double> v;
    std::vector<double>           pdf, pdf2;
  };
  std::vector<Src>    srcs;
  std::vector<T::Row> rows;
  setup = nullptr;
  Setup su;
  size_t nk = rng.in(2, 5);
  for (size_t i = 0; i < nk; ++i) {
    su.keys.push_back(i * 0.5);
  }
  for (size_t n = rng.chance(0.03) ? 300 : rng.in(1, 8), k = 0; k < n; ++k) {
    Src s;
    s.id = (text_id ? "obj" : "") + std::to_string(100 + int(k) * 7 - 30 * int(rng.below(2)));
    bool twice = false;
    for (auto& o : srcs) {
      twice = twice || o.id == s.id;
    }
    if (twice) {
      continue;
    }
    for (auto& c : names) {
      if (c != id_col && c.compare(0, 3, "pdf") != 0) {
        s.v[c] = rng.in(500, 30000) / 1000.;
      }
    }
    for (auto& b : bands) {
      if (missing_on && rng.chance(0.3)) {
        s.v[b.flux] = rng.chance(0.7) ? missing_flag : NaN;
      } else if (upper_on && rng.chance(0.3)) {
        s.v[b.error] = rng.chance(0.5) ? upper_flag : -rng.in(500, 5000) / 1000.;
      } else if (rng.chance(0.2)) {
        s.v[b.flux] = -s.v[b.flux];
        if (rng.chance(0.3)) {
          // next to the flag is not the flag
          s.v[b.flux] = missing_flag + rng.pick(std::vector<double>{-1, 1}) * 0.001;
          s.v[b.flux] = std::fabs(s.v[b.flux]) < 1e3 ? s.v[b.flux] : 5;
          s.v[b.flux] = std::round(s.v[b.flux] * 1000) / 1000;
          vp::cover("near_flag");
        }
      }
    }
    for (size_t i = 0; i < nk; ++i) {
      s.pdf.push_back(rng.in(1, 1000) / 1000.);
    }
    for (int i = 0; i < 3; ++i) {
      s.pdf2.push_back(rng.in(1, 1000) / 1000.);
    }
    std::vector<Cell> cells;
    for (auto& c : names) {
      if (c == id_col) {
        cells.push_back(text_id ? Cell{s.id} : Cell{int64_t(std::stoll(s.id))});
      } else if (c == "pdf") {
        cells.push_back(s.pdf);
      } else if (c == "pdf2") {
        cells.push_back(s.pdf2);
      } else {
        cells.push_back(s.v[c]);
      }
    }
    srcs.push_back(s);
    rows.push_back(T::Row{cells, info});
  }
  T::Table table{rows};
  su.set_base            = rng.chance(0.8);
  std::string sub        = rng.pick(std::vector<std::string>{"", "sub/", "a b/"});
  su.base                = dir.path + "/base";
  fs::create_directories(su.base + "/" + sub);
  std::string file       = sub + rng.pick(std::vector<std::string>{"cat.txt", "cat", "cat.fits"});
  std::string path       = su.base + "/" + file;
  bool        own_comment = rng.chance(0.3);
  bool        as_fits     = rng.chance(0.25);
  // without base directory, names are those of files in the working directory
  bool absolute = (!su.set_base && as_fits) || rng.chance(0.4);
  struct Go {
    explicit Go(const std::string& d) {
      VP_CHECK(chdir(d.c_str()) == 0, "catconf:directory", "no directory " << d);
    }
    ~Go() {
      if (chdir(vp::st().scratch.c_str()) != 0) {
      }
    }
  };
  fs::create_directories(dir.path + "/elsewhere/" + sub);
  Go go(absolute || su.set_base ? dir.path + "/elsewhere" : su.base);
  if (rng.chance(0.5)) {
    // files of the same name in the working directory, which are not the ones meant
    std::ofstream(dir.path + "/elsewhere/" + file) << "# ID other\n# long double\n1 2\n";
    std::ofstream(dir.path + "/elsewhere/" + sub + "map.txt") << "Other/Filter F E 7\n";
    vp::cover("same_names");
  }
  struct Forget {
    std::string dir;
    ~Forget() {
      CCfits::VpDisk::get().forget(dir);
    }
  } forget{dir.path.substr(dir.path.rfind('/'))};
  if (as_fits) {
    T::FitsWriter(path).addData(table);
    vp::cover("fits_catalogs");
  } else {
    std::ofstream out(path);
    if (own_comment) {
      // the words of a FITS header, but not at the beginning
      out << "# SIMPLE  =                    T\n";
    }
    T::AsciiWriter w(out);
    w.addData(table);
  }
  if (fs::file_size(path) < 80) {
    vp::cover("short_files");
  }
  // ---------------------------------------------------------------- the mapping
  std::vector<std::string> exclude;
  std::set<std::string>    excluded;
  std::string              separator;  // before a line that is added
  {
    std::ofstream out(su.base + "/" + sub + "map.txt");
    auto          gap = [&] { return rng.pick(std::vector<std::string>{" ", "  ", "\t", " \t "}); };
    for (auto& b : bands) {
      if (rng.chance(0.3)) {
        out << rng.pick(std::vector<std::string>{"# a comment", "#a b c", "  # F E N 3 1", "#"}) << "\n";
      }
      out << (rng.chance(0.3) ? gap() : "") << b.name << gap() << b.flux << gap() << b.error;
      if (b.has_n) {
        out << gap() << b.n;
      }
      if (b.has_mag) {
        out << gap() << (b.mag ? 1 : 0);
      }
      out << (rng.chance(0.2) ? gap() : "");
      if (&b != &bands.back() || rng.chance(0.7)) {
        out << (rng.chance(0.1) ? "\r\n" : "\n");
      } else {
        separator = "\n";
        vp::cover("unfinished_line");
      }
      if (rng.chance(0.25)) {
        exclude.push_back(b.name);
        excluded.insert(b.name);
      }
    }
  }
  // a band which is there twice
  bool repeated = !bands.empty() && rng.chance(0.1);
  if (repeated) {
    Band b = rng.pick(bands);
    std::ofstream out(su.base + "/" + sub + "map.txt", std::ios::app);
    b.has_n = b.has_mag = false;
    b.n     = 3;
    b.mag   = false;
    out << separator << b.name << " " << b.flux << " " << b.error << "\n";
    separator = "";
    bands.push_back(b);
    if (!excluded.count(b.name)) {
      exclude.push_back(b.name);
      excluded.insert(b.name);
    }
    vp::cover("repeated_bands");
  }
  if (!exclude.empty() && rng.chance(0.3)) {
    exclude.push_back(exclude[0]);
  }
  rng.shuffle(exclude);
  std::vector<Band> kept;
  for (auto& b : bands) {
    if (!excluded.count(b.name)) {
      kept.push_back(b);
    }
  }
  // ---------------------------------------------------------------- the options
  C::Configuration::UserValues args;
  set<std::string>(args, "input-catalog-file", absolute ? path : file);
  set<std::string>(args, "input-catalog-format", rng.chance(0.6) ? "AUTO" : as_fits ? "FITS" : "ASCII");
  size_t id_index = std::find(names.begin(), names.end(), id_col) - names.begin() + 1;
  if (id_col != "ID" || rng.chance(0.5)) {
    if (rng.chance(0.5)) {
      set<std::string>(args, "source-id-column-name", id_col);
    } else {
      set<int>(args, "source-id-column-index", int(id_index));
    }
  }
  set<std::string>(args, "filter-mapping-file", (absolute ? su.base + "/" : std::string()) + sub + "map.txt");
  set<std::vector<std::string>>(args, "exclude-filter", exclude);
  if (missing_on) {
    set<double>(args, "missing-photometry-flag", missing_flag);
  }
  if (upper_on || rng.chance(0.5)) {
    set<std::string>(args, "enable-upper-limit", upper_on ? "YES" : "NO");
  }
  if (upper_flag_given) {
    set<double>(args, "upper-limit-use-threshod-flag", upper_flag);
  }
  bool with_z = rng.chance(0.6), with_dz = with_z && rng.chance(0.6), with_photometry = rng.chance(0.8);
  auto column = [&](const char* option, const std::string& name) {
    if (rng.chance(0.5)) {
      set<std::string>(args, std::string(option) + "-name", name);
    } else {
      set<int>(args, std::string(option) + "-index", int(std::find(names.begin(), names.end(), name) - names.begin()) + 1);
    }
  };
  if (with_z) {
    column("spec-z-column", "z");
  }
  if (with_dz) {
    column("spec-z-err-column", "dz");
  }
  su.own = rng.chance(0.5);
  su.pdf = rng.chance(0.5);
  su.pdf2 = su.pdf && rng.chance(0.5);
  // ---------------------------------------------------------------- a mistake of the user
  std::string mistake;
  if (rng.chance(0.3)) {
    switch (rng.below(16)) {
    case 0:
      set<std::string>(args, "source-id-column-name", id_col);
      set<int>(args, "source-id-column-index", int(id_index));
      mistake = "both name and index of the identifier";
      break;
    case 1:
      args.erase("source-id-column-name");
      set<int>(args, "source-id-column-index", -int(rng.below(3)));
      mistake = "index of the identifier below one";
      break;
    case 2:
      args.erase("source-id-column-name");
      set<int>(args, "source-id-column-index", int(names.size() + rng.in(1, 3)));
      mistake = "index of the identifier after the last column";
      break;
    case 3:
      args.erase("source-id-column-index");
      set<std::string>(args, "source-id-column-name", "nothing");
      mistake = "identifier in an unknown column";
      break;
    case 4:
      set<std::string>(args, "input-catalog-format", "ascii");
      mistake = "unknown format";
      break;
    case 5:
      set<std::string>(args, "input-catalog-file", path + ".no");
      mistake = "catalog which is not there";
      break;
    case 6:
      set<std::string>(args, "input-catalog-file", su.base);
      mistake = "directory as catalog";
      break;
    case 7:
      set<std::string>(args, "filter-mapping-file", rng.chance(0.5) ? su.base : path + ".no");
      mistake = "no mapping file";
      break;
    case 8:
      exclude.push_back("unknown");
      set<std::vector<std::string>>(args, "exclude-filter", exclude);
      mistake = "unknown band excluded";
      break;
    case 9: {
      std::ofstream out(su.base + "/" + sub + "map.txt", std::ios::app);
      out << separator << rng.pick(std::vector<std::string>{"x y", "x", "x y z 3 0 1", "x y z a3", "x y z 3 yes", "x y # z"}) << "\n";
      mistake = "malformed line of the mapping";
      break;
    }
    case 10:
      if (with_z) {
        set<std::string>(args, "spec-z-column-name", "z");
        set<int>(args, "spec-z-column-index", 1);
        mistake = "both name and index of the redshift";
      }
      break;
    case 11:
      if (with_z) {
        args.erase("spec-z-column-name");
        args.erase("spec-z-column-index");
        mistake = "no redshift";
      }
      break;
    case 12:
      if (with_z) {
        args.erase("spec-z-column-name");
        set<int>(args, "spec-z-column-index", rng.chance(0.5) ? 0 : int(names.size()) + 1);
        mistake = "index of the redshift out of range";
      }
      break;
    case 14:
      if (with_z) {
        args.erase("spec-z-column-index");
        set<std::string>(args, "spec-z-column-name", rng.chance(0.5) ? "nothing" : "Z");
        mistake = "redshift in an unknown column";
      }
      break;
    case 13:
      if (with_z) {
        args.erase("spec-z-err-column-index");
        set<std::string>(args, "spec-z-err-column-name", "nothing");
        if (rng.chance(0.5)) {
          set<std::string>(args, "spec-z-err-column-name", "z");
          set<int>(args, "spec-z-err-column-index", 1);
        }
        mistake = "wrong column of the redshift error";
      }
      break;
    default:
      if (with_z) {
        args.erase("spec-z-err-column-name");
        set<int>(args, "spec-z-err-column-index", rng.chance(0.5) ? 0 : int(names.size()) + 1);
        mistake = "index of the redshift error out of range";
      }
      break;
    }
  }
  // ---------------------------------------------------------------- what happens
  setup = &su;
  static long next_id = 1;
  {
    C::PhotometryCatalogConfig early(next_id++);
    VP_THROWS(early.isMissingPhotometryEnabled(), "catconf:early", "switch asked before the initialization");
    VP_THROWS(early.isUpperLimitEnabled(), "catconf:early", "switch asked before the initialization");
  }
  auto& m = C::ConfigManager::getInstance(next_id++);
  m.registerConfiguration<Own>();
  if (with_photometry) {
    m.registerConfiguration<C::PhotometryCatalogConfig>();
  }
  if (with_z) {
    m.registerConfiguration<C::SpecZCatalogConfig>();
  }
  auto        offered = m.closeRegistration();
  bool        refused = false;
  std::string why;
  for (auto& a : args) {
    if (offered.find_nothrow(a.first, false) == nullptr) {
      VP_CHECK(!with_photometry && (a.first == "missing-photometry-flag" || a.first == "enable-upper-limit" || a.first == "upper-limit-use-threshod-flag"),
               "catconf:options", "option " << a.first << " is not offered");
    }
  }
  try {
    m.initialize(args);
  } catch (const std::exception& e) {
    refused = true;
    why     = e.what();
  }
  VP_CHECK(su.wrong.empty(), "catconf:phases", su.wrong);
  VP_CHECK(refused == !mistake.empty(), "catconf:refusal", (mistake.empty() ? "refused: " + why : "accepted: " + mistake));
  if (refused) {
    vp::cover("refused." + mistake);
    vp::cover("refusals");
    return;
  }
  // the bands
  auto& map = m.getConfiguration<C::PhotometricBandMappingConfig>();
  auto& bm  = map.getPhotometricBandMapping();
  auto& tm  = map.getUpperLimitThresholdMapping();
  auto& cm  = map.getConvertFromMagMapping();
  VP_CHECK(bm.size() == kept.size() && tm.size() == kept.size() && cm.size() == kept.size(), "catconf:bands",
           bm.size() << " bands, " << tm.size() << " thresholds, " << cm.size() << " conversions, instead of " << kept.size());
  for (size_t i = 0; i < kept.size(); ++i) {
    auto& b = kept[i];
    VP_CHECK(bm[i].first == b.name && bm[i].second.first == b.flux && bm[i].second.second == b.error, "catconf:bands", "band " << i << " is " << bm[i].first);
    VP_CHECK(tm[i].first == b.name && tm[i].second == b.n, "catconf:thresholds", "threshold of " << b.name << " is " << tm[i].second << " not " << b.n);
    VP_CHECK(cm[i].first == b.name && cm[i].second == b.mag, "catconf:conversions", "conversion of " << b.name << " is " << cm[i].second);
    vp::cover("bands");
  }
  vp::cover("excluded", excluded.size());
  // the table
  auto& cat = m.getConfiguration<C::CatalogConfig>();
  VP_CHECK(fs::equivalent(cat.getFilename(), path), "catconf:file", "file is " << cat.getFilename() << " instead of " << path);
  VP_CHECK(cat.getIdColumn() == id_col, "catconf:id-column", "identifier in " << cat.getIdColumn());
  auto ci = cat.getColumnInfo();
  VP_CHECK(ci->size() == names.size(), "catconf:columns", "columns: " << ci->size());
  for (size_t i = 0; i < names.size(); ++i) {
    VP_CHECK(ci->getDescription(i).name == names[i], "catconf:columns", "column " << i << " is " << ci->getDescription(i).name);
  }
  auto again = cat.readAsTable();
  VP_CHECK(again.size() == rows.size(), "catconf:table", again.size() << " rows");
  VP_THROWS(cat.addAttributeHandler(std::make_shared<SeenFromRow>("extra")), "catconf:late", "handler accepted at the end");
  VP_THROWS(cat.setBaseDir("/"), "catconf:late", "base directory accepted at the end");
  if (with_photometry) {
    auto& ph = m.getConfiguration<C::PhotometryCatalogConfig>();
    VP_CHECK(ph.isMissingPhotometryEnabled() == missing_on && ph.isUpperLimitEnabled() == upper_on, "catconf:switches",
             "missing " << ph.isMissingPhotometryEnabled() << " upper limits " << ph.isUpperLimitEnabled());
  }
  // the catalog, at once or in pieces
  std::vector<S::Catalog> pieces;
  bool                    at_once = rng.chance(0.5);
  if (at_once) {
    pieces.push_back(cat.readAsCatalog());
  } else {
    auto reader  = cat.getTableReader();
    auto convert = cat.getTableToCatalogConverter();
    while (reader->hasMoreRows()) {
      pieces.push_back(convert(reader->read(rng.in(1, 4))));
    }
    vp::cover("pieces", pieces.size());
  }
  size_t at = 0;
  for (auto& piece : pieces) {
    for (auto& src : piece) {
      VP_CHECK(at < srcs.size(), "catconf:sources", "too many sources");
      auto& s = srcs[at++];
      std::ostringstream id;
      id << src.getId();
      VP_CHECK(id.str() == s.id && (src.getId().which() == (text_id ? 1 : 0) || true), "catconf:id", "source " << id.str() << " instead of " << s.id);
      auto z = src.getAttribute<S::SpectroscopicRedshift>();
      VP_CHECK(bool(z) == with_z, "catconf:redshift", "redshift present: " << bool(z));
      if (z) {
        VP_CHECK(vp::close(z->getValue(), s.v["z"], 1e-9) && vp::close(z->getError(), with_dz ? s.v["dz"] : 0, 1e-9), "catconf:redshift",
                 z->getValue() << " +- " << z->getError() << " instead of " << s.v["z"] << " +- " << s.v["dz"]);
        vp::cover("redshifts");
      }
      auto own = src.getAttribute<Seen>();
      VP_CHECK(bool(own) == su.own && (!own || vp::close(own->value, s.v["extra"], 1e-9)), "catconf:own", "attribute of the user: " << (own ? own->value : 0));
      auto pdf = src.getAttribute<S::Pdf<double>>();
      VP_CHECK(bool(pdf) == su.pdf, "catconf:pdf", "pdf present " << bool(pdf));
      if (pdf) {
        auto& grid = pdf->getPdf("distribution");
        VP_CHECK(std::vector<double>(grid.begin(), grid.end()).size() == nk, "catconf:pdf", "pdf of another size");
        size_t i = 0;
        for (auto it = grid.begin(); it != grid.end(); ++it, ++i) {
          VP_CHECK(vp::close(*it, s.pdf[i], 1e-9) && it.axisValue<0>() == su.keys[i], "catconf:pdf", "pdf at " << i << " is " << *it);
        }
        if (su.pdf2) {
          auto&  g2 = pdf->getPdf("another");
          size_t k  = 0;
          for (auto it = g2.begin(); it != g2.end(); ++it, ++k) {
            VP_CHECK(k < 3 && vp::close(*it, s.pdf2[k], 1e-9) && it.axisValue<0>() == double(k + 1), "catconf:pdf", "second pdf at " << k << " is " << *it);
          }
          VP_CHECK(k == 3, "catconf:pdf", "second pdf of another size");
          vp::cover("second_pdfs");
        } else {
          VP_THROWS(pdf->getPdf("another"), "catconf:pdf", "pdf nobody asked for");
        }
        vp::cover("pdfs");
      }
      auto ph = src.getAttribute<S::Photometry>();
      VP_CHECK(bool(ph) == with_photometry, "catconf:photometry", "photometry present: " << bool(ph));
      if (!ph) {
        continue;
      }
      VP_CHECK(ph->size() == kept.size(), "catconf:photometry", ph->size() << " bands instead of " << kept.size());
      for (auto& b : kept) {
        auto got = ph->find(b.name);
        VP_CHECK(got != nullptr, "catconf:photometry", "no band " << b.name);
        double f = s.v[b.flux], e = s.v[b.error];
        bool   gone = missing_on && (std::isnan(f) || f == missing_flag);
        VP_CHECK(got->missing_photometry_flag == gone, "catconf:missing", "band " << b.name << " missing: " << got->missing_photometry_flag);
        if (gone) {
          vp::cover("missing");
          continue;
        }
        bool   limit = upper_on && e < 0;
        double flux  = b.mag ? 3.631e9 * std::pow(10., -0.4 * f) : f;
        double error = !limit ? (b.mag ? 0.4 * std::log(10.) * flux * e : e) : e == upper_flag ? flux / b.n : b.mag ? -0.4 * std::log(10.) * flux * e : -e;
        VP_CHECK(got->upper_limit_flag == limit, "catconf:limit", "band " << b.name << " upper limit: " << got->upper_limit_flag);
        VP_CHECK(vp::close(got->flux, flux, 1e-6) && vp::close(got->error, error, 1e-6), "catconf:flux",
                 "band " << b.name << " is " << got->flux << " +- " << got->error << " instead of " << flux << " +- " << error);
        vp::cover(limit ? "limits" : b.mag ? "magnitudes" : "fluxes");
      }
    }
  }
  VP_CHECK(at == srcs.size(), "catconf:sources", at << " sources instead of " << srcs.size());
  std::ostringstream what;
  what << vp::show(names) << absolute << with_z << with_photometry << su.pdf << su.own << nb << excluded.size() << missing_on << upper_on;
  vp::distinct(vp::fnv(what.str()));
  if (vp::wantSample()) {
    vp::sample(what.str());
  }
  vp::cover("catalogs");
}

// the format: by the first card of the file, whatever its length and bytes
VP_SCENARIO(formats, 1) {
  vp::ScratchDir dir;
  Setup          su;
  setup            = &su;
  std::string path = dir.path + "/file";
  bool        fits = rng.chance(0.5);
  {
    std::ofstream out(path, std::ios::binary);
    if (fits) {
      out << "SIMPLE  =                    T";
      for (size_t n = rng.pick(std::vector<size_t>{0, 10, 49, 50, 51, 200}); n > 0; --n) {
        out << ' ';
      }
    } else {
      out << rng.pick(std::vector<std::string>{"", "# SIMPLE  =\n", "\n", "# a comment\n\n"}) << "# ID x\n# long double\n\n 12 1.5\n";
      if (rng.chance(0.5)) {
        for (int i = 20; i < 40; ++i) {
          out << i << " " << i << ".5\n";
        }
      }
    }
  }
  static long next_id = -1;
  auto&       m       = C::ConfigManager::getInstance(next_id--);
  m.registerConfiguration<C::CatalogConfig>();
  m.closeRegistration();
  C::Configuration::UserValues args;
  set<std::string>(args, "input-catalog-file", path);
  set<std::string>(args, "input-catalog-format", "AUTO");
  bool to_fits = false;
  try {
    m.initialize(args);
    VP_CHECK(m.getConfiguration<C::CatalogConfig>().readAsTable().size() > 0, "catconf:format", "empty");
  } catch (const CCfits::FitsException&) {
    // the FITS reader does not know the file, it is only a header
    to_fits = true;
  }
  VP_CHECK(to_fits == fits, "catconf:format", "recognised as " << (to_fits ? "FITS" : "ASCII"));
  vp::cover(fits ? "fits_files" : "ascii_files");
}

VP_MAIN()
