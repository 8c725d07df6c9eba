// C32: whatever bytes a dataset, mapping, table or npy file has, reading it ends, with what the bytes say or with an exception
#include "vp.h"
#include "AlexandriaKernel/StringUtils.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/PhotometricBandMappingConfig.h"
#include "NdArray/io/Npy.h"
#include "NdArray/io/NpyMmap.h"
#include "Table/AsciiReader.h"
#include "Table/CastVisitor.h"
#include "XYDataset/AsciiParser.h"
#include "XYDataset/FileSystemProvider.h"
#include <boost/filesystem.hpp>
#include <boost/lexical_cast.hpp>
#include <fstream>
namespace C  = Euclid::Configuration;
namespace X  = Euclid::XYDataset;
namespace T  = Euclid::Table;
namespace ND = Euclid::NdArray;
namespace fs = boost::filesystem;

namespace {
// ---------------------------------------------------------------- hostile texts
double oddness = 0;  // of the case
std::string number(vp::Rng& r) {
  static const std::vector<std::string> odd{"nan", "inf", "-inf", "INFINITY", "1e400", "-1e-400", "0x10", "1e", "+", "-", ".", "1.", ".5", "1,5", "1e5.", "1d5", "--1", "+-1", "00012",
                                            "99999999999999999999", "2147483648", "1e308", "4.9e-324", "1_0", "NaN(1)", "\"1\"", "1\"", "'1'", "<2>1,2", "true"};
  if (r.chance(oddness)) {
    return r.pick(odd);
  }
  std::ostringstream o;
  o.precision(r.in(1, 17));
  o << r.real(-100, 100) * std::pow(10., r.chance(0.2) ? r.in(-30, 30) : 0);
  return o.str();
}
std::string blanks(vp::Rng& r) {
  return r.chance(1 - 2 * oddness) ? " " : r.pick(std::vector<std::string>{"\t", "  ", "\v", " \f", "\r", " \t ", ""});
}
std::string ending(vp::Rng& r) {
  return r.chance(1 - 2 * oddness) ? "\n" : r.pick(std::vector<std::string>{"\r\n", "\n\n", "\r", "", "\n \n", "\n#\n", std::string("\0\n", 2)});
}
std::string word(vp::Rng& r) {
  std::string w;
  for (size_t n = r.chance(0.02) ? 3000 : r.in(1, 8); n > 0; --n) {
    w += char(r.chance(0.9) ? r.in('A', 'z') : r.in(33, 255));
  }
  return w;
}
void damage(vp::Rng& r, std::string& s, const std::string& alphabet) {
  for (size_t n = r.chance(oddness == 0 ? 0.4 : 0.3) ? 0 : r.in(1, 4); n > 0; --n) {
    size_t at = r.below(s.size() + 1);
    switch (r.below(7)) {
    case 0:
      s.insert(at, 1, alphabet[r.below(alphabet.size())]);
      break;
    case 1:
      s.insert(at, 1, char(r.below(256)));
      break;
    case 2:
      if (at < s.size()) {
        s[at] = char(r.below(256));
      }
      break;
    case 3:
      s.erase(at, r.in(1, 4));
      break;
    case 4:
      s.resize(at);
      break;
    case 5:
      if (!s.empty()) {
        size_t from = r.below(s.size()), len = std::min<size_t>(r.in(1, 30), s.size() - from);
        s.insert(at, s.substr(from, len));
      }
      break;
    default:
      s.insert(at, std::string(r.chance(0.05) ? 70000 : r.in(1, 50), alphabet[r.below(alphabet.size())]));
    }
  }
}
std::vector<std::string> linesOf(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream       in(s);
  std::string              l;
  while (std::getline(in, l)) {
    v.push_back(l);
  }
  return v;
}
std::string trim(std::string s) {
  while (!s.empty() && isspace((unsigned char)s.back())) {
    s.pop_back();
  }
  size_t i = 0;
  while (i < s.size() && isspace((unsigned char)s[i])) {
    ++i;
  }
  return s.substr(i);
}
std::vector<std::string> tokens(const std::string& s) {
  std::vector<std::string> v;
  std::istringstream       in(s);
  std::string              t;
  while (in >> t) {
    v.push_back(t);
  }
  return v;
}
bool isNumber(const std::string& t, double* v = nullptr) {
  try {
    double x = boost::lexical_cast<double>(t);
    if (v) {
      *v = x;
    }
    return true;
  } catch (const boost::bad_lexical_cast&) {
    return false;
  }
}
bool same(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b));
}
void put(const std::string& path, const std::string& s) {
  std::ofstream(path, std::ios::binary) << s;
}
std::string shown(const std::string& s) {
  std::ostringstream o;
  for (unsigned char c : s.substr(0, 300)) {
    if (c >= 32 && c < 127) {
      o << c;
    } else {
      o << '\\' << int(c) << ';';
    }
  }
  return o.str();
}
// the shape of an array is that of its elements, without overflow
struct Shaped : boost::static_visitor<bool> {
  template <typename A>
  bool operator()(const A&) const {
    return true;
  }
  template <typename A>
  bool operator()(const ND::NdArray<A>& a) const {
    size_t n = 1;
    for (auto s : a.shape()) {
      if (s > 1000000 || n > 1000000) {
        return false;
      }
      n *= s;
    }
    return n == a.size() && n == size_t(std::distance(a.begin(), a.end()));
  }
};
}  // namespace

// dataset files
VP_SCENARIO(datasets, 4) {
  oddness = rng.pick(std::vector<double>{0, 0, 0.02, 0.15});
  vp::ScratchDir dir;
  std::string    s, path = dir.path + "/file.txt";
  for (size_t n = rng.below(4); n > 0; --n) {
    s += blanks(rng) + "#" + blanks(rng) + (rng.chance(0.5) ? rng.pick(std::vector<std::string>{"NAME", "K", "NAMES", "name", "K K"}) : word(rng)) + blanks(rng) +
         (rng.chance(0.7) ? ":" : "") + blanks(rng) + (rng.chance(0.8) ? word(rng) : "") + blanks(rng) + ending(rng);
  }
  for (size_t n = rng.in(0, 12); n > 0; --n) {
    s += (rng.chance(0.1) ? blanks(rng) : "") + number(rng) + blanks(rng) + number(rng) + (rng.chance(oddness / 5) ? " " + (rng.chance(0.4) ? number(rng) : rng.chance(0.5) ? word(rng) : std::string(1, char(rng.in(33, 126)))) : "") + (rng.chance(0.1) ? " # c" : "") + ending(rng);
  }
  damage(rng, s, "#:\n\r\t .eE-+0\"\\;,!%/=");
  put(path, s);
  // what the bytes say
  bool                                   valid = true, first = true, is_dataset = false;
  std::vector<std::pair<double, double>> want;
  for (auto& l : linesOf(s)) {
    auto t = tokens(trim(l.substr(0, l.find('#'))));
    if (t.empty()) {
      continue;
    }
    double x = 0, y = 0;
    bool   ok = t.size() == 2 && isNumber(t[0], &x) && isNumber(t[1], &y);
    is_dataset = is_dataset || (first && ok);
    first      = false;
    valid      = valid && ok;
    want.push_back({x, y});
  }
  valid = valid && !want.empty();
  std::string params;
  for (auto& l : linesOf(s)) {
    std::string r = trim(l);
    if (r.empty() || r[0] != '#') {
      continue;
    }
    r = trim(r.substr(1));
    if (r.compare(0, 1, "K") != 0) {
      continue;
    }
    r = trim(r.substr(1));
    if (r.empty() || r[0] != ':') {
      continue;
    }
    r = trim(r.substr(1));
    if (!r.empty()) {
      params += (params.empty() ? "" : ";") + r;
    }
  }
  X::AsciiParser p;
  VP_CHECK(p.isDatasetFile(path) == is_dataset, "bytes:kind", (is_dataset ? "not a dataset: " : "a dataset: ") << shown(s));
  // a quote at the beginning of a cell begins a quoted one
  bool quotes = s.find('"') != std::string::npos;
  try {
    auto d = p.getDataset(path);
    VP_CHECK(d && (quotes || valid), "bytes:dataset", "accepted: " << shown(s));
    if (!quotes) {
      VP_CHECK(d->size() == want.size(), "bytes:dataset", d->size() << " points instead of " << want.size() << ": " << shown(s));
      size_t i = 0;
      for (auto& q : *d) {
        VP_CHECK(same(q.first, want[i].first) && same(q.second, want[i].second), "bytes:dataset", "point " << i << " is " << q.first << "," << q.second << ": " << shown(s));
        ++i;
      }
      vp::cover("points", i);
    }
    vp::cover("datasets_read");
  } catch (const vp::Fail&) {
    throw;
  } catch (const std::exception& e) {
    VP_CHECK(quotes || !valid, "bytes:dataset", "refused, " << e.what() << ": " << shown(s));
    vp::cover("datasets_refused");
  }
  std::string k = p.getParameter(path, "K");
  VP_CHECK(k == params, "bytes:parameter", "'" << shown(k) << "' instead of '" << shown(params) << "': " << shown(s));
  vp::cover("parameters", !params.empty());
  std::string name = p.getName(path);
  (void)name;
  // a directory with it
  try {
    X::FileSystemProvider fp(dir.path, std::unique_ptr<X::FileParser>(new X::AsciiParser()));
    auto                  list = fp.listContents("");
    VP_CHECK(list.size() == (is_dataset ? 1 : 0), "bytes:list", list.size() << " datasets listed: " << shown(s));
    if (is_dataset) {
      VP_CHECK(list[0].datasetName() == name, "bytes:list", "listed as " << list[0].qualifiedName() << " but named " << name);
    }
    vp::cover("listed", list.size());
  } catch (const vp::Fail&) {
    throw;
  } catch (const std::exception& e) {
    VP_CHECK(is_dataset, "bytes:list", "refused, " << e.what() << ": " << shown(s));  // the name may be unusable
    vp::cover("names_refused");
  }
  vp::distinct(vp::fnv(s));
  if (vp::wantSample()) {
    vp::sample(shown(s));
  }
}

// mapping files
VP_SCENARIO(mappings, 3) {
  oddness = rng.pick(std::vector<double>{0, 0, 0.02, 0.15});
  vp::ScratchDir dir;
  std::string    s, path = dir.path + "/map.txt";
  for (size_t n = rng.in(0, 8); n > 0; --n) {
    if (rng.chance(0.2)) {
      s += blanks(rng) + "#" + blanks(rng) + word(rng) + "\n";
      continue;
    }
    s += word(rng) + " " + word(rng) + blanks(rng) + word(rng);
    if (rng.chance(0.6)) {
      s += " " + number(rng);
      if (rng.chance(0.6)) {
        s += " " + (rng.chance(0.7) ? std::to_string(rng.below(2)) : number(rng));
      }
    }
    s += rng.chance(0.9) ? "\n" : ending(rng);
  }
  damage(rng, s, "#\n\r\t .e-0");
  put(path, s);
  struct Band {
    std::string n, f, e;
    float       t;
    bool        m;
  };
  std::vector<Band> want;
  bool              valid = true, unclear = false;
  for (auto l : linesOf(s)) {
    l = trim(l);
    if (l.empty()) {
      unclear = true;  // refused today, might as well be skipped
      continue;
    }
    if (l[0] == '#') {
      continue;
    }
    auto t = tokens(l);
    if (l.find('#') != std::string::npos || t.size() < 3 || t.size() > 5) {
      valid = false;
      break;
    }
    Band b{t[0], t[1], t[2], 3, false};
    try {
      size_t end = 0;
      if (t.size() > 3) {
        b.t     = std::stof(t[3], &end);
        unclear = unclear || end != t[3].size();
      }
      if (t.size() > 4) {
        b.m     = std::stoi(t[4], &end);
        unclear = unclear || end != t[4].size();
      }
    } catch (const std::exception&) {
      valid = false;
      break;
    }
    want.push_back(b);
  }
  static long next_id = 1;
  auto&       m       = C::ConfigManager::getInstance(next_id++);
  m.registerConfiguration<C::PhotometricBandMappingConfig>();
  m.closeRegistration();
  C::Configuration::UserValues args;
  args["filter-mapping-file"].value() = boost::any(path);
  args["exclude-filter"].value()      = boost::any(std::vector<std::string>());
  bool        refused                 = false;
  std::string why;
  try {
    m.initialize(args);
  } catch (const std::exception& e) {
    refused = true;
    why     = e.what();
  }
  VP_CHECK(unclear || refused == !valid, "bytes:mapping", (refused ? "refused, " + why : std::string("accepted")) << ": " << shown(s));
  if (!refused && valid) {
    auto& c  = m.getConfiguration<C::PhotometricBandMappingConfig>();
    auto& bm = c.getPhotometricBandMapping();
    auto& tm = c.getUpperLimitThresholdMapping();
    auto& cm = c.getConvertFromMagMapping();
    VP_CHECK(bm.size() == want.size() && tm.size() == want.size() && cm.size() == want.size(), "bytes:mapping", bm.size() << " bands: " << shown(s));
    for (size_t i = 0; i < want.size(); ++i) {
      auto& b = want[i];
      VP_CHECK(bm[i].first == b.n && bm[i].second.first == b.f && bm[i].second.second == b.e && tm[i].first == b.n && same(tm[i].second, b.t) && cm[i].first == b.n && cm[i].second == b.m,
               "bytes:mapping", "band " << i << ": " << shown(s));
    }
    vp::cover("mapped_bands", want.size());
  }
  vp::cover(refused ? "mappings_refused" : "mappings_read");
  vp::distinct(vp::fnv(s));
}

// tables, of any columns
VP_SCENARIO(tables, 4) {
  oddness = rng.pick(std::vector<double>{0, 0, 0.02, 0.15});
  static const std::vector<std::string> types{"bool", "int", "long", "float", "double", "string", "[int]", "[double]", "[int+]", "[double+]", "int64", "nothing"};
  std::string                           s;
  size_t                                nc = rng.in(1, 5);
  std::vector<std::string>              kinds;
  for (size_t i = 0; i < nc; ++i) {
    kinds.push_back(rng.pick(types));
  }
  bool described = rng.chance(0.4);
  if (described) {
    for (size_t i = 0; i < nc; ++i) {
      s += "# Column: n" + std::to_string(i) + " " + kinds[i] + (rng.chance(0.3) ? " (unit)" : "") + (rng.chance(0.3) ? " - a description" : "") + ending(rng);
    }
  } else if (rng.chance(0.7)) {
    s += "#";
    for (size_t i = 0; i < nc; ++i) {
      s += " n" + std::to_string(i);
    }
    s += ending(rng);
    if (rng.chance(0.6)) {
      s += "#";
      for (auto& k : kinds) {
        s += " " + k;
      }
      s += ending(rng);
    }
  }
  for (size_t n = rng.in(0, 8); n > 0; --n) {
    for (size_t i = 0; i < nc; ++i) {
      auto& k = kinds[i];
      s += blanks(rng);
      if (k == "bool") {
        s += rng.pick(std::vector<std::string>{"true", "0", "F", "maybe"});
      } else if (k == "int" || k == "long" || k == "int64") {
        s += rng.chance(0.9) ? std::to_string(rng.in(-1000, 1000)) : number(rng);
      } else if (k[0] == '[' && k.find('+') == std::string::npos) {
        s += number(rng) + "," + number(rng);
      } else if (k[0] == '[') {
        s += "<" + rng.pick(std::vector<std::string>{"2", "1,2", "2,1", "-1", "-1,-2", "-2,-1", "-1,2", "2,-1,-1", "1,1,1,1,2", "99999999", "65536,65536,65536,65536", "65536,65536,65536,65536,2", ""}) + ">1,2";
      } else if (k == "string") {
        s += rng.chance(0.5) ? "\"a b\\\"" + word(rng) + "\"" : word(rng);
      } else {
        s += number(rng);
      }
    }
    s += ending(rng);
  }
  damage(rng, s, "#:\n\r\t .\"\\<>,[]()-");
  std::istringstream in(s);
  size_t             rows = 0, cells = 0;
  try {
    T::AsciiReader r(in);
    if (rng.chance(0.2)) {
      r.setCommentIndicator(rng.pick(std::vector<std::string>{"//", ":", "\""}));
    }
    auto&  info = r.getInfo();
    size_t nd   = info.size();
    while (r.hasMoreRows()) {
      size_t left = r.rowsLeft();
      VP_CHECK(left > 0, "bytes:table", "more rows, but none left: " << shown(s));
      auto t = r.read(rng.in(1, 3));
      VP_CHECK(t.size() <= left && t.size() > 0, "bytes:table", t.size() << " rows of " << left << ": " << shown(s));
      VP_CHECK(size_t(r.rowsLeft()) == left - t.size(), "bytes:table", r.rowsLeft() << " rows left of " << left << ": " << shown(s));
      for (auto& row : t) {
        VP_CHECK(row.size() == nd, "bytes:table", "row of " << row.size() << " cells: " << shown(s));
        for (size_t i = 0; i < nd; ++i) {
          VP_CHECK(std::type_index(row[i].type()) == info.getDescription(i).type, "bytes:table", "cell of another type: " << shown(s));
          VP_CHECK(boost::apply_visitor(Shaped{}, row[i]), "bytes:table", "an array whose shape is not that of its elements: " << shown(s));
          try {
            boost::apply_visitor(T::CastVisitor<std::string>{}, row[i]);
            boost::apply_visitor(T::CastVisitor<std::vector<double>>{}, row[i]);
          } catch (const std::exception&) {
            vp::cover("casts_refused");
          }
          ++cells;
        }
        ++rows;
      }
    }
    vp::cover("tables_read");
  } catch (const vp::Fail&) {
    throw;
  } catch (const std::exception&) {
    vp::cover("tables_refused");
  }
  vp::cover("rows", rows);
  vp::cover("cells", cells);
  vp::distinct(vp::fnv(s));
}

// npy: the elements are only those the bytes have
VP_SCENARIO(arrays, 3) {
  oddness = rng.pick(std::vector<double>{0, 0, 0.02, 0.15});
  vp::ScratchDir      dir;
  std::vector<size_t> shape;
  size_t              n = 1;
  for (size_t k = rng.in(1, 3); k > 0; --k) {
    shape.push_back(rng.in(1, 5));
    n *= shape.back();
  }
  std::vector<float> v;
  for (size_t i = 0; i < n; ++i) {
    v.push_back(float(i) + 0.5f);
  }
  std::ostringstream out;
  ND::writeNpy(out, ND::NdArray<float>(shape, v));
  std::string s = out.str();
  size_t      header = s.find('\n') + 1;
  bool        intact = false;
  if (rng.chance(0.85)) {
    std::string h = s.substr(0, header), body = s.substr(header);
    if (rng.chance(0.5)) {
      // another shape, with the same length of the header
      size_t      a = h.find('(', 10), b = h.find(')', a);
      std::string t = rng.pick(std::vector<std::string>{"4294967296,4294967296", "18446744073709551615,", "-1,", "0,", "", "1,,2", "99999999999999999999999,", "2 3", "3L,", "1e3,", "65536,65536,65536,65536"});
      size_t      old = h.size();
      h               = h.substr(0, a + 1) + t + h.substr(b);
      while (h.size() < old) {
        h.insert(h.size() - 1, " ");
      }
      while (h.size() > old && h[h.size() - 2] == ' ') {
        h.erase(h.size() - 2, 1);
      }
    } else {
      std::string rest = h.substr(6);
      damage(rng, rest, "{}():,'<>|=f48 \n");
      h = h.substr(0, 6) + rest;
    }
    s = h + body;
    if (rng.chance(0.2)) {
      s.resize(rng.below(s.size() + 1));
    }
  } else {
    intact = true;
  }
  auto judge = [&](const ND::NdArray<float>& a) {
    size_t prod = 1;
    for (size_t d : a.shape()) {
      prod *= d;
    }
    VP_CHECK(prod == a.size() && a.size() * 4 <= s.size(), "bytes:npy", a.size() << " elements from " << s.size() << " bytes: " << shown(s));
    float sum = 0;
    for (float x : a) {
      sum += x;
    }
    VP_CHECK(!intact || (a.shape() == shape && std::vector<float>(a.begin(), a.end()) == v), "bytes:npy", "changed");
    vp::cover("elements", a.size());
  };
  for (int mapped = 0; mapped < 2; ++mapped) {
    try {
      if (mapped) {
        put(dir.path + "/a.npy", s);
        judge(ND::mmapNpy<float>(dir.path + "/a.npy", boost::iostreams::mapped_file_base::readonly));
      } else {
        std::istringstream in(s);
        judge(ND::readNpy<float>(in));
      }
      vp::cover("arrays_read");
    } catch (const vp::Fail&) {
      throw;
    } catch (const std::exception& e) {
      VP_CHECK(!intact, "bytes:npy", "refused: " << e.what());
      vp::cover("arrays_refused");
    }
  }
  vp::distinct(vp::fnv(s));
}

// lists of numbers
VP_SCENARIO(lists, 2) {
  oddness = rng.pick(std::vector<double>{0, 0, 0.02, 0.15});
  std::string s;
  for (size_t n = rng.in(1, 8); n > 0; --n) {
    s += number(rng) + (n > 1 ? rng.pick(std::vector<std::string>{",", " ", ", "}) : "");
  }
  damage(rng, s, ", .e-0;");
  // the parts, where there is no doubt about them
  bool                     doubt = trim(s).empty();
  std::vector<std::string> parts;
  {
    std::string t = trim(s), cur;
    for (char c : t) {
      if (c == ',' || c == ' ') {
        doubt = doubt || (cur.empty() && parts.empty());
        if (!cur.empty()) {
          parts.push_back(cur);
        }
        cur.clear();
      } else {
        doubt = doubt || isspace((unsigned char)c);
        cur += c;
      }
    }
    doubt = doubt || cur.empty();
    if (!cur.empty()) {
      parts.push_back(cur);
    }
  }
  bool                valid = true;
  std::vector<double> want;
  for (auto& p : parts) {
    double x = 0;
    valid    = isNumber(p, &x) && valid;
    want.push_back(x);
  }
  try {
    auto v = Euclid::stringToVector<double>(s);
    VP_CHECK(doubt || valid, "bytes:list-of-numbers", "accepted: " << shown(s));
    VP_CHECK(doubt || v.size() == want.size(), "bytes:list-of-numbers", v.size() << " numbers: " << shown(s));
    for (size_t i = 0; i < v.size() && !doubt; ++i) {
      VP_CHECK(same(v[i], want[i]), "bytes:list-of-numbers", "number " << i << " of " << shown(s));
    }
    vp::cover("lists_read");
  } catch (const vp::Fail&) {
    throw;
  } catch (const std::exception&) {
    VP_CHECK(doubt || !valid, "bytes:list-of-numbers", "refused: " << shown(s));
    vp::cover("lists_refused");
  }
  vp::distinct(vp::fnv(s));
}
VP_MAIN()
