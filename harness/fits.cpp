// C30: tables, grids, maps and datasets written to FITS files and read from them, over a stand-in for CCfits
#include "vp.h"
#include "ElementsKernel/Exception.h"
#include "GridContainer/GridContainer.h"
#include "GridContainer/serialize.h"
#include "NdArray/NdArray.h"
#include "SOM/Distance.h"
#include "SOM/SOM.h"
#include "SOM/serialize.h"
#include "Table/FitsReader.h"
#include "Table/FitsWriter.h"
#include "Table/Table.h"
#include "XYDataset/FitsParser.h"
#include "XYDataset/QualifiedName.h"
#include <climits>
#include <typeindex>
namespace Euclid {
namespace SOM {
namespace Distance {
template <std::size_t ND>
struct L9 : L2<ND> {};
}  // namespace Distance
}  // namespace SOM
}  // namespace Euclid
using namespace Euclid::Table;
using Euclid::NdArray::NdArray;
using Cell = Row::cell_type;
namespace {
enum Type { BOOL, INT, LONG, FLOAT, DOUBLE, STRING, VINT, VLONG, VFLOAT, VDOUBLE, AINT, ALONG, AFLOAT, ADOUBLE, NTYPES };
std::type_index typeOf(int t) {
  static const std::type_index all[] = {typeid(bool), typeid(int32_t), typeid(int64_t), typeid(float), typeid(double), typeid(std::string), typeid(std::vector<int32_t>), typeid(std::vector<int64_t>), typeid(std::vector<float>), typeid(std::vector<double>), typeid(NdArray<int32_t>), typeid(NdArray<int64_t>), typeid(NdArray<float>), typeid(NdArray<double>)};
  return all[t];
}
template <typename T>
T num(vp::Rng& r);
template <>
bool num<bool>(vp::Rng& r) {
  return r.chance(0.5);
}
template <>
int32_t num<int32_t>(vp::Rng& r) {
  return r.chance(0.1) ? (r.chance(0.5) ? INT32_MAX : INT32_MIN) : r.chance(0.5) ? int32_t(r.in(-20, 20)) : int32_t(r.next());
}
template <>
int64_t num<int64_t>(vp::Rng& r) {
  return r.chance(0.1) ? (r.chance(0.5) ? INT64_MAX : INT64_MIN) : r.chance(0.5) ? r.in(-20, 20) : int64_t(r.next());
}
template <>
double num<double>(vp::Rng& r) {
  switch (r.below(6)) {
  case 0:
    return r.in(-99, 99);
  case 1:
    return r.real(-1, 1) * std::pow(10., r.in(-200, 200));
  case 2:
    return r.pick(std::vector<double>{0, std::numeric_limits<double>::max(), std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()});
  default:
    return r.real(-1000, 1000);
  }
}
template <>
float num<float>(vp::Rng& r) {
  return r.chance(0.1) ? std::numeric_limits<float>::quiet_NaN() : float(r.real(-1, 1) * std::pow(10., r.in(-20, 20)));
}
template <typename T>
std::vector<T> vec(vp::Rng& r, size_t n) {
  std::vector<T> v;
  for (; n > 0; --n) {
    v.push_back(num<T>(r));
  }
  return v;
}
std::string text(vp::Rng& r, size_t max) {
  static const std::string plain = "abcxyzABC0123456789_-+.,:;()[]", odd = "abc ";
  std::string              s;
  for (size_t n = r.in(1, max); n > 0; --n) {
    s += n > 1 && r.chance(0.2) ? odd[r.below(odd.size())] : plain[r.below(plain.size())];
  }
  return s;
}
struct Col {
  int                 type;
  std::vector<size_t> shape;  // vectors and arrays
  size_t              width;  // texts
  size_t count() const {
    size_t n = 1;
    for (auto s : shape) {
      n *= s;
    }
    return n;
  }
};
Cell cellOf(vp::Rng& r, const Col& c, bool full = false) {
  size_t n = c.count();
  switch (c.type) {
  case BOOL:
    return num<bool>(r);
  case INT:
    return num<int32_t>(r);
  case LONG:
    return num<int64_t>(r);
  case FLOAT:
    return num<float>(r);
  case DOUBLE:
    return num<double>(r);
  case STRING: {
    std::string s = text(r, c.width);
    if (full) {
      s.resize(c.width, 'w');
    }
    return s;
  }
  case VINT:
    return vec<int32_t>(r, n);
  case VLONG:
    return vec<int64_t>(r, n);
  case VFLOAT:
    return vec<float>(r, n);
  case VDOUBLE:
    return vec<double>(r, n);
  case AINT:
    return NdArray<int32_t>(c.shape, vec<int32_t>(r, n));
  case ALONG:
    return NdArray<int64_t>(c.shape, vec<int64_t>(r, n));
  case AFLOAT:
    return NdArray<float>(c.shape, vec<float>(r, n));
  default:
    return NdArray<double>(c.shape, vec<double>(r, n));
  }
}
template <typename T>
bool sameNum(T a, T b) {
  return a == b || (a != a && b != b);
}
bool sameNum(const std::string& a, const std::string& b) {
  return a == b;
}
template <typename T>
bool sameSeq(const T& a, const T& b) {
  return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto x, auto y) { return sameNum(x, y); });
}
struct Same : boost::static_visitor<bool> {
  template <typename A, typename B>
  bool operator()(const A&, const B&) const {
    return false;
  }
  template <typename A>
  bool operator()(const A& a, const A& b) const {
    return sameNum(a, b);
  }
  template <typename A>
  bool operator()(const std::vector<A>& a, const std::vector<A>& b) const {
    return sameSeq(a, b);
  }
  template <typename A>
  bool operator()(const NdArray<A>& a, const NdArray<A>& b) const {
    return a.shape() == b.shape() && sameSeq(a, b);
  }
};
// What a cell becomes in a binary table: one element of a vector or of an array is a scalar
struct Flatten : boost::static_visitor<Cell> {
  template <typename A>
  Cell operator()(const A& a) const {
    return a;
  }
  template <typename A>
  Cell operator()(const std::vector<A>& a) const {
    return a.size() == 1 ? Cell(A(a[0])) : Cell(a);
  }
  template <typename A>
  Cell operator()(const NdArray<A>& a) const {
    return a.size() == 1 ? Cell(*a.begin()) : Cell(a);
  }
};
struct Model {
  std::vector<Col>                         cols;
  std::vector<ColumnInfo::info_type>       infos;
  std::shared_ptr<ColumnInfo>              info;
  std::vector<std::vector<Cell>>           rows;
  std::vector<std::string>                 comments;
  Model(vp::Rng& r, int ntypes) {
    size_t n = r.chance(0.06) ? r.in(8, 40) : r.in(1, 7);
    bool   big = r.chance(0.1);
    for (size_t i = 0; i < n; ++i) {
      Col c;
      c.type  = r.below(ntypes);
      c.width = r.chance(0.25) ? 1 : r.chance(0.08) ? r.in(60, 300) : r.in(1, 15);
      if (c.type >= AINT) {
        for (size_t k = r.in(1, 4); k > 0; --k) {
          c.shape.push_back(r.in(1, 4));
        }
      } else if (c.type >= VINT) {
        c.shape.push_back(r.chance(0.2) ? 1 : big ? r.in(9, 400) : r.in(1, 12));
      }
      if (big && c.type >= AINT && n < 8) {
        c.shape[r.below(c.shape.size())] = r.in(5, 30);
      }
      cols.push_back(c);
      std::string name = r.pick(std::vector<std::string>{"col", "C-", "a.b_", "_", "x(1)/", "TTYPE", ""}) + std::to_string(i) + std::string(r.below(3), 'x');
      infos.emplace_back(name, typeOf(c.type), r.chance(0.5) ? "" : text(r, r.chance(0.9) ? 4 : 20), r.chance(0.4) ? "" : text(r, r.chance(0.9) ? 20 : 60));
    }
    info = std::make_shared<ColumnInfo>(infos);
  }
  Euclid::Table::Table chunk(vp::Rng& r, size_t n) {
    std::vector<Row> list;
    for (size_t k = 0; k < n; ++k) {
      std::vector<Cell> cells;
      for (auto& c : cols) {
        cells.push_back(cellOf(r, c, rows.empty()));
      }
      rows.push_back(cells);
      list.emplace_back(cells, info);
    }
    return Euclid::Table::Table{list};
  }
};
void judgeInfo(const ColumnInfo& got, const Model& m, bool ascii, bool descriptions, const std::vector<std::string>& names = {}) {
  VP_CHECK(got.size() == m.cols.size(), "fits:columns", got.size() << " columns instead of " << m.cols.size());
  for (size_t i = 0; i < got.size(); ++i) {
    auto&           d = got.getDescription(i);
    std::type_index want = typeOf(m.cols[i].type);
    if (ascii) {
      want = m.cols[i].type <= LONG ? typeid(int64_t) : m.cols[i].type == STRING ? typeid(std::string) : typeid(double);
    } else if (m.cols[i].count() == 1 && m.cols[i].type >= VINT) {
      static const int scalar[] = {INT, LONG, FLOAT, DOUBLE};
      want                      = typeOf(scalar[(m.cols[i].type - VINT) % 4]);
    }
    VP_CHECK(d.name == (names.empty() ? m.infos[i].name : names[i]), "fits:names", "column " << i << " is called " << d.name);
    VP_CHECK(d.unit == m.infos[i].unit, "fits:units", "column " << i << " has unit '" << d.unit << "' instead of '" << m.infos[i].unit << "'");
    VP_CHECK(!descriptions || d.description == m.infos[i].description, "fits:descriptions", "column " << i << " is described as '" << d.description << "' instead of '" << m.infos[i].description << "'");
    VP_CHECK(d.type == want, "fits:types", "column " << i << " of type " << typeOf(m.cols[i].type).name() << " is read as " << d.type.name());
  }
}
Cell expected(const Cell& c, const Col& col, bool ascii) {
  if (!ascii) {
    return boost::apply_visitor(Flatten{}, c);
  }
  switch (col.type) {
  case BOOL:
    return int64_t(boost::get<bool>(c));
  case INT:
    return int64_t(boost::get<int32_t>(c));
  case FLOAT:
    return double(boost::get<float>(c));
  default:
    return c;
  }
}
void judgeRows(const Euclid::Table::Table& t, const Model& m, size_t first, bool ascii) {
  for (size_t r = 0; r < t.size(); ++r) {
    VP_CHECK(first + r < m.rows.size(), "fits:rows", "more rows than were written");
    for (size_t c = 0; c < m.cols.size(); ++c) {
      Cell want = expected(m.rows[first + r][c], m.cols[c], ascii);
      bool ok;
      if (ascii && want.type() == typeid(double)) {
        ok = t[r][c].type() == typeid(double) && vp::close(boost::get<double>(t[r][c]), boost::get<double>(want), 1e-5);
      } else {
        ok = boost::apply_visitor(Same{}, t[r][c], want);
      }
      VP_CHECK(ok, "fits:cells", "row " << first + r << ", column " << c << " of type " << typeOf(m.cols[c].type).name() << ": read " << t[r][c] << ", written " << want);
    }
  }
}
// reads everything, in pieces, and compares
void readAll(vp::Rng& r, FitsReader& reader, const Model& m, bool ascii, bool descriptions) {
  std::vector<std::string> names;
  if (r.chance(0.2)) {
    for (size_t i = 0; i < m.cols.size(); ++i) {
      names.push_back("renamed" + std::to_string(i));
    }
    if (r.chance(0.3)) {
      auto bad = names;
      bad[r.below(bad.size())] = r.pick(std::vector<std::string>{"", "a b", "a\tb"});
      VP_THROWS(reader.fixColumnNames(bad), "fits:refusals", "bad column names");
    }
    reader.fixColumnNames(names);
  }
  size_t at = 0;
  if (r.chance(0.5)) {
    judgeInfo(reader.getInfo(), m, ascii, descriptions, names);
  }
  while (true) {
    VP_CHECK(reader.rowsLeft() == m.rows.size() - at, "fits:rows-left", reader.rowsLeft() << " rows left instead of " << m.rows.size() - at);
    VP_CHECK(reader.hasMoreRows() == (at < m.rows.size()), "fits:more-rows", "after " << at << " of " << m.rows.size() << " rows");
    if (at == m.rows.size()) {
      break;
    }
    VP_THROWS(reader.fixColumnNames(std::vector<std::string>(m.cols.size(), "x")), "fits:refusals", "names fixed after reading has started");
    if (r.chance(0.3)) {
      long n = r.chance(0.05) ? r.in(5, 60) : r.in(0, 4);
      if (r.chance(0.1)) {
        n = m.rows.size() - at + r.in(0, 3);
      }
      reader.skip(n);
      at = std::min(at + n, m.rows.size());
      vp::cover("rows_skipped", n);
      continue;
    }
    long   want = r.chance(0.2) ? -1 : r.chance(0.1) ? r.in(7, 150) : r.in(1, 6);
    auto   t    = reader.read(want);
    size_t left = m.rows.size() - at;
    VP_CHECK(t.size() == (want < 0 ? left : std::min<size_t>(want, left)), "fits:rows", t.size() << " rows for " << want << " with " << left << " left");
    judgeInfo(*t.getColumnInfo(), m, ascii, descriptions, names);
    judgeRows(t, m, at, ascii);
    at += t.size();
    vp::cover("rows_read", t.size());
  }
  VP_THROWS(reader.read(r.in(1, 3)), "fits:refusals", "rows read after the last one");
}
std::string fresh(vp::Rng& r) {
  static std::atomic<uint64_t> n{0};
  return vp::st().scratch + "/f" + std::to_string(getpid()) + "_" + std::to_string(n++) + (r.chance(0.8) ? ".fits" : "");
}
struct File {
  std::string name;
  explicit File(vp::Rng& r) : name(fresh(r)) {}
  ~File() {
    unlink(name.c_str());
    CCfits::VpDisk::get().forget(name.substr(name.rfind('/')));
  }
};
void expectLocked(FitsWriter& w) {
  VP_THROWS(w.setFormat(FitsWriter::Format::ASCII), "fits:refusals", "format changed after writing");
  VP_THROWS(w.setHduName("other"), "fits:refusals", "name changed after writing");
  VP_THROWS(w.addComment("late"), "fits:refusals", "comment after writing");
}
std::string joined(const std::vector<std::string>& v) {
  std::string s;
  for (auto& x : v) {
    s += (s.empty() ? "" : "\n") + x;
  }
  return s;
}
}  // namespace

// mostly a few rows, now and then some hundreds
static size_t pieceSize(vp::Rng& rng, const Model& m) {
  return m.cols.size() < 5 && rng.chance(0.06) ? rng.in(7, 250) : rng.in(1, 6);
}
static void roundTrip(vp::Rng& rng, bool ascii) {
  File               f(rng);
  size_t             nhdu = rng.chance(0.04) ? rng.in(4, 12) : rng.in(1, 3);
  std::vector<Model> models;
  bool               shared = rng.chance(0.4);
  {
    std::shared_ptr<CCfits::FITS> handle;
    if (shared) {
      handle = std::make_shared<CCfits::FITS>("!" + f.name, CCfits::Write);
    }
    if (!shared && rng.chance(0.3)) {
      // something that has to disappear when the file is overridden
      Model m(rng, STRING + 1);
      FitsWriter(f.name).setHduName("old").addData(m.chunk(rng, 2));
    } else if (!shared && rng.chance(0.3)) {
      CCfits::FITS("!" + f.name, CCfits::Write);
    }
    for (size_t h = 0; h < nhdu; ++h) {
      models.emplace_back(rng, ascii ? STRING + 1 : NTYPES);
      Model&      m    = models.back();
      std::string name = "HDU" + std::to_string(h);
      size_t      uses = rng.in(1, 2);
      for (size_t u = 0; u < uses; ++u) {
        std::unique_ptr<FitsWriter> w(shared ? new FitsWriter(handle) : new FitsWriter(f.name, h == 0 && u == 0));
        w->setHduName(name);
        w->setFormat(ascii ? FitsWriter::Format::ASCII : FitsWriter::Format::BINARY);
        for (int k = rng.in(0, 2); k > 0; --k) {
          auto c = text(rng, 10);
          w->addComment(c);
          if (u == 0) {
            m.comments.push_back(c);
          }
        }
        if (rng.chance(0.2)) {
          FitsWriter moved(std::move(*w));
          *w = std::move(moved);
        }
        for (size_t k = rng.chance(0.05) ? rng.in(4, 12) : rng.in(1, 3); k > 0; --k) {
          if (ascii) {
            // the width of the columns is that of the first piece
            size_t before = m.rows.size();
            auto   t      = m.chunk(rng, pieceSize(rng, m));
            if (before) {
              std::vector<Row> again;
              for (size_t i = before; i < m.rows.size(); ++i) {
                m.rows[i] = m.rows[rng.below(before)];
                again.emplace_back(m.rows[i], m.info);
              }
              w->addData(Euclid::Table::Table{again});
            } else {
              w->addData(t);
            }
          } else {
            w->addData(m.chunk(rng, pieceSize(rng, m)));
          }
          expectLocked(*w);
        }
        if (rng.chance(0.2)) {
          Model other(rng, BOOL + 1);
          other.infos[0] = ColumnInfo::info_type("not there", typeid(bool));
          other.info     = std::make_shared<ColumnInfo>(other.infos);
          VP_THROWS(w->addData(other.chunk(rng, 1)), "fits:refusals", "other columns");
        }
      }
    }
  }
  for (size_t k = rng.in(1, 3); k > 0; --k) {
    size_t h = rng.below(nhdu);
    Model& m = models[h];
    int    how = rng.below(3);
    if (how == 0) {
      FitsReader reader(f.name, int(h + 1));
      readAll(rng, reader, m, ascii, true);
      VP_CHECK(reader.getComment() == joined(m.comments), "fits:comments", "comment '" << reader.getComment() << "'");
    } else if (how == 1) {
      FitsReader reader(f.name, "HDU" + std::to_string(h));
      FitsReader moved(std::move(reader));
      readAll(rng, moved, m, ascii, true);
    } else {
      CCfits::FITS fits(f.name);
      bool         keys = rng.chance(0.5);
      if (keys) {
        fits.extension(int(h + 1)).readAllKeys();
      }
      FitsReader reader(fits.extension(int(h + 1)));
      readAll(rng, reader, m, ascii, keys);
    }
    vp::cover("tables_read");
  }
  {
    CCfits::FITS fits(f.name);
    VP_CHECK(fits.extension().size() == nhdu, "fits:hdus", fits.extension().size() << " tables in the file instead of " << nhdu);
  }
  uint64_t h = vp::fnv(std::to_string(nhdu));
  for (auto& m : models) {
    for (auto& c : m.cols) {
      h = vp::mix(h, c.type * 1000 + c.count());
    }
    h = vp::mix(h, m.rows.size());
  }
  vp::distinct(h);
  vp::cover("tables_written", nhdu);
}
VP_SCENARIO(binary, 4) {
  roundTrip(rng, false);
}
VP_SCENARIO(ascii, 1) {
  roundTrip(rng, true);
}
// tables that cannot be represented
VP_SCENARIO(refused, 1) {
  File  f(rng);
  Model m(rng, NTYPES);
  m.cols[0].type  = VINT + rng.below(8);
  m.cols[0].shape = {size_t(rng.in(1, 5)), size_t(rng.in(1, 3))};
  if (m.cols[0].type < AINT) {
    m.cols[0].shape.pop_back();
  }
  m.infos[0] = ColumnInfo::info_type("v", typeOf(m.cols[0].type));
  m.info     = std::make_shared<ColumnInfo>(m.infos);
  if (rng.chance(0.4)) {
    FitsWriter w(f.name);
    w.setFormat(FitsWriter::Format::ASCII);
    VP_THROWS(w.addData(m.chunk(rng, 2)), "fits:refusals", "vectors in an ASCII table");
  } else {
    std::vector<Row> rows;
    size_t           n = rng.in(2, 6), odd = rng.in(0, n - 1);
    for (size_t i = 0; i < n; ++i) {
      auto cols = m.cols;
      if (i == odd) {
        if (cols[0].shape.size() == 2 && cols[0].shape[0] != cols[0].shape[1] && rng.chance(0.5)) {
          std::swap(cols[0].shape[0], cols[0].shape[1]);
        } else {
          cols[0].shape[0] += 1;
        }
      }
      std::vector<Cell> cells;
      for (auto& c : cols) {
        cells.push_back(cellOf(rng, c));
      }
      rows.emplace_back(cells, m.info);
    }
    FitsWriter w(f.name);
    VP_THROWS(w.addData(Euclid::Table::Table{rows}), "fits:refusals", "vectors of different sizes");
  }
  vp::cover("refused_tables");
}
// empty vectors are written as a value, like empty arrays, not read out of bounds
VP_SCENARIO(emptyVectors, 1) {
  File f(rng);
  auto info = std::make_shared<ColumnInfo>(std::vector<ColumnInfo::info_type>{ColumnInfo::info_type("i", typeid(int32_t)), ColumnInfo::info_type("v", typeid(std::vector<double>))});
  std::vector<Row> rows;
  for (int i = rng.in(1, 3); i > 0; --i) {
    rows.emplace_back(std::vector<Cell>{int32_t(i), std::vector<double>{}}, info);
  }
  try {
    FitsWriter(f.name).addData(Euclid::Table::Table{rows});
  } catch (const std::exception&) {
  } catch (const CCfits::FitsException&) {
  }
  vp::cover("empty_vectors");
}
// tables of other programs
VP_SCENARIO(foreign, 2) {
  File f(rng);
  struct Kind {
    const char*     format;
    std::type_index type;
  };
  static const std::vector<Kind> scalars{{"L", typeid(bool)}, {"1L", typeid(bool)}, {"B", typeid(int32_t)}, {"1B", typeid(int32_t)}, {"I", typeid(int32_t)}, {"1I", typeid(int32_t)}, {"J", typeid(int32_t)}, {"1J", typeid(int32_t)}, {"K", typeid(int64_t)}, {"1K", typeid(int64_t)}, {"E", typeid(float)}, {"1E", typeid(float)}, {"D", typeid(double)}, {"1D", typeid(double)}, {"A", typeid(std::string)}, {"1A", typeid(std::string)}, {"7A", typeid(std::string)}, {"120A", typeid(std::string)}};
  size_t                         n = rng.chance(0.1) ? rng.in(7, 30) : rng.in(1, 6), rows = rng.chance(0.1) ? rng.in(9, 120) : rng.in(1, 8);
  std::vector<std::string>       names, formats, units, keys;
  std::vector<std::type_index>   types;
  std::vector<std::vector<Cell>> want(rows);
  struct Data {
    std::vector<std::string>            s;
    std::vector<int64_t>                i;
    std::vector<double>                 d;
    std::vector<std::valarray<int64_t>> ai;
    std::vector<std::valarray<double>>  ad;
  };
  std::vector<Data> data(n);
  for (size_t c = 0; c < n; ++c) {
    names.push_back(rng.chance(0.2) ? "" : "n" + std::to_string(c));
    units.push_back(rng.chance(0.5) ? "" : text(rng, 3));
    keys.push_back("");
    if (rng.chance(0.6)) {
      auto& k = rng.pick(scalars);
      formats.push_back(k.format);
      types.push_back(k.type);
      char   l = formats.back().back();
      size_t w = std::max(1, std::atoi(k.format));
      for (size_t r = 0; r < rows; ++r) {
        if (l == 'A') {
          std::string s = text(rng, w);
          data[c].s.push_back(s);
          want[r].push_back(s);
        } else if (l == 'E' || l == 'D') {
          double v = l == 'E' ? num<float>(rng) : num<double>(rng);
          data[c].d.push_back(v);
          want[r].push_back(l == 'E' ? Cell(float(v)) : Cell(v));
        } else {
          int64_t v = l == 'L' ? rng.below(2) : l == 'B' ? rng.in(0, 255) : l == 'I' ? rng.in(-32768, 32767) : l == 'J' ? num<int32_t>(rng) : num<int64_t>(rng);
          data[c].i.push_back(v);
          want[r].push_back(l == 'L' ? Cell(v != 0) : l == 'K' ? Cell(v) : Cell(int32_t(v)));
        }
      }
    } else {
      char                l = "BIJKED"[rng.below(6)];
      std::vector<size_t> shape;
      bool                array = rng.chance(0.5);
      size_t              count = 1;
      do {
        shape.clear();
        count = 1;
        for (size_t k = array ? rng.in(1, 3) : 1; k > 0; --k) {
          shape.push_back(rng.chance(0.03) ? rng.in(6, 120) : rng.in(1, 5));
          count *= shape.back();
        }
      } while (count < 2);
      formats.push_back(std::to_string(count) + l);
      if (array) {
        std::string dim;
        for (auto s : shape) {
          dim = std::to_string(s) + (dim.empty() ? "" : ",") + dim;
        }
        keys.back() = "(" + dim + ")";
      }
      for (size_t r = 0; r < rows; ++r) {
        std::valarray<int64_t> vi(count);
        std::valarray<double>  vd(count);
        for (size_t k = 0; k < count; ++k) {
          vi[k] = l == 'B' ? rng.in(0, 255) : l == 'I' ? rng.in(-32768, 32767) : l == 'J' ? num<int32_t>(rng) : num<int64_t>(rng);
          vd[k] = l == 'E' ? num<float>(rng) : num<double>(rng);
        }
        auto add = [&](auto zero, auto& from) {
          using T = decltype(zero);
          std::vector<T> v;
          for (auto x : from) {
            v.push_back(T(x));
          }
          want[r].push_back(array ? Cell(NdArray<T>(shape, v)) : Cell(v));
        };
        if (l == 'E') {
          add(0.f, vd);
        } else if (l == 'D') {
          add(0., vd);
        } else if (l == 'K') {
          add(int64_t(0), vi);
        } else {
          add(int32_t(0), vi);
        }
        if (l == 'E' || l == 'D') {
          data[c].ad.push_back(vd);
        } else {
          data[c].ai.push_back(vi);
        }
      }
      types.push_back(want[0].back().type());
    }
  }
  bool        unsupported = rng.chance(0.1);
  std::string bad;
  if (unsupported) {
    bad = rng.pick(std::vector<std::string>{"X", "C", "M", "8X", "2C", "3M"});
    names.push_back("bad");
    formats.push_back(bad);
    units.push_back("");
    keys.push_back("");
  }
  {
    CCfits::FITS      fits("!" + f.name, CCfits::Write);
    std::vector<long> axes{2, 3};
    if (rng.chance(0.5)) {
      fits.addImage("picture", DOUBLE_IMG, axes);
    }
    auto* t = fits.addTable("foreign", int(rows), names, formats, units);
    for (size_t c = 0; c < n; ++c) {
      auto& col = t->column(int(c + 1));
      if (!data[c].s.empty()) {
        col.write(data[c].s, 1);
      } else if (!data[c].i.empty()) {
        col.write(data[c].i, 1);
      } else if (!data[c].d.empty()) {
        col.write(data[c].d, 1);
      } else if (!data[c].ai.empty()) {
        col.writeArrays(data[c].ai, 1);
      } else {
        col.writeArrays(data[c].ad, 1);
      }
      if (!keys[c].empty()) {
        t->addKey("TDIM" + std::to_string(c + 1), keys[c], "");
      }
    }
  }
  if (unsupported) {
    FitsReader reader(f.name, "foreign");
    VP_THROWS(reader.read(), "fits:refusals", "format " << bad);
    vp::cover("unsupported_formats");
    return;
  }
  {
    CCfits::FITS fits(f.name);
    if (fits.extension().size() == 2) {
      FitsReader image(f.name, 1);
      VP_THROWS(image.read(), "fits:refusals", "an image read as a table");
    }
    FitsReader primary(fits.pHDU());
    VP_THROWS(primary.read(), "fits:refusals", "the primary HDU read as a table");
  }
  {
    FitsReader reader(f.name, "foreign");
    reader.fixColumnNames(std::vector<std::string>(1, "only").size() == n ? std::vector<std::string>{"a", "b"} : std::vector<std::string>{"only"});
    VP_THROWS(reader.read(), "fits:refusals", "wrong number of names");
  }
  FitsReader reader(f.name, "foreign");
  auto       t = reader.read();
  VP_CHECK(t.size() == rows, "fits:rows", t.size() << " rows instead of " << rows);
  for (size_t c = 0; c < n; ++c) {
    auto& d = t.getColumnInfo()->getDescription(c);
    VP_CHECK(d.type == types[c], "fits:types", "format " << formats[c] << " " << keys[c] << " read as " << d.type.name());
    VP_CHECK(d.name == (names[c].empty() ? "Col" + std::to_string(c + 1) : names[c]), "fits:names", "column " << c << " called " << d.name);
    VP_CHECK(d.unit == units[c], "fits:units", "unit of column " << c);
    for (size_t r = 0; r < rows; ++r) {
      VP_CHECK(boost::apply_visitor(Same{}, t[r][c], want[r][c]), "fits:cells", "format " << formats[c] << " " << keys[c] << ": read " << t[r][c] << " instead of " << want[r][c]);
    }
  }
  vp::distinct(vp::fnv(vp::show(formats)));
  vp::cover("foreign_tables");
}
// datasets
VP_SCENARIO(datasets, 1) {
  File   f(rng);
  int    kind = rng.below(5);
  size_t n    = rng.chance(0.1) ? rng.in(31, 3000) : rng.in(1, 30);
  std::vector<double> x, y;
  double at = rng.real(-100, 100), scale = rng.chance(0.7) ? 1 : std::pow(10., rng.in(-30, 30));
  for (size_t i = 0; i < n; ++i) {
    x.push_back((at += rng.real(0.01, 10)) * scale);
    y.push_back(rng.chance(0.5) ? rng.real(-1e5, 1e5) : num<double>(rng));
  }
  std::string dataset = rng.chance(0.5) ? text(rng, rng.chance(0.9) ? 8 : 60) : "";
  if (kind == 0) {
    Euclid::XYDataset::FitsParser p("DATASET");
    VP_THROWS(p.getName(f.name), "fits:dataset", "name of a file that does not exist");
    VP_THROWS(p.getParameter(f.name, "A"), "fits:dataset", "parameter of a file that does not exist");
    VP_CHECK(p.getDataset(f.name) == nullptr, "fits:dataset", "dataset of a file that does not exist");
    VP_CHECK(!p.isDatasetFile(f.name), "fits:dataset", "a file that does not exist is a dataset");
    return;
  }
  {
    CCfits::FITS fits("!" + f.name, CCfits::Write);
    if (kind == 1) {
      std::vector<long> axes{3};
      fits.addImage("picture", DOUBLE_IMG, axes);
    } else if (kind > 2) {
      std::vector<std::string> names{"x", "y"}, formats{"D", "1D"};
      for (size_t k = rng.chance(0.3) ? rng.in(1, 4) : 0; k > 0; --k) {
        // what comes after the first two columns is not part of the dataset
        names.push_back("more" + std::to_string(k));
        formats.push_back(rng.pick(std::vector<std::string>{"D", "J", "E", "5A"}));
      }
      auto* t = fits.addTable(rng.pick(std::vector<std::string>{"data", "x", "DATASET", ""}), int(n), names, formats);
      for (size_t k = 2; k < names.size(); ++k) {
        if (formats[k] == "5A") {
          t->column(int(k + 1)).write(std::vector<std::string>(n, "abc"), 1);
        } else {
          t->column(int(k + 1)).write(std::vector<double>(n, 7), 1);
        }
      }
      if (rng.chance(0.2)) {
        auto* other = fits.addTable("later", 2, {"x", "y"}, {"D", "D"});
        other->column(1).write(std::vector<double>{1e6, 2e6}, 1);
        other->column(2).write(std::vector<double>{1e6, 2e6}, 1);
        other->addKey("DATASET", std::string("not this one"), "");
      }
      t->column(1).write(x, 1);
      t->column(2).write(y, 1);
      if (!dataset.empty()) {
        t->addKey("DATASET", dataset, "");
      }
      t->addKey("OTHER", "something", "");
    }
  }
  Euclid::XYDataset::FitsParser p("DATASET"), q, none("MISSING");
  if (kind <= 2) {
    // an image in the first extension, or no extension at all
    VP_CHECK(!p.isDatasetFile(f.name), "fits:dataset", "a file without a table in its first extension is a dataset");
    VP_THROWS(p.getDataset(f.name), "fits:dataset", "dataset out of a file without table");
    vp::cover("no_datasets");
    return;
  }
  VP_CHECK(p.isDatasetFile(f.name), "fits:dataset", "a table is not recognised");
  auto stem = f.name.substr(f.name.rfind('/') + 1);
  stem      = stem.substr(0, stem.rfind('.'));
  VP_CHECK(p.getName(f.name) == (dataset.empty() ? stem : dataset), "fits:dataset", "dataset called " << p.getName(f.name));
  VP_CHECK(none.getName(f.name) == stem && q.getName(f.name) == stem, "fits:dataset", "dataset called " << none.getName(f.name));
  VP_CHECK(p.getParameter(f.name, "OTHER") == "something" && p.getParameter(f.name, "NOT").empty(), "fits:dataset", "parameters");
  auto d = p.getDataset(f.name);
  VP_CHECK(d && d->size() == n, "fits:dataset", "wrong number of points");
  size_t i = 0;
  for (auto& xy : *d) {
    VP_CHECK(xy.first == x[i] && sameNum(xy.second, y[i]), "fits:dataset", "point " << i);
    ++i;
  }
  vp::distinct(vp::mix(n, vp::fnv(dataset)));
  vp::cover("datasets");
}
namespace {
template <typename T>
T knot(vp::Rng& r, size_t i) {
  return T(double(i) * 2.5 - 3) + (std::is_floating_point<T>::value ? T(r.unit()) : T(0));
}
template <>
std::string knot<std::string>(vp::Rng& r, size_t i) {
  return text(r, r.chance(0.95) ? 6 : 60) + std::to_string(i);
}
template <>
Euclid::XYDataset::QualifiedName knot<Euclid::XYDataset::QualifiedName>(vp::Rng& r, size_t i) {
  return Euclid::XYDataset::QualifiedName((r.chance(0.5) ? "g/" : "") + std::string("n") + std::to_string(i));
}
template <typename T>
Euclid::GridContainer::GridAxis<T> axis(vp::Rng& r, const std::string& name) {
  std::vector<T> v;
  for (size_t i = 0, n = r.chance(0.04) ? r.in(6, 60) : r.in(1, 5); i < n; ++i) {
    v.push_back(knot<T>(r, i));
  }
  return {name, v};
}
template <typename G, size_t... I>
void sameAxes(const G& a, const G& b, std::index_sequence<I...>) {
  auto one = [](auto& x, auto& y) {
    VP_CHECK(x.name() == y.name(), "fits:grid", "axis " << x.name() << " imported as " << y.name());
    VP_CHECK(std::vector<typename std::decay<decltype(x)>::type::data_type>(x.begin(), x.end()) == std::vector<typename std::decay<decltype(x)>::type::data_type>(y.begin(), y.end()), "fits:grid", "knots of axis " << x.name());
  };
  int unused[] = {(one(a.template getAxis<I>(), b.template getAxis<I>()), 0)...};
  (void)unused;
}
template <typename C, typename... A>
struct GridCase {
  using Grid = Euclid::GridContainer::GridContainer<std::vector<C>, A...>;
  template <size_t... I>
  static std::unique_ptr<Grid> make(vp::Rng& r, const std::string& tag, std::index_sequence<I...>) {
    return std::unique_ptr<Grid>(new Grid(axis<A>(r, "ax" + std::to_string(I) + tag)...));
  }
  static void run(vp::Rng& r, const std::string& file, int& hdu, std::vector<std::function<void()>>& later) {
    std::string name = "grid" + std::to_string(hdu) + (r.chance(0.3) ? "_x" : "");
    auto        g    = std::shared_ptr<Grid>(make(r, r.chance(0.5) ? "" : " odd_name", std::index_sequence_for<A...>{}).release());
    for (auto& c : *g) {
      c = num<C>(r);
    }
    Euclid::GridContainer::gridFitsExport(file, name, *g);
    int at = hdu;
    hdu += 1 + sizeof...(A);
    later.push_back([=]() {
      auto back = Euclid::GridContainer::gridFitsImport<Grid>(file, at);
      sameAxes(*g, back, std::index_sequence_for<A...>{});
      VP_CHECK(g->size() == back.size(), "fits:grid", back.size() << " cells instead of " << g->size());
      auto b = back.begin();
      for (auto a = g->begin(); a != g->end(); ++a, ++b) {
        VP_CHECK(sameNum(C(*a), C(*b)), "fits:grid", "cell " << +*b << " instead of " << +*a);
      }
      vp::distinct(vp::mix(g->size(), sizeof...(A)));
      vp::cover("grids");
    });
  }
};
template <size_t ND>
struct L1 : public Euclid::SOM::Distance::L2<ND> {};
template <size_t ND>
struct Other : public Euclid::SOM::Distance::L2<ND> {};
template <size_t ND>
struct L9 : public Euclid::SOM::Distance::L2<ND> {};
// the distance of two kinds of maps
struct Both : public Euclid::SOM::Distance::L2<3>, public Euclid::SOM::Distance::L2<4> {};
template <size_t ND, typename D>
void som(vp::Rng& r) {
  namespace S = Euclid::SOM;
  File           f(r);
  size_t        w = r.chance(0.1) ? r.in(7, 40) : r.in(1, 6);
  S::SOM<ND, D> m(w, r.chance(0.1) ? r.in(7, 40) : r.in(1, 6));
  for (auto& w : m) {
    for (auto& v : w) {
      v = num<double>(r);
    }
  }
  S::somFitsExport(f.name, m);
  auto back = S::somFitsImport<ND, D>(f.name);
  VP_CHECK(back.getSize() == m.getSize(), "fits:som", "size of the map");
  for (size_t x = 0; x < m.getSize().first; ++x) {
    for (size_t y = 0; y < m.getSize().second; ++y) {
      for (size_t k = 0; k < ND; ++k) {
        VP_CHECK(sameNum(m(x, y)[k], back(x, y)[k]), "fits:som", "weight " << k << " of cell (" << x << "," << y << ")");
      }
    }
  }
  // read as another kind of map
  VP_THROWS((S::somFitsImport<ND, Other<ND>>(f.name)), "fits:som", "another distance");
  VP_THROWS((S::somFitsImport<ND, L9<ND>>(f.name)), "fits:som", "another distance");
  VP_THROWS((S::somFitsImport<ND, Euclid::SOM::Distance::L9<ND>>(f.name)), "fits:som", "another distance");
  vp::distinct(vp::mix(m.getSize().first * 10 + m.getSize().second, ND));
  vp::cover("maps");
}
}  // namespace
VP_SCENARIO(grids, 1) {
  using Euclid::XYDataset::QualifiedName;
  File                               f(rng);
  int                                hdu = 1;
  std::vector<std::function<void()>> later;
  for (int k = rng.in(1, 3); k > 0; --k) {
    switch (rng.below(5)) {
    case 0:
      GridCase<double, double>::run(rng, f.name, hdu, later);
      break;
    case 1:
      GridCase<float, int32_t, double>::run(rng, f.name, hdu, later);
      break;
    case 2:
      GridCase<int32_t, QualifiedName, double, float>::run(rng, f.name, hdu, later);
      break;
    case 3:
      GridCase<int64_t, std::string, int64_t>::run(rng, f.name, hdu, later);
      break;
    default:
      GridCase<double, double, int32_t, QualifiedName, std::string>::run(rng, f.name, hdu, later);
    }
  }
  rng.shuffle(later);
  for (auto& l : later) {
    l();
  }
}
VP_SCENARIO(maps, 1) {
  {
    File                        f(rng);
    Euclid::SOM::SOM<3, Both> m(rng.in(1, 6), rng.in(1, 6));
    Euclid::SOM::somFitsExport(f.name, m);
    VP_THROWS((Euclid::SOM::somFitsImport<4, Both>(f.name)), "fits:som", "weights of another dimension");
  }
  switch (rng.below(3)) {
  case 0:
    som<1, Euclid::SOM::Distance::L2<1>>(rng);
    break;
  case 1:
    som<3, Euclid::SOM::Distance::L2<3>>(rng);
    break;
  default:
    som<4, L1<4>>(rng);
  }
}
VP_MAIN()
