// C18: tables and their ASCII representation; C19: streaming reads and malformed tables; C20: casts of cells
#include "vp.h"
#include "Table/AsciiReader.h"
#include "Table/AsciiWriter.h"
#include "Table/CastVisitor.h"
#include "Table/Table.h"
#include <climits>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <sstream>
#include <typeindex>
using namespace Euclid::Table;
using Euclid::NdArray::NdArray;
using Cell = Row::cell_type;

namespace {
enum Type { BOOL, INT, LONG, FLOAT, DOUBLE, STRING, VBOOL, VINT, VLONG, VFLOAT, VDOUBLE, AINT, ALONG, AFLOAT, ADOUBLE, NTYPES };
std::type_index typeOf(int t) {
  static const std::type_index all[] = {typeid(bool), typeid(int32_t), typeid(int64_t), typeid(float), typeid(double), typeid(std::string), typeid(std::vector<bool>), typeid(std::vector<int32_t>), typeid(std::vector<int64_t>), typeid(std::vector<float>), typeid(std::vector<double>), typeid(NdArray<int32_t>), typeid(NdArray<int64_t>), typeid(NdArray<float>), typeid(NdArray<double>)};
  return all[t];
}
template <typename T>
T num(vp::Rng& r);
template <>
bool num<bool>(vp::Rng& r) {
  return r.chance(0.5);
}
template <>
int32_t num<int32_t>(vp::Rng& r) {
  return r.chance(0.1) ? (r.chance(0.5) ? INT32_MAX : INT32_MIN) : r.chance(0.5) ? int32_t(r.in(-20, 20)) : int32_t(r.next()) >> r.below(32);
}
template <>
int64_t num<int64_t>(vp::Rng& r) {
  return r.chance(0.1) ? (r.chance(0.5) ? INT64_MAX : INT64_MIN) : r.chance(0.5) ? r.in(-20, 20) : int64_t(r.next()) >> r.below(64);
}
template <>
double num<double>(vp::Rng& r) {
  switch (r.below(8)) {
  case 0:
    return 0;
  case 1:
    return r.in(-99999, 99999);
  case 2:
    return r.pick(std::vector<double>{std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(), std::numeric_limits<double>::min(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), -0., 1e-300});
  case 3:
    return r.real(-1, 1) * std::pow(10., r.in(-200, 200));
  default:
    return r.real(-1000, 1000);
  }
}
template <>
float num<float>(vp::Rng& r) {
  switch (r.below(8)) {
  case 0:
    return 0;
  case 1:
    return r.in(-99999, 99999);
  case 2:
    return r.pick(std::vector<float>{std::numeric_limits<float>::max(), -std::numeric_limits<float>::max(), std::numeric_limits<float>::min(), std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), -0.f});
  case 3:
    return r.real(-1, 1) * std::pow(10., r.in(-30, 30));
  default:
    return r.real(-1000, 1000);
  }
}
// without line breaks; `no` must not appear in it
std::string text(vp::Rng& r, size_t max, bool spaces, const std::vector<std::string>& no) {
  static const std::string plain = "abcxyzABC0123456789_-+.,:;()[]{}<>=!?$&*'|^~@", odd = " \t\"\\\xc3\xa9\xe2\x82\xac";
  while (true) {
    std::string s;
    for (size_t n = r.in(1, max); n > 0; --n) {
      s += spaces && r.chance(0.35) ? odd[r.below(odd.size())] : plain[r.below(plain.size())];
    }
    bool ok = true;
    for (auto& x : no) {
      ok = ok && (x.empty() || s.find(x) == std::string::npos);
    }
    if (ok) {
      return s;
    }
  }
}
template <typename T>
std::vector<T> vec(vp::Rng& r, size_t n) {
  std::vector<T> v;
  for (; n > 0; --n) {
    v.push_back(num<T>(r));
  }
  return v;
}
template <typename T>
NdArray<T> arr(vp::Rng& r) {
  std::vector<size_t> shape;
  size_t              n = 1;
  for (size_t i = r.in(1, 3); i > 0; --i) {
    shape.push_back(r.chance(0.01) ? r.in(4, 40) : r.in(1, 3));
    n *= shape.back();
  }
  return NdArray<T>(shape, vec<T>(r, n));
}
size_t length(vp::Rng& r) {
  return r.chance(0.02) ? r.in(6, 400) : r.in(1, 5);
}
Cell cellOf(vp::Rng& r, int t, const std::vector<std::string>& no) {
  switch (t) {
  case BOOL:
    return num<bool>(r);
  case INT:
    return num<int32_t>(r);
  case LONG:
    return num<int64_t>(r);
  case FLOAT:
    return num<float>(r);
  case DOUBLE:
    return num<double>(r);
  case STRING:
    return text(r, r.chance(0.05) ? 300 : 12, r.chance(0.5), no);
  case VBOOL:
    return vec<bool>(r, length(r));
  case VINT:
    return vec<int32_t>(r, length(r));
  case VLONG:
    return vec<int64_t>(r, length(r));
  case VFLOAT:
    return vec<float>(r, length(r));
  case VDOUBLE:
    return vec<double>(r, length(r));
  case AINT:
    return arr<int32_t>(r);
  case ALONG:
    return arr<int64_t>(r);
  case AFLOAT:
    return arr<float>(r);
  default:
    return arr<double>(r);
  }
}
#ifdef VP_C19
const double Digits = 0;  // the text has all digits
#else
const double Digits = 5.1e-6;  // the text has at least six significant digits
#endif
template <typename T>
bool near(T a, T b) {
  return a == b;
}
template <>
bool near<double>(double a, double b) {
  return a == b || (std::isnan(a) && std::isnan(b)) || (std::isfinite(a) && std::isfinite(b) && std::fabs(a - b) <= Digits * std::fabs(a));
}
template <>
bool near<float>(float a, float b) {
  return a == b || (std::isnan(a) && std::isnan(b)) || (std::isfinite(a) && std::isfinite(b) && std::fabs(double(a) - b) <= 1.02 * Digits * std::fabs(double(a)));
}
struct Same : boost::static_visitor<bool> {
  template <typename T, typename U>
  bool operator()(const T&, const U&) const {
    return false;
  }
  template <typename T>
  bool operator()(const T& a, const T& b) const {
    return near<T>(a, b);
  }
  template <typename T>
  bool operator()(const std::vector<T>& a, const std::vector<T>& b) const {
    bool ok = a.size() == b.size();
    for (size_t i = 0; ok && i < a.size(); ++i) {
      ok = near<T>(a[i], b[i]);
    }
    return ok;
  }
  template <typename T>
  bool operator()(const NdArray<T>& a, const NdArray<T>& b) const {
    if (a.shape() != b.shape()) {
      return false;
    }
    auto j = b.begin();
    for (auto i = a.begin(); i != a.end(); ++i, ++j) {
      if (!near<T>(*i, *j)) {
        return false;
      }
    }
    return true;
  }
};
bool same(const Cell& a, const Cell& b) {
  return boost::apply_visitor(Same(), a, b);
}
struct ShowIt : boost::static_visitor<std::string> {
  template <typename T>
  std::string operator()(const T& a) const {
    std::ostringstream o;
    o.precision(17);
    o << a;
    return o.str();
  }
  template <typename T>
  std::string operator()(const std::vector<T>& a) const {
    std::ostringstream o;
    o.precision(17);
    for (size_t i = 0; i < a.size(); ++i) {
      o << (i ? "," : "") << a[i];
    }
    return o.str();
  }
};
std::string show(const Cell& c) {
  return boost::apply_visitor(ShowIt(), c).substr(0, 200);
}
struct Column {
  std::string name;
  int         type;
  std::string unit, desc;
};
std::string words(vp::Rng& r, size_t n, const std::vector<std::string>& no) {
  std::string s;
  for (; n > 0; --n) {
    s += (s.empty() ? "" : " ") + text(r, 6, false, no);
  }
  return s;
}
std::vector<Column> columnsOf(vp::Rng& r, size_t n, const std::string& comment, bool odd_names) {
  std::vector<Column>   cols;
  std::set<std::string> used;
  for (size_t i = 0; i < n; ++i) {
    Column c;
    do {
      c.name = text(r, 8, odd_names, {comment, "Column:"});
    } while (!used.insert(c.name).second);
    c.type = r.below(NTYPES);
    if (r.chance(0.5)) {
      c.unit = r.chance(0.5) ? r.pick(std::vector<std::string>{"m", "km / s", "erg/(s cm2)", "W m^-2", "(a) (b)", "mag"}) : words(r, r.in(1, 3), {comment, "(", ")"});
    }
    if (r.chance(0.5)) {
      c.desc = "D" + words(r, r.in(1, 5), {comment});
    }
    if (r.chance(0.05)) {
      c.unit = c.desc = r.pick(std::vector<std::string>{"m", "mag", "one two"});
    }
    cols.push_back(c);
  }
  return cols;
}
std::shared_ptr<ColumnInfo> infoOf(const std::vector<Column>& cols) {
  std::vector<ColumnInfo::info_type> l;
  for (auto& c : cols) {
    l.push_back(ColumnInfo::info_type(c.name, typeOf(c.type), c.unit, c.desc));
  }
  return std::make_shared<ColumnInfo>(std::move(l));
}
std::string rowText(const Row& row) {
  std::string s;
  for (auto& c : row) {
    s += show(c) + "|";
  }
  return s;
}
}  // namespace

#ifdef VP_C18
VP_SCENARIO(structure, 2) {
  auto cols = columnsOf(rng, rng.in(1, 8), "#", true);
  auto info = infoOf(cols);
  VP_CHECK(info->size() == cols.size(), "wrong-columns", "number of columns");
  for (size_t i = 0; i < cols.size(); ++i) {
    auto& d = info->getDescription(i);
    auto& e = info->getDescription(cols[i].name);
    VP_CHECK(&d == &e && d.name == cols[i].name && d.type == typeOf(cols[i].type) && d.unit == cols[i].unit && d.description == cols[i].desc, "wrong-columns", "column " << i << " " << cols[i].name);
    auto f = info->find(cols[i].name);
    VP_CHECK(f && *f == i, "wrong-columns", "find " << cols[i].name);
  }
  VP_CHECK(!info->find("no such column"), "wrong-columns", "column found");
  VP_THROWS(info->getDescription("no such column"), "bad-column-accepted", "name");
  VP_THROWS(info->getDescription(cols.size()), "bad-column-accepted", "index");
  // equality
  auto other = cols;
  VP_CHECK(*info == *infoOf(other) && !(*info != *infoOf(other)), "wrong-equality", "equal columns");
  auto& c = other[rng.below(other.size())];
  switch (rng.below(5)) {
  case 0:
    c.name += "x";
    while (std::count_if(other.begin(), other.end(), [&](const Column& o) { return o.name == c.name; }) > 1) {
      c.name += "x";
    }
    break;
  case 1:
    c.type = (c.type + rng.in(1, NTYPES - 1)) % NTYPES;
    break;
  case 2:
    c.unit += "x";
    break;
  case 3:
    c.desc += "x";
    break;
  default:
    other.push_back({"yet another column", INT, "", ""});
    break;
  }
  // descriptions are ignored
  bool is_equal = other.size() == cols.size();
  for (size_t i = 0; is_equal && i < cols.size(); ++i) {
    is_equal = other[i].name == cols[i].name && other[i].type == cols[i].type && other[i].unit == cols[i].unit;
  }
  VP_CHECK((*info == *infoOf(other)) == is_equal && (*info != *infoOf(other)) != is_equal, "wrong-equality", (is_equal ? "equal columns are different" : "different columns are equal"));
  // invalid ones
  auto dup = cols;
  dup.insert(dup.begin() + rng.below(dup.size() + 1), cols[rng.below(cols.size())]);
  VP_THROWS(infoOf(dup), "bad-column-accepted", "duplicate name");
  VP_THROWS(ColumnInfo(std::vector<ColumnInfo::info_type>{}), "bad-column-accepted", "no column");
  VP_THROWS(ColumnDescription(""), "bad-column-accepted", "empty name");
  std::string broken = text(rng, 6, true, {}) + rng.pick(std::vector<std::string>{"\n", "\r", "\v", "\f"}) + (rng.chance(0.5) ? text(rng, 4, true, {}) : "");
  VP_THROWS(ColumnDescription(broken), "bad-column-accepted", "line break in the name");

  // rows
  std::vector<Cell> values;
  for (auto& k : cols) {
    values.push_back(cellOf(rng, k.type, {}));
  }
  Row row(values, info);
  VP_CHECK(row.size() == cols.size() && row.getColumnInfo() == info && size_t(row.end() - row.begin()) == cols.size(), "wrong-row", "size");
  for (size_t i = 0; i < cols.size(); ++i) {
    VP_CHECK(same(row[i], values[i]) && &row[i] == &row[cols[i].name] && &*(row.begin() + i) == &row[i], "wrong-row", "cell " << i << " is " << show(row[i]) << " instead of " << show(values[i]));
  }
  VP_THROWS(row[cols.size()], "bad-cell-accepted", "index");
  VP_THROWS(row["no such column"], "bad-cell-accepted", "name");
  auto bad = values;
  auto k   = rng.below(bad.size());
  bad[k]   = cellOf(rng, (cols[k].type + rng.in(1, NTYPES - 1)) % NTYPES, {});
  VP_THROWS(Row(bad, info), "bad-cell-accepted", "cell of another type");
  bad = values;
  if (rng.chance(0.5)) {
    bad.pop_back();
  } else {
    bad.push_back(Cell{true});
  }
  VP_THROWS(Row(bad, info), "bad-cell-accepted", "number of cells");
  VP_THROWS(Row(values, nullptr), "bad-cell-accepted", "no column info");
  for (size_t i = 0; i < cols.size(); ++i) {
    if (cols[i].type == STRING) {
      bad    = values;
      bad[i] = std::string();
      VP_THROWS(Row(bad, info), "bad-cell-accepted", "empty string");
      bad[i] = broken;
      VP_THROWS(Row(bad, info), "bad-cell-accepted", "line break");
      vp::cover("bad_strings");
    }
  }
  // tables
  std::vector<Row> rows;
  for (size_t n = rng.in(1, 6); n > 0; --n) {
    std::vector<Cell> v;
    for (auto& x : cols) {
      v.push_back(cellOf(rng, x.type, {}));
    }
    rows.emplace_back(v, rng.chance(0.5) ? info : infoOf(cols));
  }
  Table table(rows);
  VP_CHECK(table.size() == rows.size() && size_t(table.end() - table.begin()) == rows.size() && *table.getColumnInfo() == *info, "wrong-table", "size");
  for (size_t i = 0; i < rows.size(); ++i) {
    VP_CHECK(&table[i] == &*(table.begin() + i), "wrong-table", "iterator");
    for (size_t j = 0; j < cols.size(); ++j) {
      VP_CHECK(same(table[i][j], rows[i][j]), "wrong-table", "cell " << i << "," << j);
    }
  }
  VP_THROWS(table[rows.size()], "bad-row-accepted", "index");
  VP_THROWS(Table(std::vector<Row>{}), "bad-row-accepted", "empty table");
  if (!is_equal) {
    std::vector<Cell> v;
    for (auto& x : other) {
      v.push_back(cellOf(rng, x.type, {}));
    }
    auto mixed = rows;
    mixed.insert(mixed.begin() + rng.below(mixed.size() + 1), Row(v, infoOf(other)));
    VP_THROWS(Table(mixed), "bad-row-accepted", "row with other columns");
    vp::cover("mixed_columns");
  }
  vp::cover("structures");
  vp::distinct(vp::fnv(rowText(row)));
}

namespace {
// what was written is read, whatever the options
void roundtrip(vp::Rng& rng) {
  std::string comment   = rng.chance(0.5) ? "#" : rng.pick(std::vector<std::string>{"//", "%%", "--!", ";;;;"});
  bool        odd_names = rng.chance(0.3), shown = rng.chance(0.75);
  auto        cols = columnsOf(rng, rng.chance(0.03) ? rng.in(9, 60) : rng.in(1, 8), comment, odd_names);
  auto        info = infoOf(cols);
  std::vector<Row> rows;
  for (size_t n = rng.chance(0.03) ? rng.in(11, 150) : rng.in(1, 10); n > 0; --n) {
    std::vector<Cell> v;
    for (auto& x : cols) {
      v.push_back(cellOf(rng, x.type, {comment}));
    }
    rows.emplace_back(v, info);
  }
  std::vector<std::string> comments;
  vp::ScratchDir           dir;
  std::string              path = dir.path + "/t.txt";
  std::stringstream        stream;
  bool                     to_file = rng.chance(0.3);
  {
    std::unique_ptr<AsciiWriter> w(to_file ? new AsciiWriter(path) : new AsciiWriter(stream));
    if (comment != "#") {
      w->setCommentIndicator(comment);
    }
    if (!shown || rng.chance(0.2)) {
      w->showColumnInfo(shown);
    }
    for (size_t n = rng.chance(0.5) ? 0 : rng.in(1, 3); n > 0; --n) {
      std::string c = words(rng, rng.in(1, 6), {comment, "Column:"});
      if (rng.chance(0.3)) {
        c += "\n" + words(rng, rng.in(1, 4), {comment, "Column:"});
      }
      w->addComment(c);
      comments.push_back(c);
      VP_THROWS(w->setCommentIndicator("@"), "late-option", "comment indicator");
      VP_THROWS(w->showColumnInfo(!shown), "late-option", "column info");
    }
    size_t i = 0;
    while (i < rows.size()) {
      size_t k = rng.in(1, rows.size() - i);
      w->addData(Table(std::vector<Row>(rows.begin() + i, rows.begin() + i + k)));
      i += k;
      VP_THROWS(w->addComment("late"), "late-option", "comment");
      VP_THROWS(w->showColumnInfo(!shown), "late-option", "column info");
    }
    // other columns are refused
    auto other = cols;
    other.back().type = (other.back().type + 1) % NTYPES;
    std::vector<Cell> v;
    for (auto& x : other) {
      v.push_back(cellOf(rng, x.type, {comment}));
    }
    VP_THROWS(w->addData(Table({Row(v, infoOf(other))})), "other-columns", "table with other columns appended");
  }
  std::string written;
  if (to_file) {
    std::ifstream f(path);
    written.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
    vp::cover("files");
  } else {
    written = stream.str();
  }
  std::unique_ptr<AsciiReader> r(to_file ? new AsciiReader(path) : new AsciiReader(stream));
  if (comment != "#") {
    r->setCommentIndicator(comment);
  }
  auto expect = cols;
  if (!shown) {
    std::vector<std::type_index> t;
    for (auto& c : cols) {
      t.push_back(typeOf(c.type));
    }
    r->fixColumnTypes(t);
    for (auto& c : expect) {
      c.unit = c.desc = "";
    }
  }
  if (rng.chance(0.2)) {
    std::vector<std::string> names;
    for (size_t i = 0; i < expect.size(); ++i) {
      expect[i].name = "renamed " + std::to_string(i);
      names.push_back(expect[i].name);
    }
    r->fixColumnNames(names);
    vp::cover("renamed");
  }
  if (rng.chance(0.5)) {
    std::string want;
    for (auto& c : comments) {
      want += (want.empty() ? "" : "\n") + c;
    }
    auto got = r->getComment();
    if (!comments.empty()) {
      VP_CHECK(got == want, "wrong-comment", "comment \"" << got << "\" instead of \"" << want << "\"");
      vp::cover("comments");
    }
    if (rng.chance(0.3)) {
      VP_CHECK(r->getComment() == got, "wrong-comment", "the second time the comment is different");
    }
  }
  auto& got_info = r->getInfo();
  auto  want     = infoOf(expect);
  VP_CHECK(got_info.size() == cols.size(), "wrong-columns-read", got_info.size() << " columns instead of " << cols.size() << ": " << written);
  for (size_t i = 0; i < cols.size(); ++i) {
    auto &g = got_info.getDescription(i), &e = want->getDescription(i);
    VP_CHECK(g.name == e.name, "wrong-name-read", "column '" << g.name << "' instead of '" << e.name << "': " << written);
    VP_CHECK(g.type == e.type, "wrong-type-read", "column '" << g.name << "' has type " << g.type.name() << " instead of " << e.type.name() << ": " << written);
    VP_CHECK(g.unit == e.unit, "wrong-unit-read", "column '" << g.name << "' has unit '" << g.unit << "' instead of '" << e.unit << "': " << written);
    VP_CHECK(g.description == e.description, "wrong-description-read", "column '" << g.name << "' has description '" << g.description << "' instead of '" << e.description << "': " << written);
  }
  auto t = r->read();
  VP_CHECK(t.size() == rows.size(), "wrong-rows-read", t.size() << " rows instead of " << rows.size() << ": " << written);
  for (size_t i = 0; i < rows.size(); ++i) {
    for (size_t j = 0; j < cols.size(); ++j) {
      VP_CHECK(same(rows[i][j], t[i][j]), "wrong-cell-read", "cell " << i << "," << j << " is " << show(t[i][j]) << " instead of " << show(rows[i][j]) << ": " << written);
      vp::cover("cells");
    }
  }
  VP_CHECK(!r->hasMoreRows() && r->rowsLeft() == 0, "wrong-rows-read", "rows left");
  vp::cover(shown ? "with_column_info" : "without_column_info");
  if (odd_names) {
    vp::cover("quoted_names");
  }
  vp::distinct(vp::fnv(written));
  if (vp::wantSample()) {
    vp::sample(written);
  }
}
}  // namespace
VP_SCENARIO(written, 4) {
  roundtrip(rng);
}
VP_SCENARIO(emptyVectors, 1) {
  // cannot be represented, but are neither read past their end nor written as something else
  std::vector<Column> cols{{"a", INT, "", ""}, {"v", VBOOL + int(rng.below(5)), "", ""}, {"z", STRING, "", ""}};
  auto                info = infoOf(cols);
  std::vector<Cell>   v{Cell{int32_t(7)}, Cell{}, Cell{std::string("end")}};
  switch (cols[1].type) {
  case VBOOL:
    v[1] = std::vector<bool>{};
    break;
  case VINT:
    v[1] = std::vector<int32_t>{};
    break;
  case VLONG:
    v[1] = std::vector<int64_t>{};
    break;
  case VFLOAT:
    v[1] = std::vector<float>{};
    break;
  default:
    v[1] = std::vector<double>{};
  }
  Table             t({Row(v, info)});
  std::stringstream s;
  try {
    AsciiWriter w(s);
    w.addData(t);
  } catch (const std::exception&) {
    return;
  }
  std::istringstream in(s.str());
  std::string        line, last;
  while (std::getline(in, line)) {
    if (!line.empty()) {
      last = line;
    }
  }
  std::istringstream tokens(last);
  std::string        a, b;
  tokens >> a >> b;
  VP_CHECK(a == "7" && (b == "end" || b == "\"\""), "wrong-empty-vector", "written as " << last);
  VP_CHECK(boost::apply_visitor(CastVisitor<std::string>{}, v[1]).empty(), "wrong-empty-vector", "text of an empty vector");
  vp::cover("empty_vectors");
}
#endif

#ifdef VP_C19
namespace {
// a stream that begins far from the position 0 of its buffer, as the second table of a huge file does
class FarBuf : public std::streambuf {
public:
  FarBuf(std::string s, std::streamoff base) : m_s(std::move(s)), m_base(base) {
    setg(&m_s[0], &m_s[0], &m_s[0] + m_s.size());
  }
  size_t bad_seeks = 0;

protected:
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    off_type at = dir == std::ios_base::cur ? off_type(gptr() - eback()) + off : dir == std::ios_base::beg ? off - m_base : off_type(m_s.size()) + off;
    return go(at);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode) override {
    return go(off_type(p) - m_base);
  }

private:
  pos_type go(off_type at) {
    if (at < 0 || at > off_type(m_s.size())) {
      ++bad_seeks;
      return pos_type(off_type(-1));
    }
    setg(&m_s[0], &m_s[0] + at, &m_s[0] + m_s.size());
    return pos_type(at + m_base);
  }
  std::string    m_s;
  std::streamoff m_base;
};
std::string gap(vp::Rng& r) {
  return r.pick(std::vector<std::string>{" ", "  ", "\t", " \t  "});
}
std::string keyword(vp::Rng& r, int type) {
  static const std::vector<std::vector<std::string>> k{{"bool", "boolean"}, {"int", "int32"}, {"long", "int64"}, {"float"}, {"double"}, {"string"}, {"[bool]", "[boolean]"}, {"[int]", "[int32]"}, {"[long]", "[int64]"}, {"[float]"}, {"[double]"}, {"[int+]", "[int32+]"}, {"[long+]", "[int64+]"}, {"[float+]"}, {"[double+]"}};
  return r.pick(k[type]);
}
std::string cased(vp::Rng& r, std::string s) {
  int how = r.below(3);
  for (size_t i = 0; i < s.size(); ++i) {
    if (how == 1 || (how == 2 && i == 0)) {
      s[i] = toupper(s[i]);
    }
  }
  return s;
}
template <typename T>
std::string number(T v) {
  std::ostringstream o;
  o.precision(std::numeric_limits<T>::max_digits10);
  o << v;
  return o.str();
}
template <typename T>
std::string list(const T& v) {
  std::string s;
  for (auto x : v) {
    s += (s.empty() ? "" : ",") + number(x);
  }
  return s;
}
struct Write : boost::static_visitor<std::string> {
  vp::Rng& r;
  explicit Write(vp::Rng& rr) : r(rr) {}
  std::string operator()(bool b) const {
    return cased(r, r.pick(b ? std::vector<std::string>{"true", "t", "yes", "y", "1"} : std::vector<std::string>{"false", "f", "no", "n", "0"}));
  }
  std::string operator()(const std::string& s) const {
    if (s.find_first_of(" \t\"") == std::string::npos && !(s[0] == '"') && r.chance(0.9) ) {
      return s;
    }
    std::string q = "\"";
    for (char c : s) {
      if (c == '"' || c == '\\') {
        q += '\\';
      }
      q += c;
    }
    return q + "\"";
  }
  template <typename T>
  std::string operator()(const T& v) const {
    return number(v);
  }
  template <typename T>
  std::string operator()(const std::vector<T>& v) const {
    return list(v);
  }
  template <typename T>
  std::string operator()(const NdArray<T>& v) const {
    return "<" + list(v.shape()) + ">" + list(std::vector<T>(v.begin(), v.end()));
  }
};
struct File {
  std::string                    comment;
  std::vector<Column>            cols;
  std::vector<std::vector<Cell>> rows;
  std::string                    text;
  bool                           explicit_types = false;  // the file does not tell the types, or others
  bool                           explicit_names = false;
};
std::string visible(const std::string& s) {
  std::string v;
  for (char c : s) {
    if (!std::isspace(static_cast<unsigned char>(c))) {
      v += c;
    }
  }
  return v;
}
File generate(vp::Rng& rng) {
  File f;
  f.comment = rng.chance(0.6) ? "#" : rng.pick(std::vector<std::string>{"//", "%%", ";"});
  f.cols    = columnsOf(rng, rng.chance(0.03) ? rng.in(7, 40) : rng.in(1, 6), f.comment, rng.chance(0.3));
  std::string nl = rng.chance(0.2) ? "\r\n" : "\n";
  auto blank = [&] {
    std::string s;
    while (rng.chance(0.2)) {
      s += rng.pick(std::vector<std::string>{"", " ", "\t "}) + nl;
    }
    return s;
  };
  // 0: descriptions and names, 1: names only, 2: descriptions only, 3: nothing
  int  style = rng.below(4);
  bool other_types = rng.chance(0.15);
  auto noise = [&] {
    std::string s;
    while (rng.chance(0.2)) {
      s += rng.pick(std::vector<std::string>{"", "  "}) + f.comment + " " + words(rng, rng.in(0, 3), {f.comment, "Column:"}) + nl + blank();
    }
    return s;
  };
  auto quoted = [&](const std::string& s) { return Write(rng)(s); };
  f.text += blank() + noise();
  if (style == 0 || style == 2) {
    std::vector<size_t> order;
    for (size_t i = 0; i < f.cols.size(); ++i) {
      order.push_back(i);
    }
    if (style == 0) {
      rng.shuffle(order);
    } else if (rng.chance(0.2)) {
      // only the first ones are described
      order.resize(rng.in(1, order.size()));
      for (size_t i = order.size(); i < f.cols.size(); ++i) {
        f.cols[i] = Column{"col" + std::to_string(i + 1), STRING, "", ""};
      }
      vp::cover("partly_described");
    }
    if (other_types) {
      f.explicit_types = true;
      vp::cover("types_replaced");
    }
    for (auto i : order) {
      auto& c = f.cols[i];
      bool  typed = true;
      if (rng.chance(0.15)) {
        c.type = other_types ? c.type : STRING;
        typed  = false;
      }
      if (style == 0 && rng.chance(0.1)) {
        // a column nobody describes
        c.type = other_types ? c.type : STRING;
        c.unit = c.desc = "";
        continue;
      }
      f.text += f.comment + gap(rng) + "Column:" + gap(rng) + quoted(c.name);
      if (typed) {
        f.text += gap(rng) + keyword(rng, other_types ? int(rng.below(NTYPES)) : c.type);
      }
      if (!c.unit.empty()) {
        f.text += gap(rng) + "(" + c.unit + ")";
      }
      if (!c.desc.empty()) {
        f.text += gap(rng) + "-" + gap(rng) + c.desc;
      }
      f.text += nl + blank();
      if (style == 0) {
        f.text += noise();
      }
    }
    vp::cover(style == 0 ? "described_and_named" : "described_only");
  } else {
    for (auto& c : f.cols) {
      c.unit = c.desc = "";
    }
    f.explicit_types = true;
  }
  if (style == 0 || style == 1) {
    f.text += f.comment;
    for (auto& c : f.cols) {
      f.text += gap(rng) + quoted(c.name);
    }
    f.text += nl + blank();
    if (rng.chance(0.2)) {
      f.text += f.comment + nl;
    }
  }
  if (style == 3) {
    // no comment at all, so that none can be mistaken for the names
    f.text = blank();
    for (size_t i = 0; i < f.cols.size(); ++i) {
      f.cols[i].name = "col" + std::to_string(i + 1);
    }
    vp::cover("unnamed");
  }
  if (rng.chance(0.15)) {
    for (size_t i = 0; i < f.cols.size(); ++i) {
      f.cols[i].name = "fixed " + std::to_string((i * 7 + 3) % 101);
    }
    f.explicit_names = true;
    vp::cover("names_replaced");
  }
  for (size_t n = rng.chance(0.03) ? rng.in(13, 200) : rng.in(1, 12); n > 0; --n) {
    std::vector<Cell> v;
    std::string       line = rng.chance(0.5) ? gap(rng) : "";
    for (auto& c : f.cols) {
      v.push_back(cellOf(rng, c.type, {f.comment}));
      if (v.size() == 1 && c.type == STRING && f.comment.size() > 1 && rng.chance(0.3)) {
        // begins nearly as a comment does
        v[0] = f.comment.substr(0, 1) + text(rng, 5, false, {f.comment.substr(0, 1)});
        line.clear();
      }
      line += (v.size() == 1 ? "" : gap(rng)) + boost::apply_visitor(Write(rng), v.back());
    }
    if (rng.chance(0.15)) {
      line += gap(rng) + f.comment + " trailing words";
    }
    if (rng.chance(0.1)) {
      line += gap(rng);
    }
    f.text += line;
    f.rows.push_back(v);
    if (n > 1 || rng.chance(0.7)) {
      f.text += nl + blank();
      if (rng.chance(0.1)) {
        f.text += f.comment + " between rows" + nl;
      }
    }
  }
  return f;
}
}  // namespace
VP_SCENARIO(streams, 5) {
  auto f    = generate(rng);
  int  kind = rng.below(4);
  vp::ScratchDir                 dir;
  std::unique_ptr<FarBuf>        buf;
  std::unique_ptr<std::istream>  in;
  std::unique_ptr<AsciiReader>   r;
  if (kind == 0) {
    std::ofstream(dir.path + "/t") << f.text;
    r.reset(new AsciiReader(dir.path + "/t"));
  } else if (kind == 1) {
    buf.reset(new FarBuf(f.text, rng.pick(std::vector<std::streamoff>{3000000000LL, 2147483640LL, 5000000000LL})));
    in.reset(new std::istream(buf.get()));
    r.reset(new AsciiReader(*in));
    vp::cover("far_streams");
  } else {
    in.reset(new std::istringstream(f.text));
    if (kind == 2) {
      in->exceptions(std::ios::badbit);
      vp::cover("throwing_streams");
    }
    r.reset(new AsciiReader(*in));
  }
  if (f.comment != "#") {
    r->setCommentIndicator(f.comment);
  }
  if (f.explicit_types) {
    std::vector<std::type_index> t;
    for (auto& c : f.cols) {
      t.push_back(typeOf(c.type));
    }
    r->fixColumnTypes(t);
  }
  if (f.explicit_names) {
    std::vector<std::string> names;
    for (auto& c : f.cols) {
      names.push_back(c.name);
    }
    r->fixColumnNames(names);
  }
  size_t at = 0;
  std::string trace;
  auto   check = [&](const Table& t) {
    auto& info = *t.getColumnInfo();
    VP_CHECK(info == r->getInfo() && info.size() == f.cols.size(), "wrong-columns-read", "columns of the table, " << trace << ": " << f.text);
    for (size_t i = 0; i < t.size(); ++i) {
      for (size_t j = 0; j < f.cols.size(); ++j) {
        VP_CHECK(same(t[i][j], f.rows[at + i][j]), "wrong-cell-read", "row " << at + i << " column " << j << " is " << show(t[i][j]) << " instead of " << show(f.rows[at + i][j]) << ", " << trace << ": " << f.text);
        vp::cover("cells");
      }
    }
  };
  bool info_checked = false;
  for (int step = 0; step < 30; ++step) {
    size_t left = f.rows.size() - at;
    switch (rng.below(6)) {
    case 0:
      trace += "hasMoreRows ";
      VP_CHECK(r->hasMoreRows() == (left > 0), "wrong-rows-left", "with " << left << " rows left, " << trace << ": " << f.text);
      break;
    case 1: {
      trace += "rowsLeft ";
      auto n = r->rowsLeft();
      VP_CHECK(n == left, "wrong-rows-left", n << " instead of " << left << ", " << trace << ": " << f.text);
      break;
    }
    case 2: {
      trace += "getInfo ";
      auto& info = r->getInfo();
      VP_CHECK(info.size() == f.cols.size(), "wrong-columns-read", info.size() << " columns instead of " << f.cols.size() << ", " << trace << ": " << f.text);
      auto want = infoOf(f.cols);
      for (size_t i = 0; i < f.cols.size(); ++i) {
        auto &g = info.getDescription(i), &e = want->getDescription(i);
        VP_CHECK(g.name == e.name && g.type == e.type && g.unit == e.unit && g.description == e.description, "wrong-columns-read", "column " << i << " is '" << g.name << "' " << g.type.name() << " '" << g.unit << "' '" << g.description << "' instead of '" << e.name << "' " << e.type.name() << " '" << e.unit << "' '" << e.description << "', " << trace << ": " << f.text);
      }
      info_checked = true;
      break;
    }
    case 3: {
      if (at == 0 && rng.chance(0.7)) {
        trace += "getComment ";
        auto c = r->getComment();
        // the comment lines at the beginning
        std::istringstream lines(f.text);
        std::string        line, want;
        while (std::getline(lines, line) && line.compare(0, f.comment.size(), f.comment) == 0) {
          want += line.substr(f.comment.size());
        }
        VP_CHECK(visible(c) == visible(want), "wrong-comment", "comment '" << c << "' instead of '" << want << "', " << trace << ": " << f.text);
      }
      break;
    }
    case 4: {
      long n = rng.in(1, 4);
      trace += "skip(" + std::to_string(n) + ") ";
      r->skip(n);
      at = std::min(at + size_t(n), f.rows.size());
      vp::cover("skips");
      break;
    }
    default: {
      long n = rng.chance(0.2) ? -1 : rng.in(1, 4);
      trace += "read(" + std::to_string(n) + ") ";
      if (left == 0) {
        VP_THROWS(r->read(n), "read-past-end", "nothing left, " << trace << ": " << f.text);
        vp::cover("exhausted");
      } else {
        auto   t    = r->read(n);
        size_t want = n < 0 ? left : std::min(left, size_t(n));
        VP_CHECK(t.size() == want, "wrong-rows-read", t.size() << " rows instead of " << want << ", " << trace << ": " << f.text);
        check(t);
        at += want;
        vp::cover("reads");
      }
    }
    }
  }
  if (info_checked) {
    vp::cover("infos");
  }
  VP_THROWS(r->setCommentIndicator("!"), "late-option", "comment indicator");
  VP_THROWS(r->fixColumnNames({"a"}), "late-option", "names");
  VP_THROWS(r->fixColumnTypes({typeid(int32_t)}), "late-option", "types");
  vp::distinct(vp::fnv(f.text + trace));
  if (vp::wantSample()) {
    vp::sample(trace + ": " + f.text);
  }
}
VP_SCENARIO(damaged, 4) {
  // anything at all: rows of the announced types, or an exception
  auto        f = generate(rng);
  std::string t = f.text;
  if (rng.chance(0.1)) {
    t.clear();
    for (size_t n = rng.below(200); n > 0; --n) {
      t += char(rng.chance(0.2) ? rng.pick(std::vector<int>{'#', '\n', '"', '\\', ' ', '(', '<', 0}) : int(rng.below(256)));
    }
  }
  for (int n = rng.in(1, 4); n > 0; --n) {
    size_t p = rng.below(t.size() + 1);
    switch (rng.below(6)) {
    case 0:
      t = t.substr(0, p);
      break;
    case 1:
      t.erase(p, rng.in(1, 8));
      break;
    case 2:
      t.insert(p, rng.pick(std::vector<std::string>{"\"", "(", ")", "#", "\n", " ", "\\", "<", ">", ",", "Column:", "# Column: x (", "# Column: (\n", "# Column: a int (\n", "-", "<-1,-1>5", "<0>", "<4294967296,4294967296>", "99999999999999999999", std::string(1, '\0'), "\xff"}));
      break;
    case 3:
      if (p < t.size()) {
        t[p] = char(rng.below(256));
      }
      break;
    case 4: {
      size_t q = rng.below(t.size() + 1), l = rng.in(1, 20);
      if (q < t.size()) {
        t.insert(p, t.substr(q, l));
      }
      break;
    }
    default: {
      // the shape of an array
      auto lt = t.find('<', p), gt = lt == std::string::npos ? lt : t.find('>', lt);
      if (gt != std::string::npos) {
        t.replace(lt, gt - lt + 1, rng.pick(std::vector<std::string>{"<-1,-1>", "<>", "<1,-1,-1>", "<65536,65536,65536,65536>", "<0,0>", "<2147483647>"}));
      }
    }
    }
  }
  std::istringstream in(t);
  AsciiReader        r(in);
  r.setCommentIndicator(f.comment);
  bool refused = false;
  try {
    if (rng.chance(0.3)) {
      r.getComment();
    }
    if (f.explicit_types && rng.chance(0.7)) {
      std::vector<std::type_index> types;
      for (auto& c : f.cols) {
        types.push_back(typeOf(c.type));
      }
      r.fixColumnTypes(types);
    }
    size_t left = r.rowsLeft(), got = 0;
    VP_CHECK(r.hasMoreRows() == (left > 0), "wrong-rows-left", left << " rows left: " << t);
    while (r.hasMoreRows()) {
      auto table = r.read(rng.in(1, 3));
      got += table.size();
      for (auto& row : table) {
        VP_CHECK(row.size() == r.getInfo().size(), "wrong-row", "cells");
        for (size_t i = 0; i < row.size(); ++i) {
          VP_CHECK(std::type_index(row[i].type()) == r.getInfo().getDescription(i).type, "wrong-row", "type");
          // touch all there is
          vp::keep(boost::apply_visitor(CastVisitor<std::string>{}, row[i]));
          if (auto a = boost::get<NdArray<double>>(&row[i])) {
            size_t n = 1;
            for (auto s : a->shape()) {
              VP_CHECK(s == 0 || n <= 1000000 / s, "wrong-shape", "array of " << vp::show(a->shape()) << ": " << t);
              n *= s;
            }
            VP_CHECK(size_t(a->end() - a->begin()) == n && a->size() == n, "wrong-shape", "array of " << vp::show(a->shape()) << " has " << a->size() << " elements: " << t);
          }
        }
      }
    }
    VP_CHECK(got == left, "wrong-rows-read", got << " rows instead of " << left << ": " << t);
  } catch (const vp::Fail&) {
    throw;
  } catch (const std::exception&) {
    refused = true;
  }
  vp::cover(refused ? "damaged_refused" : "damaged_read");
  vp::distinct(vp::fnv(t));
}
VP_SCENARIO(badRows, 1) {
  // a row with another number of cells, or a cell that is not of its type, is refused
  auto f = generate(rng);
  if (f.explicit_types) {
    return;
  }
  std::string line;
  size_t      n = f.cols.size();
  if (rng.chance(0.5) || std::all_of(f.cols.begin(), f.cols.end(), [](const Column& c) { return c.type == STRING; })) {
    n = rng.chance(0.5) && n > 1 ? n - 1 : n + 1;
    for (size_t i = 0; i < n; ++i) {
      line += boost::apply_visitor(Write(rng), cellOf(rng, i < f.cols.size() ? f.cols[i].type : int(STRING), {f.comment})) + " ";
    }
  } else {
    size_t bad;
    do {
      bad = rng.below(n);
    } while (f.cols[bad].type == STRING);
    for (size_t i = 0; i < n; ++i) {
      line += i == bad ? "w0rd! " : boost::apply_visitor(Write(rng), cellOf(rng, f.cols[i].type, {f.comment})) + " ";
    }
  }
  std::istringstream in(f.text + "\n" + line + "\n");
  AsciiReader        r(in);
  r.setCommentIndicator(f.comment);
  VP_CHECK(r.rowsLeft() == f.rows.size() + 1, "wrong-rows-left", "rows");
  VP_CHECK(r.read(f.rows.size()).size() == f.rows.size(), "wrong-rows-read", "rows");
  VP_THROWS(r.read(), "bad-row-read", "row '" << line << "' in " << f.text);
  vp::cover("bad_rows");
}
VP_SCENARIO(options, 1) {
  auto               f = generate(rng);
  std::istringstream in(f.text);
  AsciiReader        r(in);
  r.setCommentIndicator(f.comment);
  VP_THROWS(r.setCommentIndicator(""), "bad-option", "empty comment");
  VP_THROWS(r.fixColumnNames({"a", "b", "a"}), "bad-option", "duplicate");
  VP_THROWS(r.fixColumnNames({"a", ""}), "bad-option", "empty name");
  VP_THROWS(r.fixColumnNames({"a\nb"}), "bad-option", "line break");
  r.fixColumnNames({});
  std::vector<std::string>     names;
  std::vector<std::type_index> types;
  for (size_t i = 0; i < f.cols.size() + 1; ++i) {
    names.push_back("n" + std::to_string(i));
    types.push_back(typeid(std::string));
  }
  if (rng.chance(0.5)) {
    r.fixColumnNames(names);
    VP_THROWS(r.fixColumnTypes(std::vector<std::type_index>(names.size() + (rng.chance(0.5) ? 1 : -1), typeid(int32_t))), "bad-option", "sizes");
    r.fixColumnTypes({});
  } else {
    r.fixColumnTypes(types);
  }
  VP_THROWS(r.getInfo(), "bad-option", "other number of columns");
  // names that are overridden may be anything in the file
  std::istringstream twice("# same same other\n1 2 3\n");
  AsciiReader        o(twice);
  if (rng.chance(0.5)) {
    VP_THROWS(o.getInfo(), "bad-option", "duplicate names");
  } else {
    auto t = o.fixColumnNames({"a", "b", "c"}).read();
    VP_CHECK(t.size() == 1 && boost::get<std::string>(t[0]["b"]) == "2" && o.getInfo().getDescription(2).name == "c", "wrong-columns-read", "overridden names");
  }
  vp::cover("options");
}
#endif

#ifdef VP_C20
namespace {
template <typename To>
bool casts(const Cell& c, To& out) {
  try {
    out = boost::apply_visitor(CastVisitor<To>{}, c);
    return true;
  } catch (const Elements::Exception&) {
    return false;
  }
}
template <typename T>
bool eq(const T& a, const T& b) {
  return a == b || (a != a && b != b);
}
template <typename T>
bool eq(const std::vector<T>& a, const std::vector<T>& b) {
  bool ok = a.size() == b.size();
  for (size_t i = 0; ok && i < a.size(); ++i) {
    ok = eq<T>(a[i], b[i]);
  }
  return ok;
}
// value of a scalar cell in To if To can hold all values of its type
template <typename To>
struct Widen : boost::static_visitor<int> {
  To* out;
  template <typename T>
  static constexpr bool holds() {
    return std::is_same<To, bool>::value ? std::is_same<T, bool>::value
           : std::is_same<To, double>::value ? std::is_arithmetic<T>::value
           : std::is_same<To, float>::value ? (std::is_arithmetic<T>::value && !std::is_same<T, double>::value)
           : std::is_same<To, int64_t>::value ? std::is_integral<T>::value
                                              : (std::is_integral<T>::value && sizeof(T) <= 4);
  }
  template <typename T>
  int operator()(const T& v) const {
    return go(v, std::integral_constant<bool, std::is_arithmetic<T>::value && holds<T>()>());
  }
  template <typename T>
  int go(const T& v, std::true_type) const {
    *out = static_cast<To>(v);
    return 1;
  }
  template <typename T>
  int go(const T&, std::false_type) const {
    return 0;
  }
};
template <typename To>
bool widens(const Cell& c, To& out) {
  Widen<To> w;
  w.out = &out;
  return boost::apply_visitor(w, c);
}
template <typename To>
void scalar(vp::Rng& rng, const char* name) {
  int  t = rng.below(NTYPES);
  Cell c = cellOf(rng, t, {});
  if (t == STRING) {
    return;
  }
  To   want{}, got{};
  bool can = widens<To>(c, want), did = casts<To>(c, got);
  VP_CHECK(can == did, "wrong-cast", (did ? "accepted" : "refused") << " a cell of type " << t << " as " << name << ": " << show(c));
  VP_CHECK(!can || eq<To>(want, got), "wrong-cast", show(c) << " as " << name << " is " << got << " instead of " << want);
  vp::cover(can ? "scalar_casts" : "refused_casts");
  // the same for vectors, element by element
  std::vector<To> vgot, vwant;
  did = casts<std::vector<To>>(c, vgot);
  if (t < STRING) {
    VP_CHECK(did == can && (!can || (vgot.size() == 1 && eq<To>(vgot[0], want))), "wrong-cast", "scalar " << show(c) << " as vector of " << name);
    vp::cover("vector_casts");
  } else if (t <= VDOUBLE) {
    can = true;
    auto one = [&](const Cell& e) {
      To x{};
      can = can && widens<To>(e, x);
      vwant.push_back(x);
    };
    if (auto v = boost::get<std::vector<bool>>(&c)) {
      for (bool b : *v)
        one(Cell{b});
    } else if (auto v = boost::get<std::vector<int32_t>>(&c)) {
      for (auto b : *v)
        one(Cell{b});
    } else if (auto v = boost::get<std::vector<int64_t>>(&c)) {
      for (auto b : *v)
        one(Cell{b});
    } else if (auto v = boost::get<std::vector<float>>(&c)) {
      for (auto b : *v)
        one(Cell{b});
    } else if (auto v = boost::get<std::vector<double>>(&c)) {
      for (auto b : *v)
        one(Cell{b});
    }
    VP_CHECK(did == can && (!can || eq(vgot, vwant)), "wrong-cast", (did ? "accepted" : "refused") << " a vector of type " << t << " as vector of " << name << ": " << show(c));
    vp::cover("vector_casts");
  } else {
    VP_CHECK(!did, "wrong-cast", "array accepted as vector");
  }
  vp::distinct(vp::fnv(show(c) + name));
}
template <typename To>
To parse(const std::string& s);
template <>
double parse(const std::string& s) {
  return std::stod(s);
}
template <>
float parse(const std::string& s) {
  return std::stof(s);
}
template <>
int64_t parse(const std::string& s) {
  return std::stoll(s);
}
template <>
int32_t parse(const std::string& s) {
  return std::stoi(s);
}
std::string numeral(vp::Rng& r, bool integer) {
  if (r.chance(0.15)) {
    return r.pick(std::vector<std::string>{"2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "-99999999999999999999999"});
  }
  if (!integer && r.chance(0.15)) {
    return r.pick(std::vector<std::string>{"1e400", "-1e400", "1e39", "-1e39", "3.5e38", "1e-300", "1.5", "-.25", "+3"});
  }
  if (integer || r.chance(0.4)) {
    auto s = std::to_string(r.chance(0.3) ? int64_t(r.next()) >> r.below(64) : r.chance(0.5) ? int64_t(int32_t(r.next())) : r.in(-30, 30));
    if (r.chance(0.2)) {
      s.insert(s[0] == '-' ? 1 : 0, r.in(1, 4), '0');
    } else if (r.chance(0.1) && s[0] != '-') {
      s = "+" + s;
    }
    return s;
  }
  std::ostringstream o;
  o.precision(r.in(1, 17));
  o << r.real(-1, 1) * std::pow(10., r.in(-30, 30));
  return o.str();
}
template <typename To>
void strings(vp::Rng& rng, const char* name) {
  std::string s = numeral(rng, std::is_integral<To>::value);
  To          want{}, got{};
  bool        can = true;
  try {
    want = parse<To>(s);
  } catch (const std::out_of_range&) {
    can = false;
  }
  if (!can && s.find("e-") != std::string::npos) {
    return;  // too small: a value near zero or refused
  }
  bool did = casts<To>(Cell{s}, got);
  VP_CHECK(did == can, "wrong-string-cast", (did ? "accepted" : "refused") << " '" << s << "' as " << name << (did ? ": " + std::to_string(got) : ""));
  VP_CHECK(!can || eq<To>(want, got), "wrong-string-cast", "'" << s << "' as " << name << " is " << got << " instead of " << want);
  vp::cover(can ? "string_casts" : "overflows");
  // not a number
  auto junk = rng.pick(std::vector<std::string>{"", "abc", "-", "e5", "x12", ".", "--1"});
  VP_CHECK(!casts<To>(Cell{junk}, got), "wrong-string-cast", "'" << junk << "' accepted as " << name);
  // lists
  std::string     l;
  std::vector<To> vwant, vgot;
  bool            ok = true;
  for (size_t n = rng.chance(0.02) ? rng.in(6, 300) : rng.in(0, 5); n > 0; --n) {
    s = numeral(rng, std::is_integral<To>::value);
    l += (l.empty() ? "" : ",") + s;
    try {
      vwant.push_back(parse<To>(s));
    } catch (const std::out_of_range&) {
      ok = false;
      if (s.find("e-") != std::string::npos) {
        return;
      }
    }
  }
  did = casts<std::vector<To>>(Cell{l}, vgot);
  VP_CHECK(did == ok && (!ok || eq(vwant, vgot)), "wrong-string-cast", (did ? "accepted" : "refused") << " '" << l << "' as vector of " << name);
  vp::cover("list_casts");
  vp::distinct(vp::fnv(l + s + name));
}
}  // namespace
VP_SCENARIO(numbers, 4) {
  switch (rng.below(5)) {
  case 0:
    return scalar<double>(rng, "double");
  case 1:
    return scalar<float>(rng, "float");
  case 2:
    return scalar<int64_t>(rng, "int64");
  case 3:
    return scalar<int32_t>(rng, "int32");
  default:
    return scalar<bool>(rng, "bool");
  }
}
VP_SCENARIO(fromStrings, 4) {
  switch (rng.below(4)) {
  case 0:
    return strings<double>(rng, "double");
  case 1:
    return strings<float>(rng, "float");
  case 2:
    return strings<int64_t>(rng, "int64");
  default:
    return strings<int32_t>(rng, "int32");
  }
}
VP_SCENARIO(toStrings, 2) {
  int  t = rng.below(NTYPES);
  Cell c = cellOf(rng, t, {});
  auto s = boost::apply_visitor(CastVisitor<std::string>{}, c);
  if (auto x = boost::get<std::string>(&c)) {
    VP_CHECK(s == *x, "wrong-text", "text");
    VP_CHECK(boost::apply_visitor(CastVisitor<std::vector<std::string>>{}, Cell{std::string("a,b,c")}) == std::vector<std::string>({"a", "b", "c"}), "wrong-text", "list");
  } else if (t < STRING) {
    // the text denotes the same number, to six digits
    double v = 0;
    boost::apply_visitor(CastVisitor<double>{}, c);
    v = boost::apply_visitor(CastVisitor<double>{}, c);
    char* end = nullptr;
    double w  = std::strtod(s.c_str(), &end);
    VP_CHECK(*end == 0 && !s.empty() && near<double>(v, w), "wrong-text", s << " instead of " << show(c));
    if (t == LONG) {
      VP_CHECK(std::to_string(boost::get<int64_t>(c)) == s, "wrong-text", s);
    } else if (t == INT) {
      VP_CHECK(std::to_string(boost::get<int32_t>(c)) == s, "wrong-text", s);
    }
  } else if (t == VINT || t == VLONG) {
    std::string want;
    if (t == VINT) {
      for (auto x : boost::get<std::vector<int32_t>>(c)) {
        want += (want.empty() ? "" : ",") + std::to_string(x);
      }
    } else {
      for (auto x : boost::get<std::vector<int64_t>>(c)) {
        want += (want.empty() ? "" : ",") + std::to_string(x);
      }
    }
    VP_CHECK(s == want, "wrong-text", s << " instead of " << want);
  } else if (t == VDOUBLE) {
    auto& v = boost::get<std::vector<double>>(c);
    auto  w = boost::apply_visitor(CastVisitor<std::vector<std::string>>{}, Cell{s});
    VP_CHECK(v.size() == w.size(), "wrong-text", s);
    for (size_t i = 0; i < v.size(); ++i) {
      VP_CHECK(near<double>(v[i], std::strtod(w[i].c_str(), nullptr)), "wrong-text", s << " instead of " << show(c));
    }
  }
  vp::cover("texts");
}
VP_SCENARIO(sameType, 2) {
  int t = rng.below(NTYPES), u = rng.below(NTYPES);
  // arrays and the types without conversions: only their own cells
  Cell c = cellOf(rng, t, {});
  NdArray<double>  d({1});
  NdArray<int32_t> i({1});
  bool             did = casts<NdArray<double>>(c, d);
  VP_CHECK(did == (t == ADOUBLE), "wrong-cast", "type " << t << " as double array");
  VP_CHECK(!did || (same(Cell{d}, c) && d.shape() == boost::get<NdArray<double>>(c).shape()), "wrong-cast", "array changed");
  did = casts<NdArray<int32_t>>(c, i);
  VP_CHECK(did == (t == AINT) && (!did || i == boost::get<NdArray<int32_t>>(c)), "wrong-cast", "type " << t << " as int array");
  (void)u;
  vp::cover(did ? "same_type" : "other_types");
}
#endif
VP_MAIN()
