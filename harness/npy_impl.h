// C08: npy files: written, read, mapped, exchanged with numpy, malformed. The oracle is an independent encoder/decoder of
// the format (and numpy itself in one scenario).
#include "vp.h"
#include "ElementsKernel/Exception.h"
#include "NdArray/NdArray.h"
#include "NdArray/io/Npy.h"
#include "NdArray/io/NpyMmap.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iterator>
#include <numeric>
using Euclid::NdArray::NdArray;
typedef std::vector<size_t> Shape;
typedef boost::iostreams::mapped_file_base Map;
namespace {
size_t prod(const Shape& s) {
  return std::accumulate(s.begin(), s.end(), size_t(1), std::multiplies<size_t>());
}
template <typename T>
struct Code;
#define CODE(T, S)                                                                                                              \
  template <>                                                                                                                  \
  struct Code<T> {                                                                                                              \
    static std::string str() {                                                                                                 \
      return S;                                                                                                                \
    }                                                                                                                          \
  }
CODE(int8_t, "|i1");
CODE(uint8_t, "|u1");
CODE(int16_t, "<i2");
CODE(uint16_t, "<u2");
CODE(int32_t, "<i4");
CODE(uint32_t, "<u4");
CODE(int64_t, "<i8");
CODE(uint64_t, "<u8");
CODE(float, "<f4");
CODE(double, "<f8");

template <typename T>
T randomValue(vp::Rng& r) {
  // any bit pattern
  uint64_t bits = r.next();
  T        v;
  std::memcpy(&v, &bits, sizeof(T));
  return v;
}
template <typename T>
bool same(const T& a, const T& b) {
  return std::memcmp(&a, &b, sizeof(T)) == 0;
}

std::string slurp(const std::string& path) {
  std::ifstream f(path, std::ios::binary);
  return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
void spit(const std::string& path, const std::string& data) {
  std::ofstream f(path, std::ios::binary);
  f << data;
}

// what an array stored in a file consists of
struct Content {
  std::string              code;  // numpy type string
  Shape                    shape;
  std::vector<std::string> fields;
  bool                     fortran = false;
  std::string              data;
};

std::string tuple(const Shape& s, bool spaces) {
  std::string t = "(";
  for (size_t i = 0; i < s.size(); ++i) {
    t += (i ? (spaces ? ", " : ",") : "") + std::to_string(s[i]);
  }
  return t + (s.size() == 1 ? ",)" : ")");
}
std::string header(const Content& c, int version, bool spaces = true, int order = 0) {
  std::string d;
  if (c.fields.empty()) {
    d = "'" + c.code + "'";
  } else {
    d = "[";
    for (size_t i = 0; i < c.fields.size(); ++i) {
      d += (i ? ", " : "") + ("('" + c.fields[i]) + "', '" + c.code + "')";
    }
    d += "]";
  }
  std::vector<std::string> entries{"'descr': " + d, std::string("'fortran_order': ") + (c.fortran ? "True" : "False"), "'shape': " + tuple(c.shape, spaces)};
  std::swap(entries[0], entries[order % 3]);
  if (order >= 3) {
    std::swap(entries[1], entries[2]);
  }
  std::string h = "{" + entries[0] + ", " + entries[1] + ", " + entries[2] + (order % 2 ? "}" : ", }");
  size_t      pre = version == 1 ? 10 : 12;
  while ((pre + h.size() + 1) % 64) {
    h += ' ';
  }
  h += '\n';
  std::string out = std::string("\x93NUMPY") + char(version) + '\0';
  size_t      n   = h.size();
  for (int i = 0; i < (version == 1 ? 2 : 4); ++i) {
    out += char(n & 255);
    n >>= 8;
  }
  return out + h;
}

// strict decoder of what the library writes
Content decode(const std::string& f) {
  Content c;
  VP_CHECK(f.size() >= 12 && f.compare(0, 6, "\x93NUMPY") == 0, "bad-file", "no magic");
  int    v   = f[6];
  size_t pre = v == 1 ? 10 : 12;
  VP_CHECK(v >= 1 && v <= 3 && f[7] == 0, "bad-file", "version " << v);
  size_t len = 0;
  for (size_t i = pre; i-- > 8;) {
    len = (len << 8) | uint8_t(f[i]);
  }
  VP_CHECK(f.size() >= pre + len, "bad-file", "header of " << len << " bytes in a file of " << f.size());
  std::string h = f.substr(pre, len);
  VP_CHECK(!h.empty() && h.back() == '\n', "bad-file", "header does not end with a new line");
  VP_CHECK((pre + len) % 64 == 0, "bad-file", "data not aligned: " << pre + len);
  size_t p = 0;
  auto   ws = [&] {
    while (p < h.size() && (h[p] == ' ' || h[p] == '\n')) {
      ++p;
    }
  };
  auto expect = [&](const std::string& t) {
    ws();
    VP_CHECK(h.compare(p, t.size(), t) == 0, "bad-file", "expected " << t << " at " << p << " of " << h);
    p += t.size();
  };
  auto peek = [&](char x) {
    ws();
    return p < h.size() && h[p] == x;
  };
  auto quoted = [&] {
    expect("'");
    std::string s;
    while (p < h.size() && h[p] != '\'') {
      s += h[p++];
    }
    expect("'");
    return s;
  };
  bool seen[3] = {false, false, false};
  expect("{");
  while (!peek('}')) {
    auto key = quoted();
    expect(":");
    if (key == "descr") {
      seen[0] = true;
      if (peek('[')) {
        expect("[");
        while (!peek(']')) {
          expect("(");
          c.fields.push_back(quoted());
          expect(",");
          auto code = quoted();
          VP_CHECK(c.code.empty() || c.code == code, "bad-file", "mixed types " << h);
          c.code = code;
          expect(")");
          if (peek(',')) {
            expect(",");
          }
        }
        expect("]");
      } else {
        c.code = quoted();
      }
    } else if (key == "fortran_order") {
      seen[1] = true;
      ws();
      c.fortran = h.compare(p, 4, "True") == 0;
      p += c.fortran ? 4 : 5;
    } else if (key == "shape") {
      seen[2] = true;
      expect("(");
      while (!peek(')')) {
        size_t x = 0, digits = 0;
        while (p < h.size() && isdigit(h[p])) {
          x = x * 10 + (h[p++] - '0');
          ++digits;
        }
        VP_CHECK(digits, "bad-file", "bad shape " << h);
        c.shape.push_back(x);
        if (!peek(')')) {
          expect(",");
        } else {
          VP_CHECK(c.shape.size() > 1 || h[p - 1] == ',', "bad-file", "the shape is not a tuple: " << h);
        }
      }
      expect(")");
    } else {
      VP_CHECK(false, "bad-file", "unknown entry " << key);
    }
    if (peek(',')) {
      expect(",");
    }
  }
  expect("}");
  ws();
  VP_CHECK(p == h.size(), "bad-file", "garbage after the dictionary");
  VP_CHECK(seen[0] && seen[1] && seen[2], "bad-file", "missing entries " << h);
  c.data = f.substr(pre + len);
  return c;
}
std::string normal(std::string code) {
  if (code.size() == 2 && (code[1] == 'b' || code[1] == 'B')) {
    return code[1] == 'b' ? "|i1" : "|u1";
  }
  if (code.size() == 3 && code[2] == '1') {
    code[0] = '|';
  }
  return code;
}

template <typename T>
struct Arr {
  Shape                    shape;  // without the attributes
  std::vector<std::string> names;
  std::vector<T>           v;
  Shape                    full() const {
    Shape s = shape;
    if (!names.empty()) {
      s.push_back(names.size());
    }
    return s;
  }
  NdArray<T> array() const {
    return NdArray<T>(shape, names, v);
  }
  std::string bytes() const {
    return std::string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T));
  }
  Content content() const {
    Content c;
    c.code   = Code<T>::str();
    c.shape  = shape;
    c.fields = names;
    c.data   = bytes();
    return c;
  }
  std::string text() const {
    return Code<T>::str() + vp::show(shape) + (names.empty() ? "" : vp::show(names));
  }
};

std::string randomName(vp::Rng& r) {
  static const std::vector<std::string> special{"shape", "descr", "fortran_order", "ID", "a", "x y", "f(x)", "True", "<f8", "{", "a,b", "the_shape"};
  if (r.chance(0.3)) {
    return r.pick(special);
  }
  std::string s;
  int         n = r.in(1, r.chance(0.1) ? 60 : 8);
  for (int i = 0; i < n; ++i) {
    s += "abcXYZ_019 .-"[r.below(13)];
  }
  return s;
}

template <typename T>
Arr<T> randomArr(vp::Rng& r, bool zero = true, bool named = true) {
  Arr<T> a;
  a.shape.resize(r.in(1, r.chance(0.1) ? 8 : 4));
  for (auto& x : a.shape) {
    x = zero && r.chance(0.03) ? 0 : r.in(1, a.shape.size() > 4 ? 2 : 5);
  }
  if (r.chance(0.1)) {
    a.shape[0] = r.in(10, 300);
  }
  if (named && r.chance(0.3)) {
    int n = r.in(1, 5);
    if (r.chance(0.004)) {
      // descriptions longer than 64 kB
      a.shape.assign(1, 2);
      for (int i = 0; i < 3000; ++i) {
        a.names.push_back("field number " + std::to_string(i));
      }
      n = 0;
      vp::cover("long_headers");
    }
    while (int(a.names.size()) < n) {
      auto s = randomName(r);
      if (std::find(a.names.begin(), a.names.end(), s) == a.names.end()) {
        a.names.push_back(s);
      }
    }
    if (r.chance(0.1)) {
      a.shape.clear();
    }
    vp::cover("named");
  }
  a.v.resize(prod(a.full()));
  for (auto& x : a.v) {
    x = randomValue<T>(r);
  }
  return a;
}

template <typename T>
void same(const NdArray<T>& got, const Arr<T>& a, const char* what) {
  VP_CHECK(got.shape() == a.full(), "wrong-shape", what << " " << a.text() << " gives shape " << vp::show(got.shape()));
  VP_CHECK(got.attributes() == a.names, "wrong-attributes", what << " " << a.text() << " gives " << vp::show(got.attributes()));
  VP_CHECK(got.size() == a.v.size(), "wrong-shape", what << " " << a.text() << " gives size " << got.size());
  size_t f = 0;
  for (auto i = got.begin(); i != got.end(); ++i, ++f) {
    T x = *i;
    VP_CHECK(same(x, a.v[f]), "wrong-data", what << " " << a.text() << ": element " << f << " is " << +x << " instead of " << +a.v[f]);
  }
  vp::cover("elements_compared", f);
}

template <typename F>
bool refused(F f) {
  try {
    f();
  } catch (const vp::Fail&) {
    throw;
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

template <typename T>
void checkFile(const std::string& bytes, const Arr<T>& a, const char* what) {
  auto c = decode(bytes);
  VP_CHECK(normal(c.code) == Code<T>::str() && c.shape == a.shape && c.fields == a.names && !c.fortran, "bad-file", what << " " << a.text() << " is described as " << c.code << " " << vp::show(c.shape) << vp::show(c.fields));
  VP_CHECK(c.data == a.bytes(), "bad-file", what << " " << a.text() << ": data differ");
}

template <typename T>
void roundtrip(vp::Rng& r) {
  auto        a = randomArr<T>(r);
  std::string path;
  vp::distinct(vp::fnv(a.text() + a.bytes().substr(0, 64)));
  if (vp::wantSample()) {
    vp::sample(a.text());
  }
  auto              arr = a.array();
  std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
  Euclid::NdArray::writeNpy(s, arr);
  std::string bytes = s.str();
  checkFile(bytes, a, "written");
  same(Euclid::NdArray::readNpy<T>(s), a, "read back");
  // foreign files
  for (int v = 1; v <= 3; ++v) {
    auto              c = a.content();
    if (v == 1 && a.names.size() > 1000) {
      continue;  // does not fit
    }
    if (sizeof(T) == 1 && r.chance(0.3)) {
      c.code = c.code == "|i1" ? "|b" : "|B";
    }
    std::stringstream in(header(c, v, r.chance(0.7), r.below(6)) + c.data, std::ios::in | std::ios::binary);
    same(Euclid::NdArray::readNpy<T>(in), a, "foreign");
    vp::cover("foreign_files");
  }
  // several arrays in a stream, one after the other
  {
    auto              b = randomArr<T>(r);
    std::stringstream two(std::ios::in | std::ios::out | std::ios::binary);
    Euclid::NdArray::writeNpy(two, arr);
    Euclid::NdArray::writeNpy(two, b.array());
    same(Euclid::NdArray::readNpy<T>(two), a, "first of two");
    same(Euclid::NdArray::readNpy<T>(two), b, "second of two");
  }
  // files
  vp::ScratchDir dir;
  path = dir.path + "/a.npy";
  Euclid::NdArray::writeNpy(boost::filesystem::path(path), arr);
  VP_CHECK(slurp(path) == bytes, "bad-file", "file and stream differ");
  same(Euclid::NdArray::readNpy<T>(boost::filesystem::path(path)), a, "file");
  if (a.v.size()) {
    {
      const NdArray<T> m = Euclid::NdArray::mmapNpy<T>(boost::filesystem::path(path), Map::readonly);
      same(m, a, "mapped read-only");
    }
    {
      NdArray<T> m = Euclid::NdArray::mmapNpy<T>(boost::filesystem::path(path), Map::priv);
      same(m, a, "mapped private");
      for (auto& x : m) {
        x = randomValue<T>(r);
      }
    }
    VP_CHECK(slurp(path) == bytes, "bad-file", "private changes reached the file");
    {
      size_t     max = r.chance(0.3) ? r.below(bytes.size() * 2) : 0;
      NdArray<T> m   = Euclid::NdArray::mmapNpy<T>(boost::filesystem::path(path), Map::readwrite, max);
      same(m, a, "mapped");
      auto shared = m;
      int  k      = r.in(1, 5);
      for (int i = 0; i < k; ++i) {
        size_t f   = r.below(a.v.size());
        T      val = randomValue<T>(r);
        *(shared.begin() + f) = val;
        a.v[f]                = val;
      }
      same(m, a, "mapped and changed");
    }
    checkFile(slurp(path), a, "changed through a mapping");
    same(Euclid::NdArray::readNpy<T>(boost::filesystem::path(path)), a, "changed file");
    vp::cover("mapped_files");
  }
  // views are written as what they show
  if (a.names.empty() && a.shape.size() > 1 && a.v.size()) {
    auto   fresh = a.array();
    bool   right = r.chance(0.5);
    size_t rows  = right ? a.shape.back() : a.shape[0];
    size_t i     = r.below(rows);
    Arr<T> e;
    e.shape  = right ? Shape(a.shape.begin(), a.shape.end() - 1) : Shape(a.shape.begin() + 1, a.shape.end());
    size_t n = prod(e.shape);
    for (size_t k = 0; k < n; ++k) {
      e.v.push_back(a.v[right ? k * rows + i : i * n + k]);
    }
    std::stringstream vs(std::ios::in | std::ios::out | std::ios::binary);
    Euclid::NdArray::writeNpy(vs, right ? fresh.rslice(i) : fresh.slice(i));
    checkFile(vs.str(), e, "view");
    vp::cover("views_written");
  }
}

// arrays that live in a file, growing
template <typename T>
void growing(vp::Rng& r) {
  vp::ScratchDir dir;
  auto           path = dir.path + "/g.npy";
  auto           a    = randomArr<T>(r, false);
  if (a.shape.empty()) {
    a.shape.push_back(2);
    a.v.resize(prod(a.full()));
  }
  size_t rowlen = a.v.size() / a.shape[0];
  if (r.chance(0.3) && a.names.size() < 100) {
    // one more digit in the shape and the description gets longer
    a.shape[0] = r.pick(std::vector<size_t>{9, 8, 99, 97});
    Arr<T> more = a;
    more.shape[0] = 100;
    if (!a.names.empty()) {
      auto fits = [&] {
        a.v.assign(prod(a.full()), T());
        more.names = a.names;
        more.v.assign(prod(more.full()), T());
        std::stringstream s1, s2;
        Euclid::NdArray::writeNpy(s1, a.array());
        Euclid::NdArray::writeNpy(s2, more.array());
        return s1.str().size() - a.v.size() * sizeof(T) == s2.str().size() - more.v.size() * sizeof(T);
      };
      for (int k = 0; k < 70 && fits(); ++k) {
        a.names[0] += 'n';
      }
      vp::cover("tight_headers");
    }
    a.v.resize(prod(a.full()));
    for (auto& x : a.v) {
      x = randomValue<T>(r);
    }
  }
  for (int phase = 0; phase < 2; ++phase) {
  if (phase && r.chance(0.5)) {
    break;
  }
  size_t total;
  {
    std::stringstream s0;
    Euclid::NdArray::writeNpy(s0, a.array());
    total = s0.str().size();
  }
  size_t room   = r.in(0, 12);
  size_t max    = r.chance(0.2) ? 0 : r.chance(0.5) ? total + room * rowlen * sizeof(T) + r.in(-1, 1) : 4096 + (a.shape[0] + room) * rowlen * sizeof(T);
  {
    auto m = phase ? Euclid::NdArray::mmapNpy<T>(boost::filesystem::path(path), Map::readwrite, max) : Euclid::NdArray::createMmapNpy<T>(boost::filesystem::path(path), a.shape, a.names, max);
    VP_CHECK(m.shape() == a.full() && m.attributes() == a.names, "wrong-shape", "created " << a.text());
    if (!phase) {
      size_t f = 0;
      for (auto& x : m) {
        x = a.v[f++];
      }
    }
    same(m, a, phase ? "mapped again" : "created");
    int times = r.in(0, 4);
    for (int t = 0; t < times; ++t) {
      Arr<T> add;
      add.shape    = a.shape;
      add.names    = a.names;
      add.shape[0] = r.in(1, 5);
      add.v.resize(prod(add.full()));
      for (auto& x : add.v) {
        x = randomValue<T>(r);
      }
      std::string before = slurp(path);
      bool        fits   = true;
      size_t      rows   = a.shape[0];
      try {
        m.concatenate(add.array());
      } catch (const Elements::Exception&) {
        fits = false;
      }
      if (fits) {
        a.v.insert(a.v.end(), add.v.begin(), add.v.end());
        a.shape[0] += add.shape[0];
        vp::cover("mapped_growths");
      } else {
        VP_CHECK(slurp(path) == before, "bad-file", "a refused growth changed the file");
        vp::cover("refused_growths");
      }
      // the documented limit is the size of the file
      if (max && before.size() + add.v.size() * sizeof(T) <= max && std::to_string(rows).size() == std::to_string(rows + add.shape[0]).size()) {
        VP_CHECK(fits, "refused-growth", a.text() << " by " << add.shape[0] << " although it fits");
      }
      VP_CHECK(!fits || before.size() + add.v.size() * sizeof(T) <= std::max(max, total), "unchecked-growth", a.text() << " grew beyond the maximum of " << max << " from " << before.size() << " by " << add.v.size() * sizeof(T));
      VP_CHECK(m.shape() == a.full(), "wrong-shape", "after growing");
      for (int k = 0; k < 8; ++k) {
        size_t f2 = r.below(a.v.size()), g = f2;
        Shape  c(m.shape().size());
        for (size_t i = c.size(); i-- > 0;) {
          c[i] = g % m.shape()[i];
          g /= m.shape()[i];
        }
        T got = m.at(c);
        VP_CHECK(same(got, a.v[f2]), "wrong-data", "after growing, at " << vp::show(c));
        T nv    = randomValue<T>(r);
        m.at(c) = nv;
        a.v[f2] = nv;
      }
    }
    vp::distinct(vp::fnv(a.text() + std::to_string(times)));
  }
  checkFile(slurp(path), a, "grown");
  same(Euclid::NdArray::readNpy<T>(boost::filesystem::path(path)), a, "grown");
  }
}

template <typename T, typename U>
void wrongType(vp::Rng& r) {
  auto              a = randomArr<T>(r);
  std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
  Euclid::NdArray::writeNpy(s, a.array());
  auto bytes = s.str();
  VP_CHECK(refused([&] { Euclid::NdArray::readNpy<U>(s); }), "unchecked-type", Code<T>::str() << " read as " << Code<U>::str());
  vp::ScratchDir dir;
  auto           path = dir.path + "/t.npy";
  spit(path, bytes);
  VP_CHECK(refused([&] { Euclid::NdArray::mmapNpy<U>(boost::filesystem::path(path)); }), "unchecked-type", Code<T>::str() << " mapped as " << Code<U>::str());
  // what cannot be represented
  auto c = a.content();
  switch (r.below(3)) {
  case 0:
    c.fortran = true;
    break;
  case 1:
    c.code = ">" + std::string(sizeof(T) == 1 ? "i2" : Code<T>::str().substr(1));
    break;
  default:
    c.code = r.pick(std::vector<std::string>{"<c16", "|S3", "<U4", "|O", "|b1", "<M8[s]"});
  }
  std::stringstream in(header(c, a.names.size() > 1000 ? 2 : r.in(1, 3), true, r.below(6)) + c.data, std::ios::in | std::ios::binary);
  VP_CHECK(refused([&] { Euclid::NdArray::readNpy<T>(in); }), "unchecked-type", c.code << (c.fortran ? " fortran" : "") << " read as " << Code<T>::str());
  if (a.names.size() > 1) {
    // one of the fields, whichever, is of another type or byte order
    auto h = header(a.content(), 2);
    auto p = h.find(Code<T>::str() + "')");
    for (size_t skip = r.below(a.names.size()); skip > 0; --skip) {
      p = h.find(Code<T>::str() + "')", p + 1);
    }
    bool swapped = sizeof(T) > 1 && r.chance(0.5);
    if (swapped) {
      h[p] = '>';
    } else {
      h.replace(p, Code<T>::str().size(), Code<U>::str());
    }
    auto data = a.content().data;
    std::stringstream mixed(h + data, std::ios::in | std::ios::binary);
    VP_CHECK(refused([&] { Euclid::NdArray::readNpy<T>(mixed); }), "unchecked-type", (swapped ? "mixed byte orders read" : "mixed types read"));
    spit(path, h + data);
    VP_CHECK(refused([&] { Euclid::NdArray::mmapNpy<T>(boost::filesystem::path(path)); }), "unchecked-type", (swapped ? "mixed byte orders mapped" : "mixed types mapped"));
    vp::cover(swapped ? "mixed_byte_orders" : "mixed_types_any");
    vp::cover("mixed_types");
  }
  vp::cover("wrong_types");
  vp::distinct(vp::fnv(a.text() + c.code + Code<U>::str()));
}

// truncated at any byte, or with damaged headers: refused, or the data that the file does have
template <typename T>
void malformed(vp::Rng& r) {
  auto           a     = randomArr<T>(r);
  auto           c     = a.content();
  std::string    head  = header(c, a.names.size() > 1000 ? 2 : r.in(1, 3));
  std::string    bytes = head + c.data;
  vp::ScratchDir dir;
  auto           path = dir.path + "/m.npy";
  if (r.chance(0.5)) {
    size_t keep = r.chance(0.5) ? r.below(head.size()) : r.below(bytes.size());
    bytes.resize(keep);
    std::stringstream in(bytes, std::ios::in | std::ios::binary);
    VP_CHECK(refused([&] { Euclid::NdArray::readNpy<T>(in); }), "unchecked-truncation", a.text() << " cut to " << keep << " of " << head.size() + c.data.size());
    spit(path, bytes);
    bool mapped = !refused([&] {
      const NdArray<T> m = Euclid::NdArray::mmapNpy<T>(boost::filesystem::path(path), Map::readonly);
      for (auto x : m) {
        vp::keep(x);
      }
    });
    VP_CHECK(!mapped, "unchecked-truncation", a.text() << " cut to " << keep << " of " << head.size() + c.data.size() << " mapped");
    vp::distinct(vp::fnv(a.text() + std::to_string(keep)));
    vp::cover("truncations");
    return;
  }
  // damage the dictionary (not the lengths, which only decide how much memory is asked for)
  size_t pre   = uint8_t(head[6]) == 1 ? 10 : 12;
  int    times = r.in(1, 4);
  for (int t = 0; t < times; ++t) {
    size_t end = head.find('}');
    if (end == std::string::npos || end <= pre) {
      end = head.size();
    }
    size_t p = pre + r.below(end - pre + 1);
    if (p >= head.size()) {
      continue;
    }
    switch (r.below(4)) {
    case 0:
      head[p] = "'(),:[]{} <>|ifubTrue"[r.below(21)];
      break;
    case 1: {  // keep the length
      size_t n = std::min<size_t>(r.in(1, 6), head.size() - p);
      head.erase(p, n);
      head += std::string(n, ' ');
      break;
    }
    case 2:
      head[p] = char(r.in(1, 255));
      if (isdigit(head[p])) {
        head[p] = ' ';
      }
      break;
    default: {
      size_t n = head.find_first_of(r.chance(0.5) ? "':" : "(),", p);
      if (n != std::string::npos) {
        head[n] = ' ';
      }
    }
    }
  }
  std::stringstream in(head + c.data, std::ios::in | std::ios::binary);
  spit(path, head + c.data);
  bool ok = !refused([&] {
    auto m = Euclid::NdArray::readNpy<T>(in);
    VP_CHECK(m.size() * sizeof(T) <= c.data.size(), "more-than-the-file", m.size() << " elements from " << c.data.size() << " bytes: " << head);
    size_t f = 0;
    for (auto x : m) {
      VP_CHECK(same(x, a.v[f]), "wrong-data", "damaged header " << head);
      ++f;
    }
  });
  vp::cover(ok ? "damaged_read" : "damaged_refused");
  refused([&] {
    const NdArray<T> m = Euclid::NdArray::mmapNpy<T>(boost::filesystem::path(path), Map::readonly);
    VP_CHECK(m.size() * sizeof(T) <= c.data.size(), "more-than-the-file", "mapped");
    for (auto x : m) {
      vp::keep(x);
    }
  });
  vp::distinct(vp::fnv(head));
}

template <typename T>
void forNumpy(vp::Rng& r, const std::string& dir, std::ostream& list, int i) {
  auto a    = randomArr<T>(r);
  if (a.shape.empty()) {
    a.shape.push_back(1);
  }
  auto path = dir + "/w" + std::to_string(i) + ".npy";
  Euclid::NdArray::writeNpy(boost::filesystem::path(path), a.array());
  list << i << "\t" << Code<T>::str() << "\t";
  for (auto x : a.shape) {
    list << x << ",";
  }
  list << "\t";
  for (auto& n : a.names) {
    list << n << "|";
  }
  list << "\n";
  spit(dir + "/w" + std::to_string(i) + ".raw", a.bytes());
}
template <typename T>
void fromNumpy(const std::string& dir, int i) {
  auto base = dir + "/w" + std::to_string(i);
  auto m    = Euclid::NdArray::readNpy<T>(boost::filesystem::path(base + ".npy"));
  auto n    = Euclid::NdArray::readNpy<T>(boost::filesystem::path(base + ".py.npy"));
  VP_CHECK(m.shape() == n.shape() && m.attributes() == n.attributes(), "numpy-disagrees", vp::show(m.shape()) << " saved by numpy is read as " << vp::show(n.shape()));
  for (auto x = m.begin(), y = n.begin(); x != m.end(); ++x, ++y) {
    T u = *x, v = *y;
    VP_CHECK(same(u, v), "numpy-disagrees", "data saved by numpy");
  }
}
const char* const PY = R"PY(
import sys, numpy as np
d = sys.argv[1]
for line in open(d + '/list'):
    i, code, shape, names = line.rstrip('\n').split('\t')
    b = d + '/w' + i
    shape = tuple(int(x) for x in shape.split(',') if x)
    names = names.split('|')[:-1]
    a = np.load(b + '.npy')
    dt = np.dtype([(n, code) for n in names]) if names else np.dtype(code)
    if a.dtype != dt or a.shape != shape or a.tobytes() != open(b + '.raw', 'rb').read():
        print('array', i, 'is', a.dtype, a.shape, 'instead of', dt, shape)
        sys.exit(1)
    np.save(b + '.py.npy', a)
print('ok')
)PY";
}  // namespace
