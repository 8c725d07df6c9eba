// C05 / C06: NdArray against a reference model (explicit index lists over shared buffers)
#include "vp.h"
#include "NdArray/NdArray.h"
#include <algorithm>
#include <numeric>
using Euclid::NdArray::NdArray;
typedef std::vector<size_t> Shape;


namespace {

size_t prod(const Shape& s) {
  size_t n = 1;
  for (auto x : s) {
    n *= x;
  }
  return n;
}
// advance row-major coordinates; false at the end
bool next(Shape& c, const Shape& s) {
  for (size_t i = s.size(); i > 0; --i) {
    if (++c[i - 1] < s[i - 1]) {
      return true;
    }
    c[i - 1] = 0;
  }
  return false;
}

template <typename T>
struct Model {
  Shape                           shape;
  std::vector<size_t>             idx;  // row-major list of positions in *buf
  std::shared_ptr<std::vector<T>> buf;
  std::vector<std::string>        attrs;
  bool                            stale = false;  // known finding: concatenate leaves size() behind
  std::vector<size_t>             stale_sizes;
  T& at(size_t flat) {
    return (*buf)[idx[flat]];
  }
};

template <typename T>
struct Pair {
  std::shared_ptr<NdArray<T>> a;
  Model<T>                    m;
};

template <typename T>
T value(vp::Rng& r) {
  if (r.chance(0.1)) {
    return std::is_integral<T>::value ? static_cast<T>(r.next()) : static_cast<T>(std::ldexp(r.real(-1, 1), int(r.in(-300, 300))));
  }
  return static_cast<T>(r.in(-100, 100));
}

Shape randomShape(vp::Rng& r, int maxdim = 4, bool zero = true) {
  Shape s(r.chance(0.05) ? r.in(maxdim + 1, 8) : r.in(1, maxdim));
  for (auto& x : s) {
    x = r.in(1, s.size() > 4 ? 3 : 5);
    if (zero && r.chance(0.02)) {
      x = 0;
    }
  }
  if (r.chance(0.1)) {
    s[r.below(s.size())] = r.in(6, 40);
  }
  if (maxdim == 4 && r.chance(0.0015)) {
    s = r.chance(0.3) ? Shape{size_t(r.in(65537, 70000))} : Shape{size_t(r.in(250, 300)), size_t(r.in(263, 300))};
    vp::cover("many_elements");
  }
  return s;
}

template <typename T>
size_t flatOf(const Model<T>& m, const Shape& c) {
  size_t f = 0;
  for (size_t i = 0; i < c.size(); ++i) {
    f = f * m.shape[i] + c[i];
  }
  return f;
}

template <typename T>
void compare(Pair<T>& p, vp::Rng& r, const std::string& hist) {
  auto&             a  = *p.a;
  const NdArray<T>& ca = a;
  auto&             m  = p.m;
  VP_CHECK(a.shape() == m.shape, "wrong-shape", vp::show(a.shape()) << " instead of " << vp::show(m.shape) << " after " << hist);
  VP_CHECK(a.attributes() == m.attrs, "wrong-attributes", vp::show(a.attributes()) << " instead of " << vp::show(m.attrs) << " after " << hist);
  size_t n = m.idx.size();
  // by coordinates
  if (n) {
    Shape  c(m.shape.size(), 0);
    size_t f = 0;
    do {
      VP_CHECK(ca.at(c) == m.at(f), "wrong-element", "at " << vp::show(c) << " = " << +ca.at(c) << " instead of " << +m.at(f) << " after " << hist);
      VP_CHECK(&a.at(c) == &ca.at(c), "wrong-element", "const and non const at() differ " << hist);
      ++f;
    } while (next(c, m.shape));
    vp::cover("elements_compared", n);
  }
  if (m.stale) {
    VP_CHECK(a.size() == n || std::count(m.stale_sizes.begin(), m.stale_sizes.end(), a.size()), "wrong-size", "size()=" << a.size() << " after concatenate from " << vp::show(m.stale_sizes) << " to " << n << " elements, " << hist);
    VP_EXPECT(a.size() == n, "concat-stale-size", "size()=" << a.size() << " after concatenate to shape " << vp::show(m.shape));
    size_t k = 0;
    for (auto i = ca.begin(); i != ca.end(); ++i, ++k) {
      VP_CHECK(k < n && *i == m.at(k), "wrong-iteration", "position " << k << " after " << hist);
    }
    return;
  }
  VP_CHECK(a.size() == n, "wrong-size", "size()=" << a.size() << " instead of " << n << " after " << hist);
  // by iterators
  size_t f = 0;
  for (auto& v : a) {
    VP_CHECK(f < n && v == m.at(f), "wrong-iteration", "position " << f << " of " << n << " after " << hist);
    ++f;
  }
  VP_CHECK(f == n, "wrong-iteration", f << " elements iterated instead of " << n);
  f = 0;
  for (auto i = ca.begin(); i != ca.end(); i++, ++f) {
    VP_CHECK(f < n && *i == m.at(f), "wrong-iteration", "post-increment, position " << f << " of " << n << " after " << hist);
  }
  VP_CHECK(f == n, "wrong-iteration", f << " elements iterated instead of " << n);
  VP_CHECK(std::equal(ca.begin(), ca.end(), a.begin()), "wrong-iteration", "const/non-const");
  VP_CHECK(size_t(a.end() - a.begin()) == n, "iterator-arithmetic", "end - begin");
  if (n) {
    for (int k = 0; k < 4; ++k) {
      size_t x = r.below(n), y = r.below(n);
      auto   ix = a.begin() + x;
      auto   iy = a.begin();
      iy += y;
      VP_CHECK(*ix == m.at(x) && a.begin()[x] == m.at(x) && ca.begin()[x] == m.at(x), "iterator-arithmetic", "begin + " << x);
      VP_CHECK((ix < iy) == (x < y) && (ix > iy) == (x > y) && (ix == iy) == (x == y) && (ix != iy) == (x != y), "iterator-arithmetic", "order of " << x << " and " << y);
      VP_CHECK(ix - iy == std::ptrdiff_t(x) - std::ptrdiff_t(y), "iterator-arithmetic", "difference " << x << "-" << y << " = " << (ix - iy));
      if (x >= y) {
        auto iz = ix - y;
        VP_CHECK(iz - a.begin() == std::ptrdiff_t(x - y) && *iz == m.at(x - y), "iterator-arithmetic", "minus");
        ix -= y;
        VP_CHECK(ix == iz, "iterator-arithmetic", "-=");
      }
      auto ip  = a.begin() + x;
      auto old = ip++;
      VP_CHECK(*old == m.at(x) && ip - old == 1, "iterator-arithmetic", "post-increment returned position " << (old - a.begin()) << " from " << x);
      auto iq = a.begin() + x;
      VP_CHECK(++iq == ip, "iterator-arithmetic", "pre-increment");
      typename NdArray<T>::const_iterator conv = old;
      VP_CHECK(*conv == m.at(x), "iterator-arithmetic", "conversion to const_iterator");
      // iterators which are themselves const, mixed positions, const_iterator arithmetic
      const auto                                fixed  = a.begin() + x;
      const typename NdArray<T>::const_iterator cfixed = ca.begin() + x;
      size_t                                    d      = r.below(n - x);
      VP_CHECK(*fixed == m.at(x) && *cfixed == m.at(x), "iterator-arithmetic", "dereference of a const iterator at " << x);
      VP_CHECK(fixed[d] == m.at(x + d) && cfixed[d] == m.at(x + d), "iterator-arithmetic", "const iterator at " << x << ", element " << d);
      auto moving  = a.begin() + x;
      auto cmoving = ca.begin() + x;
      VP_CHECK(moving[d] == m.at(x + d) && cmoving[d] == m.at(x + d), "iterator-arithmetic", "iterator at " << x << ", element " << d);
      cmoving += d;
      VP_CHECK(*cmoving == m.at(x + d) && cmoving - ca.begin() == std::ptrdiff_t(x + d), "iterator-arithmetic", "const_iterator +=");
      VP_CHECK(*(cmoving - d) == m.at(x) && (cmoving - d) == cfixed, "iterator-arithmetic", "const_iterator minus");
      cmoving -= d;
      VP_CHECK(cmoving == cfixed && !(cmoving != cfixed) && !(cmoving < cfixed) && !(cmoving > cfixed), "iterator-arithmetic", "const_iterator -=");
      auto cold = cmoving++;
      VP_CHECK(*cold == m.at(x) && cmoving - cold == 1 && ++cold == cmoving && cold != cfixed, "iterator-arithmetic", "const_iterator increments");
    }
  }
}

// every coordinate vector outside the shape is refused
template <typename T>
void badCoordinates(Pair<T>& p, vp::Rng& r) {
  auto&             a  = *p.a;
  const NdArray<T>& ca = a;
  auto&             m  = p.m;
  for (int k = 0; k < 4; ++k) {
    Shape c(m.shape.size());
    for (size_t i = 0; i < c.size(); ++i) {
      c[i] = m.shape[i] ? r.below(m.shape[i]) : 0;
    }
    std::string how;
    switch (r.below(3)) {
    case 0: {
      size_t i = r.below(c.size());
      static const std::vector<size_t> off{0, 1, 7, 1000000};
      c[i] = r.chance(0.1) ? ~size_t(0) : m.shape[i] + r.pick(off);
      how  = "axis " + std::to_string(i);
      break;
    }
    case 1:
      c.push_back(0);
      how = "too many coordinates";
      break;
    default:
      c.pop_back();
      how = "too few coordinates";
    }
    bool thrown = false;
    try {
      a.at(c);
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    VP_CHECK(thrown, "unchecked-access", "at " << vp::show(c) << " of shape " << vp::show(m.shape) << " was allowed (" << how << ")");
    thrown = false;
    try {
      ca.at(c);
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    VP_CHECK(thrown, "unchecked-access", "const at " << vp::show(c) << " of shape " << vp::show(m.shape) << " was allowed (" << how << ")");
  }
  vp::cover("bad_coordinates", 4);
  bool thrown = false;
  try {
    a.slice(m.shape[0] + r.below(3));
  } catch (const std::out_of_range&) {
    thrown = true;
  }
  VP_CHECK(thrown, "unchecked-access", "slice beyond axis 0 of " << vp::show(m.shape));
  thrown = false;
  try {
    ca.rslice(m.shape.back() + r.below(3));
  } catch (const std::out_of_range&) {
    thrown = true;
  }
  VP_CHECK(thrown, "unchecked-access", "rslice beyond the last axis of " << vp::show(m.shape));
  if (!m.attrs.empty()) {
    thrown = false;
    try {
      a.at(Shape(m.shape.size() - 1, 0), std::string("no such attribute"));
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    VP_CHECK(thrown, "unchecked-access", "unknown attribute");
  }
}

template <typename T>
Pair<T> make(vp::Rng& r) {
  Pair<T> p;
  auto&   m     = p.m;
  m.shape       = randomShape(r);
  bool with_att = r.chance(0.25);
  Shape given   = m.shape;
  if (with_att) {
    size_t n = r.chance(0.1) && prod(m.shape) < 1000 ? r.in(5, 20) : r.in(1, 4);
    for (size_t i = 0; i < n; ++i) {
      m.attrs.push_back("attr" + std::to_string(i));
    }
    m.shape.push_back(n);
  }
  size_t n = prod(m.shape);
  m.buf    = std::make_shared<std::vector<T>>(n);
  for (auto& v : *m.buf) {
    v = value<T>(r);
  }
  m.idx.resize(n);
  std::iota(m.idx.begin(), m.idx.end(), 0);
  std::vector<T> data = *m.buf;
  int            how  = r.below(4);
  if (with_att) {
    switch (how) {
    case 0:
      p.a = std::make_shared<NdArray<T>>(given, m.attrs, data);
      break;
    case 1:
      p.a = std::make_shared<NdArray<T>>(given, m.attrs, std::move(data));
      break;
    case 2:
      p.a = std::make_shared<NdArray<T>>(given, m.attrs, data.begin(), data.end());
      break;
    default:
      p.a = std::make_shared<NdArray<T>>(given, m.attrs);
      std::fill(m.buf->begin(), m.buf->end(), T{});
    }
  } else {
    switch (how) {
    case 0:
      p.a = std::make_shared<NdArray<T>>(given, data);
      break;
    case 1:
      p.a = std::make_shared<NdArray<T>>(given, std::move(data));
      break;
    case 2:
      p.a = std::make_shared<NdArray<T>>(given, data.begin(), data.end());
      break;
    default:
      p.a = std::make_shared<NdArray<T>>(given);
      std::fill(m.buf->begin(), m.buf->end(), T{});
    }
  }
  return p;
}

template <typename T>
void writeSome(Pair<T>& p, vp::Rng& r, std::ostringstream& hist) {
  auto&  m = p.m;
  size_t n = m.idx.size();
  if (!n) {
    return;
  }
  int times = r.in(1, 4);
  for (int k = 0; k < times; ++k) {
    Shape c(m.shape.size());
    for (size_t i = 0; i < c.size(); ++i) {
      c[i] = r.below(m.shape[i]);
    }
    size_t f = flatOf(m, c);
    T      v = value<T>(r);
    switch (r.below(4)) {
    case 0:
      if (!m.stale) {
        *(p.a->begin() + f) = v;
        hist << "wi ";
        break;
      }
      // fall through
    case 1:
      if (!m.attrs.empty()) {
        Shape front(c.begin(), c.end() - 1);
        p.a->at(front, m.attrs[c.back()]) = v;
        const NdArray<T>& ca = *p.a;
        VP_CHECK(ca.at(front, m.attrs[c.back()]) == v, "wrong-element", "const at(attr)");
        if (front.size() == 1) {
          VP_CHECK(p.a->at(front[0], m.attrs[c.back()]) == v, "wrong-element", "variadic at(i, attr)");
        }
        hist << "wn ";
        break;
      }
      // fall through
    case 2:
      switch (c.size()) {
      case 1:
        p.a->at(c[0]) = v;
        break;
      case 2:
        p.a->at(c[0], c[1]) = v;
        break;
      case 3:
        p.a->at(c[0], c[1], c[2]) = v;
        break;
      default:
        p.a->at(c) = v;
      }
      hist << "wv ";
      break;
    default:
      p.a->at(c) = v;
      hist << "w ";
    }
    m.at(f) = v;
  }
}

template <typename T>
Pair<T> sliceOf(Pair<T>& p, vp::Rng& r, bool right, std::ostringstream& hist) {
  Pair<T> q;
  auto&   m   = p.m;
  q.m.buf     = m.buf;
  size_t  rows = right ? m.shape.back() : m.shape[0];
  size_t  i   = r.below(rows);
  bool    use_const = r.chance(0.3);
  hist << (right ? "rslice" : "slice") << i << " ";
  if (right) {
    q.m.shape = Shape(m.shape.begin(), m.shape.end() - 1);
    for (size_t k = i; k < m.idx.size(); k += rows) {
      q.m.idx.push_back(m.idx[k]);
    }
    const NdArray<T>& ca = *p.a;
    q.a = use_const ? std::make_shared<NdArray<T>>(ca.rslice(i)) : std::make_shared<NdArray<T>>(p.a->rslice(i));
  } else {
    q.m.shape  = Shape(m.shape.begin() + 1, m.shape.end());
    q.m.attrs  = m.attrs;  // attributes name the last axis, which is still there
    size_t len = prod(q.m.shape);
    q.m.idx.assign(m.idx.begin() + i * len, m.idx.begin() + (i + 1) * len);
    const NdArray<T>& ca = *p.a;
    q.a = use_const ? std::make_shared<NdArray<T>>(ca.slice(i)) : std::make_shared<NdArray<T>>(p.a->slice(i));
  }
  return q;
}

template <typename T>
std::string printed(const Model<T>& m) {
  std::ostringstream o;
  o << "<";
  for (size_t i = 0; i < m.shape.size(); ++i) {
    o << (i ? "," : "") << m.shape[i];
  }
  o << ">";
  for (size_t i = 0; i < m.idx.size(); ++i) {
    o << (i ? "," : "") << (*m.buf)[m.idx[i]];
  }
  return o.str();
}

template <typename T>
bool equal(Model<T>& a, Model<T>& b) {
  if (a.shape != b.shape) {
    return false;
  }
  for (size_t i = 0; i < a.idx.size(); ++i) {
    if (a.at(i) != b.at(i)) {
      return false;
    }
  }
  return true;
}

}  // namespace

#ifdef VP_C05
// histories of views (slices of slices, from either end, reshaped) with writes through any of them
template <typename T>
void viewsCase(vp::Rng& rng) {
  std::ostringstream   hist;
  std::vector<Pair<T>> pool;
  pool.push_back(make<T>(rng));
  hist << "shape" << vp::show(pool[0].m.shape) << (pool[0].m.attrs.empty() ? " " : " named ");
  int  ops = rng.in(1, 14);
  int  depth = 0;
  for (int o = 0; o < ops; ++o) {
    size_t k = rng.chance(0.5) ? pool.size() - 1 : rng.below(pool.size());
    hist << "#" << k << ".";
    if (rng.chance(0.55)) {
      auto&  m     = pool[k].m;
      bool   right = rng.chance(0.5);
      size_t rows  = right ? m.shape.back() : m.shape[0];
      if (m.shape.size() > 1 && rows > 0) {
        auto q = sliceOf(pool[k], rng, right, hist);
        pool.push_back(q);
        ++depth;
      } else if (m.shape.size() == 1) {
        VP_THROWS(pool[k].a->slice(0), "unchecked-access", "slice of a one dimensional array");
        VP_THROWS(pool[k].a->rslice(0), "unchecked-access", "rslice of a one dimensional array");
      }
    } else {
      writeSome(pool[k], rng, hist);
    }
    for (auto& p : pool) {
      compare(p, rng, hist.str());
    }
  }
  for (auto& p : pool) {
    badCoordinates(p, rng);
    if (!p.m.idx.empty()) {
      std::ostringstream s;
      s << *p.a;
      VP_CHECK(s.str() == printed(p.m), "wrong-print", s.str() << " instead of " << printed(p.m));
    }
  }
  for (size_t i = 0; i < pool.size(); ++i) {
    for (size_t j = 0; j < pool.size(); ++j) {
      bool e = equal(pool[i].m, pool[j].m);
      VP_CHECK((*pool[i].a == *pool[j].a) == e && (*pool[i].a != *pool[j].a) == !e, "wrong-equality", "arrays " << i << " and " << j << " after " << hist.str());
    }
  }
  vp::cover("views", pool.size() - 1);
  if (depth > 1) {
    vp::cover("nested_views", depth);
  }
  vp::distinct(vp::fnv(hist.str()));
  if (depth > 1 && vp::wantSample()) {
    vp::sample(hist.str());
  }
}
VP_SCENARIO(viewsInt, 3) {
  viewsCase<int>(rng);
}
VP_SCENARIO(viewsDouble, 2) {
  viewsCase<double>(rng);
}
VP_SCENARIO(viewsByte, 1) {
  viewsCase<short>(rng);
}
// views outlive the array they were made from
VP_SCENARIO(outlive, 1) {
  std::ostringstream hist;
  Pair<double>       q;
  {
    auto p = make<double>(rng);
    if (p.m.shape.size() < 2 || p.m.idx.empty()) {
      return;
    }
    q = sliceOf(p, rng, rng.chance(0.5), hist);
  }
  compare(q, rng, "owner destroyed, " + hist.str());
  writeSome(q, rng, hist);
  compare(q, rng, "owner destroyed, " + hist.str());
  vp::cover("views_outliving");
}
// shapes and data that do not match
VP_SCENARIO(mismatch, 1) {
  auto             s = randomShape(rng);
  size_t           n = prod(s);
  size_t           bad = n + (rng.chance(0.5) || n == 0 ? rng.in(1, 3) : -1);
  std::vector<int> d(bad, 1);
  VP_THROWS(NdArray<int>(s, d), "size-unchecked", vp::show(s) << " with " << bad << " values");
  VP_THROWS(NdArray<int>(s, d.begin(), d.end()), "size-unchecked", vp::show(s) << " with " << bad << " values");
  VP_THROWS(NdArray<int>(s, std::vector<int>(d)), "size-unchecked", vp::show(s) << " with " << bad << " values");
  // sizes beyond 32 bits
  Shape            huge{65536, 65536};
  if (rng.chance(0.5)) {
    huge = {size_t(1) << 32};
  }
  if (rng.chance(0.3)) {
    huge.push_back(rng.in(1, 3));
  }
  std::vector<int> none;
  VP_THROWS(NdArray<int>(huge, none), "size-unchecked", vp::show(huge) << " with no value");
  vp::cover("mismatches");
}
#endif

#ifdef VP_C06
template <typename T>
void structureCase(vp::Rng& rng) {
  std::ostringstream   hist;
  std::vector<Pair<T>> pool;
  int                  start = rng.in(1, 2);
  for (int i = 0; i < start; ++i) {
    pool.push_back(make<T>(rng));
    hist << "shape" << vp::show(pool.back().m.shape) << (pool.back().m.attrs.empty() ? " " : " named ");
  }
  int ops = rng.in(2, 14);
  for (int o = 0; o < ops; ++o) {
    size_t k  = rng.chance(0.5) ? pool.size() - 1 : rng.below(pool.size());
    int    op = rng.below(8);
    hist << "#" << k << ".";
    switch (op) {
    case 0: {  // reshape
      auto&  m = pool[k].m;
      Shape  s;
      size_t n = m.idx.size(), left = n;
      if (m.stale) {
        break;
      }
      if (n) {
        int dims = rng.in(1, 4);
        for (int d = 0; d + 1 < dims; ++d) {
          std::vector<size_t> div;
          for (size_t x = 1; x <= left; ++x) {
            if (left % x == 0) {
              div.push_back(x);
            }
          }
          s.push_back(rng.pick(div));
          left /= s.back();
        }
        s.push_back(left);
        rng.shuffle(s);
      } else {
        s = {0, 3};
        rng.shuffle(s);
      }
      hist << "reshape" << vp::show(s) << " ";
      if (!m.attrs.empty()) {
        VP_THROWS(pool[k].a->reshape(s), "reshape-unchecked", "array with attribute names reshaped");
        break;
      }
      Shape bad = s;
      bad.push_back(n ? rng.in(2, 3) : 1);
      bad[0] += n ? 0 : 1;
      if (n && rng.chance(0.2)) {
        bad[rng.below(bad.size())] = 0;
      }
      if (prod(bad) != n) {
        VP_THROWS(pool[k].a->reshape(bad), "reshape-unchecked", vp::show(m.shape) << " to " << vp::show(bad));
        compare(pool[k], rng, hist.str() + "(refused reshape)");
      }
      if (s.size() == 2 && rng.chance(0.5)) {
        pool[k].a->reshape(s[0], s[1]);
      } else if (s.size() == 3 && rng.chance(0.5)) {
        pool[k].a->reshape(s[0], s[1], s[2]);
      } else {
        auto& ret = pool[k].a->reshape(s);
        VP_CHECK(&ret == pool[k].a.get(), "wrong-result", "reshape does not return *this");
      }
      m.shape = s;
      vp::cover("reshapes");
      break;
    }
    case 1: {  // deep copy
      Pair<T> q;
      hist << "copy ";
      q.a       = std::make_shared<NdArray<T>>(pool[k].a->copy());
      q.m.shape = pool[k].m.shape;
      q.m.attrs = pool[k].m.attrs;
      q.m.buf   = std::make_shared<std::vector<T>>();
      for (size_t i = 0; i < pool[k].m.idx.size(); ++i) {
        q.m.buf->push_back(pool[k].m.at(i));
        q.m.idx.push_back(i);
      }
      pool.push_back(q);
      vp::cover("deep_copies");
      break;
    }
    case 2: {  // shared copy
      Pair<T> q;
      if (pool[k].m.stale) {
        break;
      }
      q.m = pool[k].m;
      if (rng.chance(0.5)) {
        hist << "share ";
        q.a = std::make_shared<NdArray<T>>(*pool[k].a);
      } else {
        hist << "assign ";
        q.a  = std::make_shared<NdArray<T>>(Shape{1});
        *q.a = *pool[k].a;
      }
      pool.push_back(q);
      vp::cover("shared_copies");
      break;
    }
    case 3:
    case 4: {  // views
      auto&  m     = pool[k].m;
      bool   right = op == 3;
      size_t rows  = right ? m.shape.back() : m.shape[0];
      if (m.shape.size() > 1 && rows > 0) {
        auto q = sliceOf(pool[k], rng, right, hist);
        pool.push_back(q);
      }
      break;
    }
    case 5: {  // concatenate
      auto& m = pool[k].m;
      // the other operand: an array of the pool, if it fits, or a new one
      size_t j   = rng.below(pool.size());
      bool   fit = pool[j].m.shape.size() == m.shape.size() && !pool[j].m.stale;
      for (size_t i = 1; fit && i < m.shape.size(); ++i) {
        fit = pool[j].m.shape[i] == m.shape[i];
      }
      std::vector<T>              add;
      std::shared_ptr<NdArray<T>> other;
      if (fit) {
        other = pool[j].a;
        for (size_t i = 0; i < pool[j].m.idx.size(); ++i) {
          add.push_back(pool[j].m.at(i));
        }
        hist << "cat#" << j << " ";
      } else {
        if (!pool[j].m.stale) {
          auto before = pool[k].m.shape;
          bool thrown = false;
          try {
            pool[k].a->concatenate(*pool[j].a);
          } catch (const std::length_error&) {
            thrown = true;
          }
          VP_CHECK(thrown, "concatenate-unchecked", vp::show(before) << " with " << vp::show(pool[j].m.shape));
        }
        Shape s = m.shape;
        s[0]    = rng.in(0, 3);
        add.resize(prod(s));
        for (auto& v : add) {
          v = value<T>(rng);
        }
        other = std::make_shared<NdArray<T>>(s, add);
        hist << "cat" << vp::show(s) << " ";
      }
      if (m.attrs.size() && m.shape.size() == 1) {
        break;  // the only axis is the named one
      }
      auto   other_shape = other->shape();
      size_t rows        = other_shape[0];
      auto&  ret         = pool[k].a->concatenate(*other);
      VP_CHECK(&ret == pool[k].a.get(), "wrong-result", "concatenate does not return *this");
      // whether the result still shares its storage with others is not specified: it owns a buffer in the model and
      // the others are only read once more
      auto nb = std::make_shared<std::vector<T>>();
      for (size_t i = 0; i < m.idx.size(); ++i) {
        nb->push_back(m.at(i));
      }
      nb->insert(nb->end(), add.begin(), add.end());
      auto old_buf = m.buf;
      m.buf        = nb;
      m.idx.resize(nb->size());
      std::iota(m.idx.begin(), m.idx.end(), 0);
      m.shape[0] += rows;
      if (!add.empty()) {
        m.stale = true;
        m.stale_sizes.push_back(m.idx.size() - add.size());
      }
      Pair<T> keep = pool[k];
      for (size_t x = 0; x < pool.size();) {
        if (x != k && pool[x].m.buf == old_buf) {
          compare(pool[x], rng, hist.str() + "(read after a sharing array was concatenated)");
        }
        ++x;
      }
      compare(keep, rng, hist.str());
      std::vector<Pair<T>> rest;
      for (size_t x = 0; x < pool.size(); ++x) {
        if (x == k || pool[x].m.buf != old_buf) {
          rest.push_back(pool[x]);
        }
      }
      pool.swap(rest);
      vp::cover("concatenations");
      break;
    }
    default:
      writeSome(pool[k], rng, hist);
    }
    for (auto& p : pool) {
      compare(p, rng, hist.str());
    }
  }
  vp::distinct(vp::fnv(hist.str()));
  if (vp::wantSample()) {
    vp::sample(hist.str());
  }
}
VP_SCENARIO(structureInt, 3) {
  structureCase<int>(rng);
}
VP_SCENARIO(structureDouble, 2) {
  structureCase<double>(rng);
}
// views of the same data that begin at the same element
VP_SCENARIO(equality, 1) {
  size_t              n = rng.in(2, 5), deep = rng.in(1, 3);
  std::vector<double> v(n * deep * n);
  for (auto& x : v) {
    x = rng.in(0, rng.chance(0.7) ? 1 : 0);
  }
  NdArray<double> a(Shape{n, deep, n}, v);
  a.reshape(Shape{n, n * deep});
  NdArray<double> b(Shape{n, n}, std::vector<double>(v.begin(), v.begin() + n * n));
  size_t          i = rng.below(n), j = rng.chance(0.5) ? i : rng.below(n);
  bool            want = true;
  for (size_t k = 0; k < n; ++k) {
    want = want && v[i * n + k] == v[k * n + j];
  }
  const NdArray<double> row = b.slice(i), column = b.rslice(j);
  VP_CHECK((row == column) == want && (column == row) == want && (row != column) == !want && (column != row) == !want, "wrong-equality", "row " << i << " and column " << j << " of " << vp::show(v) << " in " << n << "x" << n);
  VP_CHECK(row == b.slice(i) && column == b.rslice(j) && b == b.copy(), "wrong-equality", "the same view");
  VP_CHECK(a != b || deep == 1, "wrong-equality", "other shape");
  vp::cover(want ? "equal_views" : "different_views");
  vp::distinct(vp::fnv(vp::show(v)) + i * 7 + j);
}
VP_SCENARIO(hugeReshape, 1) {
  NdArray<int> none(Shape{0, 2});
  Shape        huge{65536, 65536};
  if (rng.chance(0.5)) {
    huge = {size_t(1) << 32, size_t(rng.in(1, 5))};
  }
  VP_THROWS(none.reshape(huge), "reshape-unchecked", "empty array reshaped to " << vp::show(huge));
  vp::cover("huge_reshapes");
}
#endif
VP_MAIN()
