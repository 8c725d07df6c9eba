// C29: the small tools of the kernel: text to vectors, holders of instances or references, tails of tuples
#include "vp.h"
#include "AlexandriaKernel/InstOrRefHolder.h"
#include "AlexandriaKernel/StringUtils.h"
#include "AlexandriaKernel/Tuples.h"
#include "AlexandriaKernel/memory_tools.h"
#include "ElementsKernel/Exception.h"
#include <sstream>

using namespace Euclid;

namespace {
// every instance made, copied, moved and destroyed
struct Ledger {
  std::set<const void*> alive;
  size_t                copies = 0, moves = 0, made = 0;
};
Ledger* ledger;

struct Base {
  explicit Base(int v_) : v(v_) {
    VP_EXPECT(ledger->alive.insert(this).second, "kernel:twice", "object constructed over a living one");
    ++ledger->made;
  }
  Base(const Base& o) : v(o.v) {
    ledger->alive.insert(this);
    ++ledger->copies;
  }
  Base(Base&& o) : v(o.v) {
    o.v = -1;
    ledger->alive.insert(this);
    ++ledger->moves;
  }
  Base& operator=(const Base& o) = default;
  virtual ~Base() {
    VP_EXPECT(ledger->alive.erase(this) == 1, "kernel:twice", "object destroyed which is not alive");
  }
  virtual int twice() const {
    return 2 * v;
  }
  int v;
};
struct Derived : Base {
  Derived(int v_, std::string s_, std::unique_ptr<int> p_) : Base(v_), s(std::move(s_)), p(std::move(p_)) {}
  Derived(Derived&&) = default;
  int twice() const override {
    return 2 * v + int(s.size()) + (p ? *p : 0);
  }
  std::string          s;
  std::unique_ptr<int> p;
};

std::string wordOf(vp::Rng& rng, const std::string& letters, size_t max) {
  std::string w;
  for (size_t n = rng.in(1, max), i = 0; i < n; ++i) {
    w += letters[rng.below(letters.size())];
  }
  return w;
}

template <typename T>
std::string textOf(const T& v) {
  std::ostringstream o;
  o.precision(std::numeric_limits<T>::max_digits10);
  o << v;
  return o.str();
}

template <typename T, typename Make>
void vectorOf(vp::Rng& rng, const std::string& seps, bool given, Make make) {
  std::vector<T> want;
  std::string    text;
  size_t         n = rng.chance(0.02) ? rng.in(100, 3000) : rng.in(1, 8);
  for (size_t i = 0; i < n; ++i) {
    if (i) {
      for (size_t k = rng.chance(0.02) ? rng.in(4, 50) : rng.in(1, 3); k > 0; --k) {
        text += seps[rng.below(seps.size())];
      }
    }
    auto m = make();
    want.push_back(m.first);
    text += m.second;
  }
  for (size_t k = rng.below(3); k > 0; --k) {
    text = rng.pick(std::vector<std::string>{" ", "\t", "\n"}) + text;
  }
  for (size_t k = rng.below(3); k > 0; --k) {
    text += rng.pick(std::vector<std::string>{" ", "\t", "\n"});
  }
  auto got = given ? stringToVector<T>(text, seps) : stringToVector<T>(text);
  VP_CHECK(got == want, "kernel:vector", "\"" << text << "\" with separators \"" << seps << "\" gives " << vp::show(got) << " instead of " << vp::show(want));
  vp::cover("vectors");
  vp::cover("elements", n);
  vp::distinct(vp::fnv(text) ^ vp::fnv(seps));
}
}  // namespace

VP_SCENARIO(vectors, 3) {
  bool        given = rng.chance(0.6);
  std::string seps  = given ? rng.pick(std::vector<std::string>{",", " ", ", ", ";", ":;|", "\t", "xyz", ", \t", "\n", "/\\*", "x,y;z:u|v~"}) : ", ";
  switch (rng.below(6)) {
  case 4:
    vectorOf<float>(rng, seps, given, [&] {
      float v = float(rng.real(-1, 1) * std::pow(10., rng.in(-30, 30)));
      return std::make_pair(v, textOf(v));
    });
    break;
  case 5:
    vectorOf<uint64_t>(rng, seps, given, [&] {
      uint64_t v = rng.next() >> rng.below(64);
      return std::make_pair(v, std::to_string(v));
    });
    break;
  case 0:
    vectorOf<int>(rng, seps, given, [&] {
      int v = rng.chance(0.2) ? rng.pick(std::vector<int>{0, -1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) : int(rng.in(-100000, 100000));
      return std::make_pair(v, std::to_string(v));
    });
    break;
  case 1:
    vectorOf<double>(rng, seps, given, [&] {
      double v = rng.chance(0.2) ? rng.real(-1, 1) * std::pow(10., rng.in(-300, 300)) : rng.real(-1000, 1000);
      return std::make_pair(v, textOf(v));
    });
    break;
  case 2:
    vectorOf<std::string>(rng, seps, given, [&] {
      auto w = wordOf(rng, "abcAB.09-", rng.chance(0.05) ? 600 : 6);
      return std::make_pair(w, w);
    });
    break;
  default:
    vectorOf<int64_t>(rng, seps, given, [&] {
      int64_t v = int64_t(rng.next());
      return std::make_pair(v, std::to_string(v));
    });
  }
  // anything that is not a number as a whole is refused, wherever it is
  {
    std::vector<std::string> parts;
    for (size_t n = rng.chance(0.02) ? rng.in(50, 500) : rng.in(1, 5), i = 0; i < n; ++i) {
      parts.push_back(std::to_string(rng.in(-99, 99)));
    }
    size_t at = rng.below(parts.size());
    parts[at] = rng.pick(std::vector<std::string>{"x", "1.5", "12a", "--3", "99999999999", "0x10", "1e3", "+-1", "a1", "2147483648", "-2147483649", "4294967297", "1.", "1.0", ".", "-", "+", "nan", "1e0", "1_0", "1'0", "\xd9\xa1"});
    std::string text;
    for (auto& p : parts) {
      text += (text.empty() ? "" : ",") + p;
    }
    bool refused = false;
    try {
      stringToVector<int>(text);
    } catch (const Elements::Exception&) {
      refused = true;
    }
    VP_CHECK(refused, "kernel:refuse", "\"" << text << "\" is taken for integers");
    vp::cover("refusals");
  }
}

VP_SCENARIO(holders, 2) {
  Ledger l;
  ledger = &l;
  {
    std::vector<std::unique_ptr<InstOrRefHolder<Base>>> held;
    std::vector<Base*>                                  what;
    std::vector<int>                                    values;
    std::vector<std::unique_ptr<Base>>                  outside;
    size_t                                              owned = 0;
    for (size_t n = rng.in(1, 12), i = 0; i < n; ++i) {
      int v = int(rng.in(0, 1000));
      switch (rng.below(4)) {
      case 0:
        held.push_back(InstOrRefHolder<Base>::create(v));
        what.push_back(nullptr);
        values.push_back(2 * v);
        break;
      case 1: {
        auto s = wordOf(rng, "ab", 5);
        held.push_back(InstOrRefHolder<Base>::create<Derived>(v, s, Euclid::make_unique<int>(7)));
        what.push_back(nullptr);
        values.push_back(2 * v + int(s.size()) + 7);
        break;
      }
      case 2: {
        outside.push_back(Euclid::make_unique<Base>(v));
        size_t copies = l.copies;
        held.push_back(InstOrRefHolder<Base>::create(*outside.back()));
        VP_CHECK(l.copies == copies, "kernel:copied", "a reference is held through a copy");
        what.push_back(outside.back().get());
        values.push_back(2 * v);
        vp::cover("references");
        break;
      }
      default: {
        outside.push_back(Euclid::make_unique<Derived>(v, "xyz", nullptr));
        held.push_back(InstOrRefHolder<Base>::create(*outside.back()));
        what.push_back(outside.back().get());
        values.push_back(2 * v + 3);
      }
      }
      owned += what.back() == nullptr;
      // everything is still there, at the same place, whatever was added
      for (size_t k = 0; k < held.size(); ++k) {
        Base& b = held[k]->ref();
        VP_CHECK(l.alive.count(dynamic_cast<const void*>(&b)), "kernel:dead", "holder " << k << " refers to an object which is gone");
        VP_CHECK(what[k] == nullptr || what[k] == &b, "kernel:other", "the reference is to another object");
        VP_CHECK(&held[k]->ref() == &b && b.twice() == values[k], "kernel:value", "value " << b.twice() << " instead of " << values[k]);
        if (rng.chance(0.3)) {
          b.v += 1;
          values[k] += 2;
          VP_CHECK(held[k]->ref().twice() == values[k], "kernel:value", "changes through the reference are lost");
        }
      }
      if (rng.chance(0.2)) {
        size_t k     = rng.below(held.size());
        size_t alive = l.alive.size();
        bool   own   = what[k] == nullptr;
        held.erase(held.begin() + k);
        what.erase(what.begin() + k);
        values.erase(values.begin() + k);
        VP_CHECK(l.alive.size() == alive - own, "kernel:ownership", (own ? "a held instance survives its holder" : "a referenced object is destroyed with the holder"));
        owned -= own;
        vp::cover("released");
      }
    }
    VP_CHECK(l.alive.size() == owned + outside.size(), "kernel:ownership", l.alive.size() << " objects alive instead of " << owned + outside.size());
    vp::cover("held", held.size());
    vp::distinct(vp::mix(held.size() * 100 + outside.size(), rng.next()));
    held.clear();
    VP_CHECK(l.alive.size() == outside.size(), "kernel:ownership", "objects left after their holders");
  }
  VP_CHECK(l.alive.empty(), "kernel:leak", l.alive.size() << " objects left");
  ledger = nullptr;
}

VP_SCENARIO(tails, 1) {
  Ledger l;
  ledger = &l;
  {
    int         a = int(rng.in(1, 1000)), b = int(rng.in(1, 1000));
    std::string s = wordOf(rng, "abc", 40);
    using T       = std::tuple<int, Base, std::string, std::vector<int>>;
    T    t{a, Base(b), s, std::vector<int>(size_t(rng.in(1, 5)), a)};
    auto v      = std::get<3>(t);
    auto copies = l.copies;
    auto tail   = Tuple::Tail(static_cast<const T&>(t));
    static_assert(std::is_same<decltype(tail), std::tuple<Base, std::string, std::vector<int>>>::value, "type of the tail");
    VP_CHECK(std::get<0>(tail).v == b && std::get<1>(tail) == s && std::get<2>(tail) == v, "kernel:tail", "tail has other elements");
    VP_CHECK(std::get<1>(t).v == b && std::get<2>(t) == s && std::get<3>(t) == v && l.copies > copies, "kernel:tail", "the original changes");
    copies    = l.copies;
    auto tail2 = Tuple::Tail(std::move(t));
    VP_CHECK(std::get<0>(tail2).v == b && std::get<1>(tail2) == s && std::get<2>(tail2) == v, "kernel:tail", "moved tail has other elements");
    VP_CHECK(l.copies == copies, "kernel:moved", "elements of a temporary are copied");
    auto one = Tuple::Tail(Tuple::Tail(Tuple::Tail(tail2)));
    static_assert(std::is_same<decltype(one), std::tuple<>>::value, "no element left");
    std::tuple<int, std::unique_ptr<int>> u{a, Euclid::make_unique<int>(b)};
    auto*                                 p  = std::get<1>(u).get();
    auto                                  ut = Tuple::Tail(std::move(u));
    VP_CHECK(std::get<0>(ut).get() == p && *p == b, "kernel:tail", "element which can only be moved");
    vp::cover("tails");
    vp::distinct(vp::mix(a, b));
  }
  VP_CHECK(l.alive.empty(), "kernel:leak", l.alive.size() << " objects left");
  ledger = nullptr;
}
VP_MAIN()
