// C21: qualified names; C22: dataset files and providers
#include "vp.h"
#include "XYDataset/AsciiParser.h"
#include "XYDataset/CachedProvider.h"
#include "XYDataset/FileSystemProvider.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/XYDataset.h"
#include "XYDataset/serialize.h"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/filesystem.hpp>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
using namespace Euclid::XYDataset;
namespace fs = boost::filesystem;

namespace {
std::string word(vp::Rng& r, size_t max = 6) {
  static const std::string c = "abcABC019_-+. ~@(),;:=";
  static const std::vector<std::string> few{"a", "b", "ab", "a.b", "A", "x y"};
  if (r.chance(0.5)) {
    return r.pick(few);
  }
  std::string s;
#ifdef VP_C21
  if (r.chance(0.1)) {
    // any bytes, long and nearly the same
    s.assign(r.chance(0.5) ? r.in(1, 300) : r.below(4), 'l');
    for (size_t n = r.in(1, 3); n > 0; --n) {
      char x = char(r.in(1, 255));
      s += x == '/' ? '|' : x;
    }
    return s;
  }
#endif
  for (size_t n = r.in(1, max); n > 0; --n) {
    s += c[r.below(c.size())];
  }
  return s;
}
std::string join(const std::vector<std::string>& g, const std::string& n) {
  std::string s;
  for (auto& x : g) {
    s += x + "/";
  }
  return s + n;
}
}  // namespace

#ifdef VP_C21
namespace {
struct Made {
  std::vector<std::string> groups;
  std::string              name, full;
  QualifiedName            q;
};
Made make(vp::Rng& rng) {
  std::vector<std::string> g;
  for (size_t n = rng.chance(0.05) ? rng.below(20) : rng.below(4); n > 0; --n) {
    g.push_back(word(rng));
  }
  auto n = word(rng);
  auto f = join(g, n);
  return Made{g, n, f, rng.chance(0.5) ? QualifiedName(g, n) : QualifiedName(f)};
}
void checkName(const Made& m, const QualifiedName& q, const char* what) {
  VP_CHECK(q.groups() == m.groups && q.datasetName() == m.name && q.qualifiedName() == m.full, "wrong-name", what << " of '" << m.full << "' is '" << q.qualifiedName() << "' (" << vp::show(q.groups()) << ", " << q.datasetName() << ")");
  std::ostringstream o;
  o << q;
  VP_CHECK(o.str() == m.full, "wrong-name", what << " is printed as " << o.str());
}
}  // namespace
VP_SCENARIO(names, 3) {
  std::vector<Made> all;
  for (size_t n = rng.in(2, 12); n > 0; --n) {
    all.push_back(make(rng));
    if (rng.chance(0.3)) {
      // one of its groups, or inside of it
      auto& m = all.back();
      Made  k = m;
      if (rng.chance(0.5) && !m.groups.empty()) {
        size_t i = rng.below(m.groups.size());
        k.name   = m.groups[i];
        k.groups.resize(i);
      } else {
        k.groups.push_back(m.name);
        k.name = word(rng);
      }
      k.full = join(k.groups, k.name);
      k.q    = QualifiedName(k.groups, k.name);
      all.push_back(k);
    }
  }
  // some are used before they are copied, moved or assigned
  for (auto& m : all) {
    if (rng.chance(0.5)) {
      m.q.hash();
    }
    checkName(m, m.q, "name");
    QualifiedName c(m.q);
    checkName(m, c, "copy");
    QualifiedName o = all[rng.below(all.size())].q;
    if (rng.chance(0.5)) {
      o.hash();
    }
    o = m.q;
    checkName(m, o, "assigned");
    VP_CHECK(o == m.q && !(o != m.q) && o.hash() == m.q.hash() && !(o < m.q) && !(m.q < o), "wrong-comparison", "assigned copy of " << m.full);
    QualifiedName v(std::move(o));
    checkName(m, v, "moved");
    VP_CHECK(v == m.q && v.hash() == m.q.hash() && c == v, "wrong-comparison", "moved copy of " << m.full);
    QualifiedName w("another/name");
    w.hash();
    w = std::move(v);
    checkName(m, w, "move assigned");
    VP_CHECK(w == m.q && w.hash() == m.q.hash(), "wrong-comparison", "move assigned copy of " << m.full);
    QualifiedName fresh(m.full);
    VP_CHECK(fresh == m.q && fresh.hash() == m.q.hash() && std::hash<QualifiedName>()(fresh) == m.q.hash(), "wrong-comparison", "parsed " << m.full);
    vp::cover("copies");
  }
  size_t n = all.size();
  QualifiedName::AlphabeticalComparator alpha;
  for (auto& a : all) {
    for (auto& b : all) {
      bool eq = a.full == b.full;
      VP_CHECK((a.q == b.q) == eq && (a.q != b.q) == !eq, "wrong-comparison", a.full << " == " << b.full);
      VP_CHECK(!eq || a.q.hash() == b.q.hash(), "wrong-hash", a.full);
      VP_CHECK((a.q < b.q) + (b.q < a.q) == !eq, "wrong-order", a.full << " < " << b.full);
      VP_CHECK(alpha(a.q, b.q) == (a.full < b.full), "wrong-order", a.full << " alphabetically before " << b.full);
      bool in = b.groups.size() < a.groups.size() && std::equal(b.groups.begin(), b.groups.end(), a.groups.begin()) && a.groups[b.groups.size()] == b.name;
      VP_CHECK(a.q.belongsInGroup(b.q) == in, "wrong-group", a.full << (in ? " does not belong to " : " belongs to ") << b.full);
      vp::cover(in ? "in_group" : "not_in_group");
      for (auto& c : all) {
        if (a.q < b.q && b.q < c.q) {
          VP_CHECK(a.q < c.q, "wrong-order", "not transitive: " << a.full << " " << b.full << " " << c.full);
        }
      }
    }
  }
  // as keys
  std::map<QualifiedName, std::string>           m;
  std::unordered_map<QualifiedName, std::string> u;
  std::set<QualifiedName, QualifiedName::AlphabeticalComparator> s;
  std::set<std::string>                          want;
  for (auto& a : all) {
    m[a.q] = u[a.q] = a.full;
    s.insert(a.q);
    want.insert(a.full);
  }
  VP_CHECK(m.size() == want.size() && u.size() == want.size() && s.size() == want.size(), "wrong-key", m.size() << " " << u.size() << " " << s.size() << " keys instead of " << want.size());
  auto it = want.begin();
  for (auto& q : s) {
    VP_CHECK(q.qualifiedName() == *it, "wrong-order", "alphabetical order");
    ++it;
  }
  for (auto& w : want) {
    VP_CHECK(m.at(QualifiedName(w)) == w && u.at(QualifiedName(w)) == w, "wrong-key", w);
  }
  vp::cover("keys", n);
  std::string sig;
  for (auto& a : all) {
    sig += a.full + "|";
  }
  vp::distinct(vp::fnv(sig));
  if (vp::wantSample()) {
    vp::sample(sig);
  }
}
VP_SCENARIO(invalid, 1) {
  auto m = make(rng);
  auto g = m.groups;
  auto n = m.name;
  auto bad = rng.chance(0.5) ? std::string() : word(rng) + "/" + (rng.chance(0.5) ? word(rng) : "");
  if (rng.chance(0.3)) {
    bad = "/";
  }
  if (rng.chance(0.5)) {
    g.insert(g.begin() + rng.below(g.size() + 1), bad);
  } else {
    n = bad;
  }
  VP_THROWS(QualifiedName(g, n), "bad-name-accepted", vp::show(g) << " " << n);
  // as text: an empty part anywhere
  std::string f = m.full;
  switch (rng.below(4)) {
  case 0:
    f = "/" + f;
    break;
  case 1:
    f += "/";
    break;
  case 2:
    f = word(rng) + "//" + f;
    break;
  default:
    f.clear();
  }
  VP_THROWS((QualifiedName(f)), "bad-name-accepted", "'" << f << "'");
  vp::cover("invalid_names");
}
VP_SCENARIO(archives, 1) {
  std::vector<Made> all;
  for (size_t n = rng.in(1, 6); n > 0; --n) {
    all.push_back(make(rng));
  }
  std::stringstream s;
  bool              text = rng.chance(0.5);
  std::vector<std::unique_ptr<QualifiedName>> back;
  auto save = [&](auto& ar) {
    for (auto& m : all) {
      const QualifiedName* p = &m.q;
      ar << p;
    }
  };
  auto load = [&](auto& ar) {
    for (size_t i = 0; i < all.size(); ++i) {
      QualifiedName* p = nullptr;
      ar >> p;
      back.emplace_back(p);
    }
  };
  if (text) {
    {
      boost::archive::text_oarchive o(s);
      save(o);
    }
    boost::archive::text_iarchive i(s);
    load(i);
  } else {
    {
      boost::archive::binary_oarchive o(s);
      save(o);
    }
    boost::archive::binary_iarchive i(s);
    load(i);
  }
  for (size_t i = 0; i < all.size(); ++i) {
    checkName(all[i], *back[i], "archived");
    VP_CHECK(*back[i] == all[i].q && back[i]->hash() == all[i].q.hash(), "wrong-name", "archived " << all[i].full);
    vp::cover("archived");
  }
}
#endif

#ifdef VP_C22
namespace {
using Pairs = std::vector<std::pair<double, double>>;
double value(vp::Rng& r) {
  switch (r.below(6)) {
  case 0:
    return r.in(-100, 100);
  case 1:
    return r.real(-1, 1) * std::pow(10., r.in(-300, 300));
  default:
    return r.real(-10000, 10000);
  }
}
std::string text(double v, vp::Rng* r = nullptr) {
  if (r && v == std::floor(v) && v >= 0 && v <= 100 && r->chance(0.5)) {
    auto i = std::to_string(int(v));
    return r->pick(std::vector<std::string>{"+" + i, i + ".", i + ".000", i + "e0", i + "0E-1", "00" + i, "+" + i + ".0e+00"});
  }
  std::ostringstream o;
  o.precision(17);
  o << v;
  return o.str();
}
bool equal(const XYDataset& d, const Pairs& p) {
  if (d.size() != p.size() || size_t(d.end() - d.begin()) != p.size()) {
    return false;
  }
  size_t i = 0;
  for (auto& x : d) {
    if (x != p[i++]) {
      return false;
    }
  }
  return p.empty() || (d.front() == p.front() && d.back() == p.back());
}
struct DataFile {
  bool                               is_dataset = true;
  std::string                        name;  // as stored in the file; empty: the name of the file
  std::map<std::string, std::string> params;
  Pairs                              data;
  std::string                        text;
};
std::string gap(vp::Rng& r) {
  return r.pick(std::vector<std::string>{" ", "  ", "\t", " \t "});
}
DataFile generate(vp::Rng& r, const std::string& unique) {
  DataFile    f;
  std::string nl = r.chance(0.15) ? "\r\n" : "\n", t;
  auto        blank = [&] {
    while (r.chance(0.15)) {
      t += nl;
    }
  };
  auto spaces = [&] {
    while (r.chance(0.1)) {
      t += r.pick(std::vector<std::string>{"", " ", "\t "}) + nl;
    }
  };
  if (r.chance(0.15)) {
    f.is_dataset = false;
    f.text       = r.pick(std::vector<std::string>{"", "\n", "# only\n# comments\n", "some words\n", "1\n", "1 2 3\n", "1 x\n", "x 1\n", "# c\n\nabc def\n1 2\n", "# 1 2", " \n\t\n", "1,2\n"});
    return f;
  }
  if (nl == "\n") {
    blank();
  }
  int how = r.below(4);
  if (how == 0) {
    // the first line with something is the name
    f.name = "first_" + unique;
    t += r.pick(std::vector<std::string>{"#", "# ", "  #\t"}) + f.name + r.pick(std::vector<std::string>{"", "  "}) + nl;
    vp::cover("named_first_line");
  }
  if (how == 0 || how == 2) {
    spaces();
  }
  auto comment = [&] {
    switch (r.below(7)) {
    case 4:
      t += "# my UNIT: none" + nl;
      break;
    case 5:
      t += "# " + std::string(r.in(1, 3000), 'c') + " " + std::string(r.in(1, 300), ' ') + "d" + nl;
      break;
    case 6:
      t += "# UNIT of nothing: 1" + nl + "#UNIT:" + nl;
      break;
    case 0:
      t += "# same same" + nl;
      break;
    case 1:
      t += "#" + nl;
      break;
    case 2:
      t += "# x y" + nl;
      break;
    default:
      t += "  # several words, not a name" + nl;
    }
    spaces();
  };
  if (how != 0) {
    // the first line must not look like a name
    t += "# not a name" + nl;
  }
  if (how == 1) {
    f.name = "par " + unique + ".x";
    if (r.chance(0.5)) {
      comment();
    }
    t += "#" + r.pick(std::vector<std::string>{"", " ", "\t"}) + "NAME" + r.pick(std::vector<std::string>{"", " "}) + ":" + r.pick(std::vector<std::string>{"", " "}) + f.name + r.pick(std::vector<std::string>{"", " "}) + nl;
    f.params["NAME"] = f.name;
    vp::cover("named_parameter");
  }
  for (auto key : {"FILTER", "UNIT", "UNITS", "Unit", "T_2"}) {
    for (size_t n = r.chance(0.05) ? r.in(3, 40) : r.below(3); n > 0; --n) {
      std::string v = r.pick(std::vector<std::string>{"a", "b c", "photon", "1.5", "x:y", "", "UNIT: z", "# 2", "a;b"});
      if (v.empty()) {
        v = std::string(r.in(1, 2000), 'v') + "   " + std::to_string(r.below(1000));
      }
      t += "# " + std::string(key) + r.pick(std::vector<std::string>{": ", " : ", ":"}) + v + r.pick(std::vector<std::string>{"", "  "}) + nl;
      auto& p = f.params[key];
      p += (p.empty() ? "" : ";") + v;
      if (r.chance(0.3)) {
        comment();
      }
    }
  }
  size_t n = r.chance(0.2) ? 1 : r.chance(0.04) ? r.in(100, 1500) : r.in(1, 20);
  for (size_t i = 0; i < n; ++i) {
    f.data.emplace_back(value(r), value(r));
    t += (r.chance(0.3) ? gap(r) : "") + text(f.data.back().first, &r) + gap(r) + text(f.data.back().second, &r);
    if (r.chance(0.1)) {
      t += gap(r) + "# said about this";
    }
    if (i + 1 < n || r.chance(0.7)) {
      t += nl;
      if (i + 1 < n && r.chance(0.05)) {
        comment();
      }
      spaces();
    } else {
      vp::cover("no_last_newline");
    }
  }
  f.text = t;
  return f;
}
struct Entry {
  std::string full;
  DataFile    file;
};
struct Tree {
  std::vector<Entry>       entries;  // in the order they have to be listed
  std::vector<std::string> groups;
  size_t                   ordered = 0;
};
size_t      counter;
std::string vp_outside;
// creates the directory and returns the datasets in their order
void plant(vp::Rng& r, const std::string& dir, const std::string& prefix, int depth, Tree& tree) {
  struct Item {
    std::string name;
    bool        dir;
  };
  std::map<std::string, Item> items;  // ordered by name
  bool                        big = depth == 0 && r.chance(0.1);
  size_t                      n = big ? r.in(10, 60) : r.in(depth ? 0 : 1, 5);
  static const std::vector<std::string> base{"a", "b", "B", "ab", "a-b", "a.b", "z 1", "_", "10", "9", "\xc3\xa9", ".h"};
  for (size_t i = 0; i < n; ++i) {
    bool        d = (depth < 3 || (depth < 8 && r.chance(0.3))) && r.chance(big ? 0.1 : 0.35);
    std::string s = r.pick(base) + (r.chance(0.3) ? r.pick(base) : "");
    if (r.chance(big ? 0.7 : 0.02)) {
      s += std::string(r.chance(0.1) ? r.in(1, 100) : 1, 'n') + std::to_string(r.below(1000));
    }
    if (s[0] == '.') {
      s += ".x";
    }
    if (!d) {
      s += r.pick(std::vector<std::string>{".txt", ".dat", ""});
    }
    if (items.count(s)) {
      continue;
    }
    items[s] = Item{s, d};
  }
  std::vector<Item> order;
  if (r.chance(0.4)) {
    std::vector<std::string> names;
    for (auto& i : items) {
      if (r.chance(0.6)) {
        names.push_back(i.first);
      }
    }
    r.shuffle(names);
    std::ofstream o(dir + "/order.txt");
    std::string   nl = r.chance(0.2) ? "\r\n" : "\n";
    if (r.chance(0.8)) {
      o << "# the order" << nl << nl;
    }
    for (auto& x : names) {
      o << (r.chance(0.2) ? "  " : "") << x << (items[x].dir && r.chance(0.2) ? "/" : "") << (r.chance(0.2) ? " # why" : "") << (&x == &names.back() && r.chance(0.3) ? "" : nl);
      if (&x != &names.back() && r.chance(0.2)) {
        // neither what is not there nor what is not of this directory, and each name has one place, the first one
        o << r.pick(std::vector<std::string>{"not there", ".", "./" + x, "./", "/", x + "/.", x, x + " #", depth ? ".." : ".", depth ? "../" + fs::path(dir).filename().string() : "./."}) << nl << (r.chance(0.3) ? "#" + nl + "  \t" + nl : "");
      }
      order.push_back(items[x]);
      items.erase(x);
    }
    tree.ordered += names.size();
  }
  for (auto& i : items) {
    order.push_back(i.second);
  }
  for (auto& i : order) {
    std::string path = dir + "/" + i.name;
    if (i.dir) {
      fs::create_directory(path);
      tree.groups.push_back(prefix + i.name);
      plant(r, path, prefix + i.name + "/", depth + 1, tree);
    } else {
      auto f = generate(r, std::to_string(++counter));
      if (r.chance(0.05)) {
        // outside of the tree, with a link to it
        std::string other = vp_outside + "/f" + std::to_string(counter);
        std::ofstream(other) << f.text;
        fs::create_symlink(other, path);
        vp::cover("links");
      } else {
        std::ofstream(path) << f.text;
      }
      if (f.is_dataset) {
        std::string name = f.name;
        if (name.empty()) {
          auto dot = i.name.rfind('.');
          name     = dot == std::string::npos ? i.name : i.name.substr(0, dot);
        }
        tree.entries.push_back({prefix + name, f});
      } else {
        vp::cover("not_datasets");
      }
    }
  }
}
std::vector<std::string> fulls(const std::vector<QualifiedName>& v) {
  std::vector<std::string> r;
  for (auto& q : v) {
    r.push_back(q.qualifiedName());
  }
  return r;
}
void checkProvider(vp::Rng& rng, XYDatasetProvider& p, const Tree& tree) {
  auto wanted = [&](const std::string& g) {
    std::vector<std::string> w;
    for (auto& e : tree.entries) {
      if (g.empty() || e.full.compare(0, g.size() + 1, g + "/") == 0) {
        w.push_back(e.full);
      }
    }
    return w;
  };
  auto list = [&](const std::string& asked, const std::string& g) {
    auto got = fulls(p.listContents(asked)), want = wanted(g);
    VP_CHECK(got == want, "wrong-list", "contents of '" << asked << "' are " << vp::show(got, 100) << " instead of " << vp::show(want, 100));
    vp::cover("lists");
  };
  for (size_t n = rng.in(1, 3); n > 0; --n) {
    list("", "");
    if (rng.chance(0.3)) {
      list("/", "");
    }
    for (auto& g : tree.groups) {
      list((rng.chance(0.2) ? "/" : "") + g + rng.pick(std::vector<std::string>{"", "", "/", "//"}), g);
      vp::cover("groups");
    }
    list("no such group", "no such group");
    if (!tree.entries.empty()) {
      auto& e = tree.entries[rng.below(tree.entries.size())];
      list(e.full, e.full);  // a dataset is not a group
    }
    std::vector<size_t> order;
    for (size_t i = 0; i < tree.entries.size(); ++i) {
      order.push_back(i);
    }
    rng.shuffle(order);
    for (auto i : order) {
      auto& e = tree.entries[i];
      auto  d = p.getDataset(QualifiedName(e.full));
      VP_CHECK(d && equal(*d, e.file.data), "wrong-dataset", e.full << (d ? " has other data: " : " not found: ") << e.file.text);
      for (auto key : {"NAME", "FILTER", "UNIT", "UNITS", "Unit", "T_2", "NONE"}) {
        auto it   = e.file.params.find(key);
        auto want = it == e.file.params.end() ? "" : it->second, got = p.getParameter(QualifiedName(e.full), key);
        VP_CHECK(got == want, "wrong-parameter", key << " of " << e.full << " is '" << got << "' instead of '" << want << "'");
        vp::cover("parameters");
      }
      vp::cover("datasets");
    }
    VP_CHECK(!p.getDataset(QualifiedName("no such/dataset")), "wrong-dataset", "found one that is not there");
    VP_CHECK(p.getParameter(QualifiedName("no such/dataset"), "NAME").empty(), "wrong-parameter", "of a dataset that is not there");
  }
}
// counts what it is asked
class Counting : public XYDatasetProvider {
public:
  explicit Counting(std::unique_ptr<XYDatasetProvider> p) : m_p(std::move(p)) {}
  std::vector<QualifiedName> listContents(const std::string& g) override {
    ++lists[g];
    return m_p->listContents(g);
  }
  std::string getParameter(const QualifiedName& q, const std::string& k) override {
    return m_p->getParameter(q, k);
  }
  std::unique_ptr<XYDataset> getDataset(const QualifiedName& q) override {
    ++datasets[q.qualifiedName()];
    return m_p->getDataset(q);
  }
  std::map<std::string, int> lists, datasets;

private:
  std::unique_ptr<XYDatasetProvider> m_p;
};
bool unique(const Tree& t) {
  std::set<std::string> s;
  for (auto& e : t.entries) {
    if (!s.insert(e.full).second) {
      return false;
    }
  }
  return true;
}
}  // namespace
VP_SCENARIO(providers, 4) {
  vp::ScratchDir dir;
  std::string    root = dir.path + "/" + rng.pick(std::vector<std::string>{"root", "a", "1", "r.t", "r t"});
  fs::create_directory(root);
  Tree tree;
  counter    = 0;
  vp_outside = dir.path + "/outside";
  fs::create_directory(vp_outside);
  plant(rng, root, "", 0, tree);
  std::string                        asked = root + rng.pick(std::vector<std::string>{"", "/", "//"});
  if (rng.chance(0.2)) {
    asked = dir.path + rng.pick(std::vector<std::string>{"/./", "/outside/../", "//"}) + fs::path(root).filename().string() + rng.pick(std::vector<std::string>{"", "/"});
  }
  std::unique_ptr<XYDatasetProvider> p;
  if (!unique(tree)) {
    VP_THROWS(p.reset(new FileSystemProvider(asked, std::unique_ptr<FileParser>(new AsciiParser()))), "duplicate-accepted", "two datasets with the same name");
    vp::cover("duplicates");
    return;
  }
  p.reset(new FileSystemProvider(asked, std::unique_ptr<FileParser>(new AsciiParser())));
  std::shared_ptr<Counting> counting;
  if (rng.chance(0.5)) {
    counting = std::make_shared<Counting>(std::move(p));
    p.reset(new CachedProvider(counting));
  }
  checkProvider(rng, *p, tree);
  if (counting) {
    for (auto& x : counting->lists) {
      VP_CHECK(x.second == 1, "cache-missed", "contents of '" << x.first << "' asked " << x.second << " times");
    }
    for (auto& x : counting->datasets) {
      VP_CHECK(x.second == 1, "cache-missed", x.first << " asked " << x.second << " times");
    }
    vp::cover("cached");
  } else {
    vp::cover("direct");
  }
  vp::cover("ordered_names", tree.ordered);
  std::string sig;
  for (auto& e : tree.entries) {
    sig += e.full + "\n" + e.file.text;
  }
  vp::distinct(vp::fnv(sig));
  if (vp::wantSample()) {
    vp::sample(sig);
  }
}
VP_SCENARIO(parsers, 3) {
  vp::ScratchDir dir;
  std::string    path = dir.path + "/" + rng.pick(std::vector<std::string>{"plain.txt", "two.dots.dat", "none", "with space.txt"});
  auto           f    = generate(rng, "7");
  std::ofstream(path, std::ios::binary) << f.text;
  AsciiParser parser;
  VP_CHECK(parser.isDatasetFile(path) == f.is_dataset, "wrong-kind", (f.is_dataset ? "not recognised: " : "taken for a dataset: ") << f.text);
  if (!f.is_dataset) {
    vp::cover("not_datasets");
    return;
  }
  auto base = fs::path(path).filename().string();
  auto want = f.name.empty() ? base.substr(0, base.rfind('.')) : f.name;
  auto got  = parser.getName(path);
  VP_CHECK(got == want, "wrong-name", "'" << got << "' instead of '" << want << "': " << f.text);
  auto d = parser.getDataset(path);
  VP_CHECK(d && equal(*d, f.data), "wrong-dataset", "other data: " << f.text);
  // another expression for the name
  if (f.params.count("NAME") == 0) {
    std::ofstream(path, std::ios::binary) << "## title=" << "T1\n" << f.text;
    VP_CHECK(AsciiParser("^## title=(.*)$").getName(path) == "T1", "wrong-name", "own expression");
    vp::cover("own_expression");
  }
  VP_CHECK(!parser.getDataset(dir.path + "/missing") && !parser.isDatasetFile(dir.path + "/missing"), "wrong-kind", "missing file");
  VP_THROWS(parser.getName(dir.path + "/missing"), "wrong-kind", "name of a missing file");
  VP_THROWS(parser.getParameter(dir.path + "/missing", "X"), "wrong-kind", "parameter of a missing file");
  VP_THROWS(FileSystemProvider(dir.path + "/missing", std::unique_ptr<FileParser>(new AsciiParser())), "wrong-kind", "missing root");
  VP_THROWS(FileSystemProvider(path, std::unique_ptr<FileParser>(new AsciiParser())), "wrong-kind", "root is a file");
  vp::cover("parsed");
  vp::distinct(vp::fnv(f.text));
}
VP_SCENARIO(datasets, 1) {
  Pairs               p;
  std::vector<double> x, y;
  for (size_t n = rng.below(20); n > 0; --n) {
    p.emplace_back(value(rng), value(rng));
    x.push_back(p.back().first);
    y.push_back(p.back().second);
  }
  auto a = XYDataset::factory(p), b = XYDataset::factory(x, y);
  VP_CHECK(equal(a, p) && equal(b, p) && equal(XYDataset(a), p), "wrong-pairs", "dataset of " << p.size());
  (rng.chance(0.5) ? x : y).push_back(1);
  VP_THROWS(XYDataset::factory(x, y), "sizes-accepted", x.size() << " " << y.size());
  vp::cover("made");
}
#endif
VP_MAIN()
