// C24: the configuration manager: closure of the dependencies, order of initialization, cycles, phases, options
#include "vp.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/Configuration.h"
#include "Configuration/ProgramOptionsHelper.h"
#include "Configuration/Utils.h"
#include <algorithm>
#include <array>
#include <boost/program_options.hpp>
#include <utility>
namespace C  = Euclid::Configuration;
namespace po = boost::program_options;

namespace {
constexpr int K = 13;  // configuration types

struct Event {
  char phase;  // c(onstructed), 1, 2, 3
  int  who;
};
// what one manager is asked to do and what it was seen doing
struct World {
  long                                id = 0;
  std::array<std::vector<int>, K>     declared{};  // in the constructor
  std::array<std::set<int>, K>        use{};       // what initialize() asks for: declared and extra dependencies which are registered
  std::array<std::vector<std::string>, K> options{};
  std::map<std::string, std::string>  group{};  // of each option
  int                                 faulty = -1;  // its initialize() throws
  int                                 faulty_constructor = -1;
  char                                faulty_phase = 0;
  std::vector<Event>                  events;
  std::map<int, const void*>          self;
  std::string                         wrong;  // first broken rule seen from inside a callback
};
std::map<long, World>& worlds() {
  static std::map<long, World> w;
  return w;
}
struct Planned : std::runtime_error {
  Planned() : std::runtime_error("planned failure") {}
};

template <int N>
struct Conf;
template <int N>
void declareAny(Conf<N>& c, int m);
template <int N>
C::Configuration& askAny(Conf<N>& c, int m);

template <int N>
struct Conf : C::Configuration {
  World& w;
  bool   pre = false;
  explicit Conf(long id) : C::Configuration(id), w(worlds().at(id)) {
    w.events.push_back({'c', N});
    for (int m : w.declared[N]) {
      declareAny<N>(*this, m);
    }
    if (w.faulty_constructor == N) {
      throw Planned{};
    }
    w.self[N] = this;
  }
  template <int M>
  void dep() {
    this->template declareDependency<Conf<M>>();
  }
  template <int M>
  C::Configuration& ask() {
    return this->template getDependency<Conf<M>>();
  }
  std::map<std::string, OptionDescriptionList> getProgramOptions() override {
    std::map<std::string, OptionDescriptionList> r;
    for (auto& o : w.options[N]) {
      r[w.group[o]].push_back(po::option_description(o.c_str(), po::value<int>(), "text"));
    }
    return r;
  }
  void seen(const UserValues& args) {
    for (auto& o : w.options[N]) {
      auto i = args.find(o);
      if (w.wrong.empty() && (i == args.end() || i->second.as<int>() != int(vp::fnv(o) % 1000))) {
        w.wrong = "option " + o + " did not reach the configuration";
      }
    }
  }
  void preInitialize(const UserValues& args) override {
    w.events.push_back({'1', N});
    seen(args);
    if (getCurrentState() != State::CONSTRUCTED && w.wrong.empty()) {
      w.wrong = "state during preInitialize of " + std::to_string(N);
    }
    if (w.faulty == N && w.faulty_phase == '1') {
      throw Planned{};
    }
    pre = true;
  }
  void initialize(const UserValues& args) override {
    w.events.push_back({'2', N});
    seen(args);
    if (getCurrentState() != State::PRE_INITIALIZED && w.wrong.empty()) {
      w.wrong = "state during initialize of " + std::to_string(N);
    }
    for (int m : w.use[N]) {
      auto& d = askAny<N>(*this, m);
      if (d.getCurrentState() < State::INITIALIZED && w.wrong.empty()) {
        w.wrong = "configuration " + std::to_string(N) + " initialized before its dependency " + std::to_string(m);
      }
      if (&d != w.self.at(m) && w.wrong.empty()) {
        w.wrong = "another object is returned as dependency";
      }
    }
    if (w.faulty == N && w.faulty_phase == '2') {
      throw Planned{};
    }
  }
  void postInitialize(const UserValues& args) override {
    w.events.push_back({'3', N});
    seen(args);
    if (getCurrentState() != State::INITIALIZED && w.wrong.empty()) {
      w.wrong = "state during postInitialize of " + std::to_string(N);
    }
    if (w.faulty == N && w.faulty_phase == '3') {
      throw Planned{};
    }
  }
};

template <int N, size_t... I>
void declareImpl(Conf<N>& c, int m, std::index_sequence<I...>) {
  using F                = void (Conf<N>::*)();
  static const F table[] = {&Conf<N>::template dep<int(I)>...};
  (c.*table[m])();
}
template <int N>
void declareAny(Conf<N>& c, int m) {
  declareImpl<N>(c, m, std::make_index_sequence<K>());
}
template <int N, size_t... I>
C::Configuration& askImpl(Conf<N>& c, int m, std::index_sequence<I...>) {
  using F                = C::Configuration& (Conf<N>::*)();
  static const F table[] = {&Conf<N>::template ask<int(I)>...};
  return (c.*table[m])();
}
template <int N>
C::Configuration& askAny(Conf<N>& c, int m) {
  return askImpl<N>(c, m, std::make_index_sequence<K>());
}

using M = C::ConfigManager;
template <size_t... I>
void registerAny(M& m, int n, std::index_sequence<I...>) {
  using F                = void (M::*)();
  static const F table[] = {&M::registerConfiguration<Conf<int(I)>>...};
  (m.*table[n])();
}
template <size_t... I>
C::Configuration& getAny(M& m, int n, std::index_sequence<I...>) {
  using F                = C::Configuration& (*)(M&);
  static const F table[] = {[](M& x) -> C::Configuration& { return x.getConfiguration<Conf<int(I)>>(); }...};
  return table[n](m);
}
template <size_t... I>
void dependAny(M& m, int pair, std::index_sequence<I...>) {
  using F                = void (M::*)();
  static const F table[] = {&M::registerDependency<Conf<int(I) / K>, Conf<int(I) % K>>...};
  (m.*table[pair])();
}
void enroll(M& m, int n) {
  registerAny(m, n, std::make_index_sequence<K>());
}
C::Configuration& get(M& m, int n) {
  return getAny(m, n, std::make_index_sequence<K>());
}
void depend(M& m, int a, int b) {
  dependAny(m, a * K + b, std::make_index_sequence<K * K>());
}

// a graph over the K types: acyclic in a random order of the types, plus possibly a cycle of the given length
struct Graph {
  std::vector<std::pair<int, int>> edges;  // from depends on to
};
Graph makeGraph(vp::Rng& r, int cycle) {
  std::vector<int> order(K);
  for (int i = 0; i < K; ++i) {
    order[i] = i;
  }
  r.shuffle(order);
  Graph                         g;
  std::set<std::pair<int, int>> seen;
  double                        density = r.pick(std::vector<double>{0, 0.1, 0.25, 0.5, 1});
  bool                          chain   = r.chance(0.3);
  for (int i = 0; i < K; ++i) {
    for (int j = i + 1; j < K; ++j) {
      if (chain ? j == i + 1 : r.chance(density)) {
        seen.insert({order[i], order[j]});
      }
    }
  }
  if (cycle > 0) {
    std::vector<int> c = order;
    r.shuffle(c);
    for (int i = 0; i < cycle; ++i) {
      seen.insert({c[i], c[(i + 1) % cycle]});
    }
  }
  g.edges.assign(seen.begin(), seen.end());
  r.shuffle(g.edges);
  return g;
}
bool cyclic(const std::set<int>& nodes, const std::vector<std::pair<int, int>>& edges) {
  // repeatedly remove the nodes which depend on nothing that is left
  std::set<int> left = nodes;
  for (bool again = true; again;) {
    again = false;
    for (int n : std::vector<int>(left.begin(), left.end())) {
      bool blocked = false;
      for (auto& e : edges) {
        blocked = blocked || (e.first == n && left.count(e.second) && nodes.count(e.first));
      }
      if (!blocked) {
        left.erase(n);
        again = true;
      }
    }
  }
  return !left.empty();
}

struct Plan {
  World*                           w = nullptr;
  M*                               m = nullptr;
  std::set<int>                    registered;  // expected
  std::vector<std::pair<int, int>> declared, extra;
  bool                             cycle = false;
};

std::string describe(const Plan& p) {
  std::ostringstream o;
  o << "registered:";
  for (int n : p.registered) {
    o << " " << n;
  }
  o << " declared:";
  for (auto& e : p.declared) {
    o << " " << e.first << "->" << e.second;
  }
  o << " extra:";
  for (auto& e : p.extra) {
    o << " " << e.first << "->" << e.second;
  }
  return o.str();
}
std::string log(const World& w) {
  std::ostringstream o;
  for (auto& e : w.events) {
    o << e.phase << e.who << " ";
  }
  return o.str();
}

// registration: the types asked for and all their declared dependencies, each constructed once
void registration(vp::Rng& rng, Plan& p, int cycle) {
  World& w = *p.w;
  auto   g = makeGraph(rng, cycle);
  double in_constructor = rng.pick(std::vector<double>{1, 1, 0.5, 0});
  for (auto& e : g.edges) {
    if (rng.chance(in_constructor)) {
      w.declared[e.first].push_back(e.second);
      p.declared.push_back(e);
      if (rng.chance(0.1)) {
        w.declared[e.first].push_back(e.second);
      }
    } else {
      p.extra.push_back(e);
    }
  }
  for (int n = 0; n < K; ++n) {
    std::string group = "Group " + std::to_string(rng.below(3));
    for (size_t i = rng.chance(0.1) ? rng.in(3, 20) : rng.below(3); i > 0; --i) {
      w.options[n].push_back("opt-" + std::to_string(n) + "-" + std::to_string(i));
      w.group[w.options[n].back()] = rng.chance(0.2) ? "Group " + std::to_string(rng.below(5)) : group;
    }
  }
  std::vector<int> roots;
  for (int n = 0; n < K; ++n) {
    if (rng.chance(0.4)) {
      roots.push_back(n);
    }
  }
  if (roots.empty()) {
    roots.push_back(rng.below(K));
  }
  rng.shuffle(roots);
  if (rng.chance(0.3)) {
    roots.push_back(rng.pick(roots));  // a second time
  }
  // the registrations and the extra dependencies come in any order
  std::vector<int> steps;
  for (size_t i = 0; i < roots.size(); ++i) {
    steps.push_back(roots[i]);
  }
  for (size_t i = 0; i < p.extra.size(); ++i) {
    steps.push_back(100 + int(i));
  }
  rng.shuffle(steps);
  for (int s : steps) {
    if (s < 100) {
      enroll(*p.m, s);
      // everything it needs
      std::vector<int> todo{s};
      while (!todo.empty()) {
        int n = todo.back();
        todo.pop_back();
        if (p.registered.insert(n).second) {
          todo.insert(todo.end(), w.declared[n].begin(), w.declared[n].end());
        }
      }
      std::multiset<int> built;
      for (auto& e : w.events) {
        built.insert(e.who);
      }
      for (int n = 0; n < K; ++n) {
        VP_CHECK(built.count(n) == p.registered.count(n), "config:registration",
                 "configuration " << n << " constructed " << built.count(n) << " times; " << describe(p));
      }
    } else {
      depend(*p.m, p.extra[s - 100].first, p.extra[s - 100].second);
    }
  }
  std::vector<std::pair<int, int>> effective;
  for (auto* l : {&p.declared, &p.extra}) {
    for (auto& e : *l) {
      if (p.registered.count(e.first) && p.registered.count(e.second)) {
        effective.push_back(e);
        w.use[e.first].insert(e.second);
      } else {
        vp::cover("ignored_dependencies");
      }
    }
  }
  p.cycle = cyclic(p.registered, effective);
}

void closeAndRun(vp::Rng& rng, Plan& p) {
  World& w = *p.w;
  VP_THROWS(get(*p.m, *p.registered.begin()), "config:too-early", "configuration given out during the registration");
  std::unique_ptr<po::options_description> given;
  bool                                     refused = false;
  try {
    given.reset(new po::options_description(p.m->closeRegistration()));
  } catch (const std::exception&) {
    refused = true;
  }
  VP_CHECK(refused == p.cycle, "config:cycle", "circular dependencies " << (refused ? "reported" : "not found") << "; " << describe(p));
  if (p.cycle) {
    vp::cover("cycles");
    return;
  }
  auto& all = *given;
  // closed
  int some = rng.below(K);
  VP_THROWS(enroll(*p.m, some), "config:closed", "registration accepted after closing");
  VP_THROWS(depend(*p.m, some, rng.below(K)), "config:closed", "dependency accepted after closing");
  VP_THROWS(get(*p.m, *p.registered.begin()), "config:too-early", "configuration given out before the initialization");
  // the options: each under the name of its group, exactly those of the registered configurations
  std::map<std::string, std::set<std::string>> want, got;
  size_t                                       n = 0;
  for (int c : p.registered) {
    for (auto& o : w.options[c]) {
      want[w.group[o]].insert(o);
      ++n;
    }
  }
  std::ostringstream text;
  text << all;
  std::istringstream lines(text.str());
  std::string        line, group;
  while (std::getline(lines, line)) {
    auto at = line.find("--");
    if (at != std::string::npos) {
      auto to = line.find_first_of(" =", at);
      got[group].insert(line.substr(at + 2, to == std::string::npos ? to : to - at - 2));
    } else if (!line.empty() && line.back() == ':') {
      group = line.substr(0, line.size() - 1);
    }
  }
  VP_CHECK(got == want && all.options().size() == n, "config:options", "options offered:\n" << text.str() << "; " << describe(p));
  // the user gives a value to each of them
  std::vector<std::string> argv;
  for (auto& gr : want) {
    for (auto& o : gr.second) {
      argv.push_back("--" + o + "=" + std::to_string(vp::fnv(o) % 1000));
    }
  }
  po::variables_map vm;
  po::store(po::command_line_parser(argv).options(all).run(), vm);
  po::notify(vm);
  C::Configuration::UserValues values(vm.begin(), vm.end());
  values["unrelated"].value() = boost::any(7);
  if (rng.chance(0.2)) {
    auto i = p.registered.begin();
    std::advance(i, rng.below(p.registered.size()));
    w.faulty       = *i;
    w.faulty_phase = "123"[rng.below(3)];
  }
  size_t before = w.events.size();
  bool   thrown = false;
  try {
    p.m->initialize(values);
  } catch (const Planned&) {
    thrown = true;
  }
  VP_CHECK(w.wrong.empty(), "config:order", w.wrong << "; " << describe(p) << "; " << log(w));
  VP_CHECK(thrown == (w.faulty >= 0), "config:exception", "failure of a configuration " << (thrown ? "invented" : "swallowed") << "; " << log(w));
  // the phases
  std::array<std::map<int, size_t>, 4> when;
  char                                 phase = '1';
  for (size_t i = before; i < w.events.size(); ++i) {
    auto& e = w.events[i];
    VP_CHECK(e.phase >= phase && e.phase <= '3', "config:phases", "phases mixed: " << log(w) << "; " << describe(p));
    phase = e.phase;
    VP_CHECK(p.registered.count(e.who) && when[e.phase - '0'].emplace(e.who, i).second, "config:once",
             "configuration " << e.who << " in phase " << e.phase << " again or not registered: " << log(w) << "; " << describe(p));
    vp::cover("callbacks");
  }
  for (int ph = 1; ph <= (thrown ? w.faulty_phase - '1' : 3); ++ph) {
    VP_CHECK(when[ph].size() == p.registered.size(), "config:everyone",
             "only " << when[ph].size() << " configurations went through phase " << ph << ": " << log(w) << "; " << describe(p));
  }
  for (int a = 0; a < K; ++a) {
    for (int b : w.use[a]) {
      if (when[2].count(a)) {
        VP_CHECK(when[2].count(b) && when[2][b] < when[2][a], "config:order", a << " initialized before " << b << ": " << log(w) << "; " << describe(p));
        vp::cover("ordered_pairs");
      }
    }
  }
  if (thrown) {
    vp::cover("failures");
    return;
  }
  for (int c = 0; c < K; ++c) {
    if (p.registered.count(c)) {
      auto& conf = get(*p.m, c);
      VP_CHECK(&conf == w.self.at(c), "config:identity", "another object returned for configuration " << c);
      VP_CHECK(conf.getCurrentState() == C::Configuration::State::FINAL, "config:final", "configuration " << c << " is not final");
      std::set<std::type_index> got_deps = conf.getDependencies(), same = get(*p.m, c).getDependencies();
      VP_CHECK(got_deps == same, "config:identity", "dependencies change");
      VP_CHECK(got_deps.size() == std::set<int>(w.declared[c].begin(), w.declared[c].end()).size(), "config:dependencies",
               "configuration " << c << " has " << got_deps.size() << " dependencies; " << describe(p));
    } else {
      VP_THROWS(get(*p.m, c), "config:unknown", "configuration which is not registered is given out");
    }
  }
  VP_CHECK(&M::getInstance(w.id) == p.m, "config:instance", "another manager for the same id");
  vp::cover("initialized");
}

long freshId(vp::Rng& rng) {
  static std::set<long> used;
  long                  id;
  do {
    id = rng.chance(0.5) ? C::getUniqueManagerId() : long(rng.next());
  } while (worlds().count(id));
  return id;
}
Plan fresh(vp::Rng& rng) {
  Plan p;
  long id = freshId(rng);
  p.w     = &worlds()[id];
  p.w->id = id;
  p.m     = &M::getInstance(id);
  return p;
}
}  // namespace

// one or several managers, their registrations interleaved with the life of the others
VP_SCENARIO(managers, 4) {
  std::vector<Plan> plans;
  for (size_t n = rng.chance(0.3) ? rng.in(2, 3) : 1; n > 0; --n) {
    plans.push_back(fresh(rng));
  }
  for (auto& p : plans) {
    registration(rng, p, rng.chance(0.25) ? rng.in(2, 5) : 0);
  }
  rng.shuffle(plans);
  for (auto& p : plans) {
    closeAndRun(rng, p);
    vp::distinct(vp::fnv(describe(p)));
    if (vp::wantSample()) {
      vp::sample(describe(p) + " events: " + log(*p.w));
    }
  }
}

// circular dependencies which the constructors themselves declare, met from any side
VP_SCENARIO(cycles, 1) {
  Plan p = fresh(rng);
  registration(rng, p, rng.in(1, 5));
  closeAndRun(rng, p);
  vp::distinct(vp::fnv(describe(p)));
}

// a constructor which fails leaves a usable manager behind
VP_SCENARIO(constructors, 1) {
  Plan p = fresh(rng);
  int  a = rng.below(K), b = (a + 1 + rng.below(K - 1)) % K;
  p.w->declared[a] = {b};
  p.declared.push_back({a, b});
  bool inner            = rng.chance(0.5);
  p.w->faulty_constructor = inner ? b : a;
  for (size_t n = rng.in(1, 2); n > 0; --n) {
    VP_THROWS(enroll(*p.m, a), "config:constructor", "failure of a constructor swallowed");
  }
  p.w->faulty_constructor = -1;
  p.w->events.clear();
  bool again = rng.chance(0.5);
  if (again) {
    enroll(*p.m, a);
  } else {
    enroll(*p.m, b);
  }
  auto all = p.m->closeRegistration();
  C::Configuration::UserValues values;
  p.w->events.clear();
  p.m->initialize(values);
  std::set<int> seen;
  for (auto& e : p.w->events) {
    seen.insert(e.who);
  }
  VP_CHECK(seen == (again ? std::set<int>{a, b} : std::set<int>{b}), "config:constructor", "after a failed constructor: " << log(*p.w));
  vp::cover("failed_constructors");
}

// wildcard options: the instances the user named
VP_SCENARIO(wildcards, 1) {
  std::vector<std::string> names, insts;
  for (size_t n = rng.in(1, 4), i = 0; i < n; ++i) {
    names.push_back(std::string(1, char('a' + i)) + rng.pick(std::vector<std::string>{"", "-file", "name-of-it"}));
  }
  for (size_t n = rng.in(0, 5), i = 0; i < n; ++i) {
    insts.push_back(rng.pick(std::vector<std::string>{"x", "y", "2", "with-dash", "with space", "*", "a", "-", "a-file"}));
  }
  std::map<std::string, po::variable_value> options;
  std::set<std::string>                     want;
  std::vector<std::string>                  asked;
  for (auto& n : names) {
    bool used = rng.chance(0.7);
    if (used) {
      asked.push_back(n);
    }
    for (auto& i : insts) {
      if (rng.chance(0.5)) {
        auto o = C::ProgramOptionsHelper::wildcard(n, i);
        VP_CHECK(o == n + "-" + i, "wildcard:name", "wildcard(" << n << "," << i << ") is " << o);
        options[o].value() = boost::any(i);
        if (used) {
          want.insert(i);
        }
      }
    }
    VP_CHECK(C::ProgramOptionsHelper::wildcard(n) == n + "-*", "wildcard:name", "wildcard(" << n << ") is " << C::ProgramOptionsHelper::wildcard(n));
  }
  // others of the user, whose names only begin alike
  for (auto& n : names) {
    if (rng.chance(0.2)) {
      options[n + "s-other"].value() = boost::any(1);
      vp::cover("similar_options");
    }
  }
  options["zzz"].value() = boost::any(1);
  auto got = C::ProgramOptionsHelper::findWildcardNames(asked, options);
  VP_CHECK(got == want, "wildcard:instances", vp::show(std::vector<std::string>(got.begin(), got.end())) << " found, given were "
                                                  << vp::show(std::vector<std::string>(want.begin(), want.end())) << " for " << vp::show(asked));
  vp::cover("instances", want.size());
}

VP_SCENARIO(ids, 1) {
  std::set<long> ids;
  for (size_t n = rng.in(2, 20), i = 0; i < n; ++i) {
    VP_CHECK(ids.insert(C::getUniqueManagerId()).second, "config:unique-id", "the same identifier of a manager twice");
  }
  vp::cover("ids", ids.size());
}

VP_MAIN()
