// Which method a call runs: registered methods, installed dispatchers, introspection.
#include "lab.h"
#include <set>
using namespace lab;

namespace {
// What ran, by token; every method object may run once only.
struct Book { std::map<std::string, std::vector<std::string>> ran; int objects = 0; } *book;

void note(const std::string& who, ix::Method* m, const Param_list& p, Value& r, bool& used)
{
  if (used) violation("shared-object", "one method object ran two calls (%s, call of '%.60s')", who.c_str(), m->name().c_str());
  used = true;
  std::string t = p.at(0).get_string(); int d = p.at(1).get_int();
  { NoPreempt np; book->ran[t].push_back(who); }
  if (d) sim::sleep((Time)d * MS);
  ix::Struct s; s.insert("who", who); s.insert("name", m->name()); s.insert("token", t); r = s;
}
struct Tagged: ix::Method {
  std::string who; bool used = false;
  explicit Tagged(const std::string& w): who(w) { NoPreempt np; ++book->objects; }
  ~Tagged() { NoPreempt np; --book->objects; }
  void execute(const Param_list& p, Value& r) { note(who, this, p, r, used); }
};
template <int N> struct Classy: Tagged { Classy(): Tagged("class" + std::to_string(N)) {} };
template <int N> void plain(ix::Method* m, const Param_list& p, Value& r) { bool used = false; note("function" + std::to_string(N), m, p, r, used); }
enum Mood { FINE, THROWS_STD, THROWS_FAULT, THROWS_OTHER };
void upset(int mood, const std::string& text)
{
  if (mood == THROWS_STD) throw std::runtime_error(text);
  if (mood == THROWS_FAULT) throw ix::Fault(55, text);
  if (mood == THROWS_OTHER) throw 5;
}
struct TaggedFactory: ix::Method_factory_base {
  std::string who; int mood;
  TaggedFactory(const std::string& w, int m): who(w), mood(m) {}
  ix::Method* create() { yield("create"); upset(mood, "refused by " + who); return new Tagged(who); }
};
struct Rule { std::string name; bool prefix = false; int mood = FINE; };
struct Disp: ix::Method_dispatcher_base {
  std::string who; std::vector<Rule> rules;
  static const Rule* match(const std::vector<Rule>& v, const std::string& n)
  {
    for (auto& r : v) if (r.prefix ? n.compare(0, r.name.size(), r.name) == 0 : n == r.name) return &r;
    return nullptr;
  }
  ix::Method* do_create_method(const std::string& n)
  {
    yield("dispatch");
    const Rule* r = match(rules, n); if (!r) return nullptr;
    upset(r->mood, "refused by " + who);
    return new Tagged(who);
  }
  void do_get_methods_list(ix::Array& a) const { for (auto& r : rules) { a.push_back(r.name); yield("list"); } }
};

std::string rnd_name(int st)
{
  static const std::vector<std::string> base = {"run", "run2", "ru", "Run", "RUN", "a.run", "run.a", "run ", "a", "b", "sys", "system", "system.", "system.list", "system.listMethodsX", "x/y", "a<b", "a&b", "a&amp;b", "\"q\"", "caf\xc3\xa9", "\xd0\xba\xd0\xbb", "0", "-1", "null", "a b"};
  switch (choose(st, 5)) {
  case 0: return pick(st, base) + (choose(st, 2) ? "" : std::to_string(choose(st, 10))) + "z";
  case 1: return std::string(1 + choose(st, 5000), 'n') + std::to_string(choose(st, 3));
  case 2: return rnd_bytes(st, 1 + choose(st, 6), "ab.") + "e";
  default: { std::string s = pick(st, base); if (s.back() == ' ') s += "e"; return s; }
  }
}
}

WORLD(R26, dispatch, 1)
{
  swarm_sched(); swarm_net(); draw_tls(6);
  Book bk; book = &bk;
  int pool = range(S_CFG, 0, 3), ncl = range(S_CFG, 1, 4), ndisp = (int)choose(S_CFG, 4), nreg = (int)choose(S_CFG, 8), restarts = (int)choose(S_CFG, 2);
  int st = S_WORK; bool intro = choose(S_CFG, 2);
  if (choose(S_CFG, 25) == 1) { if (choose(S_CFG, 2)) nreg = range(S_CFG, 50, 400); else ndisp = range(S_CFG, 5, 40); }
  draw_together(pool); ServerNode sv(pool);
  struct Reg { std::string who; int mood; };
  std::map<std::string, Reg> regs; std::set<std::string> listed; std::vector<std::string> names; std::vector<std::vector<Rule>> rules;
  auto add_methods = [&](int count) { for (int i = 0; i < count; ++i) {
    std::string n = i > 20 ? "mass." + std::to_string(names.size()) : rnd_name(st); if (regs.count(n)) continue;   // registering a name twice is not judged
    Reg r; r.mood = FINE;
    switch (choose(st, 7)) {
    case 0: r.who = "class0"; ix::register_method<Classy<0> >(*sv.srv, n); break;
    case 1: r.who = "class1"; ix::register_method<Classy<1> >(*sv.srv, n); break;
    case 2: r.who = "function0"; ix::register_method(*sv.srv, n, &plain<0>); break;
    case 3: r.who = "function1"; ix::register_method(*sv.srv, n, &plain<1>); break;
    case 4: r.mood = (int)choose(st, 4);   // fall through
    default: r.who = "registered" + std::to_string(names.size()); sv.srv->register_method(n, new TaggedFactory(r.who, r.mood));
    }
    regs[n] = r; listed.insert(n); names.push_back(n);
  } };
  auto add_dispatchers = [&](int count) { for (int k = 0; k < count; ++k) {
    int i = (int)rules.size(); Disp* d = new Disp; d->who = "dispatcher" + std::to_string(i);
    int n = (int)choose(st, 4);
    for (int j = 0; j < n; ++j) {
      Rule r; r.name = names.empty() || choose(st, 3) ? rnd_name(st) : names[choose(st, (uint32_t)names.size())];
      if (choose(st, 4) == 1) { r.name.resize(1 + choose(st, (uint32_t)std::min<size_t>(r.name.size(), 3))); while ((r.name.back() & 0xc0) == 0x80 || (r.name.back() & 0xc0) == 0xc0 || r.name.back() == ' ') r.name.back() = 'k'; for (char& c : r.name) if (c & 0x80) c = 'k'; r.prefix = true; }
      if (choose(st, 5) == 1) r.mood = (int)choose(st, 4);
      if (r.prefix && std::string("system.listMethods").compare(0, r.name.size(), r.name) == 0 && !intro) continue;
      d->rules.push_back(r); listed.insert(r.name); names.push_back(r.name);
    }
    rules.push_back(d->rules); sv.srv->push_dispatcher(d);
  } };
  // dispatchers and introspection may be installed in any order
  add_methods(nreg);
  bool intro_first = choose(st, 2);
  if (intro && intro_first) sv.srv->enable_introspection();
  add_dispatchers(ndisp);
  if (intro && !intro_first) sv.srv->enable_introspection();
  if (intro) listed.insert("system.listMethods");
  // what a call of this name has to do: who runs it ("" nobody), with which mood
  auto expected = [&](const std::string& n, int& mood) -> std::string {
    auto i = regs.find(n); if (i != regs.end()) { mood = i->second.mood; return i->second.who; }
    for (size_t k = 0; k < rules.size(); ++k) if (const Rule* r = Disp::match(rules[k], n)) { mood = r->mood; return "dispatcher" + std::to_string(k); }
    mood = FINE; return "";
  };
  op("%d registered, %d dispatchers, introspection %d, pool %d", (int)regs.size(), ndisp, intro, pool);
  for (int round = 0; round <= restarts; ++round) {
    if (round) {                                        // more of them between two times of serving
      add_methods((int)choose(st, 4)); add_dispatchers((int)choose(st, 2));
      if (!intro && choose(st, 2)) { bool clash = false; for (auto& r : rules) if (Disp::match(r, "system.listMethods")) clash = true; if (!clash) { intro = true; sv.srv->enable_introspection(); listed.insert("system.listMethods"); } }
    }
    sv.start();
    std::vector<int> ids;
    for (int k = 0; k < ncl; ++k)
      ids.push_back(spawn("client" + std::to_string(k), [&, k, round] {
        int st = S_WORK + 1 + k; auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT)); c->set_keep_alive(choose(st, 2));
        int n = range(st, 1, 6);
        for (int i = 0; i < n; ++i) {
          std::string t = "k" + std::to_string(round) + "." + std::to_string(k) + "." + std::to_string(i), name;
          if (intro && choose(st, 5) == 1) {
            Out o = call(*c, "system.listMethods", Param_list());
            CHECK(o.ok() && o.value().is_array(), "list", "listing the methods ended with %s", o.str().c_str());
            std::set<std::string> got; for (size_t j = 0; j < o.value().size(); ++j) got.insert(o.value()[(int)j].get_string());
            for (auto& x : listed) CHECK(got.count(x), "list", "'%.60s' can be called but is not in the list of %zu methods", x.c_str(), got.size());
            for (auto& x : got) CHECK(listed.count(x), "list", "'%.60s' is in the list of methods but nobody provides it", x.c_str());
            nontrivial(); continue;
          }
          switch (names.empty() ? 0 : choose(st, 4)) {
          case 0: name = rnd_name(st); break;
          case 1: {                                      // nearly a known name
            name = names[choose(st, (uint32_t)names.size())];
            bool ascii = true; for (char ch : name) if (ch & 0x80) ascii = false;
            if (ascii) switch (choose(st, 4)) { case 0: name += "x"; break; case 1: if (name.size() > 1) name.resize(name.size() - 1); break; case 2: name = "x" + name; break; default: name[0] ^= isalpha(name[0]) ? 0x20 : 0; }
            if (name.back() == ' ') name += "e"; if (name[0] == ' ') name = "e" + name;
            break;
          }
          default: name = names[choose(st, (uint32_t)names.size())];
          }
          if (name.compare(0, 18, "system.listMethods") == 0 && name.size() == 18) continue;
          int mood; std::string who = expected(name, mood);
          Param_list p; p.push_back(Value(t)); p.push_back(Value((int)choose(st, 4) * 5));
          Out o = call(*c, name, p);
          std::vector<std::string> ran; { NoPreempt np; auto it = bk.ran.find(t); if (it != bk.ran.end()) ran = it->second; }
          op("call %s of '%.40s' (%zu) for %s mood %d -> %s", t.c_str(), name.c_str(), name.size(), who.empty() ? "nobody" : who.c_str(), mood, o.str().substr(0, 100).c_str());
          if (who.empty()) {
            CHECK(ran.empty(), "wrong-method", "nobody provides '%.60s' but %s ran for it", name.c_str(), ran[0].c_str());
            CHECK(o.kind == Out::FAULT && o.text.find(name) != std::string::npos, "unknown", "nobody provides '%.60s', its call ended with %s", name.c_str(), o.str().substr(0, 200).c_str());
            probe("unknown");
          } else if (mood != FINE) {
            CHECK(ran.empty(), "wrong-method", "%s refused to provide '%.60s' but %s ran for it", who.c_str(), name.c_str(), ran[0].c_str());
            CHECK(o.kind == Out::FAULT && (mood == THROWS_OTHER || o.text.find("refused by " + who) != std::string::npos), "refused", "%s raised an exception for '%.60s', the call ended with %s", who.c_str(), name.c_str(), o.str().substr(0, 200).c_str());
            probe("refused");
          } else {
            CHECK(o.ok(), "failed", "call of '%.60s' provided by %s ended with %s", name.c_str(), who.c_str(), o.str().substr(0, 200).c_str());
            CHECK(ran.size() == 1 && ran[0] == who, "wrong-method", "'%.60s' is provided by %s, run %zu times, by %s", name.c_str(), who.c_str(), ran.size(), ran.empty() ? "nobody" : ran[0].c_str());
            const Value& v = o.value();
            CHECK(v["who"].get_string() == who && v["token"].get_string() == t, "wrong-answer", "call %s of '%.60s' was answered for %s", t.c_str(), name.c_str(), v["token"].get_string().c_str());
            CHECK(v["name"].get_string() == name, "wrong-name", "the method was called as '%.60s' but sees the name '%.60s'", name.c_str(), v["name"].get_string().c_str());
            nontrivial();
          }
        }
      }, peer_ip(k)));
    CHECK(join(ids, 10000 * SEC), "hang", "calls never return: %s", unfinished(ids).c_str());
    sv.expect_alive("after all calls");
    CHECK(sv.stop(), "no-stop", "server does not stop");
  }
  sv.destroy();
  CHECK(bk.objects == 0, "objects-left", "%d method objects were never deleted", bk.objects);
}
