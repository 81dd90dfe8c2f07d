// Documents that try to make their reader open files or expand entities.
#include "lab.h"
#include <cstring>
#include <libxml/xmlIO.h>
using namespace lab;

// ---- R27 ------------------------------------------------------------------------
// Every resource the XML library would open goes through these callbacks instead of the file system or the network.
namespace {
struct Doc { std::string text; size_t at; };
std::string opened;
int any_name(const char*) { return 1; }
void* open_it(const char* n) { opened += std::string(opened.empty() ? "" : ", ") + n; return new Doc{strstr(n, "dtd") ? "<!ENTITY e \"FILEMARK\">" : "FILEMARK", 0}; }
int read_it(void* c, char* b, int n) { Doc* d = (Doc*)c; int k = (int)std::min<size_t>((size_t)n, d->text.size() - d->at); memcpy(b, d->text.data() + d->at, (size_t)k); d->at += (size_t)k; return k; }
int close_it(void* c) { delete (Doc*)c; return 0; }

struct Hostile { std::string doctype, ref; };
// A document type declaration and what refers to it; the replacement texts are found nowhere else in the document.
Hostile hostile(int st, const std::string& root, const std::string& inner)
{
  static const char* uri[] = {"file:///sim/secret", "/sim/secret", "secret", "http://10.0.0.77/secret", "ftp://10.0.0.77/secret", "file:///sim/secret.dtd", "../../sim/secret.dtd"};
  auto u = [&] { return std::string(uri[choose(st, 7)]); };
  auto sys = [&] { return choose(st, 4) == 1 ? "PUBLIC \"-//sim//x\" \"" + u() + "\"" : "SYSTEM \"" + u() + "\""; };
  Hostile h; h.ref = "&e;";
  std::string d = "<!DOCTYPE " + root;
  switch (choose(st, 7)) {
  case 0: d += " [<!ENTITY e \"" + inner + "\">]>"; break;
  case 1: d += " [<!ENTITY e " + sys() + ">]>"; break;
  case 2: d += " " + sys() + ">"; break;
  case 3: d += " " + sys() + " [<!ENTITY e \"" + inner + "\">]>"; break;
  case 4: d += " [<!ENTITY % p " + sys() + "> %p;]>"; break;
  case 5: d += " [<!ENTITY % p \"<!ENTITY e '" + inner + "'>\"> %p;]>"; break;
  default: {                                                 // entities within entities
    int n = range(st, 1, 8), fan = range(st, 2, 10); d += " [<!ENTITY e0 \"" + inner + "\">";
    for (int i = 1; i <= n; ++i) { d += "<!ENTITY e" + std::to_string(i) + " \""; for (int k = 0; k < fan; ++k) d += "&e" + std::to_string(i - 1) + ";"; d += "\">"; }
    d += "]>"; h.ref = "&e" + std::to_string(n) + ";"; }
  }
  h.doctype = d; return h;
}
struct Spot { const char *kind, *inner, *sight; };           // replacement text for the place, and how it would show up in a value
const Spot spots[] = {{"string", "INMARK", "INMARK"}, {"", "INMARK", "INMARK"}, {"int", "77007700", "77007700"}, {"i8", "7700770077007700", "7700770077007700"}, {"double", "77007.5", "77007.5"},
                      {"base64", "SU5NQVJL", "INMARK"}, {"name", "INMARK", "INMARK"}, {"attribute", "INMARK", "INMARK"}, {"element", "<value>INMARK</value>", "INMARK"}, {"xinclude", "INMARK", "INMARK"}};
std::string spot_value(int st, const Spot& s, const std::string& ref)
{
  std::string k = s.kind, a = choose(st, 2) ? "a" : "", b = choose(st, 2) ? "b" : "";
  if (k == "string") return "<value><string>" + a + ref + b + "</string></value>";
  if (k == "") return "<value>" + a + ref + b + "</value>";
  if (k == "name") return "<value><struct><member><name>" + ref + "</name><value>v</value></member></struct></value>";
  if (k == "attribute") return "<value x=\"" + ref + "\"><string>v</string></value>";
  if (k == "element") return "<value><array><data>" + ref + "<value>v</value></data></array></value>";
  if (k == "xinclude") return "<value><string><xi:include xmlns:xi=\"http://www.w3.org/2001/XInclude\" href=\"file:///sim/secret\" parse=\"text\"/></string></value>";
  return "<value><" + k + ">" + ref + "</" + k + "></value>";
}
void judge_text(const std::string& t, const Spot& s, const char* who)
{
  CHECK(t.find(s.sight) == std::string::npos, "expanded", "%s got the replacement text of an entity: %s", who, t.substr(0, 200).c_str());
  CHECK(t.find("FILEMARK") == std::string::npos, "file-shown", "%s got the content of a file the document names: %s", who, t.substr(0, 200).c_str());
}
}
WORLD(R27, entities, 1)
{
  xmlRegisterDefaultInputCallbacks(); xmlRegisterInputCallbacks(any_name, open_it, read_it, close_it);
  swarm_sched(); swarm_net(); draw_tls(6);
  const uint32_t FAR = 0x0a000201;
  int nraw = range(S_CFG, 1, 3), ncl = range(S_CFG, 0, 2), ngood = range(S_CFG, 0, 1);
  { ServerNode sv((int)choose(S_CFG, 3)); std::string seen;
    sv.add("m", [&](ix::Method*, const Param_list& p, Value& r) { std::string t; for (size_t i = 0; i < p.size(); ++i) t += vstr(p[i], 1000000) + " "; { NoPreempt np; seen += t; } yield("method"); r = Value(t); });
    sv.add("INMARK", [&](ix::Method*, const Param_list&, Value& r) { NoPreempt np; seen += "INMARK"; r = Value("INMARK"); });
    if (choose(S_CFG, 3) == 1) sv.srv->enable_introspection();
    sv.start();
    std::vector<int> ids; bool over = false;
    for (int k = 0; k < nraw; ++k)
      ids.push_back(spawn("raw" + std::to_string(k), [&, k] {
        int st = S_WORK + 10 + k, n = range(st, 1, 5); Raw r;
        for (int i = 0; i < n; ++i) {
          if (r.fd < 0 && !r.connect(SRV, PORT)) return;
          const Spot& s = spots[choose(st, 10)]; bool in_name = choose(st, 8) == 1; Hostile h = hostile(st, "methodCall", in_name ? "INMARK" : s.inner);
          std::string body = xml_decl(st) + h.doctype + "<methodCall><methodName>" + (in_name ? h.ref : std::string("m")) + "</methodName><params><param>" + (in_name ? "<value>x</value>" : spot_value(st, s, h.ref)) + "</param></params></methodCall>";
          std::vector<size_t> cuts; for (int c = (int)choose(st, 4); c > 0; --c) cuts.push_back(choose(st, (uint32_t)body.size() + 100)); std::sort(cuts.begin(), cuts.end());
          op("peer %d sends %s at %s", k, h.doctype.substr(0, 80).c_str(), in_name ? "method name" : s.kind);
          r.send_cut(http_request(body, "", true), cuts, 20 * MS, st);
          HttpMsg m = r.read_http(1000 * SEC);
          CHECK(m.ok, "no-answer", "a document with a type declaration got no answer");
          CHECK(opened.empty(), "reads-outside", "a document made the server open %s", opened.c_str());
          if (m.body.find("<fault>") == std::string::npos) judge_text(m.body, in_name ? spots[0] : s, "a peer");
          judge_text(seen, in_name ? spots[0] : s, "a method");
          nontrivial();
          if (m.h["connection"] != "keep-alive" || choose(st, 3) == 1) { r.close(); r = Raw(); }
        }
      }, peer_ip(40 + k), true));
    for (int k = 0; k < ngood; ++k)
      ids.push_back(spawn("good" + std::to_string(k), [&, k] {
        auto c = make_client(iqnet::Inet_addr("10.0.0.1", PORT));
        for (int i = 0; i < 3; ++i) { Param_list p; p.push_back(Value("good" + std::to_string(i))); Out o = call(*c, "m", p); CHECK(o.ok() && o.value().get_string().find("good" + std::to_string(i)) != std::string::npos, "disturbed", "a call made meanwhile ended with %s", o.str().c_str()); }
      }, peer_ip(k)));
    struct Plan { const Spot* s; std::string body; }; std::map<int, Plan> plan;
    int far = spawn("far", [&] {
      Listener l; if (!l.open(FAR, PORT)) harness_error("listener");
      while (!over) {
        int fd = l.accept(SEC); if (fd < 0) continue;
        spawn("conn", [&, fd] {
          Raw r; if (!r.accepted(fd)) return;
          for (;;) {
            HttpMsg m = r.read_http(1000 * SEC); if (!m.ok) return;
            size_t a = m.body.find("k="); if (a == std::string::npos) return;
            int k = atoi(m.body.c_str() + a + 2), st = S_WORK + 30 + k; std::string b = http_response(plan[k].body, "connection: keep-alive\r\n");
            std::vector<size_t> cuts; for (int c = (int)choose(st, 4); c > 0; --c) cuts.push_back(choose(st, (uint32_t)b.size())); std::sort(cuts.begin(), cuts.end());
            if (!r.send_cut(b, cuts, 20 * MS, st)) return;
          }
        }, FAR, true);
      }
    }, FAR, true);
    wait_until([&] { return has_listener(FAR, PORT); }, 10 * SEC, "listener");
    for (int k = 0; k < ncl; ++k)
      ids.push_back(spawn("client" + std::to_string(k), [&, k] {
        int st = S_WORK + 1 + k, n = range(st, 1, 4); auto c = make_client(iqnet::Inet_addr("10.0.2.1", PORT)); c->set_keep_alive(choose(st, 2));
        for (int i = 0; i < n; ++i) {
          const Spot& s = spots[choose(st, 10)]; Hostile h = hostile(st, "methodResponse", s.inner); int form = (int)choose(st, 4); std::string v = spot_value(st, s, h.ref);
          if (form == 1) v = "<value><struct><member><name>faultCode</name><value><int>5</int></value></member><member><name>faultString</name>" + v + "</member></struct></value>";
          { NoPreempt np; plan[k].body = xml_decl(st) + h.doctype + (form == 1 ? "<methodResponse><fault>" + v + "</fault></methodResponse>" : "<methodResponse><params><param>" + v + "</param></params></methodResponse>"); }
          op("answer to client %d: %s at %s", k, h.doctype.substr(0, 80).c_str(), s.kind);
          Param_list p; p.push_back(Value("k=" + std::to_string(k))); Out o = call(*c, "m", p);
          CHECK(opened.empty(), "reads-outside", "a document made the client open %s", opened.c_str());
          if (o.ok()) judge_text(vstr(o.value(), 1000000), s, "a caller");
          if (o.kind == Out::FAULT) judge_text(o.text, s, "a caller");
          nontrivial();
        }
      }, peer_ip(k)));
    CHECK(join(ids, 100000 * SEC), "hang", "%s", unfinished(ids).c_str());
    over = true; CHECK(join({far}, 1000 * SEC), "hang", "scripted server");
    sv.expect_alive("documents with type declarations");
    CHECK(opened.empty(), "reads-outside", "a document made the library open %s", opened.c_str());
    CHECK(sv.stop(), "no-stop", "server does not stop");
    sv.destroy(); }
}
