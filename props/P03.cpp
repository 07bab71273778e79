// P03: what the library writes is a document of the OpenScop format.
// The text is read by an independent parser (lib/scop.cpp) which fails on anything that does
// not follow the format; reading and writing again must give the same bytes.
#include "scop.h"
using namespace pbt;

static GScop options(Case& c) {
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.big = c.s.pct(8);
  g.loose = c.s.pct(15);
  return g;
}
static bool nontrivial(const MScops& m) {
  for (auto& s : m)
    for (auto& t : s.stmts)
      if (!t.ext.empty() && !t.acc.empty()) return true;
  return false;
}
static void scop(Case& c) {
  GScop g = options(c);
  MScops m = gen_scops(c.s, g);
  c.nontrivial = nontrivial(m);
  if (c.rendering) c.log << precname(g.e.prec) << "\n" << show(tree(m));
  for (auto& s : m)
    for (auto& e : s.ext) label("extension " + e.name);
  osl_scop_t* s = build(m);
  std::string text = print_to_string([&](FILE* f) { osl_scop_print(f, s); });
  if (c.rendering) c.log << "---- printed\n" << text;
  MScops back = parse_scops(text, g.e.prec);
  std::string d = tdiff(back, m);
  CHECK(d.empty(), "denotes", "the text does not denote the scop written: " << d);
  osl_scop_t* r = read_text(text, g.e.prec);
  std::string again = print_to_string([&](FILE* f) { osl_scop_print(f, r); });
  if (again != text) {
    size_t i = 0;
    while (i < text.size() && i < again.size() && text[i] == again[i]) i++;
    size_t b = i > 60 ? i - 60 : 0;
    fail("reprint", "reading and writing again gives \"" + again.substr(b, 120) + "\" instead of \"" + text.substr(b, 120) + "\"");
  }
  osl_scop_free(s);
  osl_scop_free(r);
}
static bool ext_without_text(const MStmt& t) {
  for (auto& e : t.ext)
    if (e.k == T::NIL || e.name == "textual") return true;
  return false;
}
static void pieces(Case& c) {
  GScop g = options(c);
  if (c.s.pct(40)) {
    GRel r;
    r.wide = c.s.flip();
    if (c.s.pct(5)) r.maxrows = 50, r.maxparams = c.s.pct(20) ? 500 : 60;
    MUnion u = gen_any_union(c.s, g.e.prec, r, 3);
    for (auto& p : u) {
      if (p.type == OSL_TYPE_ACCESS) p.type = OSL_TYPE_READ;
      p.type = u[0].type;
      tame(p);
    }
    c.nontrivial = !u[0].m.empty();
    if (c.rendering) c.log << show(u);
    osl_relation_t* x = build(u);
    std::string text = print_to_string([&](FILE* f) { osl_relation_print(f, x); });
    if (c.rendering) c.log << "---- printed\n" << text;
    SAME(parse_relation(text, g.e.prec), u, "denotes", "the text does not denote the relation written");
    char* p = osl_relation_sprint(x);
    CHECK(text == p, "sprint", "osl_relation_print and osl_relation_sprint differ");
    free(p);
    osl_relation_free(x);
  } else {
    std::vector<MStmt> v;
    int n = 1 + c.s.small(2), np = c.s.small(3);
    for (int i = 0; i < n; i++) v.push_back(gen_stmt(c.s, g, np));
    for (auto& s : v)
      if (ext_without_text(s)) discard();
    c.nontrivial = n > 1;
    if (c.rendering) c.log << show(tree(v));
    osl_statement_t* x = build(v);
    // prints the number of statements, then the statements
    std::string text = print_to_string([&](FILE* f) { osl_statement_print(f, x); });
    if (c.rendering) c.log << "---- printed\n" << text;
    std::string d = tdiff(parse_stmts(text, g.e.prec), v);
    CHECK(d.empty(), "denotes", "the text does not denote the statements written: " << d);
    osl_statement_free(x);
  }
}
// Extensions without a text (textual, absent contents) and what else cannot be written must not
// disturb the text of the rest: counts stay right.
static void unprintable(Case& c) {
  GScop g = options(c);
  g.e.big = false;
  MScops m = gen_scops(c.s, g);
  auto spoil = [&](std::vector<T>& v) {
    std::vector<T> want = v;
    for (int n = c.s.small(3); n > 0; n--) {
      size_t at = c.s.below((uint32_t)v.size() + 1);
      T t;
      if (c.s.flip()) {
        bool has = false;
        for (auto& e : v) has = has || e.name == "textual";
        if (has) continue;
        t = T::list("textual");
        t.c.push_back(T::str("text", "some <OpenScop>\ntext\n"));
      } else {
        bool has = false;
        static const char* nm[] = {"scatinfos", "coordinates", "arrays", "scatnames"};
        const char* n2 = nm[c.s.below(4)];
        for (auto& e : v) has = has || e.name == n2;
        if (has) continue;
        t = T::nil(n2);
      }
      v.insert(v.begin() + at, t);
      c.nontrivial = true;
    }
    return want;
  };
  MScops want = m;
  for (size_t i = 0; i < m.size(); i++) {
    want[i].ext = spoil(m[i].ext);
    for (size_t j = 0; j < m[i].stmts.size(); j++) {
      want[i].stmts[j].ext = spoil(m[i].stmts[j].ext);
      // elements of the list of accesses without a relation
      std::vector<MUnion>& a = m[i].stmts[j].acc;
      if (c.s.pct(30))
        for (int n = 1 + c.s.small(2); n > 0; n--) {
          a.insert(a.begin() + c.s.below((uint32_t)a.size() + 1), MUnion{});
          c.nontrivial = true;
        }
    }
  }
  if (c.rendering) c.log << show(tree(m));
  osl_scop_t* s = build(m);
  std::string text = print_to_string([&](FILE* f) { osl_scop_print(f, s); });
  if (c.rendering) c.log << "---- printed\n" << text;
  std::string d = tdiff(parse_scops(text, g.e.prec), want);
  CHECK(d.empty(), "denotes", "the text does not denote the scop written: " << d);
  osl_scop_free(s);
}
// The text of each content, also of those that no document of the default registry can hold.
static void contents(Case& c) {
  GExt g;
  g.prec = ALLPREC[c.s.below(3)];
  g.big = c.s.pct(10);
  std::vector<std::string> us = EXT_READABLE;
  us.push_back("irregular");
  us.push_back("irregular");
  std::string u = c.s.pick(us);
  label(u);
  T t = gen_ext(c.s, u, g);
  c.nontrivial = t.c.size() > 0;
  if (c.rendering) c.log << precname(g.prec) << "\n" << show(t);
  osl_interface_t* it = ext_interface(u);
  void* d = build_data(t);
  char* text = it->sprint(d);
  CHECK(text, "sprint", "no text for " << u);
  if (c.rendering) c.log << "---- printed\n" << text;
  std::string df = diff(ext_parse(u, text, g.prec), t);
  CHECK(df.empty(), "denotes", "the text of the " << u << " does not denote it: " << df);
  free(text);
  it->free(d);
  osl_interface_free(it);
}
Property pbt::property = {
    "P03",
    "a scop with an access and an extension (or several statements, or a relation with rows, or contents without text) is written and parsed",
    {{"scop", scop, 60000, 1500000, true},
     {"pieces", pieces, 40000, 1000000, true},
     {"unprintable", unprintable, 20000, 500000, true},
     {"contents", contents, 30000, 800000, true}},
};
