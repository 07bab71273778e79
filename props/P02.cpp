// P02: every document of the OpenScop format is read as the format says.
// The documents are written by an independent writer (lib/scop.cpp, emit) that varies the
// layout: blanks, blank lines, comment lines, trailing comments, padded fields, union counts,
// order of the relations, unknown tags.
#include <algorithm>

#include "scop.h"
using namespace pbt;

static GScop options(Case& c) {
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.big = c.s.pct(6);
  g.loose = c.s.pct(15);
  return g;
}
static Layout layout(Case& c) {
  Layout l;
  l.s = &c.s;
  static const int noise[] = {0, 30, 60, 100};
  l.noise = noise[c.s.below(4)];
  label("noise " + std::to_string(l.noise));
  return l;
}
static void document(Case& c) {
  GScop g = options(c);
  MScops m = gen_scops(c.s, g);
  Layout l = layout(c);
  bool unknown = c.s.flip();
  std::string text = emit(m, l, unknown);
  c.nontrivial = l.noise > 0 && !m[0].stmts.empty();
  if (c.rendering) c.log << precname(g.e.prec) << "\n" << show(tree(m)) << "---- text\n" << text;
  osl_scop_t* s;
  if (c.s.flip()) {
    s = read_text(text, g.e.prec);
  } else {  // the other way to read: precision of the environment, default registry
    set_env(g.e.prec);
    FILE* f = file_of(text);
    s = osl_scop_read(f);
    fclose(f);
  }
  std::string d = tdiff(snap(s), m);
  CHECK(d.empty(), "read", "the scop read is not the one of the text: " << d);
  osl_scop_free(s);
}
// The registry given is the one used: an extension that it does not hold is unknown, and an
// extension it holds is read by its interface, whatever the order of the interfaces.
static void registries(Case& c) {
  GScop g = options(c);
  g.maxscops = 3;
  MScops m = gen_scops(c.s, g);
  std::vector<std::string> reg, left = DEFAULT_REGISTRY;
  while (!left.empty()) {
    size_t k = c.s.below((uint32_t)left.size());
    if (!c.s.pct(25) || left[k] == "strings") reg.push_back(left[k]);  // the parameters are strings
    left.erase(left.begin() + k);
  }
  Layout l = layout(c);
  std::string text = emit(m, l, true);
  if (c.rendering) c.log << precname(g.e.prec) << "\n" << show(tree(m)) << "---- text\n" << text;
  MScops want = m;
  auto known = [&](const std::string& u) { return std::find(reg.begin(), reg.end(), u) != reg.end(); };
  auto filter = [&](std::vector<T>& v) {
    size_t n = v.size();
    v.erase(std::remove_if(v.begin(), v.end(), [&](const T& t) { return !known(t.name); }), v.end());
    if (v.size() != n) c.nontrivial = true;
  };
  for (auto& s : want) {
    s.registry = reg;
    filter(s.ext);
    for (auto& t : s.stmts) filter(t.ext);
  }
  set_env(g.e.prec);
  FILE* f = file_of(text);
  osl_interface_t* r = build_registry(reg);
  osl_scop_t* s = osl_scop_pread(f, r, g.e.prec);
  fclose(f);
  osl_interface_free(r);
  std::string d = tdiff(snap(s), want);
  CHECK(d.empty(), "read", "the scop read is not the one of the text: " << d);
  osl_scop_free(s);
}
// Statements and relations of a file, read one after the other.
static void pieces(Case& c) {
  GScop g = options(c);
  int prec = g.e.prec;
  set_env(prec);
  Layout l = layout(c);
  if (c.s.flip()) {
    std::vector<MUnion> v;
    int n = 1 + c.s.small(4);
    std::string text;
    for (int i = 0; i < n; i++) {
      GRel r;
      r.wide = c.s.flip();
      r.maxrows = c.s.pct(5) ? 60 : 5;
      if (c.s.pct(5)) r.maxparams = 80;
      MUnion u = gen_any_union(c.s, prec, r, 3);
      for (auto& p : u) {
        if (p.type == OSL_TYPE_ACCESS) p.type = OSL_TYPE_READ;
        p.type = u[0].type;
      tame(p);
      }
      v.push_back(u);
      emit_relation(u, l);
    }
    l.gap();
    c.nontrivial = n > 1;
    if (c.rendering) {
      for (auto& u : v) c.log << show(u) << "\n";
      c.log << "---- text\n" << l.o;
    }
    if (c.s.flip()) {
      FILE* f = file_of(l.o);
      for (auto& u : v) {
        osl_relation_t* r = c.s.flip() ? osl_relation_pread(f, prec) : osl_relation_read(f);
        SAME(snap(r), u, "read", "the relation read is not the one of the text");
        osl_relation_free(r);
      }
      fclose(f);
    } else {
      char* p = &l.o[0];
      for (auto& u : v) {
        osl_relation_t* r = c.s.flip() ? osl_relation_psread(&p, prec) : osl_relation_sread(&p);
        SAME(snap(r), u, "read", "the relation read is not the one of the text");
        osl_relation_free(r);
      }
    }
  } else {
    MScop m = gen_scop(c.s, g);
    std::vector<MStmt> v = m.stmts;
    Layout one = l;
    for (auto& s : v) {
      std::vector<const MUnion*> rel;
      if (!s.dom.empty()) rel.push_back(&s.dom);
      if (!s.scat.empty()) rel.push_back(&s.scat);
      for (auto& a : s.acc) rel.push_back(&a);
      one.line(std::to_string(rel.size()));
      for (auto* u : rel) emit_relation(*u, one);
      one.line("0");
      s.ext.clear();
    }
    c.nontrivial = v.size() > 1;
    if (c.rendering) c.log << show(tree(v)) << "---- text\n" << one.o;
    FILE* f = file_of(one.o);
    for (auto& s : v) {
      osl_statement_t* r = osl_statement_read(f);
      std::string d = tdiff(snap(r), std::vector<MStmt>{s});
      CHECK(d.empty(), "read", "the statement read is not the one of the text: " << d);
      osl_statement_free(r);
    }
    fclose(f);
  }
}
Property pbt::property = {
    "P02",
    "a text laid out with comments, blanks or unknown tags holding at least one statement, or at least two items, is read",
    {{"document", document, 60000, 1500000, true},
     {"registries", registries, 20000, 500000, true},
     {"pieces", pieces, 40000, 1000000, true}},
};
