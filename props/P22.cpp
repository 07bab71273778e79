// P22: looking at an object never changes it.
// Each kind of object has a set of looks (calls that only read); they are made in a random
// order, several times. After each one the object is compared with its model, and the result
// with that of the same look made before.
#include <algorithm>
#include <functional>
#include <map>

#include "scop.h"
using namespace pbt;
typedef std::string S;
typedef std::vector<S> V;
typedef std::function<void(FILE*)> Out;

struct Looks {
  std::vector<std::pair<S, std::function<S()>>> v;
  void add(const S& n, std::function<S()> f) { v.push_back({n, f}); }
  void out(const S& n, Out f) {
    add(n, [f] { return print_to_string(f); });
  }
};
static S num(long x) { return std::to_string(x); }
static S take(char* p) {
  S r = p ? p : "(nothing)";
  free(p);
  return r;
}
template <class F>
static void look(Case& c, Looks& l, F check) {
  std::map<S, S> seen;
  int n = 1 + c.s.below(l.v.size() * 2);
  int repeats = 0;
  for (int i = 0; i < n; i++) {
    auto& x = l.v[c.s.below(l.v.size())];
    if (c.rendering) c.log << "look: " << x.first << "\n";
    S r = x.second();
    check(x.first);
    auto it = seen.find(x.first);
    if (it == seen.end())
      seen[x.first] = r;
    else {
      repeats++;
      CHECK(it->second == r, "repeat", x.first << " gives first\n" << it->second << "\nand then\n" << r);
    }
  }
  c.nontrivial = repeats > 0 && n > 3;
}
// The addresses of everything reachable: a look must not replace parts either.
typedef std::vector<const void*> P;
static void at(P& p, const osl_relation_t* r) {
  for (; r; r = r->next) {
    p.push_back(r);
    p.push_back(r->usr);
    p.push_back(r->m);
    for (int i = 0; i < r->nb_rows; i++) p.push_back(r->m[i]);
  }
  p.push_back(nullptr);
}
static void at(P& p, const osl_relation_list_t* l) {
  for (; l; l = l->next) {
    p.push_back(l);
    at(p, l->elt);
  }
  p.push_back(nullptr);
}
static void at(P& p, const osl_interface_t* i) {
  for (; i; i = i->next) {
    p.push_back(i);
    p.push_back(i->URI);
  }
  p.push_back(nullptr);
}
static void at(P& p, const osl_generic_t* g) {
  for (; g; g = g->next) {
    p.push_back(g);
    p.push_back(g->data);
    at(p, g->interface);
  }
  p.push_back(nullptr);
}
static void at(P& p, const osl_statement_t* s) {
  for (; s; s = s->next) {
    p.push_back(s);
    p.push_back(s->usr);
    at(p, s->domain);
    at(p, s->scattering);
    at(p, s->access);
    at(p, s->extension);
  }
  p.push_back(nullptr);
}
static void at(P& p, const osl_scop_t* s) {
  for (; s; s = s->next) {
    p.push_back(s);
    p.push_back(s->usr);
    p.push_back(s->language);
    at(p, s->context);
    at(p, s->parameters);
    at(p, s->statement);
    at(p, s->registry);
    at(p, s->extension);
  }
  p.push_back(nullptr);
}
template <class X>
static P places(const X* x) {
  P p;
  at(p, x);
  return p;
}
static osl_names_t* gen_names(Src& s) {
  int n = 45;
  return osl_names_generate(s.flip() ? "N" : "param", n, s.flip() ? "t" : "iter", n, "sc", n, "loc", n, "tab", 250);
}
static GScop options(Case& c) {
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.readable = c.s.pct(40);
  g.e.nil = !g.e.readable;
  g.e.wide = c.s.pct(30);
  g.absent = c.s.pct(30);
  g.loose = c.s.pct(25);
  g.undef = c.s.pct(25);
  set_env(g.e.prec);
  return g;
}
static S att(const std::function<void(int*, int*, int*, int*, int*)>& f) {
  int a = -1, b = -1, d = -1, e = -1, g = -1;
  f(&a, &b, &d, &e, &g);
  return num(a) + " " + num(b) + " " + num(d) + " " + num(e) + " " + num(g);
}
// Now and then some counts of dimensions are undefined.
static void undefine(Src& s, MUnion& u) {
  if (!s.pct(8)) return;
  for (auto& r : u) {
    int k = s.below(16);
    if (k & 1) r.out = OSL_UNDEFINED;
    if (k & 2) r.in = OSL_UNDEFINED;
    if (k & 4) r.local = OSL_UNDEFINED;
    if (k & 8) r.params = OSL_UNDEFINED;
  }
}
static void relation(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  GRel g;
  g.wide = s.pct(30);
  MUnion u = gen_any_union(s, prec, g, 3);
  if (s.pct(50)) {
    int t = std::vector<int>{OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE, OSL_TYPE_ACCESS}[s.below(4)];
    int id = 1 + s.small(5), dims = s.small(3), in = s.small(3), loc = s.small(2), par = s.small(3);
    u = {gen_access(s, prec, t, id, dims, in, loc, par, g.wide)};
    if (s.flip()) u.push_back(gen_access(s, prec, t, id, dims, in, loc, par, g.wide));
  }
  MUnion w = gen_any_union(s, prec, g, 2);
  undefine(s, u);
  if (c.rendering) c.log << show(u);
  osl_relation_t *x = build(u), *y = build(w), *copy = build(u);
  int usr = 0;
  for (osl_relation_t* r = x; r; r = r->next) r->usr = &usr;
  osl_names_t* nm = gen_names(s);
  V col;
  for (int i = 0; i < 60; i++) col.push_back("v" + num(i));
  std::vector<char*> cp;
  for (auto& q : col) cp.push_back(&q[0]);
  cp.push_back(nullptr);
  int row = u[0].rows ? (int)s.below(u[0].rows) : -1;
  int k = s.range(0, (int)u.size()), rows = 1 << 20;
  for (auto& r : u) rows = std::min(rows, r.rows);
  rows = (int)s.below(rows + 1);
  int level = s.small(3);
  P px = places(x), py = places(y);
  Looks l;
  l.out("dump", [&](FILE* f) { osl_relation_dump(f, x); });
  l.out("idump", [&](FILE* f) { osl_relation_idump(f, x, level); });
  if (shaped(u)) {
    l.out("print", [&](FILE* f) { osl_relation_print(f, x); });
    l.out("pprint", [&](FILE* f) { osl_relation_pprint(f, x, nm); });
    l.add("sprint", [&] { return take(osl_relation_sprint(x)); });
    l.add("spprint", [&] { return take(osl_relation_spprint(x, nm)); });
    l.add("spprint_polylib", [&] { return take(osl_relation_spprint_polylib(x, nm)); });
    if (row >= 0) l.add("expression", [&] { return take(osl_relation_expression(x, row, cp.data())); });
  }
  l.add("equal", [&] { return num(osl_relation_equal(x, y)) + num(osl_relation_equal(y, x)); });
  l.add("equal copy", [&] {
    bool e = osl_relation_equal(x, copy), d = osl_relation_equal(copy, x);
    CHECK(e && d, "equal", "a relation and its copy differ");
    return num(e);
  });
  l.add("part_equal", [&] { return num(osl_relation_part_equal(x, y)) + num(osl_relation_part_equal(y, x)); });
  l.add("integrity", [&] {
    return num(osl_relation_integrity_check(x, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED)) +
           num(osl_relation_integrity_check(x, u[0].type, u[0].out, u[0].in, u[0].params));
  });
  l.add("components", [&] { return num(osl_relation_nb_components(x)); });
  l.add("array id", [&] { return num(osl_relation_get_array_id(x)); });
  l.add("is access", [&] { return num(osl_relation_is_access(x)); });
  l.add("attributes",
        [&] { return att([&](int* a, int* b, int* d, int* e, int* h) { osl_relation_get_attributes(x, a, b, d, e, h); }); });
  auto copied = [](osl_relation_t* r) {
    S t = show(snap(r));
    osl_relation_free(r);
    return t;
  };
  l.add("clone", [&] { return copied(osl_relation_clone(x)); });
  l.add("nclone", [&] { return copied(osl_relation_nclone(x, k)); });
  l.add("clone_nconstraints", [&] { return copied(osl_relation_clone_nconstraints(x, rows)); });
  l.add("union", [&] { return copied(osl_relation_union(x, y)); });
  l.add("union with itself", [&] { return copied(osl_relation_union(x, x)); });
  if (u[0].cols == w[0].cols) l.add("concat_constraints", [&] { return copied(osl_relation_concat_constraints(x, y)); });
  int out = 0;
  for (auto& r : u) out = std::max(out, r.out);
  if (shaped(u)) l.add("extend_output", [&] { return copied(osl_relation_extend_output(x, out + level)); });
  l.add("node", [&] {
    osl_relation_list_t* n = osl_relation_list_node(x);
    S t;
    for (auto& q : snap_list(n)) t += show(q);
    osl_relation_list_free(n);
    return t;
  });
  look(c, l, [&](const S& what) {
    SAME(snap(x), u, "changed", what);
    SAME(snap(y), w, "changed", what + ", second argument");
    CHECK(places(x) == px && places(y) == py, "moved", what << " replaced a part of the relation");
  });
  osl_names_free(nm);
  osl_relation_free(x);
  osl_relation_free(y);
  osl_relation_free(copy);
}
static T ltree(const std::vector<MUnion>& v) {
  T t = T::list("list");
  for (auto& u : v) t.c.push_back(T::rel("", u));
  return t;
}
static void list(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  std::vector<MUnion> m[2];
  for (auto& v : m)
    for (int i = s.small(4); i > 0; i--) {
      if (s.pct(8)) {
        v.push_back({});
        continue;
      }
      GRel g;
      MUnion u = gen_any_union(s, prec, g, 2);
      int t = s.range(OSL_TYPE_CONTEXT, OSL_TYPE_MAY_WRITE);
      for (auto& r : u) {
        r.type = t;
        tame(r);
      }
      undefine(s, u);
      v.push_back(u);
    }
  bool shape = true;
  for (auto& u : m[0]) shape = shape && shaped(u);
  osl_relation_list_t *x = build_list(m[0]), *y = build_list(m[1]), *copy = build_list(m[0]);
  osl_names_t* nm = gen_names(s);
  int level = s.small(3), type = s.range(OSL_UNDEFINED, OSL_TYPE_MAY_WRITE);
  P px = places(x), py = places(y);
  Looks l;
  l.out("dump", [&](FILE* f) { osl_relation_list_dump(f, x); });
  l.out("idump", [&](FILE* f) { osl_relation_list_idump(f, x, level); });
  if (shape) l.out("print", [&](FILE* f) { osl_relation_list_print(f, x); });
  if (shape) l.out("pprint", [&](FILE* f) { osl_relation_list_pprint(f, x, nm); });
  if (shape) l.out("pprint_elts", [&](FILE* f) { osl_relation_list_pprint_elts(f, x, nm); });
  auto copied = [](osl_relation_list_t* r) {
    S t = show(ltree(snap_list(r)));
    osl_relation_list_free(r);
    return t;
  };
  l.add("clone", [&] { return copied(osl_relation_list_clone(x)); });
  l.add("concat", [&] { return copied(osl_relation_list_concat(x, y)); });
  l.add("concat with itself", [&] { return copied(osl_relation_list_concat(x, x)); });
  l.add("filter", [&] { return copied(osl_relation_list_filter(x, type)); });
  l.add("equal", [&] { return num(osl_relation_list_equal(x, y)) + num(osl_relation_list_equal(y, x)); });
  l.add("equal copy", [&] {
    bool e = osl_relation_list_equal(x, copy) && osl_relation_list_equal(copy, x);
    CHECK(e, "equal", "a list and its copy differ");
    return num(e);
  });
  l.add("integrity", [&] {
    return num(osl_relation_list_integrity_check(x, OSL_TYPE_ACCESS, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED));
  });
  l.add("count", [&] { return num((long)osl_relation_list_count(x)); });
  l.add("attributes", [&] {
    return att([&](int* a, int* b, int* d, int* e, int* h) { osl_relation_list_get_attributes(x, a, b, d, e, h); });
  });
  look(c, l, [&](const S& what) {
    S d = diff(ltree(snap_list(x)), ltree(m[0]));
    CHECK(d.empty(), "changed", what << ": " << d);
    d = diff(ltree(snap_list(y)), ltree(m[1]));
    CHECK(d.empty(), "changed", what << ", second argument: " << d);
    CHECK(places(x) == px && places(y) == py, "moved", what << " replaced a part of the list");
  });
  osl_names_free(nm);
  osl_relation_list_free(x);
  osl_relation_list_free(y);
  osl_relation_list_free(copy);
}
static void statement(Case& c) {
  Src& s = c.s;
  GScop g = options(c);
  std::vector<MStmt> m[2];
  int np = s.small(3);
  for (auto& v : m)
    for (int i = s.small(3); i > 0; i--) v.push_back(gen_stmt(s, g, np));
  if (m[0].empty()) m[0].push_back(gen_stmt(s, g, np));
  osl_statement_t *x = build(m[0]), *y = build(m[1]), *copy = build(m[0]);
  bool shape = true;
  for (auto& q : m[0]) shape = shape && shaped(q);
  int usr = 0;
  for (osl_statement_t* q = x; q; q = q->next) q->usr = &usr;
  osl_names_t* nm = gen_names(s);
  int level = s.small(3), k = s.range(0, (int)m[0].size());
  P px = places(x), py = places(y);
  Looks l;
  l.out("dump", [&](FILE* f) { osl_statement_dump(f, x); });
  l.out("idump", [&](FILE* f) { osl_statement_idump(f, x, level); });
  if (shape) l.out("print", [&](FILE* f) { osl_statement_print(f, x); });
  if (shape) l.out("pprint", [&](FILE* f) { osl_statement_pprint(f, x, nm); });
  auto copied = [](osl_statement_t* r) {
    S t = show(tree(snap(r)));
    osl_statement_free(r);
    return t;
  };
  l.add("clone", [&] { return copied(osl_statement_clone(x)); });
  l.add("nclone", [&] { return copied(osl_statement_nclone(x, k)); });
  bool single = m[0].size() < 4;
  for (auto& q : m[0]) single = single && !q.dom.empty() && !q.scat.empty();
  if (single) l.add("remove_unions", [&] { return copied(osl_statement_remove_unions(x)); });
  l.add("equal", [&] { return num(osl_statement_equal(x, y)) + num(osl_statement_equal(y, x)); });
  l.add("equal copy", [&] { return num(osl_statement_equal(x, copy)) + num(osl_statement_equal(copy, x)); });
  l.add("integrity", [&] { return num(osl_statement_integrity_check(x, np)); });
  l.add("number", [&] { return num(osl_statement_number(x)); });
  l.add("iterators", [&] { return num(osl_statement_get_nb_iterators(x)); });
  l.add("body", [&] { return num((long)osl_statement_get_body(x)); });
  l.add("attributes", [&] {
    return att([&](int* a, int* b, int* d, int* e, int* h) { osl_statement_get_attributes(x, a, b, d, e, h); });
  });
  look(c, l, [&](const S& what) {
    S d = tdiff(snap(x), m[0]);
    CHECK(d.empty(), "changed", what << ": " << d);
    d = tdiff(snap(y), m[1]);
    CHECK(d.empty(), "changed", what << ", second argument: " << d);
    CHECK(places(x) == px && places(y) == py, "moved", what << " replaced a part of the statements");
  });
  osl_names_free(nm);
  osl_statement_free(x);
  osl_statement_free(y);
  osl_statement_free(copy);
}
static void scop(Case& c) {
  Src& s = c.s;
  GScop g = options(c);
  g.maxstmts = 2;
  g.maxacc = 2;
  MScops m[2] = {gen_scops(s, g), gen_scops(s, g)};
  if (c.rendering) c.log << show(tree(m[0]));
  osl_scop_t *x = build(m[0]), *y = build(m[1]), *copy = build(m[0]);
  int usr = 0;
  for (osl_scop_t* q = x; q; q = q->next) q->usr = &usr;
  int level = s.small(3);
  int np = -1, ni = -1, ns = -1, nl = -1, id = -1;
  osl_scop_get_attributes(x, &np, &ni, &ns, &nl, &id);
  P px = places(x), py = places(y);
  Looks l;
  l.out("dump", [&](FILE* f) { osl_scop_dump(f, x); });
  l.out("idump", [&](FILE* f) { osl_scop_idump(f, x, level); });
  if (id < 2000 && shaped(m[0])) {
    l.out("print", [&](FILE* f) { osl_scop_print(f, x); });
    l.add("names", [&] {
      osl_names_t* n = osl_scop_names(x);
      S t = print_to_string([&](FILE* f) { osl_names_dump(f, n); });
      t += print_to_string([&](FILE* f) { osl_names_dump(f, n); });
      osl_names_free(n);
      return t;
    });
  }
  auto copied = [](osl_scop_t* r) {
    S t = show(tree(snap(r)));
    osl_scop_free(r);
    return t;
  };
  l.add("clone", [&] { return copied(osl_scop_clone(x)); });
  bool single = true;
  for (auto& q : m[0])
    for (auto& z : q.stmts) single = single && !z.dom.empty() && !z.scat.empty();
  if (single) l.add("remove_unions", [&] { return copied(osl_scop_remove_unions(x)); });
  l.add("equal", [&] { return num(osl_scop_equal(x, y)) + num(osl_scop_equal(y, x)); });
  l.add("equal copy", [&] { return num(osl_scop_equal(x, copy)) + num(osl_scop_equal(copy, x)); });
  l.add("integrity", [&] { return num(osl_scop_integrity_check(x)); });
  l.add("number", [&] { return num((long)osl_scop_number(x)); });
  l.add("parameters", [&] { return num(osl_scop_get_nb_parameters(x)); });
  l.add("attributes",
        [&] { return att([&](int* a, int* b, int* d, int* e, int* h) { osl_scop_get_attributes(x, a, b, d, e, h); }); });
  look(c, l, [&](const S& what) {
    S d = tdiff(snap(x), m[0]);
    CHECK(d.empty(), "changed", what << ": " << d);
    d = tdiff(snap(y), m[1]);
    CHECK(d.empty(), "changed", what << ", second argument: " << d);
    CHECK(places(x) == px && places(y) == py, "moved", what << " replaced a part of the scop");
  });
  osl_scop_free(x);
  osl_scop_free(y);
  osl_scop_free(copy);
}
static S shown(const std::vector<T>& v) {
  S r;
  for (auto& t : v) r += show(t);
  return r;
}
static void generics(Case& c) {
  Src& s = c.s;
  GExt g;
  g.prec = ALLPREC[s.below(3)];
  g.readable = s.pct(40);
  g.nil = !g.readable;
  set_env(g.prec);
  std::vector<T> m[2];
  for (auto& v : m) v = gen_exts(s, g.readable ? EXT_READABLE : EXT_URIS, 4, g);
  if (c.rendering) c.log << shown(m[0]);
  osl_generic_t *x = build_generics(m[0]), *y = build_generics(m[1]), *copy = build_generics(m[0]);
  osl_interface_t* reg = osl_interface_get_default_registry();
  V regm = snap_registry(reg);
  P pr = places(reg);
  int level = s.small(3), k = s.range(-1, (int)m[0].size() + 1), w = s.range(-1, 20);
  P px = places(x), py = places(y);
  Looks l;
  l.out("dump", [&](FILE* f) { osl_generic_dump(f, x); });
  l.out("idump", [&](FILE* f) { osl_generic_idump(f, x, level); });
  l.out("print", [&](FILE* f) { osl_generic_print(f, x); });
  l.add("sprint", [&] { return take(osl_generic_sprint(x)); });
  auto copied = [](osl_generic_t* r) {
    S t = shown(snap_generics(r));
    osl_generic_free(r);
    return t;
  };
  l.add("clone", [&] { return copied(osl_generic_clone(x)); });
  l.add("nclone", [&] { return copied(osl_generic_nclone(x, k)); });
  l.add("equal", [&] { return num(osl_generic_equal(x, y)) + num(osl_generic_equal(y, x)); });
  l.add("equal copy", [&] { return num(osl_generic_equal(x, copy)) + num(osl_generic_equal(copy, x)); });
  l.add("count", [&] { return num(osl_generic_number(x)) + num(osl_generic_count(x)); });
  for (auto& t : EXT_URIS) {
    l.add("lookup " + t, [&] { return num((long)osl_generic_lookup(x, t.c_str())); });
    l.add("has " + t, [&] { return num(osl_generic_has_URI(x, t.c_str())); });
    l.add("interface " + t, [&] { return num((long)osl_interface_lookup(reg, t.c_str())); });
  }
  l.out("registry dump", [&](FILE* f) { osl_interface_dump(f, reg); });
  l.out("registry idump", [&](FILE* f) { osl_interface_idump(f, reg, level); });
  l.add("registry number", [&] { return num(osl_interface_number(reg)); });
  l.add("registry nclone", [&] {
    osl_interface_t* q = osl_interface_nclone(reg, w);
    S t;
    for (auto& n : snap_registry(q)) t += n + " ";
    osl_interface_free(q);
    return t;
  });
  if (g.readable && s.flip()) {  // reading only reads the text and the registry
    Layout lay;
    lay.s = &s;
    emit_generics(m[0], lay, 10);
    S text = lay.o;
    l.add("read", [&, text] {
      S t = text;
      char* p = &t[0];
      osl_generic_t* q = osl_generic_sread(&p, reg);
      CHECK(t == text, "changed", "reading changed the text");
      return copied(q);
    });
  }
  look(c, l, [&](const S& what) {
    S d = diff(snap_generics(x), m[0]);
    CHECK(d.empty(), "changed", what << ": " << d);
    d = diff(snap_generics(y), m[1]);
    CHECK(d.empty(), "changed", what << ", second argument: " << d);
    CHECK(places(x) == px && places(y) == py, "moved", what << " replaced a part of the extensions");
    CHECK(snap_registry(reg) == regm && places(reg) == pr, "changed", what << " changed the registry");
  });
  osl_interface_free(reg);
  osl_generic_free(x);
  osl_generic_free(y);
  osl_generic_free(copy);
}
static S bytes(const T& t) { return show(t); }
static void extension(Case& c) {
  Src& s = c.s;
  S u = s.pick(EXT_URIS);
  label(u);
  GExt g;
  g.prec = ALLPREC[s.below(3)];
  g.readable = s.pct(30);
  g.nil = !g.readable;
  g.big = s.pct(5);
  set_env(g.prec);
  T m = gen_ext(s, u, g), w = m;
  if (u == "irregular")
    w = gen_ext(s, u, g);
  else
    mutate(s, w);
  if (c.rendering) c.log << show(m);
  osl_interface_t* it = ext_interface(u);
  void *x = build_data(m), *y = build_data(w), *copy = build_data(m);
  w = snap_data(u, y);  // an empty list may be the same as none
  int level = s.small(3);
  Looks l;
  l.out("idump", [&](FILE* f) { it->idump(f, x, level); });
  l.out("idump 0", [&](FILE* f) { it->idump(f, x, 0); });
  l.add("sprint", [&] { return take(it->sprint(x)); });
  l.add("clone", [&] {
    void* q = it->clone(x);
    S t = bytes(snap_data(u, q));
    it->free(q);
    return t;
  });
  l.add("equal", [&] { return num(it->equal(x, y)) + num(it->equal(y, x)); });
  l.add("equal copy", [&] { return num(it->equal(x, copy)) + num(it->equal(copy, x)); });
  if (x) {
#define DUMP(n) \
  if (u == #n) l.out("dump", [&](FILE* f) { osl_##n##_dump(f, (osl_##n##_t*)x); });
    DUMP(strings) DUMP(body) DUMP(relation) DUMP(textual) DUMP(comment) DUMP(null) DUMP(scatinfos) DUMP(scatnames) DUMP(arrays)
    DUMP(coordinates) DUMP(clay) DUMP(dependence) DUMP(symbols) DUMP(extbody) DUMP(loop) DUMP(pluto_unroll) DUMP(region)
    DUMP(annotation) DUMP(irregular)
    if (u == "arrays") {
      osl_arrays_t* a = (osl_arrays_t*)x;
      int big = 0;
      for (auto& e : m.c) big = std::max<long>(big, std::abs(e.at("id").i));
      if (big < 2000)
        l.add("to_strings", [=] {
          osl_strings_t* q = osl_arrays_to_strings(a);
          S t = bytes(snap_strings("", q));
          osl_strings_free(q);
          return t;
        });
      l.add("index from id", [=] { return num((long)osl_arrays_get_index_from_id(a, 2)); });
      l.add("index from name", [=] { return num((long)osl_arrays_get_index_from_name(a, "a")); });
    }
    if (u == "loop") l.add("count", [&] { return num(osl_loop_count((osl_loop_t*)x)); });
    if (u == "region") l.add("count", [&] { return num((long)osl_region_count((osl_region_t*)x)); });
    if (u == "dependence") l.add("count", [&] { return num(osl_nb_dependences((osl_dependence_t*)x)); });
    if (u == "symbols") l.add("count", [&] { return num(osl_symbols_get_nb_symbols((osl_symbols_t*)x)); });
    if (u == "strings") {
      l.add("size", [&] { return num((long)osl_strings_size((osl_strings_t*)x)); });
      l.add("find", [&] { return num((long)osl_strings_find((osl_strings_t*)x, "a")); });
    }
  }
  look(c, l, [&](const S& what) {
    S d = diff(snap_data(u, x), m);
    CHECK(d.empty(), "changed", what << ": " << d);
    d = diff(snap_data(u, y), w);
    CHECK(d.empty(), "changed", what << ", second argument: " << d);
  });
  it->free(x);
  it->free(y);
  it->free(copy);
  osl_interface_free(it);
}
static void vector(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)], n = 2 + s.small(7);
  std::vector<Z> m[2];
  osl_vector_t* v[2];
  for (int k = 0; k < 2; k++) {
    v[k] = osl_vector_pmalloc(prec, n);
    for (int i = 0; i < n; i++) {
      Z z = s.range(-20, 20);
      m[k].push_back(z);
      putZ(prec, &v[k]->v[i], z);
    }
  }
  int scalar = s.range(-5, 5), level = s.small(3);
  auto values = [&](osl_vector_t* x) {
    S t;
    for (int i = 0; i < x->size; i++) t += getZ(x->precision, x->v[i]).get_str() + " ";
    return t + num(x->precision);
  };
  auto taken = [&](osl_vector_t* x) {
    S t = values(x);
    osl_vector_free(x);
    return t;
  };
  S w0 = values(v[0]), w1 = values(v[1]);
  Looks l;
  l.out("dump", [&](FILE* f) { osl_vector_dump(f, v[0]); });
  l.out("idump", [&](FILE* f) { osl_vector_idump(f, v[0], level); });
  l.add("add", [&] { return taken(osl_vector_add(v[0], v[1])); });
  l.add("sub", [&] { return taken(osl_vector_sub(v[0], v[1])); });
  l.add("sub itself", [&] { return taken(osl_vector_sub(v[0], v[0])); });
  l.add("add_scalar", [&] { return taken(osl_vector_add_scalar(v[0], scalar)); });
  l.add("mul_scalar", [&] { return taken(osl_vector_mul_scalar(v[0], scalar)); });
  l.add("equal", [&] { return num(osl_vector_equal(v[0], v[1])); });
  l.add("is_scalar", [&] { return num(osl_vector_is_scalar(v[0])); });
  l.add("from_vector", [&] {
    osl_relation_t* r = osl_relation_from_vector(v[0]);
    S t = show(snap(r));
    osl_relation_free(r);
    return t;
  });
  MUnion um = {blank(prec, 2, n)};
  osl_relation_t* r = build(um);
  l.add("concat_vector", [&] {
    osl_relation_t* q = osl_relation_concat_vector(r, v[0]);
    S t = show(snap(q));
    osl_relation_free(q);
    SAME(snap(r), um, "changed", "concat_vector");
    return t;
  });
  look(c, l, [&](const S& what) { CHECK(values(v[0]) == w0 && values(v[1]) == w1, "changed", what << " changed a vector"); });
  osl_vector_free(v[0]);
  osl_vector_free(v[1]);
  osl_relation_free(r);
}
Property pbt::property = {"P22",
                          "more than three looks, at least one of them repeated",
                          {{"relation", relation, 12000, 400000, true},
                           {"list", list, 12000, 400000, true},
                           {"statement", statement, 8000, 250000, true},
                           {"scop", scop, 5000, 200000, true},
                           {"generics", generics, 10000, 300000, true},
                           {"extension", extension, 25000, 800000, true},
                           {"vector", vector, 10000, 300000, true}}};
