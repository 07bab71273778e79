// P27: a dump shows the whole object.
// Dumps are compared with the model (every value must be shown), with each other (objects
// whose values differ have different dumps, clones have the same one, the depth changes only
// the margin) and with the dumps of the parts (the dump of an object contains those).
#include <algorithm>
#include <functional>
#include <map>

#include "scop.h"
using namespace pbt;
typedef std::string S;
typedef std::function<void(FILE*)> Out;

// ---- what must be shown
// The values, one after the other. Texts are shown without line breaks, textual options
// shortened: two objects with the same values here may have the same dump.
static S squeeze(const S& s) {
  S r;
  for (char ch : s)
    if (!isspace((unsigned char)ch)) r += ch;
  return r;
}
static void content(const T& t, const T* up, S& o) {
  switch (t.k) {
    case T::NIL:
      o += "(nil)";
      break;
    case T::INT:
      o += std::to_string(t.i) + ";";
      break;
    case T::STR:
      if (up && up->name == "textual") {
        if (t.s.size() > 40)
          o += squeeze(t.s.substr(0, 20)) + squeeze(t.s.substr(t.s.size() - 20));
        else
          o += squeeze(t.s);
      } else
        o += squeeze(t.s);
      break;
    case T::REL:
      o += squeeze(show(t));
      break;
    case T::LIST:
      if (t.name == "null") o += "null";
      for (auto& e : t.c) content(e, &t, o);
  }
}
static S content(const T& t) {
  S o;
  content(t, nullptr, o);
  return o;
}
// The words and numbers, with their number of occurrences.
typedef std::map<S, long> Bag;
static void words(const S& s, Bag& b) {
  S w;
  for (size_t i = 0; i <= s.size(); i++) {
    if (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_'))
      w += s[i];
    else if (!w.empty()) {
      b[w]++;
      w.clear();
    }
  }
}
static void words(const T& t, const T* up, Bag& b) {
  switch (t.k) {
    case T::NIL:
      break;
    case T::INT:  // kinds are shown in words, absent attributes and the number of controls indirectly
      if (t.name != "type" && t.name != "nb_control" && t.i != OSL_UNDEFINED) words(std::to_string(t.i), b);
      if (t.name == "type" && up && up->has("parallel")) words(std::to_string(t.i), b);
      if (t.name == "type" && up && up->has("generated"))
        words(t.i == OSL_SYMBOL_TYPE_ITERATOR ? "Iterator" : t.i == OSL_SYMBOL_TYPE_PARAMETER ? "Parameter" :
              t.i == OSL_SYMBOL_TYPE_ARRAY ? "Array" : t.i == OSL_SYMBOL_TYPE_FUNCTION ? "Function" : t.i == OSL_UNDEFINED ? "NULL" : "", b);
      if (t.name == "type" && up && up->has("depth"))
        words(t.i == OSL_DEPENDENCE_RAW ? "RAW" : t.i == OSL_DEPENDENCE_WAR ? "WAR" : t.i == OSL_DEPENDENCE_WAW ? "WAW" :
              t.i == OSL_DEPENDENCE_RAR ? "RAR" : t.i == OSL_DEPENDENCE_RAW_SCALPRIV ? "RAW_SCALPRIV" : t.i == OSL_UNDEFINED ? "UNSET" : "", b);
      break;
    case T::STR:
      if (!(up && up->name == "textual" && t.s.size() > 40)) words(t.s, b);
      break;
    case T::REL:
      for (auto& r : t.u) {
        words(r.prec == OSL_PRECISION_SP ? "32 bits" : r.prec == OSL_PRECISION_DP ? "64 bits" : "GMP", b);
        words(r.type == OSL_TYPE_CONTEXT ? OSL_STRING_CONTEXT : r.type == OSL_TYPE_DOMAIN ? OSL_STRING_DOMAIN :
              r.type == OSL_TYPE_SCATTERING ? OSL_STRING_SCATTERING : r.type == OSL_TYPE_READ ? OSL_STRING_READ :
              r.type == OSL_TYPE_WRITE ? OSL_STRING_WRITE : r.type == OSL_TYPE_MAY_WRITE ? OSL_STRING_MAY_WRITE : OSL_STRING_UNDEFINED, b);
        for (long x : {(long)r.rows, (long)r.cols, (long)r.out, (long)r.in, (long)r.local, (long)r.params})
          words(std::to_string(x), b);
        for (auto& row : r.m)
          for (auto& z : row) {
            std::ostringstream os;
            os << z;
            words(os.str(), b);
          }
      }
      break;
    case T::LIST:  // the sizes of tables too
      if (t.name == "arrays" || t.name == "accesses" || t.name == "scatinfos" || t.name == "stmts")
        if (!(t.name == "accesses" && !(up && up->name == "extbody")) && !(up && up->name == "names")) words(std::to_string(t.c.size()), b);
      for (auto& e : t.c) words(e, &t, b);
  }
}
// ---- dumps
static S strip(const S& d) {  // without the margin
  S r;
  size_t i = 0;
  while (i < d.size()) {
    while (d.compare(i, 2, "|\t") == 0) i += 2;
    size_t j = d.find('\n', i);
    if (j == S::npos) j = d.size() - 1;
    r += d.substr(i, j - i + 1);
    i = j + 1;
  }
  return r;
}
static S margin(int level) {
  S r;
  while (level-- > 0) r += "|\t";
  return r;
}
// Texts with several lines are shown as they are, and these types draw no margin for some lines.
static bool drawn(const T& t, const T* up = nullptr) {
  if (t.name == "irregular" || t.name == "region" || t.name == "annotation") return false;
  if (t.k == T::STR && t.s.find('\n') != S::npos && !(up && (up->name == "textual" || up->name == "comment" || up->name == "clay")))
    return false;
  for (auto& e : t.c)
    if (!drawn(e, &t)) return false;
  return true;
}
static int occurrences(const S& s, const S& w) {
  int n = 0;
  for (size_t i = s.find(w); i != S::npos; i = s.find(w, i + 1)) n++;
  return n;
}
static void headers(const S& d, const S& w, size_t n) {
  CHECK(occurrences(d, w) == (int)n, "elements", n << " elements, but " << occurrences(d, w) << " times " << w << " in\n" << d);
}
struct D {
  std::function<void(FILE*)> dump;
  std::function<void(FILE*, int)> idump;
};
static S one(Case& c, const T& t, const D& d) {
  S x = print_to_string(d.dump);
  int level = 1 + c.s.below(4);
  S y = print_to_string([&](FILE* f) { d.idump(f, 0); });
  CHECK(x == y, "level 0", "the dump is\n" << x << "\nand at level 0\n" << y);
  S z = print_to_string([&](FILE* f) { d.idump(f, level); });
  CHECK(strip(x) == strip(z), "level", "besides the margin, the dump is\n" << strip(x) << "\nand at level " << level << "\n" << strip(z));
  S m = margin(level) + "+--";
  CHECK(z.compare(0, m.size(), m) == 0, "margin", "the dump at level " << level << " begins with " << z.substr(0, 40));
  CHECK(x.compare(0, 3, "+--") == 0, "margin", "the dump at level 0 begins with " << x.substr(0, 40));
  S first = x.substr(0, x.find('\n'));
  bool none = t.k == T::NIL || (t.k == T::REL && t.u.empty());
  bool list = t.name == "loop" || t.name == "pluto_unroll" || t.name == "region" || t.name == "symbols" || t.name == "dependence" ||
              t.name == "list" || t.name == "extensions" || t.name == "statements" || t.name == "scops" || t.name == "registry";
  if (list && t.c.empty()) none = true;
  CHECK((first.compare(0, 8, "+-- NULL") == 0) == none, "absent", "the dump begins with " << first << ", object " << (none ? "absent" : "present"));
  if (drawn(t)) {
    S r;
    for (size_t i = 0, j; i < x.size(); i = j + 1) {
      j = x.find('\n', i);
      if (j == S::npos) j = x.size() - 1;
      CHECK(i == 0 || x[i] == '|' || x.compare(i, 14, "+-- osl_body_t") == 0 || x.compare(i, 13, "+-- NULL body") == 0, "margin", "the line " << x.substr(i, j - i) << " is not under the object in\n" << x);
      r += margin(level) + x.substr(i, j - i + 1);
    }
    CHECK(r == z, "margin", "the dump at level " << level << " is\n" << z << "\ninstead of\n" << r);
  }
  Bag want, got;
  words(t, nullptr, want);
  words(x, got);
  for (const char* w : {"RAW", "WAR", "WAW", "RAR", "RAW_SCALPRIV", "UNSET", "Iterator", "Parameter", "Function", "bits", "GMP", "CONTEXT",
                        "DOMAIN", "SCATTERING", "READ", "WRITE", "MAY_WRITE", "UNDEFINED"})
    CHECK(got[w] == want[w], "kind", w << " is shown " << got[w] << " times instead of " << want[w] << " in\n" << x);
  for (auto& w : want)
    CHECK(got[w.first] >= w.second, "omitted", w.first << " is shown " << got[w.first] << " times instead of " << w.second << " at least in\n" << x);
  return x;
}
static void two(Case& c, const T& a, const T& b, const S& x, const S& y, const S& how) {
  S u = content(a), v = content(b);
  c.nontrivial = u != v;
  label(u != v ? "different" : "same content");
  if (u != v) CHECK(x != y, "same dump", "objects that differ (" << how << ") have the same dump:\n" << x);
}
static void part(const S& whole, std::function<void(FILE*, int)> f, const S& what) {
  S p = print_to_string([&](FILE* o) { f(o, 1); });
  CHECK(whole.find(p) != S::npos, "part", "the dump\n" << whole << "\ndoes not contain that of its part (" << what << "):\n" << p);
}
static GExt xoptions(Case& c) {
  GExt g;
  g.prec = ALLPREC[c.s.below(3)];
  g.big = c.s.pct(4);
  g.readable = c.s.pct(30);
  g.nil = !g.readable;
  return g;
}
static S change(Src& s, T& t) {
  if (t.name != "irregular" || t.k == T::NIL) return mutate(s, t);
  auto& p = t.at("predicates");  // its lists depend on one another
  if (!p.c.size()) return "copy";
  T& e = p.c[s.below((uint32_t)p.c.size())];
  T &it = e.at("iterators"), &b = e.at("body");
  if (it.c.size() && s.flip())
    it.c[s.below((uint32_t)it.c.size())].s += "q";
  else if (b.k == T::STR)
    b.s += "q";
  return "a predicate";
}
static void extension(Case& c) {
  GExt g = xoptions(c);
  S u = c.s.pick(EXT_URIS);
  label(u);
  T a = gen_ext(c.s, u, g), b = a;
  S how = change(c.s, b);
  if (c.s.pct(10)) b = gen_ext(c.s, u, g), how = "another";
  if (c.rendering) c.log << how << "\n" << show(a) << "--\n" << show(b);
  osl_interface_t* it = ext_interface(u);
  void *x = build_data(a), *y = build_data(b);
  D dx{[&](FILE* f) { it->idump(f, x, 0); }, [&](FILE* f, int l) { it->idump(f, x, l); }};
  D dy{[&](FILE* f) { it->idump(f, y, 0); }, [&](FILE* f, int l) { it->idump(f, y, l); }};
  // the function of the type itself
#define TYPE(n) \
  if (u == #n) dx.dump = [&](FILE* f) { osl_##n##_dump(f, (osl_##n##_t*)x); };
  TYPE(strings) TYPE(body) TYPE(relation) TYPE(textual) TYPE(comment) TYPE(clay) TYPE(null) TYPE(scatinfos)
  TYPE(scatnames) TYPE(arrays) TYPE(coordinates) TYPE(extbody) TYPE(loop) TYPE(pluto_unroll) TYPE(region)
  TYPE(annotation) TYPE(symbols) TYPE(dependence) TYPE(irregular)
  S p = one(c, a, dx), q = one(c, b, dy);
  two(c, a, b, p, q, how);
  static const std::map<S, S> head = {{"loop", "osl_loop_t"}, {"pluto_unroll", "osl_pluto_unroll_t"}, {"region", "osl_region_t"},
                                      {"dependence", "osl_dependence_p"}, {"symbols", "osl_symbol"}};
  if (head.count(u) && x) headers(p, head.at(u), a.c.size());
  if (u == "relation") headers(p, "osl_relation_t (", a.u.size());
  void* z = it->clone(x);
  S r = print_to_string([&](FILE* f) { it->idump(f, z, 0); });
  if (u != "textual")
    CHECK(p == r, "clone", "the dump of the clone is\n" << r << "\ninstead of\n" << p);
  it->free(x);
  it->free(y);
  it->free(z);
  osl_interface_free(it);
}
static void parts(const S& d, osl_generic_t* g) {
  for (; g; g = g->next) part(d, [&](FILE* f, int l) { g->interface->idump(f, g->data, l); }, g->interface->URI);
}
static T ext_tree(const std::vector<T>& v) {
  T t = T::list("extensions");
  t.c = v;
  return t;
}
static T uris(const std::vector<T>& v) {  // with the names of the types
  T t = ext_tree(v);
  for (auto& e : v) t.c.push_back(T::str("", e.name));
  return t;
}
static void generics(Case& c) {
  GExt g = xoptions(c);
  std::vector<T> a = gen_exts(c.s, EXT_URIS, 5, g), b = a;
  S how = "copy";
  if (!a.empty()) {
    switch (c.s.below(4)) {
      case 0:
        b.erase(b.begin() + c.s.below((uint32_t)b.size()));
        how = "one less";
        break;
      case 1:
        std::swap(b[c.s.below((uint32_t)b.size())], b[0]);
        how = "order";
        break;
      default:
        how = change(c.s, b[c.s.below((uint32_t)b.size())]);
    }
  }
  if (c.rendering) c.log << how << "\n" << show(ext_tree(a)) << "--\n" << show(ext_tree(b));
  osl_generic_t *x = build_generics(a), *y = build_generics(b);
  S p = one(c, uris(a), {[&](FILE* f) { osl_generic_dump(f, x); }, [&](FILE* f, int l) { osl_generic_idump(f, x, l); }});
  S q = one(c, uris(b), {[&](FILE* f) { osl_generic_dump(f, y); }, [&](FILE* f, int l) { osl_generic_idump(f, y, l); }});
  two(c, uris(a), uris(b), p, q, how);
  bool nested = false;
  for (auto& t : a) nested = nested || t.name == "symbols";
  if (!nested) headers(p, "osl_generic_t", a.size());
  parts(p, x);
  osl_generic_t* z = osl_generic_clone(x);
  S r = print_to_string([&](FILE* f) { osl_generic_dump(f, z); });
  bool lossy = false;
  for (auto& t : a) lossy = lossy || t.name == "textual";
  if (!lossy) CHECK(p == r, "clone", "the dump of the clone is\n" << r << "\ninstead of\n" << p);
  osl_generic_free(x);
  osl_generic_free(y);
  osl_generic_free(z);
}
static S alter(Src& s, MUnion& u, const GRel& g, int prec) {
  if (s.pct(20) || u.empty()) {
    u.insert(u.begin() + s.below((uint32_t)u.size() + 1), gen_any_rel(s, prec, g));
    return "one part more";
  }
  T t = T::rel("relation", u);
  S how = change(s, t);
  u = t.u;
  return how;
}
static void relation(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  GRel g;
  g.wide = c.s.flip();
  MUnion a = gen_any_union(c.s, prec, g, 4), b = a;
  S how = alter(c.s, b, g, prec);
  if (c.s.pct(5)) {
    int p2 = ALLPREC[c.s.below(3)];
    if (all_fit(p2, b))
      for (auto& r : b) r.prec = p2;
  }
  if (c.rendering) c.log << how << "\n" << show(a) << "--\n" << show(b);
  osl_relation_t *x = build(a), *y = build(b);
  T ta = T::rel("relation", a), tb = T::rel("relation", b);
  S p = one(c, ta, {[&](FILE* f) { osl_relation_dump(f, x); }, [&](FILE* f, int l) { osl_relation_idump(f, x, l); }});
  S q = one(c, tb, {[&](FILE* f) { osl_relation_dump(f, y); }, [&](FILE* f, int l) { osl_relation_idump(f, y, l); }});
  two(c, ta, tb, p, q, how);
  headers(p, "osl_relation_t (", a.size());
  osl_relation_t* z = osl_relation_clone(x);
  S r = print_to_string([&](FILE* f) { osl_relation_dump(f, z); });
  CHECK(p == r, "clone", "the dump of the clone is\n" << r << "\ninstead of\n" << p);
  osl_relation_free(x);
  osl_relation_free(y);
  osl_relation_free(z);
}
static T ltree(const std::vector<MUnion>& v) {
  T t = T::list("list");
  for (auto& u : v) t.c.push_back(T::rel("", u));
  return t;
}
static void lists(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  GRel g;
  std::vector<MUnion> a;
  int n = c.s.small(5);
  for (int i = 0; i < n; i++) a.push_back(c.s.pct(8) ? MUnion{} : gen_any_union(c.s, prec, g, 3));
  std::vector<MUnion> b = a;
  S how;
  if (n && c.s.pct(80))
    how = alter(c.s, b[c.s.below(n)], g, prec);
  else
    how = "one more", b.push_back(gen_any_union(c.s, prec, g, 2));
  if (c.rendering) c.log << how << "\n" << show(ltree(a)) << show(ltree(b));
  osl_relation_list_t *x = build_list(a), *y = build_list(b);
  S p = one(c, ltree(a), {[&](FILE* f) { osl_relation_list_dump(f, x); }, [&](FILE* f, int l) { osl_relation_list_idump(f, x, l); }});
  S q = one(c, ltree(b), {[&](FILE* f) { osl_relation_list_dump(f, y); }, [&](FILE* f, int l) { osl_relation_list_idump(f, y, l); }});
  two(c, ltree(a), ltree(b), p, q, how);
  headers(p, "osl_relation_list_t", a.size());
  for (auto* e = x; e; e = e->next) part(p, [&](FILE* f, int l) { osl_relation_idump(f, e->elt, l); }, "an element");
  osl_relation_list_t* z = osl_relation_list_clone(x);
  S r = print_to_string([&](FILE* f) { osl_relation_list_dump(f, z); });
  CHECK(p == r, "clone", "the dump of the clone is\n" << r << "\ninstead of\n" << p);
  osl_relation_list_free(x);
  osl_relation_list_free(y);
  osl_relation_list_free(z);
}
static GScop options(Case& c) {
  GScop g;
  g.e = xoptions(c);
  g.loose = c.s.pct(30);
  g.maxdepth = 2;
  return g;
}
static S alter(Src& s, MStmt& m, const GScop& g) {
  GRel gr;
  switch (s.below(5)) {
    case 0:
      return "domain: " + alter(s, m.dom, gr, g.e.prec);
    case 1:
      return "scattering: " + alter(s, m.scat, gr, g.e.prec);
    case 2:
      if (m.acc.empty()) {
        m.acc.push_back(gen_any_union(s, g.e.prec, gr, 2));
        return "one access more";
      }
      return "access: " + alter(s, m.acc[s.below((uint32_t)m.acc.size())], gr, g.e.prec);
    default:
      if (m.ext.empty()) {
        m.ext.push_back(gen_ext(s, "arrays", g.e));
        return "one extension more";
      }
      return "extension: " + change(s, m.ext[s.below((uint32_t)m.ext.size())]);
  }
}
static S alter(Src& s, std::vector<MStmt>& v, const GScop& g) {
  if (v.empty() || s.pct(10)) {
    v.insert(v.begin() + s.below((uint32_t)v.size() + 1), gen_stmt(s, g, s.small(2)));
    return "one statement more";
  }
  return "statement: " + alter(s, v[s.below((uint32_t)v.size())], g);
}
static bool textual(const std::vector<T>& v) {
  for (auto& t : v)
    if (t.name == "textual") return true;
  return false;
}
static bool textual(const std::vector<MStmt>& v) {
  for (auto& m : v)
    if (textual(m.ext)) return true;
  return false;
}
static void parts(const S& p, osl_statement_t* m) {
  part(p, [&](FILE* f, int l) { osl_relation_idump(f, m->domain, l); }, "a domain");
  part(p, [&](FILE* f, int l) { osl_relation_idump(f, m->scattering, l); }, "a scattering");
  part(p, [&](FILE* f, int l) { osl_relation_list_idump(f, m->access, l); }, "accesses");
  part(p, [&](FILE* f, int l) { osl_generic_idump(f, m->extension, l); }, "extensions");
}
static void statement(Case& c) {
  GScop g = options(c);
  std::vector<MStmt> a;
  int k = c.s.small(4), np = c.s.small(3);
  for (int i = 0; i < k; i++) a.push_back(gen_stmt(c.s, g, np));
  std::vector<MStmt> b = a;
  S how = alter(c.s, b, g);
  if (c.rendering) c.log << how << "\n" << show(tree(a)) << show(tree(b));
  osl_statement_t *x = build(a), *y = build(b);
  S p = one(c, tree(a), {[&](FILE* f) { osl_statement_dump(f, x); }, [&](FILE* f, int l) { osl_statement_idump(f, x, l); }});
  S q = one(c, tree(b), {[&](FILE* f) { osl_statement_dump(f, y); }, [&](FILE* f, int l) { osl_statement_idump(f, y, l); }});
  two(c, tree(a), tree(b), p, q, how);
  for (auto* m = x; m; m = m->next) parts(p, m);
  headers(p, "osl_statement_t", a.size());
  for (size_t i = 1; i <= a.size(); i++) headers(p, "(S" + std::to_string(i) + ")", 1);
  osl_statement_t* z = osl_statement_clone(x);
  S r = print_to_string([&](FILE* f) { osl_statement_dump(f, z); });
  if (!textual(a)) CHECK(p == r, "clone", "the dump of the clone is\n" << r << "\ninstead of\n" << p);
  osl_statement_free(x);
  osl_statement_free(y);
  osl_statement_free(z);
}
static void scop(Case& c) {
  GScop g = options(c);
  MScops a = gen_scops(c.s, g);
  if (g.e.nil && c.s.pct(5)) a[0].ctx.clear();
  MScops b = a;
  MScop& m = b[c.s.below((uint32_t)b.size())];
  GRel gr;
  S how;
  switch (c.s.below(8)) {
    case 0:
      m.version++;
      how = "version";
      break;
    case 1:
      m.language = T::str("language", m.language.s + "x");
      how = "language";
      break;
    case 2:
      how = "context: " + alter(c.s, m.ctx, gr, g.e.prec);
      break;
    case 3:
      if (!m.params.empty()) how = "parameters: " + change(c.s, m.params[c.s.below((uint32_t)m.params.size())]);
      break;
    case 4:
      if (!m.ext.empty()) how = "extensions: " + change(c.s, m.ext[c.s.below((uint32_t)m.ext.size())]);
      break;
    case 5:
      b.push_back(gen_scop(c.s, g));
      how = "one scop more";
      break;
    case 6:
      if (!m.registry.empty()) m.registry.erase(m.registry.begin() + c.s.below((uint32_t)m.registry.size()));
      how = "registry";
      break;
    default:
      how = alter(c.s, m.stmts, g);
  }
  if (c.rendering) c.log << how << "\n" << show(tree(a)) << show(tree(b));
  osl_scop_t *x = build(a), *y = build(b);
  S p = one(c, tree(a), {[&](FILE* f) { osl_scop_dump(f, x); }, [&](FILE* f, int l) { osl_scop_idump(f, x, l); }});
  S q = one(c, tree(b), {[&](FILE* f) { osl_scop_dump(f, y); }, [&](FILE* f, int l) { osl_scop_idump(f, y, l); }});
  two(c, tree(a), tree(b), p, q, how);
  for (auto* s = x; s; s = s->next) {
    part(p, [&](FILE* f, int l) { osl_relation_idump(f, s->context, l); }, "the context");
    part(p, [&](FILE* f, int l) { osl_generic_idump(f, s->parameters, l); }, "the parameters");
    part(p, [&](FILE* f, int l) { osl_statement_idump(f, s->statement, l); }, "the statements");
    part(p, [&](FILE* f, int l) { osl_interface_idump(f, s->registry, l); }, "the registry");
    part(p, [&](FILE* f, int l) { osl_generic_idump(f, s->extension, l); }, "the extensions");
  }
  headers(p, "osl_scop_t", a.size());
  bool lossy = false;
  for (auto& s : a) lossy = lossy || textual(s.ext) || textual(s.params) || textual(s.stmts);
  osl_scop_t* z = osl_scop_clone(x);
  S r = print_to_string([&](FILE* f) { osl_scop_dump(f, z); });
  if (!lossy) CHECK(p == r, "clone", "the dump of the clone is\n" << r << "\ninstead of\n" << p);
  osl_scop_free(x);
  osl_scop_free(y);
  osl_scop_free(z);
}
static void others(Case& c) {
  switch (c.s.below(4)) {
    case 0: {
      label("vector");
      int prec = ALLPREC[c.s.below(3)], n = c.s.small(6);
      std::vector<Z> a, b;
      for (int i = 0; i < n; i++) a.push_back(gen_coef(c.s, prec, c.s.flip()));
      b = a;
      S how = "size";
      if (n && c.s.pct(80)) {
        Z& z = b[c.s.below(n)];
        z = fits_prec(prec, z + 1) ? Z(z + 1) : Z(z - 1), how = "an element";
      } else
        b.push_back(0);
      auto mk = [&](const std::vector<Z>& v) {
        osl_vector_t* x = osl_vector_pmalloc(prec, v.size());
        for (size_t i = 0; i < v.size(); i++) putZ(prec, &x->v[i], v[i]);
        return x;
      };
      auto vt = [&](const std::vector<Z>& v) {
        T t = T::list("vector");
        t.c.push_back(T::num("size", (long)v.size()));
        t.c.push_back(T::str("", prec == OSL_PRECISION_SP ? "32 bits" : prec == OSL_PRECISION_DP ? "64 bits" : "GMP"));
        for (auto& z : v) {
          std::ostringstream o;
          o << z;
          t.c.push_back(T::str("", o.str()));
        }
        return t;
      };
      if (c.rendering) c.log << precname(prec) << " " << how << "\n" << show(vt(a)) << show(vt(b));
      osl_vector_t *x = mk(a), *y = mk(b);
      S p = one(c, vt(a), {[&](FILE* f) { osl_vector_dump(f, x); }, [&](FILE* f, int l) { osl_vector_idump(f, x, l); }});
      S q = one(c, vt(b), {[&](FILE* f) { osl_vector_dump(f, y); }, [&](FILE* f, int l) { osl_vector_idump(f, y, l); }});
      two(c, vt(a), vt(b), p, q, how);
      osl_vector_free(x);
      osl_vector_free(y);
      break;
    }
    case 1: {
      label("names");
      T a = T::list("names");
      for (const char* n : {"parameters", "iterators", "scatt_dims", "local_dims", "arrays"})
        a.c.push_back(c.s.pct(5) ? T::nil(n) : gen_strings(c.s, n, 0, 4, true));
      T b = a;
      S how = change(c.s, b);
      auto mk = [](const T& t) {
        osl_names_t* n = osl_names_malloc();
        n->parameters = build_strings(t[0]);
        n->iterators = build_strings(t[1]);
        n->scatt_dims = build_strings(t[2]);
        n->local_dims = build_strings(t[3]);
        n->arrays = build_strings(t[4]);
        return n;
      };
      if (c.rendering) c.log << how << "\n" << show(a) << show(b);
      osl_names_t *x = mk(a), *y = mk(b);
      S p = one(c, a, {[&](FILE* f) { osl_names_dump(f, x); }, [&](FILE* f, int l) { osl_names_idump(f, x, l); }});
      S q = one(c, b, {[&](FILE* f) { osl_names_dump(f, y); }, [&](FILE* f, int l) { osl_names_idump(f, y, l); }});
      two(c, a, b, p, q, how);
      osl_names_free(x);
      osl_names_free(y);
      break;
    }
    case 2: {
      label("interfaces");
      std::vector<S> u;
      T a = T::list("registry");
      int n = c.s.small(5);
      for (int i = 0; i < n; i++) {
        S e = c.s.pick(EXT_URIS);
        if (std::find(u.begin(), u.end(), e) == u.end()) u.push_back(e);
      }
      for (auto& e : u) a.c.push_back(T::str("", e));
      T b = a;
      std::vector<S> v = u;
      if (u.size() > 1 && c.s.flip()) {
        std::swap(v[0], v.back());
        std::swap(b.c[0], b.c.back());
      } else if (!u.empty()) {
        size_t k = c.s.below((uint32_t)u.size());
        v.erase(v.begin() + k);
        b.c.erase(b.c.begin() + k);
      }
      if (c.rendering) c.log << show(a) << show(b);
      osl_interface_t *x = build_registry(u), *y = build_registry(v);
      S p = one(c, a, {[&](FILE* f) { osl_interface_dump(f, x); }, [&](FILE* f, int l) { osl_interface_idump(f, x, l); }});
      S q = one(c, b, {[&](FILE* f) { osl_interface_dump(f, y); }, [&](FILE* f, int l) { osl_interface_idump(f, y, l); }});
      two(c, a, b, p, q, "list");
      headers(p, "osl_interface_t", a.c.size());
      osl_interface_t* z = osl_interface_clone(x);
      S r = print_to_string([&](FILE* f) { osl_interface_dump(f, z); });
      CHECK(p == r, "clone", "the dump of the clone is\n" << r << "\ninstead of\n" << p);
      osl_interface_free(x);
      osl_interface_free(y);
      osl_interface_free(z);
      break;
    }
    default: {
      label("dependence with statements");
      // it points to the statements of a scop: only these two are shown, and nothing changes
      GScop g = options(c);
      g.maxdepth = 1;
      std::vector<MStmt> m;
      int k = 1 + c.s.small(3);
      for (int i = 0; i < k; i++) m.push_back(gen_stmt(c.s, g, 1));
      T t = gen_ext(c.s, "dependence", g.e);
      if (t.k == T::NIL) discard();
      osl_statement_t* x = build(m);
      osl_dependence_t* d = (osl_dependence_t*)build_data(t);
      T full = t;
      std::vector<int> who;
      for (auto* e = d; e; e = e->next)
        for (int q = 0; q < 2; q++) {
          int i = c.s.below(k + 1);
          who.push_back(i);
          osl_statement_t* s = x;
          for (int j = 0; j < i && s; j++) s = s->next;
          (q ? e->stmt_target_ptr : e->stmt_source_ptr) = s;
          if (s) full.c.push_back(tree(m[i]));
        }
      c.nontrivial = k > 1;
      if (c.rendering) {
        c.log << show(tree(m)) << show(t);
        for (int i : who) c.log << " " << i;
      }
      S p = one(c, full, {[&](FILE* f) { osl_dependence_dump(f, d); }, [&](FILE* f, int l) { osl_dependence_idump(f, d, l); }});
      std::vector<MStmt> after = snap(x);
      S df = tdiff(m, after);
      CHECK(df.empty(), "changed", "the dump of a dependence changed the statements: " << df);
      for (int i : who)
        if (i < k) {
          osl_statement_t* s = build(std::vector<MStmt>{m[i]});
          part(p, [&](FILE* f, int l) { osl_statement_idump(f, s, l); }, "a statement");
          osl_statement_free(s);
        }
      osl_dependence_free(d);
      osl_statement_free(x);
    }
  }
}
Property pbt::property = {
    "P27",
    "two objects whose values differ are dumped (dependences on statements: of at least two)",
    {{"extension", extension, 40000, 2000000, true},
     {"generics", generics, 10000, 500000, true},
     {"relation", relation, 20000, 1000000, true},
     {"lists", lists, 6000, 300000, true},
     {"statement", statement, 6000, 300000, true},
     {"scop", scop, 6000, 300000, true},
     {"others", others, 20000, 1000000, true}},
};
