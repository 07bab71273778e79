#include "ext.h"

using namespace pbt;
using std::string;
using std::vector;

// ------------------------------------------------------------------ trees
const T& T::at(const string& n) const {
  for (auto& t : c)
    if (t.name == n) return t;
  fail("harness", "no field " + n + " in " + name);
}
T& T::at(const string& n) { return const_cast<T&>(static_cast<const T*>(this)->at(n)); }
bool T::has(const string& n) const {
  for (auto& t : c)
    if (t.name == n) return true;
  return false;
}
bool operator==(const T& a, const T& b) {
  return a.k == b.k && a.name == b.name && a.i == b.i && a.s == b.s && a.c == b.c && a.u == b.u;
}
static string quote(const string& s) {
  string r = "\"";
  size_t n = 0;
  for (unsigned char ch : s) {
    if (n++ > 300) {
      r += "...(" + std::to_string(s.size()) + " characters)";
      break;
    }
    if (ch == '\n')
      r += "\\n";
    else if (ch == '"' || ch == '\\')
      r += string("\\") + (char)ch;
    else if (ch < 32 || ch > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\x%02x", ch);
      r += b;
    } else
      r += (char)ch;
  }
  return r + "\"";
}
string show(const T& t, int ind) {
  string p(ind * 2, ' '), s = p + (t.name.empty() ? "-" : t.name) + ": ";
  switch (t.k) {
    case T::NIL:
      return s + "(absent)\n";
    case T::INT:
      return s + std::to_string(t.i) + "\n";
    case T::STR:
      return s + quote(t.s) + "\n";
    case T::REL:
      return s + show(t.u);
    default:
      s += "[" + std::to_string(t.c.size()) + "]\n";
      for (size_t i = 0; i < t.c.size() && i < 60; i++) s += show(t.c[i], ind + 1);
      return s;
  }
}
static string diff_(const T& a, const T& b, const string& path) {
  static const char* kn[] = {"absent", "an integer", "a string", "a list", "a relation"};
  if (a.k != b.k) return path + " is " + kn[a.k] + ", not " + kn[b.k];
  if (a.name != b.name) return path + " is named " + a.name + ", not " + b.name;
  if (a.i != b.i) return path + " is " + std::to_string(a.i) + ", not " + std::to_string(b.i);
  if (a.s != b.s) return path + " is " + quote(a.s) + ", not " + quote(b.s);
  string d = diff(a.u, b.u);
  if (!d.empty()) return path + ": " + d;
  if (a.c.size() != b.c.size())
    return path + " has " + std::to_string(a.c.size()) + " elements, not " + std::to_string(b.c.size());
  for (size_t i = 0; i < a.c.size(); i++) {
    d = diff_(a.c[i], b.c[i], path + "/" + (b.c[i].name.empty() ? std::to_string(i) : b.c[i].name));
    if (!d.empty()) return d;
  }
  return "";
}
string diff(const T& a, const T& b) { return diff_(a, b, b.name); }
string diff(const vector<T>& a, const vector<T>& b) {
  T x = T::list("list"), y = T::list("list");
  x.c = a;
  y.c = b;
  return diff(x, y);
}

// ------------------------------------------------------------------ memory helpers
static char* dup(const T& t) {
  if (t.k == T::NIL) return nullptr;
  char* p = (char*)malloc(t.s.size() + 1);
  memcpy(p, t.s.c_str(), t.s.size() + 1);
  return p;
}
static T cstr(const string& n, const char* s) { return s ? T::str(n, s) : T::nil(n); }
static int* ints(const vector<T>& v, const char* field) {
  int* p = (int*)malloc(sizeof(int) * (v.size() ? v.size() : 1));
  for (size_t i = 0; i < v.size(); i++) p[i] = (int)(field ? v[i].at(field).i : v[i].i);
  return p;
}
osl_strings_t* build_strings(const T& t) {
  if (t.k == T::NIL) return nullptr;
  osl_strings_t* s = (osl_strings_t*)malloc(sizeof(osl_strings_t));
  s->string = (char**)malloc(sizeof(char*) * (t.c.size() + 1));
  for (size_t i = 0; i < t.c.size(); i++) s->string[i] = dup(t.c[i]);
  s->string[t.c.size()] = nullptr;
  return s;
}
T snap_strings(const string& name, const osl_strings_t* s) {
  if (!s) return T::nil(name);
  T t = T::list(name);
  for (int i = 0; s->string && s->string[i]; i++) t.c.push_back(T::str("", s->string[i]));
  return t;
}
static osl_body_t* build_body(const T& t) {
  if (t.k == T::NIL) return nullptr;
  osl_body_t* b = (osl_body_t*)malloc(sizeof(osl_body_t));
  b->iterators = build_strings(t.at("iterators"));
  b->expression = build_strings(t.at("expression"));
  return b;
}
static T snap_body(const string& name, const osl_body_t* b) {
  if (!b) return T::nil(name);
  T t = T::list(name);
  t.c.push_back(snap_strings("iterators", b->iterators));
  t.c.push_back(snap_strings("expression", b->expression));
  return t;
}
template <class X>
static void build_text(const T& t, X* x) {
  x->count = t.c.size();
  x->types = ints(t.c, "type");
  x->lines = (char**)malloc(sizeof(char*) * (t.c.size() ? t.c.size() : 1));
  for (size_t i = 0; i < t.c.size(); i++) x->lines[i] = dup(t.c[i].at("line"));
  if (!x->count) {
    free(x->types);
    free(x->lines);
    x->types = nullptr;
    x->lines = nullptr;
  }
}
template <class X>
static T snap_text(const char* name, const X* x) {
  T t = T::list(name);
  for (size_t i = 0; i < x->count; i++) {
    T e = T::list("");
    e.c = {T::num("type", x->types[i]), cstr("line", x->lines[i])};
    t.c.push_back(e);
  }
  return t;
}

const vector<string> EXT_URIS = {"strings",   "body",    "relation", "textual",    "comment",     "null",
                                 "scatinfos", "scatnames", "arrays",  "coordinates", "clay",       "dependence",
                                 "symbols",   "extbody", "loop",     "pluto_unroll", "region",     "annotation",
                                 "irregular"};
const vector<string> EXT_READABLE = {"strings",  "body",       "relation", "comment",  "null",    "scatinfos",
                                     "scatnames", "arrays",     "coordinates", "clay",  "dependence", "symbols",
                                     "extbody",  "loop",       "pluto_unroll", "region", "annotation"};

osl_interface_t* ext_interface(const string& u) {
#define I_(x) \
  if (u == #x) return osl_##x##_interface();
  I_(strings)
  I_(body)
  I_(relation)
  I_(textual)
  I_(comment)
  I_(null)
  I_(scatinfos)
  I_(scatnames)
  I_(arrays)
  I_(coordinates)
  I_(clay)
  I_(dependence)
  I_(symbols)
  I_(extbody)
  I_(loop)
  I_(pluto_unroll)
  I_(region)
  I_(annotation)
  I_(irregular)
#undef I_
  return nullptr;
}

static const char* DEP8[8] = {"src_out_dom", "src_out_acc", "tgt_out_dom", "tgt_out_acc",
                              "src_loc_dom", "src_loc_acc", "tgt_loc_dom", "tgt_loc_acc"};
static int* dep8(osl_dependence_t* d, int i) {
  int* p[8] = {&d->source_nb_output_dims_domain, &d->source_nb_output_dims_access,
               &d->target_nb_output_dims_domain, &d->target_nb_output_dims_access,
               &d->source_nb_local_dims_domain,  &d->source_nb_local_dims_access,
               &d->target_nb_local_dims_domain,  &d->target_nb_local_dims_access};
  return p[i];
}

void* build_data(const T& t) {
  const string& u = t.name;
  if (t.k == T::NIL) return nullptr;
  if (u == "strings") return build_strings(t);
  if (u == "body") return build_body(t);
  if (u == "relation") return build(t.u);
  if (u == "textual") {
    osl_textual_t* x = osl_textual_malloc();
    x->textual = dup(t.at("text"));
    return x;
  }
  if (u == "comment") {
    osl_comment_t* x = osl_comment_malloc();
    x->comment = dup(t.at("text"));
    return x;
  }
  if (u == "clay") {
    osl_clay_t* x = osl_clay_malloc();
    x->script = dup(t.at("text"));
    return x;
  }
  if (u == "null") {
    osl_null_t* x = osl_null_malloc();
    return x;
  }
  if (u == "scatinfos") {
    osl_scatinfos_t* x = osl_scatinfos_malloc();
    x->nb_scatdims = t.c.size();
    x->parallel = ints(t.c, "parallel");
    x->permutable = ints(t.c, "permutable");
    x->type = ints(t.c, "type");
    return x;
  }
  if (u == "scatnames") {
    osl_scatnames_t* x = osl_scatnames_malloc();
    x->names = build_strings(t.at("names"));
    return x;
  }
  if (u == "arrays") {
    osl_arrays_t* x = osl_arrays_malloc();
    x->nb_names = (int)t.c.size();
    if (x->nb_names) {
      x->id = ints(t.c, "id");
      x->names = (char**)malloc(sizeof(char*) * (t.c.size() ? t.c.size() : 1));
      for (size_t i = 0; i < t.c.size(); i++) x->names[i] = dup(t.c[i].at("name"));
    }
    return x;
  }
  if (u == "coordinates") {
    osl_coordinates_t* x = osl_coordinates_malloc();
    x->name = dup(t.at("name"));
    x->line_start = (int)t.at("line_start").i;
    x->line_end = (int)t.at("line_end").i;
    x->column_start = (int)t.at("column_start").i;
    x->column_end = (int)t.at("column_end").i;
    x->indent = (int)t.at("indent").i;
    return x;
  }
  if (u == "extbody") {
    osl_extbody_t* x = osl_extbody_malloc();
    osl_body_free(x->body);
    x->body = build_body(t.at("body"));
    x->nb_access = t.at("accesses").c.size();
    free(x->start);
    free(x->length);
    x->start = ints(t.at("accesses").c, "start");
    x->length = ints(t.at("accesses").c, "length");
    return x;
  }
  if (u == "loop") {
    osl_loop_t *first = nullptr, **p = &first;
    for (auto& e : t.c) {
      osl_loop_t* x = osl_loop_malloc();
      x->iter = dup(e.at("iter"));
      x->nb_stmts = e.at("stmts").c.size();
      x->stmt_ids = ints(e.at("stmts").c, nullptr);
      x->private_vars = dup(e.at("private"));
      x->directive = (int)e.at("directive").i;
      x->user = dup(e.at("user"));
      *p = x;
      p = &x->next;
    }
    return first;
  }
  if (u == "pluto_unroll") {
    osl_pluto_unroll_t *first = nullptr, **p = &first;
    for (auto& e : t.c) {
      osl_pluto_unroll_t* x = osl_pluto_unroll_malloc();
      x->iter = dup(e.at("iter"));
      x->jam = e.at("jam").i != 0;
      x->factor = (unsigned)e.at("factor").i;
      *p = x;
      p = &x->next;
    }
    return first;
  }
  if (u == "region") {
    osl_region_t *first = nullptr, **p = &first;
    for (auto& e : t.c) {
      osl_region_t* x = osl_region_malloc();
      x->location = (int)e.at("location").i;
      build_text(e.at("prefix"), &x->prefix);
      build_text(e.at("suffix"), &x->suffix);
      build_text(e.at("prelude"), &x->prelude);
      build_text(e.at("postlude"), &x->postlude);
      *p = x;
      p = &x->next;
    }
    return first;
  }
  if (u == "annotation") {
    osl_annotation_t* x = osl_annotation_malloc();
    build_text(t.at("prefix"), &x->prefix);
    build_text(t.at("suffix"), &x->suffix);
    return x;
  }
  if (u == "symbols") {
    osl_symbols_t *first = nullptr, **p = &first;
    for (auto& e : t.c) {
      osl_symbols_t* x = osl_symbols_malloc();
      x->type = (int)e.at("type").i;
      x->generated = (int)e.at("generated").i;
      x->nb_dims = (int)e.at("nb_dims").i;
      x->identifier = build_generics(e.at("identifier").c);
      x->datatype = build_generics(e.at("datatype").c);
      x->scope = build_generics(e.at("scope").c);
      x->extent = build_generics(e.at("extent").c);
      *p = x;
      p = &x->next;
    }
    return first;
  }
  if (u == "dependence") {
    osl_dependence_t *first = nullptr, **p = &first;
    for (auto& e : t.c) {
      osl_dependence_t* x = osl_dependence_malloc();
      x->label_source = (int)e.at("label_source").i;
      x->label_target = (int)e.at("label_target").i;
      x->ref_source = (int)e.at("ref_source").i;
      x->ref_target = (int)e.at("ref_target").i;
      x->depth = (int)e.at("depth").i;
      x->type = (int)e.at("type").i;
      for (int i = 0; i < 8; i++) *dep8(x, i) = (int)e.at(DEP8[i]).i;
      x->domain = build(e.at("domain").u);
      *p = x;
      p = &x->next;
    }
    return first;
  }
  if (u == "irregular") {
    osl_irregular_t* x = osl_irregular_malloc();
    const vector<T>&pr = t.at("predicates").c, &st = t.at("statements").c;
    x->nb_control = (int)t.at("nb_control").i;
    x->nb_exit = (int)pr.size() - x->nb_control;
    if (!pr.empty()) {
      x->nb_iterators = (int*)malloc(sizeof(int) * pr.size());
      x->iterators = (char***)malloc(sizeof(char**) * pr.size());
      x->body = (char**)malloc(sizeof(char*) * pr.size());
    }
    for (size_t i = 0; i < pr.size(); i++) {
      const vector<T>& it = pr[i].at("iterators").c;
      x->nb_iterators[i] = (int)it.size();
      x->iterators[i] = (char**)malloc(sizeof(char*) * (it.size() ? it.size() : 1));
      for (size_t j = 0; j < it.size(); j++) x->iterators[i][j] = dup(it[j]);
      x->body[i] = dup(pr[i].at("body"));
    }
    x->nb_statements = (int)st.size();
    if (!st.empty()) {
      x->nb_predicates = (int*)malloc(sizeof(int) * st.size());
      x->predicates = (int**)malloc(sizeof(int*) * st.size());
    }
    for (size_t i = 0; i < st.size(); i++) {
      x->nb_predicates[i] = (int)st[i].c.size();
      x->predicates[i] = ints(st[i].c, nullptr);
    }
    return x;
  }
  fail("harness", "cannot build a " + u);
}

T snap_data(const string& u, const void* d) {
  if (!d) return T::nil(u);
  T t = T::list(u);
#define GUARD(n)                                                                          \
  if ((long)(n) < 0 || (long)(n) > 1000000)                                               \
    fail("size", "a " + u + " has " + std::to_string((long)(n)) + " elements in a table")
  if (u == "strings") return snap_strings(u, (osl_strings_t*)d);
  if (u == "body") return snap_body(u, (osl_body_t*)d);
  if (u == "relation") return T::rel(u, snap((osl_relation_t*)d));
  if (u == "textual") {
    t.c = {cstr("text", ((osl_textual_t*)d)->textual)};
    return t;
  }
  if (u == "comment") {
    t.c = {cstr("text", ((osl_comment_t*)d)->comment)};
    return t;
  }
  if (u == "clay") {
    t.c = {cstr("text", ((osl_clay_t*)d)->script)};
    return t;
  }
  if (u == "null") return t;
  if (u == "scatinfos") {
    auto x = (osl_scatinfos_t*)d;
    GUARD(x->nb_scatdims);
    for (size_t i = 0; i < x->nb_scatdims; i++) {
      T e = T::list("");
      e.c = {T::num("parallel", x->parallel[i]), T::num("permutable", x->permutable[i]),
             T::num("type", x->type[i])};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "scatnames") {
    t.c = {snap_strings("names", ((osl_scatnames_t*)d)->names)};
    return t;
  }
  if (u == "arrays") {
    auto x = (osl_arrays_t*)d;
    GUARD(x->nb_names);
    for (int i = 0; i < x->nb_names; i++) {
      T e = T::list("");
      e.c = {T::num("id", x->id[i]), cstr("name", x->names[i])};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "coordinates") {
    auto x = (osl_coordinates_t*)d;
    t.c = {cstr("name", x->name),
           T::num("line_start", x->line_start),
           T::num("line_end", x->line_end),
           T::num("column_start", x->column_start),
           T::num("column_end", x->column_end),
           T::num("indent", x->indent)};
    return t;
  }
  if (u == "extbody") {
    auto x = (osl_extbody_t*)d;
    GUARD(x->nb_access);
    T a = T::list("accesses");
    for (size_t i = 0; i < x->nb_access; i++) {
      T e = T::list("");
      e.c = {T::num("start", x->start[i]), T::num("length", x->length[i])};
      a.c.push_back(e);
    }
    t.c = {snap_body("body", x->body), a};
    return t;
  }
  if (u == "loop") {
    for (auto x = (osl_loop_t*)d; x; x = x->next) {
      GUARD(x->nb_stmts);
      T e = T::list(""), st = T::list("stmts");
      for (size_t i = 0; i < x->nb_stmts; i++) st.c.push_back(T::num("", x->stmt_ids[i]));
      e.c = {cstr("iter", x->iter), st, cstr("private", x->private_vars), T::num("directive", x->directive),
             cstr("user", x->user)};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "pluto_unroll") {
    for (auto x = (osl_pluto_unroll_t*)d; x; x = x->next) {
      T e = T::list("");
      e.c = {cstr("iter", x->iter), T::num("jam", x->jam), T::num("factor", x->factor)};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "region") {
    for (auto x = (osl_region_t*)d; x; x = x->next) {
      T e = T::list("");
      GUARD(x->prefix.count);
      GUARD(x->suffix.count);
      GUARD(x->prelude.count);
      GUARD(x->postlude.count);
      e.c = {T::num("location", x->location), snap_text("prefix", &x->prefix), snap_text("suffix", &x->suffix),
             snap_text("prelude", &x->prelude), snap_text("postlude", &x->postlude)};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "annotation") {
    auto x = (osl_annotation_t*)d;
    GUARD(x->prefix.count);
    GUARD(x->suffix.count);
    t.c = {snap_text("prefix", &x->prefix), snap_text("suffix", &x->suffix)};
    return t;
  }
  if (u == "symbols") {
    for (auto x = (osl_symbols_t*)d; x; x = x->next) {
      T e = T::list("");
      e.c = {T::num("type", x->type), T::num("generated", x->generated), T::num("nb_dims", x->nb_dims)};
      const char* n[4] = {"identifier", "datatype", "scope", "extent"};
      osl_generic_t* g[4] = {x->identifier, x->datatype, x->scope, x->extent};
      for (int i = 0; i < 4; i++) {
        T l = T::list(n[i]);
        l.c = snap_generics(g[i]);
        e.c.push_back(l);
      }
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "dependence") {
    for (auto x = (osl_dependence_t*)d; x; x = x->next) {
      T e = T::list("");
      e.c = {T::num("label_source", x->label_source), T::num("label_target", x->label_target),
             T::num("ref_source", x->ref_source),     T::num("ref_target", x->ref_target),
             T::num("depth", x->depth),               T::num("type", x->type)};
      for (int i = 0; i < 8; i++) e.c.push_back(T::num(DEP8[i], *dep8(x, i)));
      e.c.push_back(T::rel("domain", snap(x->domain)));
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "irregular") {
    auto x = (osl_irregular_t*)d;
    T pr = T::list("predicates"), st = T::list("statements");
    GUARD(x->nb_control);
    GUARD(x->nb_exit);
    GUARD(x->nb_statements);
    for (int i = 0; i < x->nb_control + x->nb_exit; i++) {
      T e = T::list(""), it = T::list("iterators");
      GUARD(x->nb_iterators[i]);
      for (int j = 0; j < x->nb_iterators[i]; j++) it.c.push_back(cstr("", x->iterators[i][j]));
      e.c = {it, cstr("body", x->body[i])};
      pr.c.push_back(e);
    }
    for (int i = 0; i < x->nb_statements; i++) {
      T e = T::list("");
      GUARD(x->nb_predicates[i]);
      for (int j = 0; j < x->nb_predicates[i]; j++) e.c.push_back(T::num("", x->predicates[i][j]));
      st.c.push_back(e);
    }
    t.c = {T::num("nb_control", x->nb_control), pr, st};
    return t;
  }
  fail("harness", "cannot read a " + u);
}
osl_generic_t* build_generic(const T& t) {
  osl_generic_t* g = osl_generic_malloc();
  g->interface = ext_interface(t.name);
  g->data = build_data(t);
  g->next = nullptr;
  return g;
}
osl_generic_t* build_generics(const vector<T>& v) {
  osl_generic_t *first = nullptr, **p = &first;
  for (auto& t : v) {
    *p = build_generic(t);
    p = &(*p)->next;
  }
  return first;
}
vector<T> snap_generics(const osl_generic_t* g) {
  vector<T> v;
  for (; g; g = g->next) {
    if (!g->interface || !g->interface->URI) fail("interface", "a generic has no interface");
    v.push_back(snap_data(g->interface->URI, g->data));
    if (v.size() > 100000) fail("cycle", "a list of generics does not end");
  }
  return v;
}

// ------------------------------------------------------------------ generation
static size_t word_len(Src& s, bool big) {
  if (big && s.pct(2)) return 1900 + s.below(400);
  if (s.pct(big ? 6 : 2)) return 60 + s.below(400);
  return 1 + s.small(9);
}
string gen_ident(Src& s, bool big) {
  static const char a[] = "abcijkNMPxyzABC_", b[] = "ijk0123456789_abcNXYZ";
  size_t n = word_len(s, big);
  string r(1, a[s.below(sizeof a - 1)]);
  while (r.size() < n) r += b[r.size() < 12 ? s.below(sizeof b - 1) : r.size() % (sizeof b - 1)];
  return r;
}
string gen_word(Src& s, bool big) {
  static const char b[] = "abijN0123456789_+-*/[](){}=<>.,;:!?&|^%$~'\"\\@";
  if (s.pct(60)) return gen_ident(s, big);
  size_t n = word_len(s, big);
  string r;
  while (r.size() < n) r += b[r.size() < 12 ? s.below(sizeof b - 1) : r.size() % (sizeof b - 1)];
  return r;
}
string gen_line(Src& s, bool big) {
  string r = gen_word(s, big);
  int n = s.sized(4, 40);
  for (int i = 0; i < n; i++) {
    r += s.pct(15) ? (s.flip() ? "  " : "\t") : " ";
    r += gen_word(s, big);
  }
  return r;
}
static string gen_text(Src& s, const GExt& g) {  // free text of several lines
  string r;
  int n = g.big && s.pct(5) ? 20 + (int)s.below(60) : s.sized(4, 30);
  for (int i = 0; i < n; i++) {
    string l = gen_line(s, g.big);
    if (s.pct(20)) l = "# " + l;
    if (s.pct(15)) l = "  " + l;
    if (s.pct(10)) l = "";
    r += l;
    if (i + 1 < n || s.pct(70)) r += "\n";
  }
  // the end tags of the format may not appear in a text
  for (size_t p; (p = r.find("</")) != string::npos;) r.erase(p, 1);
  return r;
}
T gen_strings(Src& s, const string& name, int mn, int mx, bool ident, bool big) {
  T t = T::list(name);
  int n = big && s.pct(5) ? mn + 40 + (int)s.below(60) : mn + s.sized(mx - mn, 40);
  for (int i = 0; i < n; i++) t.c.push_back(T::str("", ident ? gen_ident(s, big) : gen_word(s, big)));
  return t;
}
static T opt(Src& s, const GExt& g, const T& t) {
  if (g.nil && s.pct(8)) return T::nil(t.name);
  return t;
}
static int anyint(Src& s) {
  switch (s.below(5)) {
    case 0:
      return s.range(0, 3);
    case 1:
      return s.range(0, 40) - 20;
    case 2:
      return (int)s.below(100000);
    case 3:
      return s.flip() ? 1 : 0;
    default:
      return s.pct(20) ? (s.flip() ? INT_MAX : INT_MIN) : -(int)s.below(2000);
  }
}
static int listlen(Src& s, const GExt& g, int mx) { return g.big && s.pct(4) ? 30 + (int)s.below(200) : s.sized(mx, 40); }
static T gen_body(Src& s, const string& name, const GExt& g) {
  T t = T::list(name), e = T::list("expression");
  T it = gen_strings(s, "iterators", 0, 4, true, g.big);
  int ne = g.readable ? 1 : s.sized(2, 20);
  for (int i = 0; i < ne; i++) e.c.push_back(T::str("", gen_line(s, g.big)));
  if (it.c.empty() && !g.readable && s.flip()) it = T::nil("iterators");
  t.c = {g.readable ? it : opt(s, g, it), g.readable ? e : opt(s, g, e)};
  return t;
}
static T gen_typed_lines(Src& s, const string& name, const GExt& g) {
  T t = T::list(name);
  int n = g.big && s.pct(3) ? 40 : s.sized(3, 30);
  for (int i = 0; i < n; i++) {
    T e = T::list("");
    e.c = {T::num("type", anyint(s)), T::str("line", gen_line(s, g.big))};
    t.c.push_back(e);
  }
  return t;
}
static MUnion gen_ext_rel(Src& s, const GExt& g, int maxparts) {
  GRel r;
  r.wide = g.wide && s.pct(30);
  MUnion u = gen_any_union(s, g.prec, r, maxparts);
  for (auto& p : u) {
    // one type for the whole union; ACCESS (the generic one) has no text form
    if (p.type == OSL_TYPE_ACCESS && g.readable) p.type = OSL_TYPE_READ;
    if (g.readable) p.type = u[0].type;
    tame(p);
  }
  return u;
}
T gen_ext(Src& s, const string& u, const GExt& g) {
  T t = T::list(u);
  if (g.nil && s.pct(4)) return T::nil(u);
  if (u == "strings") return gen_strings(s, u, g.readable ? 1 : 0, 6, false, g.big);
  if (u == "body") return gen_body(s, u, g);
  if (u == "relation") return T::rel(u, gen_ext_rel(s, g, 3));
  if (u == "null") return t;
  if (u == "comment" || u == "clay" || u == "textual") {
    string x = gen_text(s, g);
    if (u == "clay" && g.readable)
      while (!x.empty() && x[0] == '\n') x.erase(0, 1);
    t.c = {opt(s, g, T::str("text", x))};
    return t;
  }
  if (u == "scatinfos") {
    int n = listlen(s, g, 5);
    for (int i = 0; i < n; i++) {
      T e = T::list("");
      e.c = {T::num("parallel", anyint(s)), T::num("permutable", anyint(s)), T::num("type", anyint(s))};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "scatnames") {
    t.c = {opt(s, g, gen_strings(s, "names", g.readable ? 1 : 0, 5, false, g.big))};
    return t;
  }
  if (u == "arrays") {
    int n = listlen(s, g, 5), id = 0;
    bool dup = s.pct(10);
    for (int i = 0; i < n; i++) {
      T e = T::list("");
      id += 1 + s.small(3);
      e.c = {T::num("id", dup ? 1 + (int)s.below(4) : id), T::str("name", gen_ident(s, g.big))};
      t.c.push_back(e);
    }
    for (int i = n - 1; i > 0; i--)  // any order
      if (s.pct(30)) std::swap(t.c[i], t.c[s.below(i + 1)]);
    return t;
  }
  if (u == "coordinates") {
    t.c = {opt(s, g, T::str("name", gen_line(s, g.big))),
           T::num("line_start", anyint(s)),
           T::num("line_end", anyint(s)),
           T::num("column_start", anyint(s)),
           T::num("column_end", anyint(s)),
           T::num("indent", anyint(s))};
    return t;
  }
  if (u == "extbody") {
    T a = T::list("accesses");
    int n = listlen(s, g, 4);
    for (int i = 0; i < n; i++) {
      T e = T::list("");
      e.c = {T::num("start", anyint(s)), T::num("length", anyint(s))};
      a.c.push_back(e);
    }
    t.c = {opt(s, g, gen_body(s, "body", g)), a};
    return t;
  }
  if (u == "loop") {
    int n = 1 + listlen(s, g, 3);
    for (int i = 0; i < n; i++) {
      T e = T::list(""), st = T::list("stmts");
      int m = s.sized(4, 60);
      for (int j = 0; j < m; j++) st.c.push_back(T::num("", anyint(s)));
      T pv = s.pct(30) ? T::nil("private") : T::str("private", gen_line(s, g.big));
      bool user = s.pct(40);
      int dir = s.range(0, 7) + (user ? 8 : 0);
      if (s.pct(5)) dir += 16 * (int)s.below(10);
      T us = user && s.pct(85) ? T::str("user", gen_line(s, g.big)) : T::nil("user");
      e.c = {opt(s, g, T::str("iter", gen_word(s, g.big))), st, pv, T::num("directive", dir), us};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "pluto_unroll") {
    int n = 1 + listlen(s, g, 3);
    for (int i = 0; i < n; i++) {
      T e = T::list("");
      e.c = {opt(s, g, T::str("iter", gen_line(s, g.big))), T::num("jam", s.flip()),
             T::num("factor", s.pct(8) ? (s.flip() ? (long)UINT_MAX - s.below(3) : (long)INT_MAX + s.below(2)) : (long)s.below(40))};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "region") {
    int n = 1 + listlen(s, g, 2);
    for (int i = 0; i < n; i++) {
      T e = T::list("");
      e.c = {T::num("location", anyint(s)), gen_typed_lines(s, "prefix", g), gen_typed_lines(s, "suffix", g),
             gen_typed_lines(s, "prelude", g), gen_typed_lines(s, "postlude", g)};
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "annotation") {
    t.c = {gen_typed_lines(s, "prefix", g), gen_typed_lines(s, "suffix", g)};
    return t;
  }
  if (u == "symbols") {
    static const int ty[] = {OSL_SYMBOL_TYPE_ITERATOR, OSL_SYMBOL_TYPE_PARAMETER, OSL_SYMBOL_TYPE_ARRAY,
                             OSL_SYMBOL_TYPE_FUNCTION, OSL_UNDEFINED};
    int n = 1 + listlen(s, g, 2);
    for (int i = 0; i < n; i++) {
      T e = T::list("");
      int kind = ty[s.below(5)];
      if (!g.readable && s.pct(8)) kind = anyint(s);
      e.c = {T::num("type", kind), T::num("generated", anyint(s)), T::num("nb_dims", anyint(s))};
      for (const char* nm : {"identifier", "datatype", "scope", "extent"}) {
        T l = T::list(nm);
        switch (s.below(5)) {
          case 0:
            l.c.push_back(T::list("null"));
            break;
          case 1:
          case 2:
            l.c.push_back(gen_strings(s, "strings", 1, 3, false, g.big));
            break;
          case 3:
            l.c.push_back(T::rel("relation", gen_ext_rel(s, g, 2)));
            break;
          default:
            if (!g.readable) {
              if (s.flip()) l.c.push_back(gen_ext(s, "arrays", g));
              if (s.flip()) l.c.push_back(gen_strings(s, "strings", 0, 2, false, g.big));
            } else
              l.c.push_back(gen_ext(s, s.flip() ? "comment" : "arrays", g));
        }
        e.c.push_back(l);
      }
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "dependence") {
    static const int ty[] = {OSL_DEPENDENCE_RAW, OSL_DEPENDENCE_WAR, OSL_DEPENDENCE_WAW, OSL_DEPENDENCE_RAR,
                             OSL_DEPENDENCE_RAW_SCALPRIV, OSL_UNDEFINED};
    int n = 1 + s.sized(3, 20);
    if (g.big && s.pct(3)) n += 20;
    for (int i = 0; i < n; i++) {
      T e = T::list("");
      e.c = {T::num("label_source", anyint(s)), T::num("label_target", anyint(s)),
             T::num("ref_source", anyint(s)),   T::num("ref_target", anyint(s)),
             T::num("depth", anyint(s)),        T::num("type", ty[s.below(6)])};
      for (int j = 0; j < 8; j++) e.c.push_back(T::num(DEP8[j], anyint(s)));
      e.c.push_back(T::rel("domain", gen_ext_rel(s, g, 2)));
      t.c.push_back(e);
    }
    return t;
  }
  if (u == "irregular") {
    T pr = T::list("predicates"), st = T::list("statements");
    int n = s.sized(4, 20), m = s.sized(3, 20);
    for (int i = 0; i < n; i++) {
      T e = T::list("");
      e.c = {gen_strings(s, "iterators", 0, 3, true, g.big), T::str("body", gen_line(s, g.big))};
      pr.c.push_back(e);
    }
    for (int i = 0; i < m; i++) {
      T e = T::list("");
      int k = n ? s.sized(3, 20) : 0;
      for (int j = 0; j < k; j++) e.c.push_back(T::num("", (int)s.below(n)));
      st.c.push_back(e);
    }
    t.c = {T::num("nb_control", n ? (int)s.below(n + 1) : 0), pr, st};
    return t;
  }
  fail("harness", "cannot generate a " + u);
}
vector<T> gen_exts(Src& s, const vector<string>& uris, int maxn, const GExt& g) {
  vector<T> v;
  vector<string> left = uris;
  int n = s.small(maxn);
  for (int i = 0; i < n && !left.empty(); i++) {
    size_t k = s.below((uint32_t)left.size());
    v.push_back(gen_ext(s, left[k], g));
    left.erase(left.begin() + k);
  }
  return v;
}

// ------------------------------------------------------------------ mutation
static void places(T& t, vector<T*>& v) {
  if (t.k == T::INT || t.k == T::STR || t.k == T::REL) v.push_back(&t);
  if (t.k == T::LIST) {
    bool elements = true;  // a list of unnamed elements
    for (auto& e : t.c)
      if (!e.name.empty()) elements = false;
    if (elements && t.name != "null") v.push_back(&t);
    for (auto& e : t.c) places(e, v);
  }
}
string mutate(Src& s, T& t) {
  vector<T*> v;
  places(t, v);
  if (v.empty()) return "";
  T& x = *v[s.below((uint32_t)v.size())];
  string where = x.name.empty() ? "an element" : x.name;
  switch (x.k) {
    case T::INT:
      if (x.name == "jam") {
        x.i = !x.i;
      } else if (x.name == "type" && t.name == "symbols") {
        x.i = x.i == OSL_SYMBOL_TYPE_ARRAY ? OSL_SYMBOL_TYPE_PARAMETER : OSL_SYMBOL_TYPE_ARRAY;
      } else if (x.name == "type" && t.name == "dependence") {
        x.i = x.i == OSL_DEPENDENCE_RAW ? OSL_DEPENDENCE_WAR : OSL_DEPENDENCE_RAW;
      } else if (x.name == "nb_control") {
        long n = (long)t.at("predicates").c.size();
        if (!n) return "";
        x.i = x.i ? x.i - 1 : 1;
      } else {
        long d = s.flip() ? 1 : -1;
        if (x.i == INT_MAX) d = -1;
        if (x.i == INT_MIN) d = 1;
        if (x.name == "factor") d = x.i == 0 ? 1 : -1;
        x.i += d;
      }
      return "value of " + where;
    case T::STR: {
      size_t p = s.below((uint32_t)x.s.size() + 1);
      if (!x.s.empty() && p < x.s.size() && s.flip()) {
        x.s[p] = x.s[p] == 'q' ? 'r' : 'q';
        return "a character of " + where;
      }
      x.s.insert(p, "q");
      return "one more character in " + where;
    }
    case T::REL: {
      if (x.u.empty()) return "";
      MRel& r = x.u[s.below((uint32_t)x.u.size())];
      switch (s.below(8)) {
        case 0:
          r.out++;
          return "output dimensions of a relation";
        case 1:
          r.in++;
          return "input dimensions of a relation";
        case 2:
          r.params++;
          return "parameters of a relation";
        case 3:
          r.local++;
          return "local dimensions of a relation";
        case 4:
          r.type = r.type == OSL_TYPE_READ ? OSL_TYPE_WRITE : OSL_TYPE_READ;
          return "type of a relation";
        case 5:
          x.u.push_back(r);
          return "one more part of a relation";
        default: {
          if (!r.rows || !r.cols) return "";
          Z& z = r.m[s.below(r.rows)][s.below(r.cols)];
          Z old = z;
          z += 1;
          if (!fits_prec(r.prec, z)) z = old - 1;
          return "a coefficient";
        }
      }
    }
    default: {
      if (x.c.empty()) {
        if (x.name == "strings" || x.name == "iterators" || x.name == "names" || x.name == "expression") {
          x.c.push_back(T::str("", "q"));
          return "one more element in " + where;
        }
        return "";
      }
      if (s.flip()) {
        x.c.erase(x.c.begin() + s.below((uint32_t)x.c.size()));
        return "one element less in " + where;
      }
      if (x.c.size() >= 2 && s.flip()) {
        size_t a = s.below((uint32_t)x.c.size() - 1);
        if (x.c[a] == x.c[a + 1]) return "";
        std::swap(x.c[a], x.c[a + 1]);
        return "order of " + where;
      }
      x.c.push_back(x.c[s.below((uint32_t)x.c.size())]);
      return "one more element in " + where;
    }
  }
}
