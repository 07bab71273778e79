#include <climits>

#include "scop.h"

#include <algorithm>

using namespace pbt;
using std::string;
using std::vector;

const vector<string> DEFAULT_REGISTRY = {"strings",   "body",      "relation",    "textual", "comment",
                                         "null",      "scatinfos", "scatnames",   "arrays",  "coordinates",
                                         "clay",      "dependence", "symbols",    "extbody", "loop",
                                         "pluto_unroll", "region", "annotation"};

T tree(const MStmt& m) {
  T t = T::list("statement"), a = T::list("accesses"), e = T::list("extensions");
  for (auto& u : m.acc) a.c.push_back(T::rel("", u));
  e.c = m.ext;
  t.c = {T::rel("domain", m.dom), T::rel("scattering", m.scat), a, e};
  return t;
}
T tree(const vector<MStmt>& v) {
  T t = T::list("statements");
  for (auto& m : v) t.c.push_back(tree(m));
  return t;
}
T tree(const MScop& m) {
  T t = T::list("scop"), p = T::list("parameters"), e = T::list("extensions"), r = T::list("registry");
  p.c = m.params;
  e.c = m.ext;
  for (auto& s : m.registry) r.c.push_back(T::str("", s));
  t.c = {T::num("version", m.version), m.language, T::rel("context", m.ctx), p, tree(m.stmts), e, r};
  return t;
}
T tree(const MScops& v) {
  T t = T::list("scops");
  for (auto& m : v) t.c.push_back(tree(m));
  return t;
}

// ------------------------------------------------------------------ library objects
osl_relation_list_t* build_list(const vector<MUnion>& v) {
  osl_relation_list_t *first = nullptr, **p = &first;
  for (auto& u : v) {
    osl_relation_list_t* n = osl_relation_list_malloc();
    n->elt = build(u);
    n->next = nullptr;
    *p = n;
    p = &n->next;
  }
  return first;
}
vector<MUnion> snap_list(const osl_relation_list_t* l) {
  vector<MUnion> v;
  for (; l; l = l->next) {
    v.push_back(snap(l->elt));
    if (v.size() > 100000) fail("cycle", "a relation list does not end");
  }
  return v;
}
osl_statement_t* build(const MStmt& m) {
  osl_statement_t* s = osl_statement_malloc();
  s->domain = build(m.dom);
  s->scattering = build(m.scat);
  s->access = build_list(m.acc);
  s->extension = build_generics(m.ext);
  s->next = nullptr;
  return s;
}
osl_statement_t* build(const vector<MStmt>& v) {
  osl_statement_t *first = nullptr, **p = &first;
  for (auto& m : v) {
    *p = build(m);
    p = &(*p)->next;
  }
  return first;
}
osl_interface_t* build_registry(const vector<string>& v) {
  osl_interface_t *first = nullptr, **p = &first;
  for (auto& u : v) {
    *p = ext_interface(u);
    p = &(*p)->next;
  }
  return first;
}
vector<string> snap_registry(const osl_interface_t* i) {
  vector<string> v;
  for (; i; i = i->next) v.push_back(i->URI ? i->URI : "(none)");
  return v;
}
osl_scop_t* build(const MScops& v) {
  osl_scop_t *first = nullptr, **p = &first;
  for (auto& m : v) {
    osl_scop_t* s = osl_scop_malloc();
    s->version = m.version;
    s->language = nullptr;
    if (m.language.k == T::STR) {
      s->language = (char*)malloc(m.language.s.size() + 1);
      strcpy(s->language, m.language.s.c_str());
    }
    s->context = build(m.ctx);
    s->parameters = build_generics(m.params);
    s->statement = build(m.stmts);
    s->registry = build_registry(m.registry);
    s->extension = build_generics(m.ext);
    *p = s;
    p = &s->next;
  }
  return first;
}
vector<MStmt> snap(const osl_statement_t* s) {
  vector<MStmt> v;
  for (; s; s = s->next) {
    MStmt m;
    m.dom = snap(s->domain);
    m.scat = snap(s->scattering);
    m.acc = snap_list(s->access);
    m.ext = snap_generics(s->extension);
    v.push_back(m);
    if (v.size() > 100000) fail("cycle", "a list of statements does not end");
  }
  return v;
}
MScops snap(const osl_scop_t* s) {
  MScops v;
  for (; s; s = s->next) {
    MScop m;
    m.version = s->version;
    if (s->language) m.language = T::str("language", s->language);
    m.ctx = snap(s->context);
    m.params = snap_generics(s->parameters);
    m.stmts = snap(s->statement);
    m.ext = snap_generics(s->extension);
    m.registry = snap_registry(s->registry);
    v.push_back(m);
    if (v.size() > 100000) fail("cycle", "a list of scops does not end");
  }
  return v;
}

// ------------------------------------------------------------------ generation
MRel gen_access(Src& s, int prec, int type, int id, int dims, int in, int local, int params, bool wide) {
  // one row for the array, then any number of rows about the dimensions
  int extra = s.pct(25) ? (int)s.small(2) : 0;
  MRel r = blank(prec, 1 + dims + extra, 1 + dims + in + local + params + 2);
  r.type = type;
  r.out = 1 + dims;
  r.in = in;
  r.local = local;
  r.params = params;
  int k = s.pct(20) ? s.range(0, 4) - 2 : -1;  // the coefficient of the array column
  if (!k) k = -1;
  r.m[0][1] = k;
  r.m[0][r.cols - 1] = Z(-k) * id;
  for (int i = 1; i < r.rows; i++) {
    if (i <= dims) {
      r.m[i][1 + i] = -1;
      if (s.pct(10)) {
        r.m[i][1 + i] = gen_coef(s, prec, wide);
        r.m[i][0] = s.flip();
      }
    } else {
      r.m[i][0] = s.flip();
      for (int j = 2; j <= 1 + dims; j++) r.m[i][j] = gen_coef(s, prec, wide);
    }
    for (int j = 2 + dims; j < r.cols; j++) r.m[i][j] = gen_coef(s, prec, wide);
  }
  tame(r);
  if (r.rows > 1 && s.pct(30)) std::swap(r.m[0], r.m[s.below(r.rows)]);
  return r;
}
static MRel gen_scat(Src& s, int prec, int out, int in, int local, int params, bool wide) {
  MRel r = gen_rel(s, prec, OSL_TYPE_SCATTERING, out, in, local, params, out + (s.pct(15) ? 1 : 0), wide);
  for (int i = 0; i < r.rows; i++) {
    if (s.pct(15)) continue;
    r.m[i][0] = 0;
    for (int j = 0; j < out; j++) r.m[i][1 + j] = i == j ? -1 : 0;
  }
  return r;
}
bool shaped(const MUnion& u) {
  for (auto& r : u)
    if (r.out < 0 || r.in < 0 || r.local < 0 || r.params < 0 || r.cols != 2 + r.out + r.in + r.local + r.params) return false;
  return true;
}
bool shaped(const MStmt& m) {
  for (auto& u : m.acc)
    if (!shaped(u)) return false;
  return shaped(m.dom) && shaped(m.scat);
}
bool shaped(const MScops& v) {
  for (auto& m : v) {
    if (!shaped(m.ctx)) return false;
    for (auto& x : m.stmts)
      if (!shaped(x)) return false;
  }
  return true;
}
static void undefine(Src& s, const GScop& g, MUnion& u) {
  if (!g.undef) return;
  for (auto& r : u)
    if (s.pct(6)) {
      int k = s.below(16);
      if (k & 1) r.out = OSL_UNDEFINED;
      if (k & 2) r.in = OSL_UNDEFINED;
      if (k & 4) r.local = OSL_UNDEFINED;
      if (k & 8) r.params = OSL_UNDEFINED;
      if (s.pct(20)) r.type = OSL_UNDEFINED;
    }
}
MStmt gen_stmt(Src& s, const GScop& g, int np) {
  MStmt m;
  int prec = g.e.prec;
  int d = s.sized(g.maxdepth, 8);
  bool wide = g.e.wide && s.pct(20);
  auto loc = [&] { return g.locals && s.pct(25) ? 1 + s.small(1) : 0; };
  auto parts = [&] { return g.unions && s.pct(30) ? 1 + s.sized(g.maxparts - 1, 12) : 1; };
  auto jig = [&](int v) { return g.loose && s.pct(20) ? s.small(3) : v; };
  if (!(g.absent && s.pct(8)))
    for (int n = parts(); n > 0; n--)
      m.dom.push_back(gen_rel(s, prec, OSL_TYPE_DOMAIN, jig(d), g.loose ? jig(0) : 0, loc(), jig(np), s.sized(5, 40), wide));
  int so = s.small(2 * g.maxdepth + 1);
  if (g.samescat) so = 2 * g.maxdepth + 1;
  if (!(g.absent && s.pct(8)))
    for (int n = parts(); n > 0; n--) {
      int o = g.samescat || s.pct(75) ? so : s.small(2 * g.maxdepth + 1);
      m.scat.push_back(gen_scat(s, prec, jig(o), jig(d), loc(), jig(np), wide));
    }
  int na = s.sized(g.maxacc, 25);
  static const int ty[] = {OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
  for (int i = 0; i < na; i++) {
    MUnion u;
    int type = ty[s.below(3)], id = 1 + s.sized(5, 150), dims = s.sized(3, 8);
    for (int n = parts(); n > 0; n--) {
      if (g.loose && s.pct(20))
        u.push_back(gen_rel(s, prec, type, s.small(3), jig(d), loc(), jig(np), s.small(3), wide));
      else
        u.push_back(gen_access(s, prec, type, id, s.pct(80) ? dims : (int)s.small(3), jig(d), loc(), jig(np), wide));
    }
    undefine(s, g, u);
    m.acc.push_back(u);
  }
  undefine(s, g, m.dom);
  undefine(s, g, m.scat);
  if (g.bodies && s.pct(75)) {
    T b = T::list("body"), e = T::list("expression"), it = gen_strings(s, "iterators", d, d, true, g.e.big);
    if (g.loose && s.pct(20)) it = gen_strings(s, "iterators", 0, 4, true, g.e.big);
    std::vector<T> uniq;
    for (auto& x : it.c) {  // distinct names
      T y = x;
      y.s += std::to_string(uniq.size());
      uniq.push_back(y);
    }
    it.c = uniq;
    e.c.push_back(T::str("", gen_line(s, g.e.big)));
    b.c = {it, e};
    m.ext.push_back(b);
  }
  if (g.exts && s.pct(25)) {
    vector<string> uris;
    for (auto& u : (g.e.readable ? EXT_READABLE : EXT_URIS))
      if (u != "body") uris.push_back(u);
    auto x = gen_exts(s, uris, s.pct(4) ? 15 : 3, g.e);
    if (s.flip())
      m.ext.insert(m.ext.begin(), x.begin(), x.end());
    else
      m.ext.insert(m.ext.end(), x.begin(), x.end());
  }
  return m;
}
MScop gen_scop(Src& s, const GScop& g) {
  MScop m;
  m.registry = DEFAULT_REGISTRY;
  static const char* lang[] = {"C", "FORTRAN", "JAVA", "C++", "c_99"};
  m.language = T::str("language", lang[s.below(5)]);
  int np = s.sized(g.maxparams, 20);
  auto jig = [&](int v) { return g.loose && s.pct(20) ? s.small(3) : v; };
  int parts = g.unions && s.pct(10) ? 2 : 1;
  while (parts--) {
    MRel r = gen_rel(s, g.e.prec, OSL_TYPE_CONTEXT, g.loose ? jig(0) : 0, g.loose ? jig(0) : 0,
                     g.locals && s.pct(10) ? 1 : 0, jig(np), s.small(3), g.e.wide && s.pct(20));
    m.ctx.push_back(r);
  }
  undefine(s, g, m.ctx);
  if (np && s.pct(70)) {
    T p = gen_strings(s, "strings", np, np, true, g.e.big);
    for (size_t i = 0; i < p.c.size(); i++) p.c[i].s += "_" + std::to_string(i);
    if (g.loose && s.pct(20)) p.c.pop_back();
    if (!p.c.empty()) m.params.push_back(p);
  }
  int n = s.sized(g.maxstmts, 15);
  for (int i = 0; i < n; i++) m.stmts.push_back(gen_stmt(s, g, np));
  if (g.exts && s.pct(60)) {
    vector<string> uris;
    for (auto& u : (g.e.readable ? EXT_READABLE : EXT_URIS)) uris.push_back(u);
    m.ext = gen_exts(s, uris, s.pct(10) ? 12 : 3, g.e);
  }
  return m;
}
MScops gen_scops(Src& s, const GScop& g) {
  MScops v;
  int n = 1 + (s.pct(30) ? s.sized(g.maxscops, 8) : 0);
  for (int i = 0; i < n; i++) v.push_back(gen_scop(s, g));
  return v;
}

// ------------------------------------------------------------------ writer
static string comment_text(Src& s) {
  static const char* c[] = {"#", "# comment", "#  7 8 9", "# <OpenSco", "## i >= 0", "# DOMAIN", "#\t# 1"};
  if (s.pct(2)) {
    string r = "# long";
    r.append(1500 + s.below(3000), 'x');
    return r + " 5 5";
  }
  return c[s.below(7)];
}
static string blanks(Src& s) {
  static const char* c[] = {" ", "  ", "\t", "      ", " \t "};
  return c[s.below(5)];
}
void Layout::gap() {
  while (roll(30)) {
    if (roll(30)) o += blanks(*s);
    if (s->flip()) o += comment_text(*s);
    o += "\n";
  }
}
void Layout::line(const string& x, bool comment) {
  gap();
  if (roll(30)) o += blanks(*s);
  o += x;
  if (comment) {
    if (roll(20)) o += blanks(*s);
    if (roll(20)) o += (s->flip() ? "" : " ") + comment_text(*s);
  }
  o += "\n";
}
void Layout::words(const vector<string>& v) {
  for (size_t i = 0; i < v.size(); i++) {
    if (i + 1 < v.size() && roll(40)) {
      gap();
      if (roll(30)) o += blanks(*s);
      o += v[i] + " ";
      if (roll(30)) o += blanks(*s);
    } else
      line(v[i]);
  }
}
static const char* typeword(int t) {
  switch (t) {
    case OSL_TYPE_CONTEXT:
      return "CONTEXT";
    case OSL_TYPE_DOMAIN:
      return "DOMAIN";
    case OSL_TYPE_SCATTERING:
      return "SCATTERING";
    case OSL_TYPE_READ:
      return "READ";
    case OSL_TYPE_WRITE:
      return "WRITE";
    case OSL_TYPE_MAY_WRITE:
      return "MAY_WRITE";
    default:
      return "UNDEFINED";
  }
}
static string num(Layout& l, const Z& z) {
  string s = z.get_str();
  if (l.roll(50)) {
    size_t w = l.s->below(12);
    if (s.size() < w) s = string(w - s.size(), ' ') + s;
  }
  return s;
}
static void emit_parts(const MUnion& u, Layout& l) {
  if (u.size() > 1 || l.roll(20)) l.line(std::to_string(u.size()));
  for (auto& r : u) {
    string a;
    for (int v : {r.rows, r.cols, r.out, r.in, r.local, r.params}) {
      if (!a.empty()) a += l.roll(20) ? blanks(*l.s) : " ";
      a += num(l, v);
    }
    l.line(a);
    for (auto& row : r.m) {
      string t;
      for (auto& z : row) {
        if (!t.empty()) t += l.roll(20) ? blanks(*l.s) : " ";
        t += num(l, z);
      }
      if (!row.empty()) l.line(t);
    }
  }
}
void emit_relation(const MUnion& u, Layout& l) {
  l.line(typeword(u[0].type));
  emit_parts(u, l);
}
static void emit_generic(const T& t, Layout& l) {
  l.line("<" + t.name + ">", false);
  l.o += ext_text(t, l);
  if (t.name != "comment" && t.name != "clay" && l.roll(20)) l.o += blanks(*l.s);
  l.o += "</" + t.name + ">\n";
}
static string joined(const vector<T>& v) {
  string r;
  for (auto& x : v) r += (r.empty() ? "" : " ") + x.s;
  return r;
}
static string joined(Layout& l, const vector<T>& v) {
  string r;
  for (auto& x : v) r += (r.empty() ? "" : l.roll(30) ? blanks(*l.s) : " ") + x.s;
  return r;
}
NumberHook ext_number;
string ext_text(const T& t, Layout& outer) {
  Layout l;
  l.s = outer.s;
  l.noise = outer.noise;
  const string& u = t.name;
  auto I = [](long v) { return ext_number.count++ == ext_number.at ? ext_number.word : std::to_string(v); };
  auto N = [&](long v) {
    if (ext_number.list) ext_number.counts.push_back(ext_number.count);
    return I(v);
  };
  auto body = [&](const T& b) {
    const T& it = b.at("iterators");
    l.line(N((long)it.c.size()));
    if (!it.c.empty()) l.line(joined(l, it.c));
    l.line(joined(b.at("expression").c), false);
  };
  auto texts = [&](const T& x) {
    l.line(N((long)x.c.size()));
    for (auto& e : x.c) {
      l.words({I(e.at("type").i)});
      l.line(e.at("line").s, false);
    }
  };
  if (t.k == T::NIL) return "";
  if (u == "strings")
    l.line(joined(l, t.c));
  else if (u == "body")
    body(t);
  else if (u == "relation")
    emit_relation(t.u, l);
  else if (u == "comment" || u == "clay")
    return t.at("text").s;
  else if (u == "null") {  // whatever is there is ignored
    while (l.s && l.roll(50)) l.o += gen_line(*l.s, false) + "\n";
  } else if (u == "scatinfos") {
    vector<string> w = {N((long)t.c.size())};
    for (const char* f : {"parallel", "permutable", "type"})
      for (auto& e : t.c) w.push_back(I(e.at(f).i));
    l.words(w);
  } else if (u == "scatnames")
    l.line(joined(l, t.at("names").c));
  else if (u == "arrays") {
    vector<string> w = {N((long)t.c.size())};
    for (auto& e : t.c) {
      w.push_back(I(e.at("id").i));
      w.push_back(e.at("name").s);
    }
    l.words(w);
  } else if (u == "coordinates") {
    l.line(t.at("name").s, false);
    l.words({I(t.at("line_start").i), I(t.at("column_start").i), I(t.at("line_end").i), I(t.at("column_end").i),
             I(t.at("indent").i)});
  } else if (u == "extbody") {
    vector<string> w = {N((long)t.at("accesses").c.size())};
    for (auto& e : t.at("accesses").c) {
      w.push_back(I(e.at("start").i));
      w.push_back(I(e.at("length").i));
    }
    l.words(w);
    body(t.at("body"));
  } else if (u == "loop") {
    l.words({N((long)t.c.size())});
    for (auto& e : t.c) {
      vector<string> w = {e.at("iter").s, N((long)e.at("stmts").c.size())};
      for (auto& x : e.at("stmts").c) w.push_back(I(x.i));
      l.words(w);
      l.line(e.at("private").k == T::NIL ? "(null)" : e.at("private").s, false);
      l.words({I(e.at("directive").i)});
      if (e.at("directive").i & 8) l.line(e.at("user").k == T::NIL ? "(null)" : e.at("user").s, false);
    }
  } else if (u == "pluto_unroll") {
    for (auto& e : t.c) {
      l.words({"1"});
      l.line(e.at("iter").s, false);
      l.words({I(e.at("jam").i), I(e.at("factor").i)});
    }
    l.words({"0"});
  } else if (u == "region") {
    l.words({N((long)t.c.size())});
    for (auto& e : t.c) {
      l.words({I(e.at("location").i)});
      for (const char* f : {"prefix", "suffix", "prelude", "postlude"}) texts(e.at(f));
    }
  } else if (u == "annotation") {
    texts(t.at("prefix"));
    texts(t.at("suffix"));
  } else if (u == "symbols") {
    static const char* ty[] = {"Undefined", "Iterator", "Parameter", "Array", "Function"};
    l.words({N((long)t.c.size())});
    for (auto& e : t.c) {
      long k = e.at("type").i;
      l.words({k >= 1 && k <= 4 ? ty[k] : ty[0], I(e.at("generated").i), I(e.at("nb_dims").i)});
      for (const char* f : {"identifier", "datatype", "scope", "extent"})
        for (auto& x : e.at(f).c) emit_generic(x, l);
    }
  } else if (u == "dependence") {
    static const char* ty[] = {"UNSET", "RAW", "WAR", "WAW", "RAR", "RAW_SCALPRIV"};
    l.words({N((long)t.c.size())});
    for (auto& e : t.c) {
      long k = e.at("type").i;
      vector<string> w = {ty[k >= 1 && k <= 5 ? k : 0]};
      for (const char* f : {"label_source", "label_target", "depth", "ref_source", "ref_target"})
        w.push_back(I(e.at(f).i));
      l.words(w);
      string x;
      for (int i = 0; i < 8; i++) x += (i ? " " : "") + I(e.c[6 + i].i);
      l.line(x);
      emit_relation(e.at("domain").u, l);
    }
  } else if (u == "irregular") {
    const T &pr = t.at("predicates"), &st = t.at("statements");
    l.words({N((long)st.c.size())});
    for (auto& e : st.c) {
      vector<string> w = {N((long)e.c.size())};
      for (auto& x : e.c) w.push_back(I(x.i));
      l.words(w);
    }
    long nc = t.at("nb_control").i;
    string ncs = N(nc);
    l.words({ncs, N((long)pr.c.size() - nc)});
    for (auto& e : pr.c) {
      vector<string> w = {N((long)e.at("iterators").c.size())};
      for (auto& x : e.at("iterators").c) w.push_back(x.s);
      l.words(w);
      l.line(e.at("body").s, false);
    }
  } else
    fail("harness", "no text for " + u);
  return l.o;
}
static void emit_unknown(Layout& l) {
  static const char* n[] = {"foo", "my_tag", "BAR", "string"};
  string t = n[l.s->below(4)];
  l.line("<" + t + ">", false);
  int k = l.s->small(3);
  for (int i = 0; i < k; i++) {
    string x = gen_line(*l.s);
    for (size_t p; (p = x.find("</")) != string::npos;) x.erase(p, 1);
    l.o += x + "\n";
  }
  l.o += "</" + t + ">\n";
}
void emit_generics(const vector<T>& v, Layout& l, int unknown) {
  for (auto& t : v) {
    l.gap();
    if (l.s->pct(unknown)) {
      emit_unknown(l);
      l.gap();
    }
    emit_generic(t, l);
  }
  if (l.s->pct(unknown)) emit_unknown(l);
  l.gap();
}
string emit(const MScops& v, Layout& l, bool unknown) {
  for (auto& m : v) {
    if (l.roll(30)) l.o += "any text before a scop\n";
    l.gap();
    l.o += "<OpenScop>\n";
    l.line(m.language.s);
    emit_relation(m.ctx, l);
    l.line(m.params.empty() ? "0" : "1");
    for (auto& g : m.params) emit_generic(g, l);
    l.line(std::to_string(m.stmts.size()));
    for (auto& s : m.stmts) {
      // domain, scattering and accesses in any order (accesses among themselves in order)
      vector<const MUnion*> rel;
      for (auto& a : s.acc) rel.push_back(&a);
      for (const MUnion* x : {&s.scat, &s.dom})
        if (!x->empty()) rel.insert(rel.begin() + (l.s && l.noise ? l.s->below((uint32_t)rel.size() + 1) : 0), x);
      l.line(std::to_string(rel.size()));
      for (auto* u : rel) emit_relation(*u, l);
      vector<int> unk;
      for (size_t i = 0; i <= s.ext.size(); i++) unk.push_back(unknown && l.roll(8));
      l.line(std::to_string(s.ext.size() + std::count(unk.begin(), unk.end(), 1)));
      for (size_t i = 0; i <= s.ext.size(); i++) {
        if (unk[i]) emit_unknown(l);
        if (i < s.ext.size()) emit_generic(s.ext[i], l);
      }
    }
    for (auto& e : m.ext) {
      if (unknown && l.roll(20)) emit_unknown(l);
      emit_generic(e, l);
    }
    if (unknown && l.roll(10)) emit_unknown(l);
    l.gap();
    l.o += "</OpenScop>\n";
  }
  return l.o;
}

// ------------------------------------------------------------------ reader
namespace {
struct P {
  const string& t;
  size_t p = 0;
  int prec;
  P(const string& s, int pr) : t(s), prec(pr) {}
  [[noreturn]] void bad(const string& what) {
    size_t line = 1 + std::count(t.begin(), t.begin() + std::min(p, t.size()), '\n');
    size_t b = t.rfind('\n', p ? p - 1 : 0), e = t.find('\n', p);
    b = b == string::npos ? 0 : b + 1;
    if (e == string::npos) e = t.size();
    fail("format", what + " at line " + std::to_string(line) + ": \"" + (b < e ? t.substr(b, std::min<size_t>(e - b, 200)) : "") + "\"");
  }
  static bool sp(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }
  void skip() {
    while (p < t.size()) {
      if (sp(t[p]))
        p++;
      else if (t[p] == '#')
        while (p < t.size() && t[p] != '\n') p++;
      else
        break;
    }
  }
  bool end() {
    skip();
    return p >= t.size();
  }
  string word() {
    skip();
    size_t b = p;
    while (p < t.size() && !sp(t[p]) && t[p] != '#') p++;
    if (b == p) bad("a word is expected");
    return t.substr(b, p - b);
  }
  Z big() {
    size_t b = (skip(), p);
    string w = word();
    size_t i = w[0] == '-' ? 1 : 0;
    if (i == w.size() || w.find_first_not_of("0123456789", i) != string::npos) {
      p = b;
      bad("an integer is expected");
    }
    return Z(w);
  }
  long uinteger() {
    Z z = big();
    if (z < Z(0) || z > Z((long)UINT_MAX)) bad("the unsigned integer does not fit");
    return z2l(z);
  }
  long integer() {
    Z z = big();
    if (!fits_int(z)) bad("the integer does not fit");
    return z2l(z);
  }
  // what is left of a line, up to a comment
  string restline() {
    size_t b = p;
    while (p < t.size() && t[p] != '\n' && t[p] != '#') p++;
    return t.substr(b, p - b);
  }
  string line() {
    skip();
    if (p >= t.size()) bad("a line is expected");
    return restline();
  }
  T strings(const string& name) {
    skip();
    T r = T::list(name);
    string l = restline(), w;
    l += " ";
    for (char c : l)
      if (sp(c)) {
        if (!w.empty()) r.c.push_back(T::str("", w));
        w.clear();
      } else
        w += c;
    return r;
  }
  vector<Z> numbers() {  // all the integers of the next data line
    T w = strings("");
    vector<Z> v;
    for (auto& x : w.c) {
      size_t i = x.s[0] == '-' ? 1 : 0;
      if (i == x.s.size() || x.s.find_first_not_of("0123456789", i) != string::npos) bad("a line of integers is expected");
      v.push_back(Z(x.s));
    }
    return v;
  }
  MUnion relation() {
    string w = word();
    int type;
    if (w == "CONTEXT")
      type = OSL_TYPE_CONTEXT;
    else if (w == "DOMAIN")
      type = OSL_TYPE_DOMAIN;
    else if (w == "SCATTERING")
      type = OSL_TYPE_SCATTERING;
    else if (w == "READ")
      type = OSL_TYPE_READ;
    else if (w == "WRITE")
      type = OSL_TYPE_WRITE;
    else if (w == "MAY_WRITE")
      type = OSL_TYPE_MAY_WRITE;
    else if (w == "UNDEFINED")
      type = OSL_UNDEFINED;
    else
      bad("a relation type is expected, not " + w);
    MUnion u;
    vector<Z> v = numbers();
    long n = 1;
    if (v.size() == 1) {
      n = z2l(v[0]);
      if (n < 1) bad("number of union parts");
      v = numbers();
    }
    for (long k = 0; k < n; k++) {
      if (k) v = numbers();
      if (v.size() != 6) bad("six attributes are expected");
      for (auto& z : v)
        if (z < 0 || z > 1000000) bad("attribute");
      MRel r = blank(prec, (int)z2l(v[0]), (int)z2l(v[1]));
      r.type = type;
      r.out = (int)z2l(v[2]);
      r.in = (int)z2l(v[3]);
      r.local = (int)z2l(v[4]);
      r.params = (int)z2l(v[5]);
      for (int i = 0; i < r.rows; i++) {
        r.m[i] = numbers();
        if ((int)r.m[i].size() != r.cols) bad("a row has " + std::to_string(r.m[i].size()) + " values");
      }
      u.push_back(r);
    }
    return u;
  }
  // "<name>" at the current place: returns the name, or "" when there is no tag
  string tag() {
    skip();
    if (p >= t.size() || t[p] != '<') return "";
    size_t e = t.find('>', p);
    if (e == string::npos) bad("unterminated tag");
    string n = t.substr(p + 1, e - p - 1);
    for (size_t i = 0; i < n.size(); i++)
      if (!isalpha((unsigned char)n[i]) && n[i] != '_' && !(i == 0 && n[i] == '/')) bad("illegal tag");
    p = e + 1;
    return n;
  }
  T generic() {
    size_t b = p;
    string n = tag();
    if (n.empty() || n[0] == '/') {
      p = b;
      bad("a tag is expected");
    }
    if (p < t.size() && t[p] == '\n') p++;
    size_t e = t.find("</" + n + ">", p);
    if (e == string::npos) bad("no end tag for " + n);
    T r = ext_parse(n, t.substr(p, e - p), prec);
    p = e + n.size() + 3;
    return r;
  }
  MStmt statement() {
    MStmt m;
    long n = integer();
    if (n < 0) bad("number of relations");
    for (long i = 0; i < n; i++) {
      MUnion u = relation();
      if (u[0].type == OSL_TYPE_DOMAIN) {
        if (!m.dom.empty()) bad("two domains");
        m.dom = u;
      } else if (u[0].type == OSL_TYPE_SCATTERING) {
        if (!m.scat.empty()) bad("two scatterings");
        m.scat = u;
      } else if (u[0].type == OSL_TYPE_CONTEXT || u[0].type == OSL_UNDEFINED)
        bad("unexpected relation type in a statement");
      else
        m.acc.push_back(u);
    }
    long e = integer();
    if (e < 0) bad("number of extensions");
    for (long i = 0; i < e; i++) m.ext.push_back(generic());
    return m;
  }
};
}  // namespace
T ext_parse(const string& u, const string& content, int prec) {
  P p(content, prec);
  T t = T::list(u);
  auto body = [&](const string& name) {
    T b = T::list(name), it = T::list("iterators"), ex = T::list("expression");
    long n = p.integer();
    if (n > 0) {
      it = p.strings("iterators");
      if ((long)it.c.size() != n) p.bad("number of iterators");
    } else if (n < 0)
      p.bad("number of iterators");
    ex.c.push_back(T::str("", p.line()));
    b.c = {it, ex};
    return b;
  };
  auto texts = [&](const string& name) {
    T x = T::list(name);
    long n = p.integer();
    for (long i = 0; i < n; i++) {
      T e = T::list("");
      T ty = T::num("type", p.integer());
      e.c = {ty, T::str("line", p.line())};
      x.c.push_back(e);
    }
    return x;
  };
  if (u == "comment" || u == "clay") {
    t.c = {T::str("text", content)};
    return t;
  }
  if (u == "strings") {
    t = p.strings("strings");
    if (t.c.empty()) t = T::nil(u);
  } else if (u == "body")
    t = body("body");
  else if (u == "relation")
    t = T::rel(u, p.relation());
  else if (u == "null") {
  } else if (u == "scatinfos") {
    long n = p.integer();
    for (long i = 0; i < n; i++) t.c.push_back(T::list(""));
    for (const char* f : {"parallel", "permutable", "type"})
      for (auto& e : t.c) e.c.push_back(T::num(f, p.integer()));
  } else if (u == "scatnames") {
    t.c = {p.strings("names")};
  } else if (u == "arrays") {
    long n = p.integer();
    for (long i = 0; i < n; i++) {
      T e = T::list("");
      T id = T::num("id", p.integer());
      e.c = {id, T::str("name", p.word())};
      t.c.push_back(e);
    }
  } else if (u == "coordinates") {
    T nm = T::str("name", p.line());
    long v[5];
    for (long& x : v) x = p.integer();
    t.c = {nm,
           T::num("line_start", v[0]),
           T::num("line_end", v[2]),
           T::num("column_start", v[1]),
           T::num("column_end", v[3]),
           T::num("indent", v[4])};
  } else if (u == "extbody") {
    T a = T::list("accesses");
    long n = p.integer();
    for (long i = 0; i < n; i++) {
      T e = T::list("");
      T st = T::num("start", p.integer());
      e.c = {st, T::num("length", p.integer())};
      a.c.push_back(e);
    }
    T b = body("body");
    t.c = {b, a};
  } else if (u == "loop") {
    long n = p.integer();
    for (long i = 0; i < n; i++) {
      T e = T::list(""), st = T::list("stmts");
      T it = T::str("iter", p.word());
      long m = p.integer();
      for (long j = 0; j < m; j++) st.c.push_back(T::num("", p.integer()));
      string pv = p.line();
      long d = p.integer();
      T us = T::nil("user");
      if (d & 8) {
        string x = p.line();
        if (x != "(null)") us = T::str("user", x);
      }
      e.c = {it, st, pv == "(null)" ? T::nil("private") : T::str("private", pv), T::num("directive", d), us};
      t.c.push_back(e);
    }
  } else if (u == "pluto_unroll") {
    while (p.integer() == 1) {
      T e = T::list("");
      T it = T::str("iter", p.line());
      T jam = T::num("jam", p.integer());
      e.c = {it, jam, T::num("factor", p.uinteger())};
      t.c.push_back(e);
    }
  } else if (u == "region") {
    long n = p.integer();
    for (long i = 0; i < n; i++) {
      T e = T::list("");
      e.c.push_back(T::num("location", p.integer()));
      for (const char* f : {"prefix", "suffix", "prelude", "postlude"}) e.c.push_back(texts(f));
      t.c.push_back(e);
    }
  } else if (u == "annotation") {
    T a = texts("prefix");
    t.c = {a, texts("suffix")};
  } else if (u == "symbols") {
    long n = p.integer();
    for (long i = 0; i < n; i++) {
      T e = T::list("");
      string w = p.word();
      long k = w == "Iterator"    ? OSL_SYMBOL_TYPE_ITERATOR
               : w == "Parameter" ? OSL_SYMBOL_TYPE_PARAMETER
               : w == "Array"     ? OSL_SYMBOL_TYPE_ARRAY
               : w == "Function"  ? OSL_SYMBOL_TYPE_FUNCTION
                                  : OSL_UNDEFINED;
      e.c.push_back(T::num("type", k));
      e.c.push_back(T::num("generated", p.integer()));
      e.c.push_back(T::num("nb_dims", p.integer()));
      for (const char* f : {"identifier", "datatype", "scope", "extent"}) {
        T l = T::list(f);
        l.c.push_back(p.generic());
        e.c.push_back(l);
      }
      t.c.push_back(e);
    }
  } else if (u == "dependence") {
    static const char* ty[] = {"UNSET", "RAW", "WAR", "WAW", "RAR", "RAW_SCALPRIV"};
    static const char* f8[8] = {"src_out_dom", "src_out_acc", "tgt_out_dom", "tgt_out_acc",
                                "src_loc_dom", "src_loc_acc", "tgt_loc_dom", "tgt_loc_acc"};
    long n = p.integer();
    for (long i = 0; i < n; i++) {
      T e = T::list("");
      string w = p.word();
      long k = -2;
      for (int j = 0; j < 6; j++)
        if (w == ty[j]) k = j ? j : OSL_UNDEFINED;
      if (k == -2) p.bad("dependence type");
      long v[5];
      for (long& x : v) x = p.integer();
      vector<Z> d = p.numbers();
      if (d.size() != 8) p.bad("eight values of a dependence");
      e.c = {T::num("label_source", v[0]), T::num("label_target", v[1]), T::num("ref_source", v[3]),
             T::num("ref_target", v[4]),   T::num("depth", v[2]),        T::num("type", k)};
      for (int j = 0; j < 8; j++) e.c.push_back(T::num(f8[j], z2l(d[j])));
      e.c.push_back(T::rel("domain", p.relation()));
      t.c.push_back(e);
    }
  } else if (u == "irregular") {
    T pr = T::list("predicates"), st = T::list("statements");
    long n = p.integer();
    for (long i = 0; i < n; i++) {
      T e = T::list("");
      for (long k = p.integer(); k > 0; k--) e.c.push_back(T::num("", p.integer()));
      st.c.push_back(e);
    }
    long nc = p.integer(), ne = p.integer();
    for (long i = 0; i < nc + ne; i++) {
      T e = T::list(""), it = T::list("iterators");
      for (long k = p.integer(); k > 0; k--) it.c.push_back(T::str("", p.word()));
      e.c = {it, T::str("body", p.line())};
      pr.c.push_back(e);
    }
    t.c = {T::num("nb_control", nc), pr, st};
  } else
    fail("format", "unknown tag " + u);
  if (!p.end()) p.bad("more text than expected in " + u);
  return t;
}
MScops parse_scops(const string& text, int prec) {
  MScops v;
  P p(text, prec);
  while (!p.end()) {
    MScop m;
    m.registry = DEFAULT_REGISTRY;
    if (p.tag() != "OpenScop") p.bad("<OpenScop> is expected");
    T l = p.strings("");
    if (l.c.size() != 1) p.bad("a language is expected");
    m.language = T::str("language", l.c[0].s);
    m.ctx = p.relation();
    if (p.integer() > 0) m.params.push_back(p.generic());
    long n = p.integer();
    if (n < 0) p.bad("number of statements");
    for (long i = 0; i < n; i++) m.stmts.push_back(p.statement());
    while (true) {
      p.skip();
      if (p.t.compare(p.p, 11, "</OpenScop>") == 0) {
        p.p += 11;
        break;
      }
      m.ext.push_back(p.generic());
    }
    v.push_back(m);
  }
  return v;
}
vector<MStmt> parse_stmts(const string& text, int prec) {
  vector<MStmt> v;
  P p(text, prec);
  while (!p.end()) v.push_back(p.statement());
  return v;
}
MUnion parse_relation(const string& text, int prec) {
  P p(text, prec);
  MUnion u = p.relation();
  if (!p.end()) p.bad("more text than expected after a relation");
  return u;
}

// ------------------------------------------------------------------ files
string print_to_string(const std::function<void(FILE*)>& f) {
  FILE* o = tmpfile();
  if (!o) fail("harness", "no temporary file");
  struct Close {
    FILE* f;
    ~Close() { fclose(f); }
  } close_{o};
  f(o);
  fflush(o);
  long n = ftell(o);
  string s((size_t)n, '\0');
  rewind(o);
  if (n && fread(&s[0], 1, (size_t)n, o) != (size_t)n) fail("harness", "temporary file");
  return s;
}
FILE* file_of(const string& s) {
  FILE* o = tmpfile();
  if (!o) fail("harness", "no temporary file");
  fwrite(s.data(), 1, s.size(), o);
  rewind(o);
  return o;
}
void set_env(int prec) {
  static const char* v[3] = {"32", "64", "0"};
  setenv("OSL_PRECISION", prec == OSL_PRECISION_SP ? v[0] : prec == OSL_PRECISION_DP ? v[1] : v[2], 1);
}
osl_scop_t* read_text(const string& t, int prec) {
  set_env(prec);
  FILE* f = file_of(t);
  osl_interface_t* reg = osl_interface_get_default_registry();
  osl_scop_t* s = osl_scop_pread(f, reg, prec);
  osl_interface_free(reg);
  fclose(f);
  return s;
}
