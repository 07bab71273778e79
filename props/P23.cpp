// P23: SCoPLib export denotes the same program.
// Generated compatible scops are exported and the text parsed by an independent reader of the
// SCoPLib format; scops broken in one rule must be reported.
#include <algorithm>

#include "scop.h"
using namespace pbt;
typedef std::string S;
typedef std::vector<S> V;
typedef std::vector<Z> Row;
struct Mat {
  int rows = 0, cols = 0;
  std::vector<Row> m;
};
// ---- reader
struct Text {
  std::vector<V> l;  // lines of words, without comments and blank lines
  V raw;
  size_t at = 0;
  explicit Text(const S& t) {
    size_t i = 0;
    while (i < t.size()) {
      size_t e = t.find('\n', i);
      if (e == S::npos) e = t.size();
      S x = t.substr(i, e - i);
      i = e + 1;
      x = x.substr(0, x.find('#'));
      std::istringstream s(x);
      V w;
      S y;
      while (s >> y) w.push_back(y);
      if (w.empty()) continue;
      l.push_back(w);
      raw.push_back(x);
    }
  }
  bool end() const { return at >= l.size(); }
  const V& next(const char* what) {
    CHECK(!end(), "format", "the text ends where " << what << " should be");
    return l[at++];
  }
  static Z integer(const S& w, const char* what) {
    size_t k = w[0] == '-' ? 1 : 0;
    CHECK(w.size() > k && w.find_first_not_of("0123456789", k) == S::npos, "format", "\"" << w << "\" is not a number, in " << what);
    return Z(w);
  }
  int number(const char* what) {
    const V& v = next(what);
    CHECK(v.size() == 1, "format", what << " should be a number, not \"" << raw[at - 1] << "\"");
    return (int)z2l(integer(v[0], what));
  }
  bool flag(const char* what) {
    int n = number(what);
    CHECK(n == 0 || n == 1, "format", what << " is " << n);
    return n == 1;
  }
  Mat matrix(const char* what) {
    Mat m;
    const V& v = next(what);
    CHECK(v.size() == 2, "format", what << ": sizes \"" << raw[at - 1] << "\"");
    m.rows = (int)z2l(integer(v[0], what));
    m.cols = (int)z2l(integer(v[1], what));
    for (int i = 0; i < m.rows; i++) {
      const V& r = next(what);
      CHECK((int)r.size() == m.cols, "format", what << ": row " << i << " has " << r.size() << " elements, not " << m.cols << ": " << raw[at - 1]);
      Row row;
      for (auto& w : r) row.push_back(integer(w, what));
      m.m.push_back(row);
    }
    return m;
  }
};
static S text(const Mat& m) {
  S r = std::to_string(m.rows) + "x" + std::to_string(m.cols) + "\n";
  for (auto& row : m.m) {
    for (auto& z : row) r += " " + z.get_str();
    r += "\n";
  }
  return r;
}
static void same(const Mat& got, const Mat& want, const S& what) {
  bool ok = got.rows == want.rows && got.m == want.m && (got.cols == want.cols || (want.rows == 0 && want.cols < 0));
  CHECK(ok, "matrix", what << " is\n" << text(got) << "instead of\n" << text(want));
}
// The columns [from, to) of a relation are left out
static Mat cut(const MRel& r, int from, int to, bool fake, int fakeat) {
  Mat m;
  m.rows = r.rows;
  for (auto& row : r.m) {
    Row x;
    for (int j = 0; j < r.cols; j++) {
      if (fake && j == fakeat) x.push_back(0);
      if (j < from || j >= to) x.push_back(row[j]);
    }
    m.m.push_back(x);
  }
  m.cols = r.cols - (to - from) + fake;
  return m;
}
static bool fakeable(const MStmt& s) { return s.dom.size() == 1 && s.dom[0].out == 0 && s.dom[0].rows == 0; }
static void check_access(Mat got, const MStmt& s, int type, int np, bool fake, const S& what) {
  Mat want;
  int d = s.dom[0].out;
  for (auto& u : s.acc) {
    if (u.empty() || u[0].type != type) continue;
    const MRel& r = u[0];
    Mat m = cut(r, 1, 1 + r.out, fake, 1 + r.out + r.in);
    Z id = r.m[0][r.cols - 1];
    if (r.rows == 1) {
      m.m[0].assign(m.cols, Z(0));
      m.m[0][0] = id;
    } else {
      m.m.erase(m.m.begin());
      m.m[0][0] = id;
    }
    want.m.insert(want.m.end(), m.m.begin(), m.m.end());
  }
  want.rows = (int)want.m.size();
  want.cols = want.rows ? d + np + 2 + fake : -1;
  same(got, want, what);
}
static const T* find_ext(const std::vector<T>& v, const S& u) {
  for (auto& t : v)
    if (t.name == u) return &t;
  return nullptr;
}
static S joined(const T& t) {
  S r;
  for (auto& x : t.c) r += (r.empty() ? "" : " ") + x.s;
  return r;
}
static void check_statement(Text& t, const MStmt& s, int np) {
  int d = s.dom[0].out;
  // domain
  int parts = t.number("the number of parts of a domain");
  CHECK(parts == (int)s.dom.size(), "domain", "a domain has " << parts << " parts instead of " << s.dom.size());
  bool fake = false;
  for (int i = 0; i < parts; i++) {
    if (parts > 1) {
      int n = t.number("the number of a part of a domain");
      CHECK(n == i + 1, "domain", "part " << i + 1 << " of a domain has the number " << n);
    }
    Mat m = t.matrix("a domain");
    Mat want = cut(s.dom[i], 0, 0, false, 0);
    if (m.cols == want.cols + 1 && fakeable(s)) {
      fake = true;
      label("fake iterator");
      want.rows = 1;
      want.cols++;
      want.m = {Row(want.cols, Z(0))};
      want.m[0][1] = 1;
    }
    same(m, want, "a domain");
  }
  // scattering
  CHECK(t.flag("the scattering flag"), "scattering", "no scattering is provided");
  Mat m = t.matrix("a scattering");
  const MRel& sc = s.scat[0];
  Mat want = cut(sc, 1, 1 + sc.out, fake, 1 + sc.out + sc.in);
  if (fake && m.rows > want.rows) {  // dimensions for the fake iterator, and after it
    Row z(m.cols, Z(0)), o = z;
    o[1] = 1;
    want.m.push_back(o);
    want.m.push_back(z);
    want.rows += 2;
  }
  same(m, want, "a scattering");
  // accesses
  size_t n = 0;
  bool may = false;
  for (auto& u : s.acc)
    if (!u.empty()) {
      n++;
      if (u[0].type == OSL_TYPE_MAY_WRITE) may = true;
    }
  bool given = t.flag("the access flag");
  CHECK(given || n == 0, "access", "no access is provided");
  if (given) {
    check_access(t.matrix("the read accesses"), s, OSL_TYPE_READ, np, fake, "the read accesses");
    check_access(t.matrix("the write accesses"), s, OSL_TYPE_WRITE, np, fake, "the write accesses");
    if (may || (!t.end() && t.l[t.at].size() == 2))
      check_access(t.matrix("the may-write accesses"), s, OSL_TYPE_MAY_WRITE, np, fake, "the may-write accesses");
  }
  // body
  const T* b = find_ext(s.ext, "body");
  bool body = t.flag("the body flag");
  CHECK(body == (b != nullptr), "body", "the body is " << (body ? "" : "not ") << "provided");
  if (b) {
    S its = joined(b->at("iterators"));
    t.next("the iterators");
    S got = t.raw[t.at - 1];
    CHECK(got == its || (its.empty() && got == "fakeiter"), "body", "the iterators are \"" << got << "\" instead of \"" << its << "\"");
    t.next("a body");
    got = t.raw[t.at - 1];
    S want_ = joined(b->at("expression"));
    CHECK(got == want_, "body", "the body is \"" << got << "\" instead of \"" << want_ << "\"");
  }
}
static void check_text(const S& x, const MScop& m) {
  Text t(x);
  V w = t.next("SCoP");
  CHECK(w == V{"SCoP"}, "format", "the text begins with \"" << t.raw[0] << "\"");
  w = t.next("the language");
  CHECK(w == V{m.language.s}, "language", "the language is \"" << t.raw[1] << "\"");
  same(t.matrix("the context"), cut(m.ctx[0], 0, 0, false, 0), "the context");
  bool names = t.flag("the parameter flag");
  CHECK(names == !m.params.empty(), "parameters", "the parameter names are " << (names ? "" : "not ") << "provided");
  int np = m.ctx[0].params;
  if (names && !m.params[0].c.empty()) {
    w = t.next("the parameters");
    V want;
    for (auto& e : m.params[0].c) want.push_back(e.s);
    CHECK(w == want, "parameters", "the parameters are \"" << t.raw[t.at - 1] << "\"");
  }
  int n = t.number("the number of statements");
  CHECK(n == (int)m.stmts.size(), "statements", n << " statements instead of " << m.stmts.size());
  for (auto& s : m.stmts) check_statement(t, s, np);
  const T* a = find_ext(m.ext, "arrays");
  if (a) {
    w = t.next("the array names");
    CHECK(w == V{"<arrays>"}, "options", "\"" << t.raw[t.at - 1] << "\" instead of the array names");
    size_t p = x.find("<arrays>\n"), q = x.find("</arrays>");
    CHECK(p != S::npos && q != S::npos && p < q, "options", "no array names between tags");
    T got = ext_parse("arrays", x.substr(p + 9, q - p - 9), OSL_PRECISION_MP);
    S d = diff(got, *a);
    CHECK(d.empty(), "options", "the array names: " << d);
    while (!t.end() && t.l[t.at] != V{"</arrays>"}) t.at++;
    t.next("the end of the array names");
  }
  CHECK(t.end(), "format", "the text goes on: \"" << t.raw[t.at] << "\"");
}
// ---- generation
static MRel mapping(Src& s, int prec, int type, int out, int in, int np, bool wide) {
  MRel r = gen_rel(s, prec, type, out, in, 0, np, out, wide);
  for (int i = 0; i < out; i++) {
    r.m[i][0] = 0;
    for (int j = 0; j < out; j++) r.m[i][1 + j] = i == j ? -1 : 0;
  }
  return r;
}
static MScop gen(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  bool wide = s.pct(25);
  MScop m;
  m.language = T::str("language", s.flip() ? "C" : gen_ident(s));
  int np = s.sized(4, 20);
  m.ctx = {gen_rel(s, prec, OSL_TYPE_CONTEXT, 0, 0, 0, np, s.small(3), wide)};
  if (np && s.pct(70)) {
    T p = T::list("strings");
    for (int i = 0; i < np; i++) p.c.push_back(T::str("", gen_ident(s)));
    m.params = {p};
  }
  int n = s.sized(4, 20);
  for (int k = 0; k < n; k++) {
    MStmt x;
    int d = s.sized(3, 8), parts = s.pct(25) ? 2 + s.sized(2, 10) : 1;
    for (int i = 0; i < parts; i++) x.dom.push_back(gen_rel(s, prec, OSL_TYPE_DOMAIN, d, 0, 0, np, s.sized(5, 30), wide));
    x.scat = {mapping(s, prec, OSL_TYPE_SCATTERING, s.flip() ? 2 * d + 1 : s.sized(7, 14), d, np, wide)};
    int na = s.sized(6, 20);
    for (int i = 0; i < na; i++) {
      if (s.pct(3)) {
        x.acc.push_back({});
        continue;
      }
      int type = std::vector<int>{OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_READ, OSL_TYPE_MAY_WRITE}[s.below(4)];
      MRel r = mapping(s, prec, type, 1 + s.sized(4, 8), d, np, wide);
      for (int j = 1; j < r.cols - 1; j++) r.m[0][j] = j == 1 ? -1 : 0;
      r.m[0][r.cols - 1] = 1 + (s.pct(5) ? 200 + s.below(300) : s.below(9));
      x.acc.push_back({r});
    }
    if (s.pct(70)) {
      T b = T::list("body");
      T its = s.pct(10) && d == 0 ? T::nil("iterators") : T::list("iterators");
      for (int i = 0; i < d; i++) its.c.push_back(T::str("", gen_ident(s)));
      T e = T::list("expression");
      e.c.push_back(T::str("", gen_line(s)));
      b.c = {its, e};
      x.ext.push_back(b);
    }
    if (s.pct(20)) {
      GExt g;
      g.prec = prec;
      x.ext.insert(x.ext.begin() + s.below(x.ext.size() + 1), gen_ext(s, s.flip() ? "coordinates" : "loop", g));
    }
    m.stmts.push_back(x);
  }
  if (s.pct(30)) {
    T a = T::list("arrays");
    int na = s.small(8);
    for (int i = 0; i < na; i++) {
      T e = T::list("");
      e.c = {T::num("id", i + 1), T::str("name", gen_ident(s) + "_" + std::to_string(i + 1))};
      a.c.push_back(e);
    }
    if (s.flip()) std::reverse(a.c.begin(), a.c.end());
    m.ext.push_back(a);
  }
  if (s.pct(20)) {
    T e = T::list("comment");
    GExt g;
    g.prec = prec;
    e = gen_ext(s, "scatnames", g);
    m.ext.insert(m.ext.begin() + s.below(m.ext.size() + 1), e);
  }
  m.registry = DEFAULT_REGISTRY;
  return m;
}
static void export_(Case& c) {
  MScop m = gen(c);
  c.nontrivial = !m.stmts.empty() && m.stmts[0].dom[0].out + m.stmts[0].acc.size() > 0;
  if (c.rendering) c.log << show(tree(m));
  osl_scop_t* x = build(MScops{m});
  CHECK(osl_scop_check_compatible_scoplib(x) == 1, "compatible", "a compatible scop is reported as incompatible");
  S t = print_to_string([&](FILE* f) { osl_scop_print_scoplib(f, x); });
  if (c.rendering) c.log << t;
  S d = tdiff(snap(x), MScops{m});
  CHECK(d.empty(), "changed", "the export changed the scop: " << d);
  check_text(t, m);
  S again = print_to_string([&](FILE* f) { osl_scop_print_scoplib(f, x); });
  CHECK(t == again, "repeat", "a second export gives\n" << again << "instead of\n" << t);
  if (!m.stmts.empty() && c.s.flip()) {  // the statements alone, with names of the user or none
    osl_names_t* nm = c.s.flip() ? osl_names_generate("p", 10, "it", 10, "sc", 20, "lo", 3, "ar", 600) : NULL;
    S one = print_to_string([&](FILE* f) { osl_statement_pprint_scoplib(f, x->statement, nm); });
    osl_names_free(nm);
    Text r(one);
    for (auto& s : m.stmts) check_statement(r, s, m.ctx[0].params);
    CHECK(r.end(), "format", "the text goes on: \"" << r.raw[r.at] << "\"");
    d = tdiff(snap(x), MScops{m});
    CHECK(d.empty(), "changed", "the export of the statements changed the scop: " << d);
  }
  if (!m.stmts.empty() && c.s.flip()) {  // one relation alone
    const MStmt& s = m.stmts[0];
    osl_names_t* nm = c.s.flip() ? osl_names_generate("p", 10, "it", 10, "sc", 20, "lo", 3, "ar", 600) : NULL;
    bool dom = c.s.flip(), numbers = dom && c.s.flip(), fake = fakeable(s) && s.scat[0].rows == 1 && c.s.flip();
    int form = c.s.below(3);
    label("relation alone");
    const osl_relation_t* r = dom ? x->statement->domain : x->statement->scattering;
    S one;
    if (form == 0) {
      one = print_to_string([&](FILE* f) { osl_relation_pprint_scoplib(f, r, nm, numbers, fake); });
    } else {
      char* p = form == 1 ? osl_relation_spprint_scoplib(r, nm, numbers, fake) : osl_relation_spprint_polylib_scoplib(r, nm, numbers, fake);
      CHECK(p, "format", "no text for a relation");
      one = p;
      free(p);
    }
    osl_names_free(nm);
    if (c.rendering) c.log << "---- one relation\n" << one;
    Text t1(one);
    if (!dom) {
      Mat w = cut(s.scat[0], 1, 1 + s.scat[0].out, fake, 1 + s.scat[0].out + s.scat[0].in), g = t1.matrix("a scattering alone");
      if (fake && g.rows > w.rows) {
        Row z(g.cols, Z(0)), o = z;
        o[1] = 1;
        w.m.push_back(o);
        w.m.push_back(z);
        w.rows += 2;
      }
      same(g, w, "a scattering alone");
    } else {
      if (s.dom.size() > 1) CHECK(t1.number("the number of parts") == (int)s.dom.size(), "domain", "a wrong number of parts");
      for (size_t i = 0; i < s.dom.size(); i++) {
        if (numbers) CHECK(t1.number("the number of a part") == (int)i + 1, "domain", "a part has a wrong number");
        Mat w = cut(s.dom[i], 0, 0, false, 0);
        if (fake) {
          w.rows = 1;
          w.cols++;
          w.m = {Row(w.cols, Z(0))};
          w.m[0][1] = 1;
        }
        same(t1.matrix("a domain alone"), w, "a domain alone");
      }
    }
    CHECK(t1.end(), "format", "the text of a relation goes on: \"" << t1.raw[t1.at] << "\"");
  }
  osl_scop_free(x);
}
static void add_local(MRel& r, Src& s, bool zero) {
  int at = r.cols - 1 - r.params;
  for (auto& row : r.m) row.insert(row.begin() + at, zero ? Z(0) : Z(s.range(-2, 2)));
  r.cols++;
  r.local++;
}
// Scops that SCoPLib cannot represent
static void incompatible(Case& c) {
  Src& s = c.s;
  MScop m = gen(c);
  MScops v = {m};
  MScop& b = v[0];
  S what;
  auto stmt = [&]() -> MStmt& {
    if (b.stmts.empty()) discard();
    return b.stmts[s.below(b.stmts.size())];
  };
  auto access = [&]() -> MUnion& {
    MStmt& x = stmt();
    if (x.acc.empty()) discard();
    MUnion& u = x.acc[s.below(x.acc.size())];
    if (u.empty()) discard();
    return u;
  };
  auto spoil = [&](MRel& r) -> S {  // a mapping that is not one any more
    if (r.rows == 0) discard();
    int first = r.type == OSL_TYPE_SCATTERING ? 0 : 1;
    if (r.rows <= first) discard();
    int i = first + s.below(r.rows - first);
    switch (s.below(5)) {
      case 0:
        r.m[i][1 + i] = s.flip() ? 1 : s.flip() ? 0 : -2;
        return "a wrong diagonal coefficient";
      case 1: {
        int j = first + s.below(r.out - first);
        if (j == i) discard();
        r.m[i][1 + j] = s.flip() ? 1 : -1;
        return "a coefficient out of the diagonal";
      }
      case 2:
        r.m[i][0] = 1;
        return "an inequality";
      case 3:
        r.m.erase(r.m.begin() + i);
        r.rows--;
        return "a row missing";
      default: {
        int j = first + s.below(r.rows - first);
        if (j == i) discard();
        std::swap(r.m[i], r.m[j]);
        return "two rows exchanged";
      }
    }
  };
  switch (s.below(13)) {
    case 0:
      v.push_back(s.flip() ? m : gen(c));
      what = "two scops";
      break;
    case 1:
      b.ctx.clear();
      what = "no context";
      break;
    case 2:
      b.ctx.push_back(b.ctx[0]);
      what = "a context of two parts";
      break;
    case 3:
      add_local(b.ctx[0], s, s.flip());
      what = "a local dimension in the context";
      break;
    case 4:
      stmt().dom.clear();
      what = "no domain";
      break;
    case 5: {
      MStmt& x = stmt();
      add_local(x.dom[s.below(x.dom.size())], s, s.flip());
      what = "a local dimension in a domain";
      break;
    }
    case 6:
      stmt().scat.clear();
      what = "no scattering";
      break;
    case 7: {
      MStmt& x = stmt();
      x.scat.push_back(x.scat[0]);
      what = "a scattering of two parts";
      break;
    }
    case 8:
      add_local(stmt().scat[0], s, s.flip());
      what = "a local dimension in a scattering";
      break;
    case 9:
      what = spoil(stmt().scat[0]) + " in a scattering";
      break;
    case 10: {
      MUnion& u = access();
      if (s.flip()) {
        u.push_back(u[0]);
        what = "an access of two parts";
      } else {
        add_local(u[0], s, s.flip());
        what = "a local dimension in an access";
      }
      break;
    }
    case 11:
      what = spoil(access()[0]) + " in an access";
      break;
    case 12: {  // not consistent
      MStmt& x = stmt();
      MRel& r = s.flip() ? x.dom[0] : x.scat[0];
      r.params++;
      r.cols++;
      for (auto& row : r.m) row.insert(row.end() - 1, Z(0));
      what = "one more parameter in a relation";
      break;
    }
  }
  label(what);
  c.nontrivial = true;
  if (c.rendering) c.log << what << "\n" << show(tree(v));
  osl_scop_t* x = build(v);
  int r = osl_scop_check_compatible_scoplib(x);
  CHECK(r == 0, "incompatible", "a scop with " << what << " is said to be compatible");
  S d = tdiff(snap(x), v);
  CHECK(d.empty(), "changed", "the check changed the scop: " << d);
  if (s.pct(10)) {
    bool e = exits([&] { print_to_string([&](FILE* f) { osl_scop_print_scoplib(f, x); }); });
    c.leak_exempt = true;
    CHECK(e, "incompatible", "a scop with " << what << " is exported");
    return;
  }
  osl_scop_free(x);
}
Property pbt::property = {"P23",
                          "an exported scop with a statement that has iterators or accesses; any incompatible scop",
                          {{"export", export_, 50000, 1500000, true}, {"incompatible", incompatible, 40000, 1000000, true}}};
