// P16: the integrity check accepts exactly the consistent inputs.
#include "scop.h"
using namespace pbt;

// ---- the rules
static const int U = OSL_UNDEFINED;
static bool is_access(int t) {
  return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE;
}
// 0 when the part has no proper identifier
static Z array_of(const MRel& r) {
  if (r.rows < 1 || r.cols < 3) return 0;
  int row = -1;
  for (int i = 0; i < r.rows; i++)
    if (r.m[i][1] != 0) {
      if (row >= 0) return 0;
      row = i;
    }
  if (row < 0) return 0;
  for (int j = 0; j < r.cols - 1; j++)
    if (j != 1 && r.m[row][j] != 0) return 0;
  Z k = r.m[row][r.cols - 1], co = r.m[row][1];
  if (k % co != 0) return 0;
  Z id = -k / co;
  return id > 0 ? id : Z(0);
}
static std::string why;  // the rule broken
static bool bad(const std::string& s) {
  why = s;
  return false;
}
static bool ok(const MUnion& u, int type, int eo, int ei, int ep) {
  if (u.empty()) return true;
  if (type == OSL_TYPE_ACCESS ? !is_access(u[0].type) : type != u[0].type) return bad("type");
  Z id = 0;
  for (auto& r : u) {
    if (r.out < 0 || r.in < 0 || r.local < 0 || r.params < 0) return bad("missing attribute");
    if (r.type == OSL_TYPE_CONTEXT && r.out != 0) return bad("output of a context");
    if ((r.type == OSL_TYPE_CONTEXT || r.type == OSL_TYPE_DOMAIN) && r.in != 0) return bad("input of a domain or context");
    if (eo == U) eo = r.out;
    if (ei == U) ei = r.in;
    if (ep == U) ep = r.params;
    if (r.out != eo || r.in != ei || r.params != ep) return bad("unexpected attribute");
    if (r.cols != r.out + r.in + r.local + r.params + 2) return bad("columns");
    for (auto& row : r.m)
      if (row[0] != 0 && row[0] != 1) return bad("first column");
    if (is_access(r.type)) {
      Z a = array_of(r);
      if (a == 0) return bad("no array");
      if (id != 0 && a != id) return bad("several arrays");
      id = a;
    }
  }
  return true;
}
static bool ok(const std::vector<MUnion>& l, int type, int eo, int ei, int ep) {
  for (auto& u : l)
    if (!ok(u, type, eo, ei, ep)) return false;
  return true;
}
static const T* body_of(const MStmt& s) {
  for (auto& t : s.ext)
    if (t.name == "body") return t.k == T::NIL ? nullptr : &t;
  return nullptr;
}
static bool ok(const std::vector<MStmt>& v, int ep) {
  for (auto& s : v) {
    if (!ok(s.dom, OSL_TYPE_DOMAIN, U, 0, ep)) return false;
    int d = s.dom.empty() ? U : s.dom[0].out;
    if (!ok(s.scat, OSL_TYPE_SCATTERING, U, d, ep)) return false;
    if (!ok(s.acc, OSL_TYPE_ACCESS, U, d, ep)) return false;
    const T* b = body_of(s);
    if (b && d != U && b->at("iterators").k != T::NIL && (int)b->at("iterators").size() != d) return bad("iterators");
  }
  return true;
}
static bool ok(const MScops& v) {
  for (auto& m : v) {
    if (!ok(m.ctx, OSL_TYPE_CONTEXT, U, U, U)) return false;
    if (!ok(m.stmts, m.ctx.empty() ? U : m.ctx[0].params)) return false;
  }
  return true;
}

// ---- generation
static MUnion consistent(Src& s, int prec, int type, int eo, int ei, int ep, bool wide) {
  MUnion u;
  int out = eo == U ? (int)s.small(4) : eo, in = ei == U ? (int)s.small(4) : ei, np = ep == U ? (int)s.small(3) : ep;
  int id = 1 + s.small(1000), n = 1 + (s.pct(40) ? s.small(3) : 0);
  for (int k = 0; k < n; k++) {
    if (is_access(type))
      u.push_back(gen_access(s, prec, type, id, out - 1, in, s.small(2), np, wide));
    else
      u.push_back(gen_rel(s, prec, type, out, in, s.small(2), np, s.small(5), wide));
  }
  return u;
}
static void resize(MRel& r, int cols) {
  r.cols = cols;
  for (auto& row : r.m) row.resize(cols < 0 ? 0 : cols);
}
// One change to a part, which may or may not break a rule; what it is.
static std::string disturb(Src& s, MRel& r) {
  int* at[] = {&r.out, &r.in, &r.local, &r.params};
  static const char* nm[] = {"output", "input", "local", "parameters"};
  int w = (int)s.below(4);
  switch (s.below(9)) {
    case 0:
      *at[w] = U;
      return std::string(nm[w]) + " undefined";
    case 1: {  // an undefined attribute, with columns that would do without
      int c = r.cols - *at[w];
      *at[w] = U;
      if (c >= 0) resize(r, c);
      return std::string(nm[w]) + " undefined and its columns removed";
    }
    case 2: {
      int x = (int)s.below(4);
      *at[w] += 1;
      *at[x] -= 1;
      return std::string("one more ") + nm[w] + " and one less " + nm[x];
    }
    case 3:
      *at[w] += s.range(1, 2);
      return std::string("more ") + nm[w];
    case 4: {
      int d = s.range(1, 2);
      *at[w] += d;
      resize(r, r.cols + d);
      return std::string("more ") + nm[w] + " and columns";
    }
    case 5: {
      int d = s.flip() ? 1 : -1;
      if (r.cols + d < 0) return "nothing";
      resize(r, r.cols + d);
      return d > 0 ? "one more column" : "one less column";
    }
    case 6:
      if (!r.rows || !r.cols) return "nothing";
      {
        static const int v[] = {2, -1, 3, -2, 1000, 0, 1};
        int i = (int)s.below(r.rows);
        r.m[i][0] = v[s.below(7)];
        return "first column of row " + std::to_string(i);
      }
    case 7:
      if (!r.rows || r.cols < 2) return "nothing";
      {
        int i = (int)s.below(r.rows), j = 1 + (int)s.below(r.cols - 1);
        if (s.flip()) j = s.flip() ? 1 : r.cols - 1;
        r.m[i][j] = s.range(0, 6) - 3;
        return "element " + std::to_string(i) + "," + std::to_string(j);
      }
    default: {
      static const int ty[] = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE,
                               OSL_TYPE_MAY_WRITE, OSL_TYPE_ACCESS, OSL_UNDEFINED};
      r.type = ty[s.below(8)];
      return "type";
    }
  }
}
// The identifier computed must stay within int.
static void limit(MUnion& u) {
  int t = u.empty() ? 0 : u[0].type;
  for (auto& r : u) {
    r.type = t;  // one type for the whole union
    tame(r);
  }
}
static void relation(Case& c) {
  static const int ty[] = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE};
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)], type = ty[s.below(6)];
  bool wide = s.pct(20);
  MUnion u;
  if (!s.pct(3))
    u = consistent(s, prec, type, type == OSL_TYPE_CONTEXT ? 0 : is_access(type) ? 1 + (int)s.small(3) : U,
                   type == OSL_TYPE_CONTEXT || type == OSL_TYPE_DOMAIN ? 0 : U, U, wide);
  int asked = is_access(type) ? OSL_TYPE_ACCESS : type;
  int e[3] = {U, U, U};
  for (int i = 0; i < 3; i++)
    if (!u.empty() && s.flip()) e[i] = i == 0 ? u[0].out : i == 1 ? u[0].in : u[0].params;
  std::string what;
  int n = s.flip() ? 0 : 1 + (int)s.small(2);
  for (int i = 0; i < n && !u.empty(); i++) {
    if (s.pct(15)) {
      int k = (int)s.below(3);
      e[k] = (int)s.below(5) - 1;
      what += " expected " + std::to_string(k);
    } else {
      int k = (int)s.below((uint32_t)u.size());
      what += " part " + std::to_string(k) + ": ";
      what += disturb(s, u[k]);
      if (what.substr(what.size() - 4) == "type") u[0].type = u[k].type;
    }
  }
  limit(u);
  if (s.pct(5)) asked = ty[s.below(6)];
  why = "";
  bool want = ok(u, asked, e[0], e[1], e[2]);
  label(want ? "consistent" : why);
  c.nontrivial = n > 0 || u.size() > 1;
  if (c.rendering)
    c.log << "as " << asked << " expecting " << e[0] << " " << e[1] << " " << e[2] << ";" << what << "\n" << show(u) << (want ? "consistent" : why) << "\n";
  osl_relation_t* r = build(u);
  int got = osl_relation_integrity_check(r, asked, e[0], e[1], e[2]);
  SAME(snap(r), u, "changed", "the check changed the relation");
  osl_relation_free(r);
  if (want)
    CHECK(got == 1, "refused", "a consistent relation is refused");
  else
    CHECK(got == 0, "accepted", "accepted although inconsistent: " << why);
}
static std::string disturb(Src& s, MUnion& u) {
  int k = (int)s.below((uint32_t)u.size());
  std::string w = "part " + std::to_string(k) + " " + disturb(s, u[k]);
  if (w.substr(w.size() - 4) == "type") u[0].type = u[k].type;
  limit(u);
  return w;
}
static std::string disturb(Src& s, MStmt& m) {
  std::vector<int> can;
  if (!m.dom.empty()) can.push_back(0);
  if (!m.scat.empty()) can.push_back(1);
  for (size_t i = 0; i < m.acc.size(); i++)
    if (!m.acc[i].empty()) can.push_back(2 + (int)i);
  bool b = body_of(m) && body_of(m)->at("iterators").k == T::LIST;
  if (b) can.push_back(-1);
  if (can.empty()) return "nothing";
  int k = s.pick(can);
  if (k == 0) return "domain " + disturb(s, m.dom);
  if (k == 1) return "scattering " + disturb(s, m.scat);
  if (k > 1) return "access " + std::to_string(k - 2) + " " + disturb(s, m.acc[k - 2]);
  for (auto& t : m.ext)
    if (t.name == "body") {
      T& it = t.at("iterators");
      if (s.pct(20)) {
        it = T::nil("iterators");
        return "iterators absent";
      }
      if (it.c.empty() || s.flip())
        it.c.push_back(T::str("", "more"));
      else
        it.c.pop_back();
      return "iterators";
    }
  return "nothing";
}
static GScop options(Case& c) {
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.readable = false;
  g.e.nil = true;
  g.loose = c.s.pct(15);
  g.maxstmts = 5;
  return g;
}
static void limit(MStmt& m) {
  limit(m.dom);
  limit(m.scat);
  for (auto& u : m.acc) limit(u);
}
static void statement(Case& c) {
  GScop g = options(c);
  int np = c.s.small(3), n = 1 + c.s.small(3);
  std::vector<MStmt> v;
  for (int i = 0; i < n; i++) v.push_back(gen_stmt(c.s, g, np));
  std::string what;
  int k = c.s.flip() ? 0 : 1 + (int)c.s.small(1);
  for (int i = 0; i < k; i++) {
    int w = (int)c.s.below((uint32_t)v.size());
    what += " statement " + std::to_string(w) + " " + disturb(c.s, v[w]);
  }
  for (auto& m : v) limit(m);
  int ep = c.s.pct(30) ? U : c.s.pct(10) ? (int)c.s.below(4) : np;
  why = "";
  bool want = ok(v, ep);
  label(want ? "consistent" : why);
  c.nontrivial = k > 0 || n > 1;
  if (c.rendering) c.log << "expecting " << ep << " parameters;" << what << "\n" << show(tree(v)) << (want ? "consistent" : why) << "\n";
  osl_statement_t* s = build(v);
  int got = osl_statement_integrity_check(s, ep);
  std::string d = tdiff(snap(s), v);
  CHECK(d.empty(), "changed", "the check changed the statement: " << d);
  osl_statement_free(s);
  if (want)
    CHECK(got == 1, "refused", "consistent statements are refused");
  else
    CHECK(got == 0, "accepted", "accepted although inconsistent: " << why);
}
static void scop(Case& c) {
  GScop g = options(c);
  MScops v = gen_scops(c.s, g);
  if (c.s.pct(5)) v[0].ctx.clear();
  if (c.s.pct(3)) v[0].language = T::nil("language");
  if (c.s.pct(3)) v[0].language = T::str("language", "OCaml");
  std::string what;
  int k = c.s.flip() ? 0 : 1;
  for (int i = 0; i < k; i++) {
    int w = (int)c.s.below((uint32_t)v.size());
    MScop& m = v[w];
    what += " scop " + std::to_string(w);
    if (!m.stmts.empty() && !c.s.pct(30)) {
      int x = (int)c.s.below((uint32_t)m.stmts.size());
      what += " statement " + std::to_string(x) + " " + disturb(c.s, m.stmts[x]);
    } else if (!m.ctx.empty()) {
      what += " context " + disturb(c.s, m.ctx);
    }
  }
  for (auto& m : v) {
    limit(m.ctx);
    for (auto& x : m.stmts) limit(x);
  }
  why = "";
  bool want = ok(v);
  label(want ? "consistent" : why);
  c.nontrivial = k > 0 || (v[0].stmts.size() > 1);
  if (c.rendering) c.log << what << "\n" << show(tree(v)) << (want ? "consistent" : why) << "\n";
  osl_scop_t* s = build(v);
  int got = osl_scop_integrity_check(s);
  std::string d = tdiff(snap(s), v);
  CHECK(d.empty(), "changed", "the check changed the scop: " << d);
  osl_scop_free(s);
  if (want)
    CHECK(got == 1, "refused", "a consistent scop is refused");
  else
    CHECK(got == 0, "accepted", "accepted although inconsistent: " << why);
}
Property pbt::property = {
    "P16",
    "an object with several parts or with at least one change",
    {{"relation", relation, 150000, 4000000, true},
     {"statement", statement, 60000, 2000000, true},
     {"scop", scop, 40000, 1500000, true}},
};
