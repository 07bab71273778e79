// P17: attributes derived from a scop are the true ones.
#include <algorithm>
#include "scop.h"
using namespace pbt;

static bool is_access(int t) {
  return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE;
}
static Z part_array(const MRel& r) {
  if (r.rows < 1 || r.cols < 3) return 0;
  int row = -1;
  for (int i = 0; i < r.rows; i++)
    if (r.m[i][1] != 0) {
      if (row >= 0) return 0;
      row = i;
    }
  if (row < 0) return 0;
  for (int j = 0; j < r.cols - 1; j++)
    if (j != 1 && r.m[row][j] != 0) return 0;
  Z k = r.m[row][r.cols - 1], co = r.m[row][1];
  if (k % co != 0) return 0;
  Z id = -k / co;
  return id > 0 ? id : Z(0);
}
// The array of the parts from the k-th on; OSL_UNDEFINED when there is none.
static int array_of(const MUnion& u, size_t k = 0) {
  if (k >= u.size() || !is_access(u[k].type)) return OSL_UNDEFINED;
  Z id = 0;
  for (size_t i = k; i < u.size(); i++) {
    Z a = part_array(u[i]);
    if (a == 0 || (id != 0 && a != id)) return OSL_UNDEFINED;
    id = a;
  }
  return (int)z2l(id);
}
struct Att {
  int v[5];  // parameters, iterators, scattering, local, array
  void more(int p, int i, int s, int l, int a) {
    int w[5] = {p, i, s, l, a};
    for (int k = 0; k < 5; k++) v[k] = std::max(v[k], w[k]);
  }
  void add(const MUnion& u) {
    for (size_t k = 0; k < u.size(); k++) {
      const MRel& r = u[k];
      if (r.type == OSL_TYPE_CONTEXT)
        more(r.params, 0, 0, r.local, 0);
      else if (r.type == OSL_TYPE_DOMAIN)
        more(r.params, r.out, 0, r.local, 0);
      else if (is_access(r.type))
        more(r.params, r.in, 0, r.local, array_of(u, k));
      else
        more(r.params, r.in, r.out, r.local, 0);
    }
  }
  void add(const std::vector<MUnion>& l) {
    for (auto& u : l) add(u);
  }
  void add(const MStmt& s) {
    add(s.dom);
    add(s.scat);
    add(s.acc);
  }
  void add(const MScop& m) {
    add(m.ctx);
    for (auto& s : m.stmts) add(s);
  }
};
static const char* NM[] = {"parameters", "iterators", "scattering dimensions", "local dimensions", "array identifier"};
static Att start(Src& s) {
  Att a;
  for (int& x : a.v) x = s.pct(80) ? OSL_UNDEFINED : (int)s.below(5);
  return a;
}
static void compare(const Att& got, const Att& want, const std::string& what) {
  for (int k = 0; k < 5; k++)
    CHECK(got.v[k] == want.v[k], what, what << ": " << NM[k] << " computed " << got.v[k] << ", true value " << want.v[k]);
}
#define FIVE(a) &(a).v[0], &(a).v[1], &(a).v[2], &(a).v[3], &(a).v[4]

static const int IDS[] = {1, 2, 7, 1000, INT_MAX, INT_MAX - 1, 65536, 1 << 30, 3};
// Accesses to arrays of any number, written with any coefficient.
static void renumber(Src& s, MUnion& u) {
  int id = IDS[s.below(9)];
  bool same = s.pct(85);
  for (auto& r : u) {
    if (!is_access(r.type)) continue;
    if (r.rows == 0 || r.cols < 3) continue;
    int row = -1;
    for (int i = 0; i < r.rows; i++)
      if (r.m[i][1] != 0) row = i;
    if (row < 0) row = (int)s.below(r.rows);
    Z k = s.flip() ? Z(s.flip() ? 1 : -1) : Z(s.range(1, 5) - 6 * (int)s.below(2));
    if (s.pct(10)) k = Z(1000003) * (s.flip() ? 1 : -1);
    if (s.pct(10)) k *= 1 << 12;
    for (auto& z : r.m[row]) z = 0;
    for (int i = 0; i < r.rows; i++)
      if (i != row && !s.pct(4)) r.m[i][1] = 0;
    r.m[row][1] = k;
    r.m[row][r.cols - 1] = -k * id;
    switch (s.below(40)) {
      case 0:
        r.m[row][r.cols - 1] *= -1;
        break;
      case 1:
        r.m[row][r.cols - 1] += 1;
        if (abs(k) == 1 && id == INT_MAX) r.m[row][r.cols - 1] = -k;
        break;
      case 2:
        r.m[row][r.cols - 1] = 0;
        break;
      case 3:
        r.m[row][s.below(r.cols - 1)] += 1;
        if (r.m[row][1] == 0) r.m[row][1] = k;
        break;
      default:
        break;
    }
    if (!same && s.flip()) id = IDS[s.below(9)];
  }
  // identifiers beyond int are out of the question
  bool access = false;  // the parts after an access are read as accesses
  for (auto& r : u) access = access || is_access(r.type);
  for (auto& r : u)
    if (access && !fits_int(part_array(r)))
      for (auto& row : r.m)
        for (auto& z : row) z = 0;
}
static MUnion any(Src& s, int prec) {
  GRel g;
  g.maxout = 5;
  g.maxparams = 5;
  g.maxin = 5;
  g.wide = s.pct(10);
  MUnion u = gen_any_union(s, prec, g, 4);
  if (s.pct(60))
    for (auto& r : u) r.type = u[0].type;
  tame(u);
  if (s.pct(80)) renumber(s, u);
  if (s.pct(10)) {
    MRel& r = u[s.below((uint32_t)u.size())];
    int* at[] = {&r.out, &r.in, &r.local, &r.params};
    *at[s.below(4)] = OSL_UNDEFINED;
  }
  return u;
}
static void relation(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  MUnion u = any(c.s, prec);
  if (c.s.pct(2)) u.clear();
  Att got = start(c.s), want = got;
  want.add(u);
  c.nontrivial = u.size() > 1 || (!u.empty() && array_of(u) > 0);
  if (c.rendering) c.log << show(u) << "array " << array_of(u) << "\n";
  osl_relation_t* r = build(u);
  osl_relation_get_attributes(r, FIVE(got));
  compare(got, want, "relation");
  CHECK(osl_relation_nb_components(r) == (int)u.size(), "components", "nb_components " << osl_relation_nb_components(r));
  int acc = osl_relation_is_access(r);
  CHECK((acc != 0) == (!u.empty() && is_access(u[0].type)), "is_access", "is_access " << acc);
  bool mixed = false;
  for (auto& x : u) mixed = mixed || x.type != u[0].type;
  int id = osl_relation_get_array_id(r), wid = array_of(u);
  if (!mixed) {
    CHECK(id == wid, "array_id", "array identifier " << id << ", true one " << wid);
    label(wid > 0 ? "array" : u.empty() || !is_access(u[0].type) ? "no access" : "improper access");
  }
  SAME(snap(r), u, "changed", "the relation");
  osl_relation_free(r);
}
static void list(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  std::vector<MUnion> l;
  int n = c.s.small(6), full = 0;
  Att got = start(c.s), want = got;
  for (int i = 0; i < n; i++) {
    l.push_back(c.s.pct(12) ? MUnion{} : any(c.s, prec));
    if (!l.back().empty()) full++;
  }
  want.add(l);
  c.nontrivial = n > 1;
  if (c.rendering)
    for (auto& u : l) c.log << show(u) << "\n";
  osl_relation_list_t* x = build_list(l);
  osl_relation_list_get_attributes(x, FIVE(got));
  compare(got, want, "list");
  CHECK((int)osl_relation_list_count(x) == full, "list_count", "count " << osl_relation_list_count(x));
  osl_relation_list_free(x);
}
static void scop(Case& c) {
  Src& s = c.s;
  GScop g;
  g.e.prec = ALLPREC[s.below(3)];
  g.e.readable = false;
  g.e.nil = true;
  g.loose = s.pct(60);
  g.maxstmts = 6;
  g.maxscops = 4;
  g.maxparams = 6;
  g.maxdepth = 5;
  g.maxacc = 6;
  MScops v = gen_scops(s, g);
  for (auto& m : v) {
    if (s.pct(10)) m.ctx.clear();
    for (auto& x : m.stmts)
      for (auto& u : x.acc) {
        if (s.pct(40)) renumber(s, u);
        if (s.pct(3)) u.clear();
      }
  }
  if (c.rendering) c.log << show(tree(v));
  c.nontrivial = v.size() > 1 || v[0].stmts.size() > 1;
  osl_scop_t* x = build(v);
  Att got = start(s), want = got, start_ = got;
  for (auto& m : v) want.add(m);
  osl_scop_get_attributes(x, FIVE(got));
  compare(got, want, "scop");
  int k = 0;
  for (osl_scop_t* p = x; p; p = p->next, k++) {
    const MScop& m = v[k];
    if (!m.ctx.empty())
      CHECK(osl_scop_get_nb_parameters(p) == m.ctx[0].params, "nb_parameters", "parameters " << osl_scop_get_nb_parameters(p));
    else
      CHECK(osl_scop_get_nb_parameters(p) == 0, "nb_parameters", "parameters without context " << osl_scop_get_nb_parameters(p));
    CHECK(osl_statement_number(p->statement) == (int)m.stmts.size(), "statement_number",
          "statements " << osl_statement_number(p->statement) << " not " << m.stmts.size());
    CHECK(osl_generic_number(p->extension) == (int)m.ext.size(), "generic_number", "extensions " << osl_generic_number(p->extension));
    Att a = start_, w = start_;
    for (auto& y : m.stmts) w.add(y);
    osl_statement_get_attributes(p->statement, FIVE(a));
    compare(a, w, "statements");
    int q = 0;
    for (osl_statement_t* t = p->statement; t; t = t->next, q++) {
      const MStmt& y = m.stmts[q];
      int it = y.dom.empty() ? 0 : y.dom[0].out;
      CHECK(osl_statement_get_nb_iterators(t) == it, "nb_iterators", "iterators " << osl_statement_get_nb_iterators(t) << " not " << it);
      int full = 0;
      for (auto& u : y.acc) full += !u.empty();
      CHECK((int)osl_relation_list_count(t->access) == full, "list_count", "accesses " << osl_relation_list_count(t->access));
      // the body: that of the statement, or else that of the extended body
      const void* want_body = nullptr;
      for (osl_generic_t* e = t->extension; e; e = e->next)
        if (e->interface && !strcmp(e->interface->URI, "body")) want_body = want_body ? want_body : e->data;
      if (!want_body)
        for (osl_generic_t* e = t->extension; e; e = e->next)
          if (e->interface && !strcmp(e->interface->URI, "extbody") && e->data && !want_body) want_body = ((osl_extbody_t*)e->data)->body;
      CHECK(osl_statement_get_body(t) == want_body, "get_body", "the body found is not the one of the statement");
    }
  }
  // the names made for it
  Att all;
  for (int& z : all.v) z = OSL_UNDEFINED;
  for (auto& m : v) all.add(m);
  if (all.v[4] < 2000) {
    osl_names_t* nm = osl_scop_names(x);
    osl_strings_t* got_[] = {nm->parameters, nm->iterators, nm->scatt_dims, nm->local_dims, nm->arrays};
    for (int i = 0; i < 5; i++)
      CHECK((int)osl_strings_size(got_[i]) == std::max(0, all.v[i]), "names", "number of names of " << NM[i] << ": " << osl_strings_size(got_[i]) << " not " << all.v[i]);
    osl_names_free(nm);
  }
  osl_scop_free(x);
}
Property pbt::property = {
    "P17",
    "an object with several parts, or a proper access",
    {{"relation", relation, 300000, 6000000, true},
     {"list", list, 120000, 2000000, true},
     {"scop", scop, 80000, 1500000, true}},
};
