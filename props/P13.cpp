// P13: unions and lists behave as sequences. Sequences of operations against a model made of
// std::vector.
#include <algorithm>

#include "scop.h"
using namespace pbt;

typedef std::vector<MUnion> ML;
static T ltree(const ML& v) {
  T t = T::list("list");
  for (auto& u : v) t.c.push_back(T::rel("", u));
  return t;
}
static MUnion some_union(Src& s, int prec) {
  GRel g;
  g.maxrows = 3;
  g.wide = s.pct(20);
  MUnion u = gen_any_union(s, prec, g, 3);
  for (auto& r : u) {
    r.type = u[0].type;
    tame(r);
  }
  return u;
}
static bool is_acc(int t) {
  return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE;
}
static const int TYPES[] = {OSL_TYPE_ACCESS, OSL_TYPE_READ,       OSL_TYPE_WRITE,  OSL_TYPE_MAY_WRITE,
                            OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_CONTEXT, OSL_UNDEFINED};
#define LSAME(l, m, what)                                         \
  do {                                                            \
    std::string d_ = diff(ltree(snap_list(l)), ltree(m));         \
    CHECK(d_.empty(), "sequence", what << ": " << d_);            \
  } while (0)

static void stacks(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  osl_relation_list_t* l[2] = {nullptr, nullptr};
  ML m[2];
  int n = 1 + c.s.small(14);
  c.nontrivial = n > 3;
  auto el = [&]() { return c.s.pct(8) ? MUnion{} : some_union(c.s, prec); };
  for (int i = 0; i < n; i++) {
    int k = c.s.below(2), o = 1 - k;
    int op = c.s.below(15);
    if (c.rendering) c.log << "list " << k << " op " << op << "\n";
    switch (op) {
      case 0:
      case 1:
      case 2: {  // push a new element
        MUnion u = el();
        osl_relation_list_t* x = build_list({u});
        if (c.s.flip() && o < 2 && l[o]) {
          // the node may come from elsewhere
        }
        osl_relation_list_push(&l[k], x);
        m[k].insert(m[k].begin(), u);
        break;
      }
      case 3: {  // pop, and push on the other one
        osl_relation_list_t* x = osl_relation_list_pop(&l[k]);
        CHECK(!x == m[k].empty(), "pop", "pop of a list of " << m[k].size() << " returns " << (x ? "an element" : "nothing"));
        if (x) {
          CHECK(x->next == NULL, "pop", "the element popped is still linked");
          LSAME(x, ML{m[k][0]}, "the element popped");
          osl_relation_list_push(&l[o], x);
          m[o].insert(m[o].begin(), m[k][0]);
          m[k].erase(m[k].begin());
        } else
          osl_relation_list_push(&l[o], x);
        break;
      }
      case 4:
        osl_relation_list_dup(&l[k]);
        if (!m[k].empty()) m[k].insert(m[k].begin(), m[k][0]);
        break;
      case 5:
        osl_relation_list_drop(&l[k]);
        if (!m[k].empty()) m[k].erase(m[k].begin());
        break;
      case 6:
        if (c.s.pct(30)) {
          osl_relation_list_destroy(&l[k]);
          m[k].clear();
          CHECK(!l[k], "destroy", "the list is not empty after destroying it");
        }
        break;
      case 7: {  // add some elements at the end
        ML v;
        for (int j = c.s.small(3); j > 0; j--) v.push_back(el());
        osl_relation_list_add(&l[k], build_list(v));
        m[k].insert(m[k].end(), v.begin(), v.end());
        break;
      }
      case 8: {  // move the whole list at the end of the other one
        osl_relation_list_add(&l[o], l[k]);
        l[k] = nullptr;
        m[o].insert(m[o].end(), m[k].begin(), m[k].end());
        m[k].clear();
        break;
      }
      case 9: {
        if (c.s.pct(15)) o = k;  // with itself
        osl_relation_list_t* x = osl_relation_list_concat(l[k], l[o]);
        ML v = m[k];
        v.insert(v.end(), m[o].begin(), m[o].end());
        LSAME(x, v, "concatenation");
        LSAME(l[k], m[k], "first argument of a concatenation");
        if (v.size() > 40) {
          osl_relation_list_free(x);
          break;
        }
        osl_relation_list_free(l[k]);
        l[k] = x;
        m[k] = v;
        break;
      }
      case 10: {
        int t = TYPES[c.s.below(8)];
        osl_relation_list_t* x = osl_relation_list_filter(l[k], t);
        ML v;
        for (auto& u : m[k])
          if (!u.empty() && (t == OSL_TYPE_ACCESS ? is_acc(u[0].type) : t == u[0].type)) v.push_back(u);
        LSAME(x, v, "filter of type " << t);
        LSAME(l[k], m[k], "argument of a filter");
        osl_relation_list_free(x);
        break;
      }
      case 11: {
        size_t w = 0;
        for (auto& u : m[k]) w += !u.empty();
        CHECK(osl_relation_list_count(l[k]) == w, "count", "count is " << osl_relation_list_count(l[k]) << ", not " << w);
        break;
      }
      case 12: {
        MUnion u = el();
        osl_relation_t* r = build(u);
        osl_relation_list_t* x = osl_relation_list_node(r);
        SAME(snap(r), u, "sequence", "the relation put in a node");
        CHECK(!x == u.empty(), "node", "no node for a relation, or a node for none");
        if (x) CHECK(x->elt != r && x->next == NULL, "node", "the node does not hold a copy");
        osl_relation_free(r);
        osl_relation_list_add(&l[k], x);
        if (x) m[k].push_back(u);
        break;
      }
      case 13:
        if (c.s.pct(40)) {
          int t = TYPES[1 + c.s.below(7)];
          osl_relation_list_set_type(l[k], t);
          for (auto& u : m[k])
            for (auto& r : u) r.type = t;
        }
        break;
      default: {
        osl_relation_list_t* x = osl_relation_list_clone(l[k]);
        LSAME(x, m[k], "clone");
        osl_relation_list_free(x);
      }
    }
    LSAME(l[0], m[0], "list 0 after operation " << op << " on list " << k);
    LSAME(l[1], m[1], "list 1 after operation " << op << " on list " << k);
  }
  osl_relation_list_free(l[0]);
  osl_relation_list_free(l[1]);
}
static void unions(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  MUnion m[2];
  osl_relation_t* r[2] = {nullptr, nullptr};
  int n = 1 + c.s.small(12);
  c.nontrivial = n > 3;
  for (int i = 0; i < n; i++) {
    int k = c.s.below(2), o = 1 - k, op = c.s.below(8);
    if (c.rendering) c.log << "union " << k << " op " << op << " parts " << m[k].size() << "\n";
    switch (op) {
      case 0:
      case 1: {
        MUnion u = some_union(c.s, prec);
        osl_relation_add(&r[k], build(u));
        m[k].insert(m[k].end(), u.begin(), u.end());
        break;
      }
      case 2: {
        if (c.s.pct(15)) o = k;  // with itself
        osl_relation_t* x = osl_relation_union(r[k], r[o]);
        MUnion u = m[k];
        u.insert(u.end(), m[o].begin(), m[o].end());
        SAME(snap(x), u, "sequence", "union");
        SAME(snap(r[k]), m[k], "sequence", "first argument of a union");
        SAME(snap(r[o]), m[o], "sequence", "second argument of a union");
        if (u.size() > 20) {
          osl_relation_free(x);
          break;
        }
        osl_relation_free(r[k]);
        r[k] = x;
        m[k] = u;
        break;
      }
      case 3:
      case 4: {
        if (m[k].empty()) {
          osl_relation_remove_part(&r[k], r[o]);
          break;
        }
        int at = c.s.below((uint32_t)m[k].size() + 1);
        osl_relation_t* p = r[k];
        if (at == (int)m[k].size()) {
          osl_relation_remove_part(&r[k], r[o]);  // not a part of it: nothing to do
          break;
        }
        for (int j = 0; j < at; j++) p = p->next;
        osl_relation_remove_part(&r[k], p);
        m[k].erase(m[k].begin() + at);
        break;
      }
      case 5:
        CHECK(osl_relation_nb_components(r[k]) == (int)m[k].size(), "count",
              "number of components is " << osl_relation_nb_components(r[k]) << ", not " << m[k].size());
        break;
      case 6: {
        int a = c.s.below(5), b = c.s.below(5), d = c.s.below(5), e = c.s.range(0, 4) - 1;
        bool one = c.s.flip();
        if (one)
          osl_relation_set_attributes_one(r[k], a, b, d, e);
        else
          osl_relation_set_attributes(r[k], a, b, d, e);
        for (auto& p : m[k]) {
          p.out = a, p.in = b, p.local = d, p.params = e;
          if (one) break;
        }
        break;
      }
      default: {
        int t = TYPES[c.s.below(8)];
        osl_relation_set_type(r[k], t);
        for (auto& p : m[k]) p.type = t;
      }
    }
    SAME(snap(r[0]), m[0], "sequence", "union 0 after operation " + std::to_string(op));
    SAME(snap(r[1]), m[1], "sequence", "union 1 after operation " + std::to_string(op));
  }
  osl_relation_free(r[0]);
  osl_relation_free(r[1]);
}
static void chains(Case& c) {  // statements and scops
  GScop g;
  g.e.prec = ALLPREC[c.s.below(3)];
  g.e.readable = false;
  g.e.nil = true;
  g.maxdepth = 2;
  g.maxstmts = 2;
  g.loose = c.s.flip();
  int n = 1 + c.s.small(5);
  c.nontrivial = n > 1;
  if (c.s.pct(60)) {
    std::vector<MStmt> m;
    osl_statement_t* s = nullptr;
    for (int i = 0; i < n; i++) {
      std::vector<MStmt> v;
      for (int j = c.s.small(3); j > 0; j--) v.push_back(gen_stmt(c.s, g, c.s.small(2)));
      osl_statement_add(&s, build(v));
      m.insert(m.end(), v.begin(), v.end());
      CHECK(osl_statement_number(s) == (int)m.size(), "count", "number of statements is " << osl_statement_number(s) << ", not " << m.size());
      std::string d = tdiff(snap(s), m);
      CHECK(d.empty(), "sequence", "statements after an addition: " << d);
    }
    int k = c.s.range(0, (int)m.size() + 1);
    osl_statement_t* p = osl_statement_nclone(s, k);
    std::vector<MStmt> w = m;
    if (k < (int)w.size()) w.resize(k);
    std::string d = tdiff(snap(p), w);
    CHECK(d.empty(), "sequence", "the first " << k << " statements: " << d);
    if (c.rendering) c.log << show(tree(m));
    osl_statement_free(p);
    osl_statement_free(s);
  } else {
    MScops m;
    osl_scop_t* s = nullptr;
    for (int i = 0; i < n; i++) {
      MScops v;
      if (c.s.pct(90)) v = gen_scops(c.s, g);
      osl_scop_add(&s, build(v));
      m.insert(m.end(), v.begin(), v.end());
      CHECK(osl_scop_number(s) == m.size(), "count", "number of scops is " << osl_scop_number(s) << ", not " << m.size());
      std::string d = tdiff(snap(s), m);
      CHECK(d.empty(), "sequence", "scops after an addition: " << d);
    }
    if (c.rendering) c.log << show(tree(m));
    osl_scop_free(s);
  }
}
Property pbt::property = {
    "P13",
    "a history of more than three operations on two lists or unions (or several additions to a chain)",
    {{"stacks", stacks, 60000, 2000000, true}, {"unions", unions, 60000, 2000000, true}, {"chains", chains, 10000, 300000, true}},
};
