// P05: a clone is complete and independent.
// Every clone is compared with the model of the original; then one of the two is altered or
// freed and the other one compared again (the address sanitizer and the memory ledger of the
// engine see shared storage: used after free, freed twice, or never freed).
#include <algorithm>

#include "scop.h"
using namespace pbt;

static GExt xoptions(Case& c) {
  GExt g;
  g.prec = ALLPREC[c.s.below(3)];
  g.big = c.s.pct(8);
  g.readable = c.s.pct(30);
  g.nil = !g.readable;
  return g;
}
static GScop options(Case& c) {
  GScop g;
  g.e = xoptions(c);
  g.loose = c.s.pct(30);
  g.undef = c.s.pct(30);
  return g;
}
static size_t weight(const T& t) {
  size_t n = 1;
  for (auto& x : t.c) n += weight(x);
  return n + t.u.size();
}
#define TREE_SAME(got, want, tag, what)                \
  do {                                                 \
    std::string d_ = diff(got, want);                  \
    CHECK(d_.empty(), tag, what << ": " << d_);        \
  } while (0)

// original and clone: checks them, kills one, checks the other, kills it
template <class S, class F>
static void both(Case& c, void* a, void* b, const T& want, const T& want_clone, S snapshot, F release) {
  TREE_SAME(snapshot(b), want_clone, "complete", "the clone differs");
  TREE_SAME(snapshot(a), want, "unchanged", "cloning changed the original");
  if (a) CHECK(a != b, "independent", "the clone is the original itself");
  if (c.s.flip()) {
    release(a);
    TREE_SAME(snapshot(b), want_clone, "independent", "freeing the original changed the clone");
    release(b);
  } else {
    release(b);
    TREE_SAME(snapshot(a), want, "independent", "freeing the clone changed the original");
    release(a);
  }
}
static void extension(Case& c) {
  GExt g = xoptions(c);
  std::string u = c.s.pick(EXT_URIS);
  label(u);
  T t = gen_ext(c.s, u, g);
  c.nontrivial = weight(t) > 3;
  if (c.rendering) c.log << precname(g.prec) << "\n" << show(t);
  osl_interface_t* it = ext_interface(u);
  void* d = build_data(t);
  void* e = it->clone(d);
  CHECK(it->equal(d, e), "equal", "the clone is not equal to the original");
  both(c, d, e, t, t, [&](void* x) { return snap_data(u, x); }, [&](void* x) { it->free(x); });
  osl_interface_free(it);
}
template <class V>
static V prefix(const V& v, int n) {
  return n < 0 || (size_t)n >= v.size() ? v : V(v.begin(), v.begin() + n);
}
static T gtree(const std::vector<T>& v) {
  T t = T::list("extensions");
  t.c = v;
  return t;
}
static void generics(Case& c) {
  GExt g = xoptions(c);
  std::vector<T> v = gen_exts(c.s, EXT_URIS, c.s.pct(10) ? 15 : 4, g);
  int n = c.s.range(0, (int)v.size() + 2) - 1;
  bool all = c.s.flip();
  if (all) n = -1;
  c.nontrivial = v.size() > 1;
  if (c.rendering) c.log << precname(g.prec) << " clone " << n << "\n" << show(gtree(v));
  osl_generic_t* a = build_generics(v);
  osl_generic_t* b = all ? osl_generic_clone(a) : osl_generic_nclone(a, n);
  both(c, a, b, gtree(v), gtree(prefix(v, n)), [&](void* x) { return gtree(snap_generics((osl_generic_t*)x)); },
       [&](void* x) { osl_generic_free((osl_generic_t*)x); });
}
static T utree(const MUnion& u) { return T::rel("relation", u); }
static T ltree(const std::vector<MUnion>& v) {
  T t = T::list("list");
  for (auto& u : v) t.c.push_back(utree(u));
  return t;
}
static void scribble(osl_relation_t* r, Src& s) {
  for (; r; r = r->next) {
    for (int i = 0; i < r->nb_rows; i++)
      for (int j = 0; j < r->nb_columns; j++) putZ(r->precision, &r->m[i][j], 7 + i + j);
    if (s.flip()) r->type = r->nb_output_dims = r->nb_input_dims = 77;
  }
}
static void relation(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  GRel g;
  g.wide = c.s.flip();
  if (c.s.pct(5)) g.maxrows = 60;
  MUnion u = gen_any_union(c.s, prec, g, 4);
  if (c.s.pct(5)) u.clear();
  int n = c.s.range(0, 6) - 1;
  int op = c.s.below(4);
  c.nontrivial = u.size() > 1;
  if (c.rendering) c.log << show(u) << "\nop " << op << " n " << n;
  osl_relation_t* a = build(u);
  auto sn = [&](void* x) { return utree(snap((osl_relation_t*)x)); };
  auto rl = [&](void* x) { osl_relation_free((osl_relation_t*)x); };
  if (op == 0) {
    both(c, a, osl_relation_clone(a), utree(u), utree(u), sn, rl);
  } else if (op == 1) {
    if (n > (int)u.size()) {
      c.leak_exempt = true;
      CHECK(exits([&] { (void)!osl_relation_nclone(a, n); }), "refused", "cloning more parts than there are is accepted");
      return;
    }
    both(c, a, osl_relation_nclone(a, n), utree(u), utree(prefix(u, n)), sn, rl);
  } else if (op == 2) {
    MUnion w = u;
    bool possible = true;
    for (auto& p : w) {
      if (n < 0) continue;
      if (n > p.rows)
        possible = false;
      else {
        p.rows = n;
        p.m.resize(n);
      }
    }
    if (!possible) {
      c.leak_exempt = true;
      CHECK(exits([&] { (void)!osl_relation_clone_nconstraints(a, n); }), "refused", "cloning more rows than there are is accepted");
      return;
    }
    both(c, a, osl_relation_clone_nconstraints(a, n), utree(u), utree(w), sn, rl);
  } else {  // alter one of the two
    osl_relation_t* b = osl_relation_clone(a);
    if (c.s.flip()) std::swap(a, b);
    scribble(a, c.s);
    SAME(snap(b), u, "independent", "altering one of the original and the clone changed the other");
    osl_relation_free(a);
    osl_relation_free(b);
  }
}
static void lists(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  GRel g;
  std::vector<MUnion> v;
  int n = c.s.small(5);
  for (int i = 0; i < n; i++) v.push_back(c.s.pct(10) ? MUnion{} : gen_any_union(c.s, prec, g, 3));
  c.nontrivial = n > 1;
  if (c.rendering) c.log << show(ltree(v));
  osl_relation_list_t* a = build_list(v);
  osl_relation_list_t* b = osl_relation_list_clone(a);
  if (c.s.flip()) {
    for (osl_relation_list_t* l = b; l; l = l->next) scribble(l->elt, c.s);
    TREE_SAME(ltree(snap_list(a)), ltree(v), "independent", "altering the clone changed the original");
    osl_relation_list_free(b);
    b = osl_relation_list_clone(a);
  }
  both(c, a, b, ltree(v), ltree(v), [&](void* x) { return ltree(snap_list((osl_relation_list_t*)x)); },
       [&](void* x) { osl_relation_list_free((osl_relation_list_t*)x); });
}
static void statement(Case& c) {
  GScop g = options(c);
  std::vector<MStmt> v;
  int k = c.s.small(4), np = c.s.small(3);
  for (int i = 0; i < k; i++) v.push_back(gen_stmt(c.s, g, np));
  int n = c.s.flip() ? -1 : c.s.range(0, k + 2) - 1;
  c.nontrivial = k > 1;
  if (c.rendering) c.log << "clone " << n << "\n" << show(tree(v));
  osl_statement_t* a = build(v);
  osl_statement_t* b = n == -1 ? osl_statement_clone(a) : osl_statement_nclone(a, n);
  both(c, a, b, tree(v), tree(prefix(v, n)), [&](void* x) { return tree(snap((osl_statement_t*)x)); },
       [&](void* x) { osl_statement_free((osl_statement_t*)x); });
}
static void scop(Case& c) {
  GScop g = options(c);
  MScops m = gen_scops(c.s, g);
  if (g.e.nil) {
    if (c.s.pct(5)) m[0].language = T::nil("language");
    if (c.s.pct(5)) m[0].ctx.clear();
    if (c.s.pct(5)) m[0].registry.clear();
    if (c.s.pct(5)) m[0].params.clear();
  }
  m[0].version = c.s.range(0, 3);
  c.nontrivial = !m[0].stmts.empty() && m.size() + m[0].ext.size() > 1;
  if (c.rendering) c.log << precname(g.e.prec) << "\n" << show(tree(m));
  osl_scop_t* a = build(m);
  osl_scop_t* b = osl_scop_clone(a);
  CHECK(osl_scop_equal(a, b), "equal", "the clone is not equal to the original");
  if (c.s.flip()) {  // alter the clone in many places
    for (osl_scop_t* s = b; s; s = s->next) {
      scribble(s->context, c.s);
      s->version++;
      if (s->language) s->language[0] = '?';
      for (osl_statement_t* t = s->statement; t; t = t->next) {
        scribble(t->domain, c.s);
        scribble(t->scattering, c.s);
        for (osl_relation_list_t* l = t->access; l; l = l->next) scribble(l->elt, c.s);
        if (c.s.flip()) osl_generic_remove(&t->extension, "body");
      }
      osl_generic_remove(&s->extension, "arrays");
      if (s->registry) s->registry->URI[0] = '?';
    }
    std::string d = tdiff(snap(a), m);
    CHECK(d.empty(), "independent", "altering the clone changed the original: " << d);
    osl_scop_free(b);
    b = osl_scop_clone(a);
  }
  both(c, a, b, tree(m), tree(m), [&](void* x) { return tree(snap((osl_scop_t*)x)); },
       [&](void* x) { osl_scop_free((osl_scop_t*)x); });
}
static T itree(const std::vector<std::string>& v) {
  T t = T::list("interfaces");
  for (auto& s : v) t.c.push_back(T::str("", s));
  return t;
}
static void others(Case& c) {
  switch (c.s.below(5)) {
    case 0: {
      label("strings");
      T t = gen_strings(c.s, "strings", 0, 8, false, c.s.pct(20));
      if (c.s.pct(5)) t = T::nil("strings");
      c.nontrivial = t.size() > 1;
      if (c.rendering) c.log << show(t);
      osl_strings_t* a = build_strings(t);
      both(c, a, osl_strings_clone(a), t, t, [&](void* x) { return snap_strings("strings", (osl_strings_t*)x); },
           [&](void* x) { osl_strings_free((osl_strings_t*)x); });
      break;
    }
    case 1: {
      label("names");
      T t = T::list("names");
      for (const char* n : {"parameters", "iterators", "scatt_dims", "local_dims", "arrays"})
        t.c.push_back(c.s.pct(15) ? T::nil(n) : gen_strings(c.s, n, 0, 4, true, false));
      c.nontrivial = true;
      if (c.rendering) c.log << show(t);
      osl_names_t* a = (osl_names_t*)malloc(sizeof(osl_names_t));
      a->parameters = build_strings(t.c[0]);
      a->iterators = build_strings(t.c[1]);
      a->scatt_dims = build_strings(t.c[2]);
      a->local_dims = build_strings(t.c[3]);
      a->arrays = build_strings(t.c[4]);
      auto sn = [&](void* x) {
        osl_names_t* n = (osl_names_t*)x;
        T r = T::list("names");
        r.c = {snap_strings("parameters", n->parameters), snap_strings("iterators", n->iterators),
               snap_strings("scatt_dims", n->scatt_dims), snap_strings("local_dims", n->local_dims),
               snap_strings("arrays", n->arrays)};
        return r;
      };
      both(c, a, osl_names_clone(a), t, t, sn, [&](void* x) { osl_names_free((osl_names_t*)x); });
      break;
    }
    case 2: {
      label("interfaces");
      std::vector<std::string> v, left = EXT_URIS;
      int k = c.s.small(6);
      for (int i = 0; i < k && !left.empty(); i++) {
        size_t x = c.s.below((uint32_t)left.size());
        v.push_back(left[x]);
        left.erase(left.begin() + x);
      }
      int n = c.s.flip() ? -1 : c.s.range(0, k + 2) - 1;
      c.nontrivial = k > 1;
      if (c.rendering) c.log << "clone " << n << "\n" << show(itree(v));
      osl_interface_t* a = build_registry(v);
      osl_interface_t* b = n == -1 ? osl_interface_clone(a) : osl_interface_nclone(a, n);
      const osl_interface_t* y = b;
      for (const osl_interface_t* x = a; x && y; x = x->next, y = y->next)
        CHECK(x->idump == y->idump && x->sprint == y->sprint && x->sread == y->sread && x->malloc == y->malloc &&
                  x->free == y->free && x->clone == y->clone && x->equal == y->equal,
              "complete", "the functions of an interface differ in the clone");
      both(c, a, b, itree(v), itree(prefix(v, n)), [&](void* x) { return itree(snap_registry((osl_interface_t*)x)); },
           [&](void* x) { osl_interface_free((osl_interface_t*)x); });
      break;
    }
    case 3: {
      label("some symbols");
      GExt g = xoptions(c);
      g.nil = false;
      T t = gen_ext(c.s, "symbols", g);
      int k = (int)t.size();
      int n = c.s.range(0, k + 2) - 1;
      T w = t;
      if (n >= 0 && n < k) w.c.resize(n);
      if (w.c.empty()) w = T::nil("symbols");
      c.nontrivial = k > 1;
      if (c.rendering) c.log << "clone " << n << "\n" << show(t);
      osl_symbols_t* a = (osl_symbols_t*)build_data(t);
      both(c, a, osl_symbols_nclone(a, n), t, w, [&](void* x) { return snap_data("symbols", x); },
           [&](void* x) { osl_symbols_free((osl_symbols_t*)x); });
      break;
    }
    default: {
      label("pointers of dependences");
      GExt g = xoptions(c);
      g.nil = false;
      T t = gen_ext(c.s, "dependence", g);
      c.nontrivial = t.size() > 1;
      if (c.rendering) c.log << show(t);
      osl_dependence_t* a = (osl_dependence_t*)build_data(t);
      static char place[4096];
      auto some = [&]() -> void* { return c.s.pct(30) ? nullptr : place + c.s.below(4096); };
      for (osl_dependence_t* d = a; d; d = d->next) {
        d->stmt_source_ptr = (osl_statement_p)some();
        d->stmt_target_ptr = (osl_statement_p)some();
        d->ref_source_access_ptr = (osl_relation_p)some();
        d->ref_target_access_ptr = (osl_relation_p)some();
      }
      osl_dependence_t* b = osl_dependence_clone(a);
      osl_dependence_t* y = b;
      for (osl_dependence_t* d = a; d && y; d = d->next, y = y->next) {
        CHECK(d->stmt_source_ptr == y->stmt_source_ptr && d->stmt_target_ptr == y->stmt_target_ptr, "complete",
              "the statements of a dependence differ in the clone");
        CHECK(d->ref_source_access_ptr == y->ref_source_access_ptr && d->ref_target_access_ptr == y->ref_target_access_ptr,
              "complete", "the accesses of a dependence differ in the clone");
      }
      both(c, a, b, t, t, [&](void* x) { return snap_data("dependence", x); },
           [&](void* x) { osl_dependence_free((osl_dependence_t*)x); });
    }
  }
}
Property pbt::property = {
    "P05",
    "an object of several elements or components is cloned, then one of the two is altered or freed",
    {{"extension", extension, 60000, 1500000, true},
     {"generics", generics, 20000, 600000, true},
     {"relation", relation, 40000, 1200000, true},
     {"lists", lists, 15000, 500000, true},
     {"statement", statement, 15000, 500000, true},
     {"scop", scop, 15000, 500000, true},
     {"others", others, 30000, 900000, true}},
};
