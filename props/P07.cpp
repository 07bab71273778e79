// P07: every object is released exactly once, and no access leaves its memory.
// Histories over a pool of objects of all kinds: create, read, copy, combine, edit, print,
// convert, move from one owner to another, free; at the end everything the caller still owns
// is freed, in any order. The oracle is AddressSanitizer (no access outside live memory, no
// double free) and the allocation ledger (nothing stays allocated).
#include <algorithm>
#include <functional>

#include "scop.h"
using namespace pbt;
typedef std::string S;
typedef std::vector<S> V;

static const int MAXROWS = 14, MAXCOLS = 18, MAXPARTS = 5, MAXCHAIN = 6;

struct Pool {
  Case& c;
  Src& s;
  int prec;
  bool wide = false;
  std::vector<osl_relation_t*> rel;
  std::vector<osl_relation_list_t*> lst;
  std::vector<osl_statement_t*> stm;
  std::vector<osl_scop_t*> scp;
  std::vector<osl_generic_t*> gen;
  std::vector<osl_vector_t*> vec;
  std::vector<osl_strings_t*> str;
  std::vector<osl_names_t*> nam;
  std::vector<osl_interface_t*> reg;
  int kinds = 0;  // kinds of operation done
  explicit Pool(Case& c_) : c(c_), s(c_.s) {
    prec = ALLPREC[s.below(3)];
    set_env(prec);
  }
  void say(const S& t) {
    if (c.rendering) c.log << t << "\n";
  }
  template <class X>
  X* any(std::vector<X*>& v) {
    return v.empty() ? nullptr : v[s.below((uint32_t)v.size())];
  }
  // out of the pool
  template <class X>
  X* take(std::vector<X*>& v) {
    if (v.empty()) return nullptr;
    size_t i = s.below((uint32_t)v.size());
    X* x = v[i];
    v.erase(v.begin() + i);
    return x;
  }
  template <class X>
  X*& slot(std::vector<X*>& v) {
    return v[s.below((uint32_t)v.size())];
  }
};
typedef void (*Op)(Pool&);

// ------------------------------------------------------------------ helpers
static int parts(const osl_relation_t* r) {
  int n = 0;
  for (; r; r = r->next) n++;
  return n;
}
template <class X>
static int chain(const X* x) {
  int n = 0;
  for (; x; x = x->next) n++;
  return n;
}
// Counts of dimensions that agree with the columns (an edit may have changed these).
static void reshape(osl_relation_t* r) {
  osl_relation_set_type(r, OSL_TYPE_DOMAIN);
  for (; r; r = r->next) {
    int d[4] = {r->nb_output_dims, r->nb_input_dims, r->nb_local_dims, r->nb_parameters};
    int sum = 2;
    bool ok = true;
    for (int x : d) {
      ok = ok && x >= 0;
      sum += x;
    }
    if (ok && sum == r->nb_columns) continue;
    if (r->nb_columns >= 2)
      osl_relation_set_attributes_one(r, r->nb_columns - 2, 0, 0, 0);
    else
      osl_relation_set_attributes_one(r, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED);
  }
}
static bool printable(const osl_relation_t* r) {
  for (; r; r = r->next)
    if (r->nb_output_dims < 0 || r->nb_input_dims < 0 || r->nb_local_dims < 0 || r->nb_parameters < 0 ||
        r->nb_columns != 2 + r->nb_output_dims + r->nb_input_dims + r->nb_local_dims + r->nb_parameters)
      return false;
  return true;
}
static bool small_values(const osl_relation_t* r) {
  Z lim = Z(1) << 40;
  for (auto& p : snap(r))
    for (auto& row : p.m)
      for (auto& z : row)
        if (z > lim || z < -lim) return false;
  return true;
}
static bool small_values(const osl_vector_t* v) {
  Z lim = Z(1) << 40;
  for (int i = 0; i < v->size; i++) {
    Z z = getZ(v->precision, v->v[i]);
    if (z > lim || z < -lim) return false;
  }
  return true;
}
static osl_relation_t* part(Pool& p, osl_relation_t* r) {
  for (int i = r ? p.s.below(parts(r)) : 0; i > 0; i--) r = r->next;
  return r;
}
static GScop scop_options(Pool& p) {
  GScop g;
  g.e.prec = p.prec;
  g.e.readable = p.s.pct(50);
  g.e.nil = !g.e.readable;
  g.e.wide = false;
  g.e.big = p.s.pct(3);
  g.absent = p.s.pct(30);
  g.maxstmts = 3;
  g.maxscops = 2;
  return g;
}
static GExt ext_options(Pool& p, bool readable) {
  GExt g;
  g.prec = p.prec;
  g.readable = readable;
  g.nil = !readable;
  g.big = p.s.pct(6);
  g.wide = p.s.pct(30);
  return g;
}
static osl_names_t* names(Pool& p) {
  if (!p.nam.empty() && p.s.flip()) {
    osl_names_t* n = p.any(p.nam);
    return n;
  }
  return nullptr;
}
static osl_names_t* some_names(Src& s) {
  int n = 45;
  return osl_names_generate(s.flip() ? "N" : "param", n, s.flip() ? "t" : "iter", n, "sc", n, "loc", n, s.flip() ? "tab" : "", 250);
}
static void drop(char* t) { free(t); }

// ------------------------------------------------------------------ relations
static void r_build(Pool& p) {
  GRel g;
  g.wide = p.wide;
  if (p.s.pct(10)) {
    g.maxrows = 12;
    g.maxout = 6;
    g.maxin = 5;
  }
  MUnion u = gen_any_union(p.s, p.prec, g, 3);
  p.rel.push_back(build(u));
}
static void r_malloc(Pool& p) {
  int r = p.s.small(6), k = p.s.small(8);
  osl_relation_t* x = p.s.flip() ? osl_relation_pmalloc(p.prec, r, k) : osl_relation_malloc(r, k);
  reshape(x);
  if (x->precision != p.prec) fail("precision", "osl_relation_malloc does not follow the environment");
  p.rel.push_back(x);
}
static void r_access(Pool& p) {
  int t = std::vector<int>{OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE}[p.s.below(3)];
  MRel a = gen_access(p.s, p.prec, t, 1 + p.s.small(8), p.s.small(3), p.s.small(3), p.s.small(2), p.s.small(3), p.wide);
  p.rel.push_back(build(MUnion{a}));
}
static void r_read(Pool& p) {
  GRel g;
  g.wide = p.wide;
  int out = p.s.small(3), in = p.s.small(3), loc = p.s.small(2), par = p.s.small(3);
  MUnion u;
  for (int n = 1 + p.s.small(2); n > 0; n--)
    u.push_back(gen_rel(p.s, p.prec, OSL_TYPE_DOMAIN, out, in, loc, par, p.s.small(5), p.wide));
  Layout l;
  l.s = &p.s;
  l.noise = p.s.pct(50) ? 40 : 0;
  emit_relation(u, l);
  int how = p.s.below(4);
  p.say("relation from text (" + std::to_string(how) + "):\n" + l.o);
  if (how < 2) {
    FILE* f = file_of(l.o);
    p.rel.push_back(how ? osl_relation_read(f) : osl_relation_pread(f, p.prec));
    fclose(f);
  } else {
    S t = l.o;
    char* q = &t[0];
    p.rel.push_back(how == 2 ? osl_relation_sread(&q) : osl_relation_psread(&q, p.prec));
  }
}
static void r_clone(Pool& p) {
  osl_relation_t* r = p.any(p.rel);
  if (p.rel.size() > 12) return;
  if (!r || p.s.flip()) {
    p.rel.push_back(osl_relation_clone(r));
    if (!r) p.rel.pop_back();
    return;
  }
  osl_relation_t* x;
  if (p.s.flip())
    x = osl_relation_nclone(r, p.s.range(-1, parts(r)));
  else {
    int m = 1 << 20;
    for (osl_relation_t* q = r; q; q = q->next) m = std::min(m, q->nb_rows);
    x = osl_relation_clone_nconstraints(r, p.s.range(-1, m));
  }
  if (x) p.rel.push_back(x);
}
static void r_add(Pool& p) {
  osl_relation_t *a = p.take(p.rel), *b = p.take(p.rel);
  if (!a) return;
  if (b && parts(a) + parts(b) > MAXPARTS) {
    p.rel.push_back(b);
    b = nullptr;
  }
  if (p.s.pct(15)) {
    osl_relation_t* e = nullptr;
    osl_relation_add(&e, a);
    a = e;
  }
  osl_relation_add(&a, b);
  reshape(a);
  p.rel.push_back(a);
}
static void r_union(Pool& p) {
  osl_relation_t *a = p.any(p.rel), *b = p.s.pct(90) ? p.any(p.rel) : nullptr;
  if (!a || parts(a) + parts(b) > MAXPARTS || p.rel.size() > 12) return;
  osl_relation_t* u = p.s.flip() ? osl_relation_union(a, b) : osl_relation_union(b, a);
  reshape(u);
  p.rel.push_back(u);
}
static void r_remove_part(Pool& p) {
  if (p.rel.empty()) return;
  size_t i = p.s.below(p.rel.size());
  osl_relation_t* x = part(p, p.rel[i]);
  if (p.s.pct(10)) x = part(p, p.any(p.rel));  // maybe a part of another one: nothing happens
  osl_relation_remove_part(&p.rel[i], x);
  if (!p.rel[i]) p.rel.erase(p.rel.begin() + i);
}
static void r_rows(Pool& p) {
  osl_relation_t* r = p.any(p.rel);
  if (!r) return;
  osl_relation_t* x = part(p, r);
  int n = x->nb_rows;
  int op = p.s.below(9);
  p.say("  row operation " + std::to_string(op));
  if ((op == 0 || op == 4) && n >= MAXROWS) return;
  auto other = [&](bool rows) -> osl_relation_t* {
    for (int k = 0; k < 4; k++) {
      osl_relation_t* o = part(p, p.any(p.rel));
      if (o && o->nb_columns == x->nb_columns && (!rows || o->nb_rows <= n)) return o;
    }
    return p.s.flip() ? x : nullptr;
  };
  auto vec = [&]() -> osl_vector_t* {
    for (auto v : p.vec)
      if (v->size == x->nb_columns) return v;
    return nullptr;
  };
  switch (op) {
    case 0:
      osl_relation_insert_blank_row(x, p.s.range(0, n));
      break;
    case 1:
    case 2:
      if (n) osl_relation_remove_row(x, p.s.below(n));
      break;
    case 3:
      if (n) osl_relation_swap_constraints(x, p.s.below(n), p.s.below(n));
      break;
    case 4: {
      osl_relation_t* o = other(false);
      if (o && n + o->nb_rows <= MAXROWS) osl_relation_insert_constraints(x, o, p.s.range(-1, n));
      break;
    }
    case 5: {
      osl_relation_t* o = other(true);
      if (o) osl_relation_replace_constraints(x, o, p.s.range(0, n - o->nb_rows));
      break;
    }
    case 6: {
      osl_vector_t* v = vec();
      if (v && n) osl_relation_replace_vector(x, v, p.s.below(n));
      break;
    }
    case 7: {
      osl_vector_t* v = vec();
      if (v && n < MAXROWS) osl_relation_insert_vector(x, v, p.s.range(-1, n));
      break;
    }
    default: {
      osl_vector_t* v = vec();
      if (v && n && v->size && small_values(x) && small_values(v))
        (p.s.flip() ? osl_relation_add_vector : osl_relation_sub_vector)(x, v, p.s.below(n));
    }
  }
  reshape(r);
}
static void r_columns(Pool& p) {
  osl_relation_t* r = p.any(p.rel);
  if (!r) return;
  osl_relation_t* x = part(p, r);
  int n = x->nb_columns;
  switch (p.s.below(3)) {
    case 0:
      if (n < MAXCOLS) osl_relation_insert_blank_column(x, p.s.range(0, n));
      break;
    case 1:
      if (n) osl_relation_remove_column(x, p.s.below(n));
      break;
    default: {
      osl_relation_t* o = part(p, p.any(p.rel));
      if (o->nb_rows == x->nb_rows && n + o->nb_columns <= MAXCOLS) osl_relation_insert_columns(x, o, p.s.range(0, n));
    }
  }
  reshape(r);
}
static void r_concat(Pool& p) {
  if (p.rel.size() > 12) return;
  osl_relation_t *a = p.any(p.rel), *b = p.any(p.rel), *x = nullptr;
  if (a && a->nb_columns == b->nb_columns && a->nb_rows + b->nb_rows <= MAXROWS)
    x = osl_relation_concat_constraints(a, b);
  else {
    osl_vector_t* v = p.any(p.vec);
    if (a && v && a->nb_columns == v->size && a->nb_rows < MAXROWS) x = osl_relation_concat_vector(a, v);
  }
  if (!x) return;
  reshape(x);
  p.rel.push_back(x);
}
static void r_look(Pool& p) {
  osl_relation_t *r = p.any(p.rel), *q = p.any(p.rel);
  if (!r) return;
  if (!printable(r)) return;
  int op = p.s.below(10);
  p.say("  look " + std::to_string(op));
  osl_names_t* n = names(p);
  bool mine = !n;
  if (mine && op < 6) n = some_names(p.s);
  switch (op) {
    case 0:
      drop(osl_relation_spprint(r, n));
      break;
    case 1:
      drop(osl_relation_sprint(r));
      break;
    case 2:
      print_to_string([&](FILE* f) { osl_relation_pprint(f, r, n); });
      break;
    case 3:
      print_to_string([&](FILE* f) { osl_relation_print(f, r); });
      break;
    case 4:
      drop(osl_relation_spprint_polylib(r, n));
      break;
    case 5: {
      if (!r->nb_rows) break;
      std::vector<S> w(r->nb_columns, "name");
      std::vector<char*> cp;
      for (auto& e : w) cp.push_back(&e[0]);
      cp.push_back(nullptr);
      drop(osl_relation_expression(r, p.s.below(r->nb_rows), cp.data()));
      break;
    }
    case 6:
      print_to_string([&](FILE* f) { osl_relation_idump(f, r, p.s.small(4)); });
      print_to_string([&](FILE* f) { osl_relation_dump(f, r); });
      break;
    case 7:
      osl_relation_equal(r, q);
      osl_relation_part_equal(r, q);
      break;
    case 8:
      osl_relation_integrity_check(r, r->type, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED);
      osl_relation_nb_components(r);
      osl_relation_is_access(r);
      break;
    default: {
      int a = 0, b = 0, d = 0, e = 0, g = 0;
      osl_relation_get_attributes(r, &a, &b, &d, &e, &g);
      osl_relation_get_array_id(r);
    }
  }
  if (mine && op < 6) osl_names_free(n);
}
static void r_precision(Pool& p) {
  osl_relation_t* r = p.any(p.rel);
  if (!r) return;
  int to = ALLPREC[p.s.below(3)];
  if (!all_fit(to, snap(r))) return;
  if (p.s.flip()) {
    osl_relation_t* t = osl_relation_clone(r);
    osl_relation_set_precision(to, t);
    if (p.s.flip() && small_values(r)) osl_relation_set_same_precision(t, r);
    if (parts(r) && r->precision != p.prec) osl_relation_set_precision(p.prec, r);
    drop(printable(t) ? osl_relation_sprint(t) : nullptr);
    osl_relation_free(t);
  } else {
    osl_relation_set_precision(to, r);
    osl_relation_set_precision(p.prec, r);
  }
}
static void r_extend(Pool& p) {
  osl_relation_t* r = p.any(p.rel);
  if (!r || !printable(r) || p.rel.size() > 12) return;
  int m = 0, k = 0, w = 0;
  for (osl_relation_t* q = r; q; q = q->next) {
    m = std::max(m, q->nb_output_dims);
    k = std::max(k, q->nb_columns);
    w = std::max(w, q->nb_rows);
  }
  int d = m + p.s.small(3);
  if (k + d > MAXCOLS || w + d > MAXROWS) return;
  osl_relation_t* x = osl_relation_extend_output(r, d);
  reshape(x);
  p.rel.push_back(x);
}
static void r_free(Pool& p) {
  osl_relation_t* r = p.take(p.rel);
  if (r && p.s.pct(30)) {  // what is inside, then the rest
    osl_relation_free_inside(r);
    r->m = nullptr;
    r->nb_rows = r->nb_columns = 0;
  }
  osl_relation_free(r);
}

// ------------------------------------------------------------------ vectors
static void v_build(Pool& p) {
  int n = p.s.pct(60) && !p.rel.empty() ? part(p, p.any(p.rel))->nb_columns : p.s.small(8);
  osl_vector_t* v = p.s.flip() ? osl_vector_pmalloc(p.prec, n) : osl_vector_malloc(n);
  for (int i = 0; i < n; i++) putZ(p.prec, &v->v[i], gen_coef(p.s, p.prec, p.wide));
  if (n) putZ(p.prec, &v->v[0], Z(p.s.below(2)));
  p.vec.push_back(v);
}
static void v_ops(Pool& p) {
  osl_vector_t *a = p.any(p.vec), *b = p.any(p.vec);
  if (!a) return;
  if (p.vec.size() > 12) {
    osl_vector_free(p.take(p.vec));
    return;
  }
  switch (p.s.below(9)) {
    case 0:
      if (a->size == b->size && a->size && small_values(a) && small_values(b)) p.vec.push_back(osl_vector_add(a, b));
      break;
    case 1:
      if (a->size == b->size && a->size && small_values(a) && small_values(b)) p.vec.push_back(osl_vector_sub(a, b));
      break;
    case 2:
      if (a->size >= 2 && small_values(a)) p.vec.push_back(osl_vector_add_scalar(a, p.s.range(-5, 5)));
      break;
    case 3:
      if (a->size && small_values(a)) p.vec.push_back(osl_vector_mul_scalar(a, p.s.range(-3, 3)));
      break;
    case 4:
      if (a->size) (p.s.flip() ? osl_vector_tag_equality : osl_vector_tag_inequality)(a);
      break;
    case 5:
      osl_vector_equal(a, b);
      osl_vector_is_scalar(a);
      break;
    case 6:
      print_to_string([&](FILE* f) { osl_vector_idump(f, a, p.s.small(3)); });
      print_to_string([&](FILE* f) { osl_vector_dump(f, a); });
      break;
    case 7: {
      if (p.rel.size() > 12) break;
      osl_relation_t* r = osl_relation_from_vector(a);
      reshape(r);
      p.rel.push_back(r);
      break;
    }
    default:
      osl_vector_free(p.take(p.vec));
  }
}

// ------------------------------------------------------------------ lists
static void l_build(Pool& p) {
  if (p.s.flip() && !p.rel.empty()) {
    p.lst.push_back(osl_relation_list_node(p.any(p.rel)));
    return;
  }
  if (p.s.pct(40)) {  // an element that gets a relation of the pool
    osl_relation_list_t* l = osl_relation_list_malloc();
    l->elt = p.take(p.rel);
    p.lst.push_back(l);
    return;
  }
  std::vector<MUnion> m;
  for (int i = 1 + p.s.small(3); i > 0; i--) {
    if (p.s.pct(10)) {
      m.push_back({});
      continue;
    }
    int t = std::vector<int>{OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE}[p.s.below(3)];
    m.push_back({gen_access(p.s, p.prec, t, 1 + p.s.small(8), p.s.small(3), 2, p.s.small(2), 1, p.wide)});
  }
  if (p.s.flip()) {
    p.lst.push_back(build_list(m));
    return;
  }
  for (size_t i = 0; i < m.size(); i++)
    if (m[i].empty()) m.erase(m.begin() + i--);
  Layout l;
  l.s = &p.s;
  l.line(std::to_string(m.size()));
  for (auto& u : m) emit_relation(u, l);
  FILE* f = file_of(l.o);
  p.lst.push_back(p.s.flip() ? osl_relation_list_read(f) : osl_relation_list_pread(f, p.prec));
  fclose(f);
}
static bool l_printable(const osl_relation_list_t* l) {
  for (; l; l = l->next)
    if (!printable(l->elt)) return false;
  return true;
}
static void l_ops(Pool& p) {
  if (p.lst.empty()) return;
  size_t i = p.s.below(p.lst.size());
  osl_relation_list_t*& l = p.lst[i];
  int n = chain(l);
  int op = p.s.below(13);
  p.say("  list operation " + std::to_string(op));
  bool room = p.lst.size() < 10;
  switch (op) {
    case 0: {  // one list at the end of another
      osl_relation_list_t* a = p.take(p.lst);
      osl_relation_list_t* b = p.take(p.lst);
      if (b && chain(a) + chain(b) > MAXCHAIN) {
        p.lst.push_back(b);
        b = nullptr;
      }
      osl_relation_list_add(&a, b);
      p.lst.push_back(a);
      break;
    }
    case 1:
      if (room) p.lst.push_back(osl_relation_list_clone(l));
      break;
    case 2: {
      osl_relation_list_t* o = p.any(p.lst);
      if (room && n + chain(o) <= MAXCHAIN) p.lst.push_back(osl_relation_list_concat(l, o));
      break;
    }
    case 3: {
      osl_relation_list_t* x = osl_relation_list_malloc();
      if (p.s.flip()) x->elt = p.take(p.rel);
      if (n < MAXCHAIN)
        osl_relation_list_push(&l, x);
      else
        osl_relation_list_free(x);
      break;
    }
    case 4:
    case 5: {
      osl_relation_list_t* x = osl_relation_list_pop(&l);
      if (!l) p.lst.erase(p.lst.begin() + i);
      if (x && p.s.flip() && x->elt) {  // the relation moves to the pool
        reshape(x->elt);
        p.rel.push_back(x->elt);
        x->elt = nullptr;
      }
      osl_relation_list_free(x);
      break;
    }
    case 6:
      if (n < MAXCHAIN) osl_relation_list_dup(&l);
      break;
    case 7:
      osl_relation_list_drop(&l);
      if (!l) p.lst.erase(p.lst.begin() + i);
      break;
    case 8:
      osl_relation_list_destroy(&l);
      CHECK(!l, "destroy", "a destroyed list is not NULL");
      p.lst.erase(p.lst.begin() + i);
      break;
    case 9: {
      if (!room) break;
      osl_relation_list_t* x =
          osl_relation_list_filter(l, std::vector<int>{OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_ACCESS, OSL_TYPE_DOMAIN}[p.s.below(4)]);
      if (x) p.lst.push_back(x);
      break;
    }
    case 10: {
      if (!l_printable(l)) break;
      osl_names_t* nm = names(p);
      bool mine = !nm;
      if (mine) nm = some_names(p.s);
      print_to_string([&](FILE* f) {
        if (p.s.flip())
          osl_relation_list_pprint(f, l, nm);
        else
          osl_relation_list_pprint_elts(f, l, nm);
      });
      print_to_string([&](FILE* f) { osl_relation_list_print(f, l); });
      if (mine) osl_names_free(nm);
      break;
    }
    case 11:
      print_to_string([&](FILE* f) { osl_relation_list_idump(f, l, p.s.small(3)); });
      print_to_string([&](FILE* f) { osl_relation_list_dump(f, l); });
      break;
    default: {
      osl_relation_list_t* o = p.any(p.lst);
      osl_relation_list_equal(l, o);
      osl_relation_list_count(l);
      osl_relation_list_integrity_check(l, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED);
      int a = 0, b = 0, d = 0, e = 0, g = 0;
      osl_relation_list_get_attributes(l, &a, &b, &d, &e, &g);
      if (p.s.flip()) osl_relation_list_set_type(l, OSL_TYPE_READ);
      for (osl_relation_list_t* x = l; x; x = x->next) reshape(x->elt);
    }
  }
}

// ------------------------------------------------------------------ extensions
static bool has_tag(const osl_generic_t* g, const S& u) {
  for (; g; g = g->next)
    if (g->interface && u == g->interface->URI) return true;
  return false;
}
static void g_build(Pool& p) {
  if (p.gen.size() > 8) return;
  bool readable = p.s.flip();
  GExt g = ext_options(p, readable);
  std::vector<T> v = gen_exts(p.s, readable ? EXT_READABLE : EXT_URIS, 4, g);
  if (v.empty()) return;
  if (!readable || p.s.flip()) {
    p.gen.push_back(build_generics(v));
    return;
  }
  Layout l;
  l.s = &p.s;
  l.noise = 20;
  emit_generics(v, l, 20);
  p.say("extensions from text:\n" + l.o);
  osl_interface_t* r = osl_interface_get_default_registry();
  osl_interface_t* used = !p.reg.empty() && p.s.pct(30) ? p.any(p.reg) : r;
  osl_generic_t* x;
  int how = p.s.below(3);
  if (how == 0) {
    FILE* f = file_of(l.o + "</OpenScop>\n");
    x = osl_generic_read(f, used);
    fclose(f);
  } else {
    S t = l.o;
    char* q = &t[0];
    x = how == 1 ? osl_generic_sread(&q, used) : osl_generic_sread_one(&q, used);
  }
  if (x) p.gen.push_back(x);
  osl_interface_free(r);
}
static void g_ops(Pool& p) {
  if (p.gen.empty()) return;
  size_t i = p.s.below(p.gen.size());
  osl_generic_t*& g = p.gen[i];
  int n = chain(g);
  int op = p.s.below(11);
  p.say("  extension operation " + std::to_string(op));
  auto emptied = [&] {
    if (!p.gen[i]) p.gen.erase(p.gen.begin() + i);
  };
  switch (op) {
    case 0: {  // one list to another (no tag twice)
      osl_generic_t *a = p.take(p.gen), *b = p.take(p.gen);
      for (osl_generic_t* x = b; x; x = x->next)
        if (x->interface && has_tag(a, x->interface->URI)) {
          p.gen.push_back(b);
          b = nullptr;
          break;
        }
      if (b) osl_generic_add(&a, b);
      p.gen.push_back(a);
      break;
    }
    case 1: {
      S u = p.s.pick(EXT_URIS);
      for (osl_generic_t* x = g; x; x = x->next)
        if (x->interface && p.s.pct(40)) {
          u = x->interface->URI;
          break;
        }
      osl_generic_remove(&g, u.c_str());
      emptied();
      break;
    }
    case 2: {
      osl_generic_t* x = g;
      for (int k = p.s.below(n); k > 0; k--) x = x->next;
      osl_generic_remove_node(&g, x);
      emptied();
      break;
    }
    case 3: {
      osl_generic_t* x = p.s.flip() ? osl_generic_clone(g) : osl_generic_nclone(g, p.s.range(-1, n + 1));
      if (x && p.gen.size() < 8)
        p.gen.push_back(x);
      else
        osl_generic_free(x);
      break;
    }
    case 4:
      print_to_string([&](FILE* f) { osl_generic_print(f, g); });
      break;
    case 5:
    case 6:
      drop(osl_generic_sprint(g));
      break;
    case 7:
      print_to_string([&](FILE* f) { osl_generic_idump(f, g, p.s.small(3)); });
      print_to_string([&](FILE* f) { osl_generic_dump(f, g); });
      break;
    case 8: {
      osl_generic_t* o = p.any(p.gen);
      osl_generic_equal(g, o);
      osl_generic_number(g);
      osl_generic_count(g);
      osl_generic_lookup(g, p.s.pick(EXT_URIS).c_str());
      break;
    }
    case 9: {  // a shell of one's own around a copy of the data
      S u = p.s.pick(EXT_URIS);
      T m = gen_ext(p.s, u, ext_options(p, false));
      if (p.s.pct(20)) {  // data that nobody knows, or an interface without data
        osl_generic_t* y = osl_generic_malloc();
        if (p.s.pct(80)) y->data = malloc(8);
        y->next = p.s.flip() ? osl_generic_shell(build_data(m), ext_interface(u)) : nullptr;
        osl_generic_free(y);
        break;
      }
      osl_generic_t* x = osl_generic_shell(build_data(m), ext_interface(u));
      if (has_tag(g, u))
        osl_generic_free(x);
      else
        osl_generic_add(&g, x);
      break;
    }
    default:
      osl_generic_free(p.take(p.gen));
  }
}

// ------------------------------------------------------------------ statements
static osl_interface_t* registry(Pool& p) { return osl_interface_get_default_registry(); }
static void s_build(Pool& p) {
  if (p.stm.size() > 6) return;
  GScop g = scop_options(p);
  std::vector<MStmt> m;
  int np = p.s.small(3);
  for (int i = 1 + p.s.small(2); i > 0; i--) m.push_back(gen_stmt(p.s, g, np));
  p.stm.push_back(build(m));
}
static void s_empty(Pool& p) {
  if (p.stm.size() > 6) return;
  osl_statement_t* t = osl_statement_malloc();
  if (p.s.flip()) t->domain = p.take(p.rel);
  if (p.s.flip()) t->scattering = p.take(p.rel);
  if (p.s.flip()) t->access = p.take(p.lst);
  if (p.s.flip()) t->extension = p.take(p.gen);
  p.stm.push_back(t);
}
static bool s_printable(const osl_statement_t* t) {
  for (; t; t = t->next)
    if (!printable(t->domain) || !printable(t->scattering) || !l_printable(t->access)) return false;
  return true;
}
static void s_ops(Pool& p) {
  if (p.stm.empty()) return;
  size_t i = p.s.below(p.stm.size());
  osl_statement_t* t = p.stm[i];
  osl_statement_t* q = t;
  int n = chain(t);
  for (int k = p.s.below(n); k > 0; k--) q = q->next;
  int op = p.s.below(14);
  p.say("  statement operation " + std::to_string(op));
  switch (op) {
    case 0: {
      osl_statement_t *a = p.take(p.stm), *b = p.take(p.stm);
      if (b && chain(a) + chain(b) > MAXCHAIN) {
        p.stm.push_back(b);
        b = nullptr;
      }
      if (b) osl_statement_add(&a, b);
      p.stm.push_back(a);
      break;
    }
    case 1: {
      osl_statement_t* x = p.s.flip() ? osl_statement_clone(t) : osl_statement_nclone(t, p.s.range(-1, n));
      if (x && p.stm.size() < 6)
        p.stm.push_back(x);
      else
        osl_statement_free(x);
      break;
    }
    case 2: {
      bool ok = true;
      int size = 1;
      for (osl_statement_t* y = t; y; y = y->next) {
        ok = ok && y->domain && y->scattering;
        size *= std::max(1, parts(y->domain) * parts(y->scattering));
      }
      if (!ok || size > 12) break;
      osl_statement_t* x = osl_statement_remove_unions(t);
      if (x && p.stm.size() < 6 && chain(x) <= MAXCHAIN)
        p.stm.push_back(x);
      else
        osl_statement_free(x);
      break;
    }
    case 3: {  // the domain changes hands
      osl_relation_t* r = q->domain;
      q->domain = p.s.flip() ? p.take(p.rel) : nullptr;
      if (r) {
        reshape(r);
        p.rel.push_back(r);
      }
      break;
    }
    case 4: {
      osl_relation_t* r = q->scattering;
      q->scattering = p.s.flip() ? p.take(p.rel) : nullptr;
      if (r) {
        reshape(r);
        p.rel.push_back(r);
      }
      break;
    }
    case 5: {
      osl_relation_list_t* l = q->access;
      q->access = p.s.flip() ? p.take(p.lst) : nullptr;
      if (l) p.lst.push_back(l);
      break;
    }
    case 6: {
      osl_generic_t* g = q->extension;
      q->extension = p.s.flip() ? p.take(p.gen) : nullptr;
      if (g) p.gen.push_back(g);
      break;
    }
    case 7:
    case 8: {
      if (!s_printable(t)) break;
      osl_names_t* nm = names(p);
      if (nm && p.s.flip())
        print_to_string([&](FILE* f) { osl_statement_pprint(f, t, nm); });
      else
        print_to_string([&](FILE* f) { osl_statement_print(f, t); });
      break;
    }
    case 9:
      print_to_string([&](FILE* f) { osl_statement_idump(f, t, p.s.small(3)); });
      print_to_string([&](FILE* f) { osl_statement_dump(f, t); });
      break;
    case 10: {
      osl_statement_t* o = p.any(p.stm);
      osl_statement_equal(t, o);
      osl_statement_integrity_check(t, p.s.small(3));
      osl_statement_number(t);
      osl_statement_get_nb_iterators(q);
      osl_statement_get_body(q);
      int a = 0, b = 0, d = 0, e = 0, g = 0;
      osl_statement_get_attributes(t, &a, &b, &d, &e, &g);
      break;
    }
    case 11: {  // one statement leaves the list
      if (n < 2 || p.stm.size() > 6) break;
      osl_statement_t* x = t->next;
      t->next = nullptr;
      p.stm.push_back(x);
      break;
    }
    case 12: {  // print, then read the text back
      if (n != 1 || !t->domain || !t->scattering || !s_printable(t)) break;
      bool ok = true;
      for (osl_relation_list_t* l = t->access; l; l = l->next) ok = ok && l->elt;
      for (osl_relation_list_t* l = t->access; l && ok; l = l->next)
        for (osl_relation_t* r = l->elt; r; r = r->next) ok = ok && osl_relation_is_access(r);
      if (!ok || t->extension) break;
      osl_relation_set_type(t->domain, OSL_TYPE_DOMAIN);
      osl_relation_set_type(t->scattering, OSL_TYPE_SCATTERING);
      S text = print_to_string([&](FILE* f) { osl_statement_print(f, t); });
      osl_interface_t* rg = registry(p);
      FILE* f = file_of(text);
      osl_statement_t* x = p.s.flip() ? osl_statement_read(f) : osl_statement_pread(f, rg, p.prec);
      fclose(f);
      osl_interface_free(rg);
      osl_statement_free(x);
      break;
    }
    default:
      osl_statement_free(p.take(p.stm));
  }
}

// ------------------------------------------------------------------ scops
static void c_build(Pool& p) {
  if (p.scp.size() > 4) return;
  GScop g = scop_options(p);
  bool text = p.s.pct(60);
  if (text) {
    g.e.readable = true;
    g.e.nil = false;
  }
  MScops m = gen_scops(p.s, g);
  if (!text) {
    p.scp.push_back(build(m));
    return;
  }
  Layout l;
  l.s = &p.s;
  l.noise = p.s.pct(50) ? 30 : 0;
  S t = emit(m, l, p.s.flip());
  p.say("scop from text:\n" + t);
  osl_interface_t* r = nullptr;
  FILE* f = file_of(t);
  if (p.s.flip()) {
    r = registry(p);
    p.scp.push_back(osl_scop_pread(f, r, p.prec));
    osl_interface_free(r);
  } else
    p.scp.push_back(osl_scop_read(f));
  fclose(f);
}
static void c_empty(Pool& p) {
  if (p.scp.size() > 4) return;
  osl_scop_t* x = osl_scop_malloc();
  x->version = 1;
  x->language = strdup("C");
  if (p.s.flip()) x->context = p.take(p.rel);
  if (x->context) osl_relation_set_type(x->context, OSL_TYPE_CONTEXT);
  if (p.s.flip()) x->statement = p.take(p.stm);
  if (p.s.flip()) x->extension = p.take(p.gen);
  if (p.s.pct(70)) x->registry = p.s.flip() && !p.reg.empty() ? p.take(p.reg) : registry(p);
  p.scp.push_back(x);
}
static bool c_printable(const osl_scop_t* x) {
  for (; x; x = x->next) {
    if (!printable(x->context) || !s_printable(x->statement)) return false;
    int d[5] = {-1, -1, -1, -1, -1};
    osl_scop_t one = *x;
    one.next = nullptr;
    osl_scop_get_attributes(&one, d, d + 1, d + 2, d + 3, d + 4);
    if (d[4] > 500) return false;
    // parameters have one name each
    int np = osl_generic_has_URI(x->parameters, "strings") ? (int)osl_strings_size((osl_strings_t*)x->parameters->data) : -1;
    if (np >= 0 && d[0] > np) return false;
  }
  return true;
}
static void c_ops(Pool& p) {
  if (p.scp.empty()) return;
  size_t i = p.s.below(p.scp.size());
  osl_scop_t* x = p.scp[i];
  osl_scop_t* q = x;
  int n = chain(x);
  for (int k = p.s.below(n); k > 0; k--) q = q->next;
  int op = p.s.below(16);
  p.say("  scop operation " + std::to_string(op));
  switch (op) {
    case 0: {
      osl_scop_t *a = p.take(p.scp), *b = p.take(p.scp);
      if (b && chain(a) + chain(b) > MAXCHAIN) {
        p.scp.push_back(b);
        b = nullptr;
      }
      if (b) osl_scop_add(&a, b);
      p.scp.push_back(a);
      break;
    }
    case 1: {
      osl_scop_t* y = osl_scop_clone(x);
      if (p.scp.size() < 4)
        p.scp.push_back(y);
      else
        osl_scop_free(y);
      break;
    }
    case 2: {
      bool ok = true;
      int size = 1;
      for (osl_scop_t* z = x; z; z = z->next)
        for (osl_statement_t* y = z->statement; y; y = y->next) {
          ok = ok && y->domain && y->scattering;
          size *= std::max(1, parts(y->domain) * parts(y->scattering));
        }
      if (!ok || size > 24) break;
      osl_scop_t* y = osl_scop_remove_unions(x);
      osl_scop_free(y);
      break;
    }
    case 3: {
      bool ok = true;
      for (osl_statement_t* y = x->statement; y; y = y->next) ok = ok && y->scattering && printable(y->scattering);
      if (!ok) break;
      for (osl_statement_t* y = x->statement; y; y = y->next)
        for (osl_relation_t* r = y->scattering; r; r = r->next)
          ok = ok && r->nb_rows <= 10 && r->nb_columns <= 14 && r->nb_output_dims <= y->scattering->nb_output_dims;
      if (ok) osl_scop_normalize_scattering(x);
      break;
    }
    case 4: {
      osl_statement_t* t = q->statement;
      q->statement = p.s.flip() ? p.take(p.stm) : nullptr;
      if (t) p.stm.push_back(t);
      break;
    }
    case 5: {
      osl_generic_t* g = q->extension;
      q->extension = p.s.flip() ? p.take(p.gen) : nullptr;
      if (g) p.gen.push_back(g);
      break;
    }
    case 6: {
      osl_relation_t* r = q->context;
      q->context = p.s.flip() ? p.take(p.rel) : nullptr;
      if (q->context) osl_relation_set_type(q->context, OSL_TYPE_CONTEXT);
      if (r) {
        reshape(r);
        p.rel.push_back(r);
      }
      break;
    }
    case 7: {  // an extension of this type is known from now on
      S u = p.s.pick(EXT_URIS);
      osl_interface_t* it = ext_interface(u);
      if (osl_interface_lookup(q->registry, u.c_str()))
        osl_interface_free(it);
      else {
        // the text of the extensions which were not understood at reading time
        auto* tx = (osl_textual_t*)osl_generic_lookup(q->extension, OSL_URI_TEXTUAL);
        if (tx && tx->textual) {
          free(tx->textual);
          tx->textual = strdup("<comment>\nabc\n</comment>\n");
        }
        if (tx && u == OSL_URI_COMMENT && osl_generic_lookup(q->extension, OSL_URI_COMMENT))
          osl_interface_free(it);
        else
          osl_scop_register_extension(q, it);
      }
      break;
    }
    case 8: {
      osl_interface_t* r = q->registry;
      q->registry = p.s.flip() && !p.reg.empty() ? p.take(p.reg) : (p.s.flip() ? registry(p) : nullptr);
      if (r) p.reg.push_back(r);
      break;
    }
    case 9:
    case 10:
      if (c_printable(x)) print_to_string([&](FILE* f) { osl_scop_print(f, x); });
      break;
    case 11:
      print_to_string([&](FILE* f) { osl_scop_idump(f, x, p.s.small(3)); });
      print_to_string([&](FILE* f) { osl_scop_dump(f, x); });
      break;
    case 12: {
      osl_scop_t* o = p.any(p.scp);
      osl_scop_equal(x, o);
      osl_scop_number(x);
      osl_scop_get_nb_parameters(x);
      osl_scop_integrity_check(x);
      break;
    }
    case 13: {
      if (!c_printable(x) || p.nam.size() > 4) break;
      p.nam.push_back(osl_scop_names(x));
      osl_names_free(p.take(p.nam));
      break;
    }
    case 14: {
      if (n < 2 || p.scp.size() > 4) break;
      osl_scop_t* y = x->next;
      x->next = nullptr;
      p.scp.push_back(y);
      break;
    }
    default:
      osl_scop_free(p.take(p.scp));
  }
}

// ------------------------------------------------------------------ strings, names, registries
static void t_ops(Pool& p) {
  Src& s = p.s;
  bool big = s.pct(10);
  if (p.str.size() > 6) osl_strings_free(p.take(p.str));
  osl_strings_t *a = p.any(p.str), *b = p.any(p.str);
  switch (s.below(a ? 11 : 4)) {
    case 0:
      p.str.push_back(osl_strings_generate(gen_ident(s).c_str(), s.small(big ? 300 : 8)));
      break;
    case 1:
      p.str.push_back(osl_strings_encapsulate(strdup(gen_word(s, big).c_str())));
      break;
    case 2:
      p.str.push_back(osl_strings_malloc());
      break;
    case 3: {
      S t;
      for (int i = 1 + s.small(5); i > 0; i--) t += gen_word(s, big) + (s.flip() ? " " : "  \t");
      t += "\nrest";
      if (s.flip()) {
        FILE* f = file_of(t);
        p.str.push_back(osl_strings_read(f));
        fclose(f);
      } else {
        char* q = &t[0];
        p.str.push_back(osl_strings_sread(&q));
      }
      break;
    }
    case 4:
    case 5:
      for (int i = 1 + s.small(big ? 40 : 4); i > 0; i--) osl_strings_add(a, gen_word(s, big).c_str());
      break;
    case 6: {
      osl_strings_t* d = nullptr;
      if (osl_strings_size(a) + osl_strings_size(b) > 2000) break;
      osl_strings_add_strings(&d, a, b);
      if (d) p.str.push_back(d);
      break;
    }
    case 7:
      p.str.push_back(osl_strings_clone(a));
      break;
    case 8:
      drop(osl_strings_sprint(a));
      print_to_string([&](FILE* f) { osl_strings_print(f, a); });
      print_to_string([&](FILE* f) { osl_strings_idump(f, a, s.small(3)); });
      break;
    case 9:
      osl_strings_equal(a, b);
      osl_strings_find(a, gen_word(s).c_str());
      break;
    default:
      osl_strings_free(p.take(p.str));
  }
}
static void n_ops(Pool& p) {
  Src& s = p.s;
  if (p.nam.size() > 4) osl_names_free(p.take(p.nam));
  osl_names_t* a = p.any(p.nam);
  switch (s.below(a ? 5 : 2)) {
    case 0:
      p.nam.push_back(some_names(s));
      break;
    case 1: {
      osl_names_t* n = osl_names_malloc();
      bool full = s.flip();
      osl_names_free(n);
      if (full) p.nam.push_back(some_names(s));
      break;
    }
    case 2:
      p.nam.push_back(osl_names_clone(a));
      break;
    case 3:
      print_to_string([&](FILE* f) { osl_names_idump(f, a, s.small(3)); });
      print_to_string([&](FILE* f) { osl_names_dump(f, a); });
      break;
    default:
      osl_names_free(p.take(p.nam));
  }
}
static void i_ops(Pool& p) {
  Src& s = p.s;
  if (p.reg.size() > 4) osl_interface_free(p.take(p.reg));
  osl_interface_t *a = p.any(p.reg), *b = p.any(p.reg);
  switch (s.below(a ? 8 : 2)) {
    case 0:
      p.reg.push_back(osl_interface_get_default_registry());
      break;
    case 1:
      p.reg.push_back(ext_interface(s.pick(EXT_URIS)));
      break;
    case 2: {
      osl_interface_t* n = ext_interface(s.pick(EXT_URIS));
      bool there = osl_interface_lookup(a, n->URI) != nullptr;
      if (there)
        osl_interface_free(n);
      else
        for (auto& x : p.reg)
          if (x == a) osl_interface_add(&x, n);
      break;
    }
    case 3:
      p.reg.push_back(osl_interface_clone(a));
      break;
    case 4: {
      osl_interface_t* x = osl_interface_nclone(a, s.range(-1, osl_interface_number(a) + 1));
      if (x) p.reg.push_back(x);
      break;
    }
    case 5:
      osl_interface_equal(a, b);
      osl_interface_lookup(a, s.pick(EXT_URIS).c_str());
      break;
    case 6:
      print_to_string([&](FILE* f) { osl_interface_idump(f, a, s.small(3)); });
      print_to_string([&](FILE* f) { osl_interface_dump(f, a); });
      break;
    default:
      osl_interface_free(p.take(p.reg));
  }
}
static void u_ops(Pool& p) {  // texts
  Src& s = p.s;
  switch (s.below(4)) {
    case 0: {  // a string that grows piece by piece
      size_t hwm = s.flip() ? OSL_MAX_STRING : 1 + s.small(20);
      char* d = (char*)malloc(hwm);
      d[0] = 0;
      size_t len = 0;
      for (int i = 1 + s.small(12); i > 0; i--) {
        S w = s.pct(15) ? S(s.below(3 * OSL_MAX_STRING), 'x') : (s.pct(10) ? S(hwm - len - (hwm > len ? 1 : 0) + s.below(2), 'y') : gen_word(s, true));
        osl_util_safe_strcat(&d, w.c_str(), &hwm);
        len += w.size();
        CHECK(strlen(d) == len, "length", "a string of " << strlen(d) << " bytes after adding " << len);
      }
      free(d);
      break;
    }
    case 1:
      drop(osl_util_strdup(gen_line(s, true).c_str()));
      break;
    case 2: {
      std::vector<S> w;
      for (int i = 0; i < 4; i++) w.push_back(gen_ident(s, s.pct(5)));
      std::vector<char*> cp;
      for (auto& x : w) cp.push_back(&x[0]);
      cp.push_back(nullptr);
      S e;
      for (int i = s.small(6); i > 0; i--) e += s.pick(V{"@", "#", "+"}) + s.pick(w) + S(" ");
      drop(osl_util_identifier_substitution(e.c_str(), cp.data()));
      break;
    }
    default: {
      S body = gen_line(s, true);
      S t = "<tag>\n" + body + "\n</tag>";
      drop(osl_util_tag_content(t.c_str(), "tag"));
    }
  }
}

// ------------------------------------------------------------------ histories
static const struct {
  const char* name;
  Op f;
  int weight;
} OPS[] = {
    {"relation: build", r_build, 6},    {"relation: allocate", r_malloc, 3}, {"relation: access", r_access, 4},
    {"relation: read", r_read, 4},      {"relation: copy", r_clone, 5},      {"relation: add", r_add, 5},
    {"relation: union", r_union, 3},    {"relation: remove a part", r_remove_part, 4},
    {"relation: rows", r_rows, 10},     {"relation: columns", r_columns, 6}, {"relation: concatenate", r_concat, 4},
    {"relation: look", r_look, 8},      {"relation: precision", r_precision, 4}, {"relation: extend", r_extend, 3},
    {"relation: free", r_free, 3},      {"vector: build", v_build, 5},       {"vector: operation", v_ops, 6},
    {"list: build", l_build, 6},        {"list: operation", l_ops, 14},      {"extensions: build", g_build, 6},
    {"extensions: operation", g_ops, 12}, {"statement: build", s_build, 3},  {"statement: make", s_empty, 3},
    {"statement: operation", s_ops, 14}, {"scop: build", c_build, 3},        {"scop: make", c_empty, 2},
    {"scop: operation", c_ops, 14},     {"strings", t_ops, 5},               {"names", n_ops, 4},
    {"registry", i_ops, 5},             {"text", u_ops, 3},
};
static void run(Pool& p, int n, const std::function<bool(const S&)>& keep) {
  std::vector<int> bag;
  for (int i = 0; i < (int)(sizeof OPS / sizeof OPS[0]); i++)
    if (keep(OPS[i].name))
      for (int k = 0; k < OPS[i].weight; k++) bag.push_back(i);
  std::vector<bool> seen(64);
  for (int i = 0; i < n; i++) {
    int k = bag[p.s.below(bag.size())];
    p.say(S(OPS[k].name));
    OPS[k].f(p);
    if (!seen[k]) p.kinds++;
    seen[k] = true;
  }
  p.c.nontrivial = n >= 8 && p.kinds >= 4;
  // what is left, in any order
  std::vector<std::function<void()>> left;
  for (auto x : p.rel) left.push_back([x] { osl_relation_free(x); });
  for (auto x : p.lst) left.push_back([x] { osl_relation_list_free(x); });
  for (auto x : p.stm) left.push_back([x] { osl_statement_free(x); });
  for (auto x : p.scp) left.push_back([x] { osl_scop_free(x); });
  for (auto x : p.gen) left.push_back([x] { osl_generic_free(x); });
  for (auto x : p.vec) left.push_back([x] { osl_vector_free(x); });
  for (auto x : p.str) left.push_back([x] { osl_strings_free(x); });
  for (auto x : p.nam) left.push_back([x] { osl_names_free(x); });
  for (auto x : p.reg) left.push_back([x] { osl_interface_free(x); });
  p.say("free the " + std::to_string(left.size()) + " objects left");
  while (!left.empty()) {
    size_t i = p.s.below((uint32_t)left.size());
    left[i]();
    left.erase(left.begin() + i);
  }
  osl_relation_free(nullptr);
  osl_relation_list_free(nullptr);
  osl_statement_free(nullptr);
  osl_scop_free(nullptr);
  osl_generic_free(nullptr);
  osl_vector_free(nullptr);
  osl_strings_free(nullptr);
  osl_names_free(nullptr);
  osl_interface_free(nullptr);
}
static bool starts(const S& a, const char* b) { return a.compare(0, strlen(b), b) == 0; }
static void matrices(Case& c) {
  Pool p(c);
  p.wide = p.s.pct(40);
  run(p, 3 + p.s.below(40), [](const S& n) { return starts(n, "rel") || starts(n, "vec") || starts(n, "list") || n == "names"; });
}
static void everything(Case& c) {
  Pool p(c);
  run(p, 3 + p.s.below(40), [](const S&) { return true; });
}
static void contents(Case& c) {
  Pool p(c);
  run(p, 2 + p.s.below(25),
      [](const S& n) { return starts(n, "ext") || starts(n, "str") || starts(n, "names") || starts(n, "reg") || starts(n, "text"); });
}

// ------------------------------------------------------------------ one extension
// The functions of one type of extension, in any order, on a few objects of that type.
static void extension(Case& c) {
  Src& s = c.s;
  Pool p(c);
  S u = s.pick(EXT_URIS);
  label(u);
  osl_interface_t* it = ext_interface(u);
  std::vector<void*> pool;
  int n = 3 + s.small(15);
  auto fresh = [&](bool readable) { return gen_ext(s, u, ext_options(p, readable)); };
  c.nontrivial = n > 4;
  for (int k = 0; k < n; k++) {
    size_t at = pool.empty() ? 0 : s.below(pool.size());
    void* x = pool.empty() ? nullptr : pool[at];
    int op = s.below(12);
    p.say(u + ": operation " + std::to_string(op));
    if (pool.size() > 6) op = 5;
    switch (op) {
      case 0:
      case 1:
        pool.push_back(build_data(fresh(false)));
        break;
      case 2:
        pool.push_back(it->malloc());
        break;
      case 3: {
        if (std::find(EXT_READABLE.begin(), EXT_READABLE.end(), u) == EXT_READABLE.end()) break;
        T m = fresh(true);
        Layout l;
        l.s = &s;
        l.noise = 20;
        S t = ext_text(m, l);
        p.say(t);
        char* q = &t[0];
        pool.push_back(it->sread(&q));
        break;
      }
      case 4:
        pool.push_back(it->clone(x));
        break;
      case 5:
        it->free(x);
        if (!pool.empty()) pool.erase(pool.begin() + at);
        break;
      case 6: {
        char* t = it->sprint(x);
        free(t);
        break;
      }
      case 7:
        print_to_string([&](FILE* f) { it->idump(f, x, s.small(3)); });
        break;
      case 8: {
        void* y = pool.empty() ? nullptr : pool[s.below(pool.size())];
        it->equal(x, y);
        break;
      }
      default: {  // what is particular to this type
        if (!x) break;
        char* line = nullptr;
        if (u == "annotation" || u == "region") line = strdup(gen_line(s, s.pct(5)).c_str());
        int ty = s.below(6);
        if (u == "annotation")
          (s.flip() ? osl_annotation_append_prefix : osl_annotation_append_suffix)((osl_annotation_t*)x, ty, line);
        else if (u == "region") {
          osl_region_t* r = (osl_region_t*)x;
          if (s.flip()) r = r->next ? r->next : r;
          switch (s.below(5)) {
            case 0:
              osl_region_append_prefix(r, ty, line);
              break;
            case 1:
              osl_region_append_suffix(r, ty, line);
              break;
            case 2:
              osl_region_append_prelude(r, ty, line);
              break;
            case 3:
              osl_region_append_postlude(r, ty, line);
              break;
            default:
              free(line);
              pool.push_back(osl_region_clone_one(r));
              osl_region_equal_one(r, (osl_region_t*)pool.back());
              osl_region_count(r);
          }
        } else if (u == "arrays") {
          osl_arrays_t* a = (osl_arrays_t*)x;
          if (s.flip())
            osl_arrays_add(a, s.range(1, 60), gen_ident(s, s.pct(5)).c_str());
          else {
            bool ok = true;
            for (int i = 0; i < a->nb_names; i++) ok = ok && a->id[i] < 3000;
            if (ok) osl_strings_free(osl_arrays_to_strings(a));
            osl_arrays_get_index_from_id(a, 3);
            osl_arrays_get_index_from_name(a, "a");
          }
        } else if (u == "dependence") {
          osl_dependence_t *first = (osl_dependence_t*)x, *last = first, *add = (osl_dependence_t*)build_data(fresh(false));
          while (last->next) last = last->next;
          osl_dependence_add(&first, &last, add);
          pool[at] = first;
          osl_nb_dependences(first);
          if (s.flip()) print_to_string([&](FILE* f) { osl_dependence_print(f, first); });
        } else if (u == "extbody") {
          osl_extbody_t* e = (osl_extbody_t*)x;
          for (int i = 1 + s.small(30); i > 0; i--) osl_extbody_add(e, s.below(9), s.below(9));
        } else if (u == "irregular") {
          osl_irregular_t* r = (osl_irregular_t*)x;
          std::vector<S> w;
          for (int i = s.small(4); i > 0; i--) w.push_back(gen_ident(s));
          std::vector<char*> cp;
          for (auto& e : w) cp.push_back(&e[0]);
          int nb = (int)w.size();
          cp.push_back(nullptr);
          S b = gen_line(s);
          int v[4] = {0, 1, 2, 3};
          osl_irregular_t* y;
          switch (s.below(3)) {
            case 0:
              y = osl_irregular_add_control(r, cp.data(), nb, &b[0]);
              break;
            case 1:
              y = osl_irregular_add_exit(r, cp.data(), nb, &b[0]);
              break;
            default:
              y = osl_irregular_add_predicates(r, v, s.below(5));
          }
          pool.push_back(y);
        } else if (u == "loop") {
          osl_loop_t* l = (osl_loop_t*)x;
          if (s.flip())
            osl_loop_add((osl_loop_t*)build_data(fresh(false)), &l);
          else {
            pool.push_back(osl_loop_clone_one(l));
            osl_loop_equal_one(l, (osl_loop_t*)pool.back());
            osl_loop_count(l);
          }
        } else if (u == "pluto_unroll")
          osl_pluto_unroll_fill((osl_pluto_unroll_t*)x, s.pct(80) ? gen_ident(s, s.pct(5)).c_str() : nullptr, s.flip(), s.below(9));
        else if (u == "symbols") {
          osl_symbols_t* y = (osl_symbols_t*)x;
          if (s.flip()) {
            osl_symbols_add(&y, (osl_symbols_t*)build_data(fresh(false)));
            pool[at] = y;
          } else
            pool.push_back(osl_symbols_nclone(y, s.range(-1, osl_symbols_get_nb_symbols(y) + 1)));
        }
      }
    }
  }
  for (auto x : pool) it->free(x);
  osl_interface_free(it);
}
Property pbt::property = {"P07",
                          "at least 8 operations of at least 4 kinds (of one extension: more than 4 operations)",
                          {{"matrices", matrices, 40000, 1200000, true},
                           {"contents", contents, 20000, 600000, true},
                           {"extension", extension, 40000, 1000000, true},
                           {"everything", everything, 30000, 1000000, true}}};
