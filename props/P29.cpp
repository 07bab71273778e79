// P29: an absent (NULL) object is accepted and neutral.
// Histories of operations with absent operands in every position the headers allow: what has
// nothing to change changes nothing, absent combined with present is a copy of the present
// one, nothing is equal to absent but absent, and what cannot be done without the operand is
// refused.
#include <algorithm>

#include "scop.h"
using namespace pbt;
typedef std::string S;

// only blank lines and comments, except the given line
static void quiet(const S& t, const S& what, const S& allowed = "") {
  std::istringstream in(t);
  S l;
  int n = 0;
  while (std::getline(in, l)) {
    if (l.find_first_not_of(" \t") == S::npos || l[0] == '#') continue;
    CHECK(!allowed.empty() && l == allowed && !n++, "print", what << " of nothing gives \"" << t << "\"");
  }
}
static void quiet_own(char* t, const S& what) {
  S x = t ? t : "";
  free(t);
  quiet(x, what);
}
static void dumped(const std::function<void(FILE*)>& f, const S& what) {
  S t = print_to_string(f);
  CHECK(t.find("NULL") != S::npos, "dump", "the dump of an absent " << what << " is \"" << t << "\"");
}
#define NOTHING(e) CHECK(!(e), "nothing", #e " is not nothing")
#define VALUE(e, v) CHECK((long)(e) == (long)(v), "value", #e " is " << (long)(e) << ", not " << (long)(v))
#define REFUSED(e)                                                                    \
  do {                                                                                \
    c.leak_exempt = true;                                                             \
    CHECK(exits([&] { e; }), "refusal", #e " is accepted");                           \
  } while (0)

static MUnion some_union(Src& s, int prec, int maxparts) {
  GRel g;
  g.wide = s.flip();
  return gen_any_union(s, prec, g, maxparts);
}

// ---- a relation and its possible companions
static void edits(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  set_env(prec);
  MUnion u = some_union(s, prec, 3);
  if (u.empty()) discard();
  int n = 1 + s.small(5);
  std::vector<int> ops;
  for (int i = 0; i < n; i++) ops.push_back(s.below(20));
  c.nontrivial = n > 1 && u[0].rows > 0;
  if (c.rendering) {
    c.log << precname(prec) << " operations";
    for (int o : ops) c.log << " " << o;
    c.log << "\n" << show(u);
  }
  osl_relation_t *r = build(u), *none = nullptr, *x = nullptr;
  int size = u[0].cols;
  osl_vector_t* v = osl_vector_pmalloc(prec, size);
  MRel mv = blank(prec, 1, size);
  for (int i = 0; i < size; i++) {
    mv.m[0][i] = gen_coef(s, prec, false);
    if (i == 0) mv.m[0][i] = s.flip();
    putZ(prec, &v->v[i], mv.m[0][i]);
  }
  osl_vector_t* nov = nullptr;
  auto same = [&](const osl_relation_t* a, const MUnion& w, const S& what) { SAME(snap(a), w, "neutral", what); };
  for (int op : ops) {
    int k = s.range(0, 6) - 2;
    label("edit " + std::to_string(op));
    switch (op) {
      case 0: osl_relation_insert_vector(r, nov, k); break;
      case 1: osl_relation_insert_constraints(r, none, k); break;
      case 2: osl_relation_insert_columns(r, none, k); break;
      case 3: osl_relation_add(&r, none); break;
      case 4: osl_relation_remove_part(&r, none); break;
      case 5: osl_relation_set_same_precision(r, none); break;
      case 6:
        osl_relation_add(&none, r);
        CHECK(none == r, "neutral", "adding a relation to nothing gives another one");
        none = nullptr;
        break;
      case 7:
        x = osl_relation_concat_vector(r, nov);
        same(x, {u}, "relation and no vector");
        break;
      case 8: {
        x = osl_relation_concat_vector(none, v);
        osl_relation_t* y = osl_relation_from_vector(v);
        SAME(snap(x), snap(y), "neutral", "no relation and a vector");
        CHECK(x->nb_rows == 1 && x->nb_columns == size, "neutral", "no relation and a vector give " << show(snap(x)));
        for (int i = 0; i < size; i++) CHECK(getZ(prec, x->m[0][i]) == mv.m[0][i], "neutral", "entry " << i << " of the vector is lost");
        osl_relation_free(y);
        break;
      }
      case 9:
        x = s.flip() ? osl_relation_concat_constraints(r, none) : osl_relation_concat_constraints(none, r);
        same(x, u, "constraints and none");
        break;
      case 10:
        x = s.flip() ? osl_relation_union(r, none) : osl_relation_union(none, r);
        same(x, u, "union with nothing");
        break;
      case 11:
        NOTHING(osl_relation_equal(r, none));
        NOTHING(osl_relation_equal(none, r));
        NOTHING(osl_relation_part_equal(r, none));
        NOTHING(osl_relation_part_equal(none, r));
        break;
      case 12: {
        osl_relation_list_t *l = build_list({u}), *nol = nullptr;
        osl_relation_list_push(&l, nol);
        osl_relation_list_add(&l, nol);
        osl_relation_list_t* k2 = s.flip() ? osl_relation_list_concat(l, nol) : osl_relation_list_concat(nol, l);
        NOTHING(osl_relation_list_equal(l, nol));
        NOTHING(osl_relation_list_equal(nol, l));
        CHECK(osl_relation_list_equal(l, k2), "neutral", "a list joined with nothing is not equal to it");
        CHECK(k2 != l && k2->elt != l->elt, "neutral", "a list joined with nothing is shared");
        osl_relation_list_free(l);
        osl_relation_list_add(&nol, k2);
        CHECK(nol == k2 && snap_list(nol).size() == 1, "neutral", "a list added to nothing");
        same(nol->elt, u, "the element of a list joined with nothing");
        osl_relation_list_free(nol);
        break;
      }
      case 13:
        REFUSED(osl_relation_replace_vector(r, nov, 0));
        break;
      case 14:
        REFUSED(osl_relation_replace_constraints(r, none, 0));
        break;
      case 15:
        REFUSED(osl_relation_add_vector(r, nov, 0));
        REFUSED(osl_relation_sub_vector(r, nov, 0));
        break;
      case 16:
        if (s.flip()) {
          REFUSED((void)osl_vector_add(v, nov));
          REFUSED((void)osl_vector_sub(v, nov));
        } else {
          REFUSED((void)osl_vector_add(nov, v));
          REFUSED((void)osl_vector_sub(nov, v));
        }
        NOTHING(osl_vector_equal(v, nov));
        NOTHING(osl_vector_equal(nov, v));
        break;
      case 17: {
        // nobody to change
        osl_relation_insert_vector(none, v, k);
        osl_relation_insert_constraints(none, r, k);
        osl_relation_insert_columns(none, r, k);
        osl_relation_insert_blank_row(none, k);
        osl_relation_insert_blank_column(none, k);
        osl_relation_remove_row(none, k);
        osl_relation_remove_column(none, k);
        osl_relation_swap_constraints(none, k, k + 1);
        osl_relation_set_type(none, OSL_TYPE_READ);
        osl_relation_set_attributes(none, 1, 2, 3, 4);
        osl_relation_set_attributes_one(none, 1, 2, 3, 4);
        osl_relation_set_precision(ALLPREC[s.below(3)], none);
        osl_relation_set_same_precision(none, r);
        osl_relation_remove_part(&none, r);
        NOTHING(none);
        break;
      }
      case 18: {
        // without names, the usual ones
        osl_names_t* nm = nullptr;
        char *p = osl_relation_sprint(r), *q = osl_relation_spprint(r, nm);
        S a = p ? p : "", b = q ? q : "";
        free(p);
        free(q);
        CHECK(a == b, "print", "without names:\n" << b << "\nnot\n" << a);
        CHECK(!a.empty(), "print", "nothing is printed");
        break;
      }
      case 19:
        x = osl_relation_nclone(r, 0);
        NOTHING(x);
        x = osl_relation_nclone(none, 0);
        NOTHING(x);
        x = osl_relation_clone_nconstraints(none, s.small(3));
        NOTHING(x);
        break;
    }
    if (x) {
      // a copy: the original can go
      bool from = op != 8;
      osl_relation_free(from ? r : nullptr);
      if (from) {
        same(x, u, "the copy after its original was freed");
        r = x;
      } else
        osl_relation_free(x);
      x = nullptr;
    }
    same(r, u, "the relation after operation " + std::to_string(op));
    for (int i = 0; i < size; i++) CHECK(getZ(prec, v->v[i]) == mv.m[0][i], "neutral", "the vector changed");
  }
  osl_relation_free(r);
  osl_vector_free(v);
}

// ---- scops, statements, extensions, strings
static void parts(Case& c) {
  Src& s = c.s;
  GScop g;
  g.e.prec = ALLPREC[s.below(3)];
  set_env(g.e.prec);
  MScops m = gen_scops(s, g);
  int n = 1 + s.small(5);
  c.nontrivial = n > 1 && !m[0].stmts.empty();
  if (c.rendering) c.log << precname(g.e.prec) << "\n" << show(tree(m));
  osl_scop_t* sc = build(m);
  osl_scop_t* nosc = nullptr;
  osl_statement_t* nost = nullptr;
  osl_generic_t* nogen = nullptr;
  osl_interface_t* noint = nullptr;
  while (n--) {
    int op = s.below(7);
    label("part " + std::to_string(op));
    if (op == 0) {
      osl_scop_add(&sc, nosc);
      osl_scop_add(&nosc, sc);
      CHECK(nosc == sc, "neutral", "a scop added to nothing");
      nosc = nullptr;
      NOTHING(osl_scop_equal(sc, nosc));
      NOTHING(osl_scop_equal(nosc, sc));
    } else if (op == 1) {
      osl_statement_t* st = sc->statement;
      osl_statement_add(&sc->statement, nost);
      CHECK(sc->statement == st, "neutral", "adding no statement changes the first one");
      osl_statement_add(&nost, st);
      CHECK(nost == st, "neutral", "statements added to nothing");
      nost = nullptr;
      NOTHING((st && (osl_statement_equal(st, nost) || osl_statement_equal(nost, st))));
    } else if (op == 2) {
      osl_generic_t* e = sc->extension;
      osl_generic_add(&sc->extension, nogen);
      CHECK(sc->extension == e, "neutral", "adding no extension changes the first one");
      osl_generic_remove(&nogen, "body");
      NOTHING(nogen);
      NOTHING((e && (osl_generic_equal(e, nogen) || osl_generic_equal(nogen, e))));
      if (e) {
        osl_generic_add(&nogen, e);
        CHECK(nogen == e, "neutral", "extensions added to nothing");
        nogen = nullptr;
      }
    } else if (op == 3) {
      osl_interface_t* e = sc->registry;
      osl_interface_add(&sc->registry, noint);
      CHECK(sc->registry == e, "neutral", "adding no interface changes the first one");
      NOTHING((e && (osl_interface_equal(e, noint) || osl_interface_equal(noint, e))));
    } else if (op == 4) {
      // nothing to learn from nothing
      int a[5], b[5];
      for (int i = 0; i < 5; i++) a[i] = b[i] = s.range(0, 12) - 2;
      int which = s.below(4);
      if (which == 0) osl_scop_get_attributes(nosc, a, a + 1, a + 2, a + 3, a + 4);
      if (which == 1) osl_statement_get_attributes(nost, a, a + 1, a + 2, a + 3, a + 4);
      if (which == 2) osl_relation_list_get_attributes(nullptr, a, a + 1, a + 2, a + 3, a + 4);
      if (which == 3) osl_relation_get_attributes(nullptr, a, a + 1, a + 2, a + 3, a + 4);
      for (int i = 0; i < 5; i++) CHECK(a[i] == b[i], "attributes", "attribute " << i << " of nothing (" << which << ") changes " << b[i] << " to " << a[i]);
    } else if (op == 5) {
      osl_scop_normalize_scattering(nosc);
      osl_interface_t* i = osl_comment_interface();
      osl_scop_register_extension(sc, noint);
      osl_interface_free(i);
    } else {
      // one extension, through its functions
      S uri = EXT_URIS[s.below(EXT_URIS.size())];
      GExt ge;
      ge.prec = g.e.prec;
      T t = gen_ext(s, uri, ge);
      osl_interface_t* i = ext_interface(uri);
      void* d = build_data(t);
      label(uri);
      CHECK(i->equal(nullptr, nullptr), "equal", "no " << uri << " is not equal to no " << uri);
      bool empty = d == nullptr;
      if (!empty) {
        bool e1 = i->equal(d, nullptr), e2 = i->equal(nullptr, d);
        CHECK(e1 == e2, "equal", "a " << uri << " is equal to nothing in one order only");
        // (textual forms are always equal: see P06)
        if (uri != "textual") CHECK(!e1, "equal", "a " << uri << " is equal to nothing: " << show(t));
      }
      CHECK(!i->clone(nullptr), "clone", "the copy of no " << uri << " is something");
      i->free(nullptr);
      dumped([&](FILE* f) { i->idump(f, nullptr, 0); }, uri);
      SAME(snap_data(uri, d), t, "neutral", uri);
      if (d) i->free(d);
      static const std::vector<S> OPTIONAL = {"clay", "comment", "coordinates", "dependence", "irregular", "null", "scatinfos", "scatnames", "symbols"};
      if (std::find(OPTIONAL.begin(), OPTIONAL.end(), uri) != OPTIONAL.end()) {
        char* in = nullptr;
        CHECK(!i->sread(&in), "sread", "reading a " << uri << " from nothing gives something");
      }
      osl_interface_free(i);
    }
    S d = tdiff(snap(sc), m);
    CHECK(d.empty(), "neutral", "operation " << op << " with an absent operand changed the scop: " << d);
  }
  osl_scop_free(sc);
}

// ---- absent arguments only: all questions, in any order
static void queries(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  set_env(prec);
  int n = 1 + s.below(8);
  c.nontrivial = n > 1;
  osl_relation_t* r = nullptr;
  osl_relation_list_t* l = nullptr;
  osl_statement_t* st = nullptr;
  osl_scop_t* sc = nullptr;
  osl_generic_t* ge = nullptr;
  osl_interface_t* in = nullptr;
  osl_vector_t* v = nullptr;
  osl_names_t* nm = nullptr;
  osl_strings_t* ss = nullptr;
  osl_body_t* b = nullptr;
  while (n--) {
    int op = s.below(11);
    int k = s.range(0, 6) - 2, num = s.small(4), level = s.small(3);
    S word = gen_word(s);
    label("query " + std::to_string(op));
    if (c.rendering) c.log << "query " << op << " " << k << " " << num << " " << level << " " << word << "\n";
    switch (op) {
      case 0:
        VALUE(osl_relation_equal(r, r), 1);
        VALUE(osl_relation_part_equal(r, r), 1);
        NOTHING(osl_relation_clone(r));
        NOTHING(osl_relation_clone_nconstraints(r, num));
        NOTHING(osl_relation_concat_vector(r, v));
        NOTHING(osl_relation_concat_constraints(r, r));
        NOTHING(osl_relation_from_vector(v));
        NOTHING(osl_relation_union(r, r));
        NOTHING(osl_relation_is_access(r));
        NOTHING(osl_relation_nb_components(r));
        VALUE(osl_relation_get_array_id(r), OSL_UNDEFINED);
        VALUE(osl_relation_integrity_check(r, k, k, k, k), 1);
        osl_relation_free(r);
        osl_relation_free_inside(r);
        if (num) REFUSED((void)osl_relation_nclone(r, num));
        break;
      case 1:
        quiet_own(osl_relation_sprint(r), "sprint");
        quiet_own(osl_relation_spprint(r, nm), "spprint");
        quiet_own(osl_relation_spprint_polylib(r, nm), "spprint_polylib");
        quiet_own(osl_relation_spprint_polylib_scoplib(r, nm, num & 1, num >> 1 & 1), "spprint_polylib_scoplib");
        quiet_own(osl_relation_spprint_scoplib(r, nm, num & 1, num >> 1 & 1), "spprint_scoplib");
        quiet(print_to_string([&](FILE* f) { osl_relation_print(f, r); }), "print");
        quiet(print_to_string([&](FILE* f) { osl_relation_pprint(f, r, nm); }), "pprint");
        quiet(print_to_string([&](FILE* f) { osl_relation_pprint_scoplib(f, r, nm, 0, 0); }), "pprint_scoplib");
        dumped([&](FILE* f) { osl_relation_idump(f, r, level); }, "relation");
        break;
      case 2:
        VALUE(osl_relation_list_equal(l, l), 1);
        VALUE(osl_relation_list_integrity_check(l, k, k, k, k), 1);
        VALUE(osl_relation_list_count(l), 0);
        NOTHING(osl_relation_list_clone(l));
        NOTHING(osl_relation_list_concat(l, l));
        NOTHING(osl_relation_list_filter(l, OSL_TYPE_ACCESS));
        NOTHING(osl_relation_list_node(r));
        NOTHING(osl_relation_list_pop(&l));
        osl_relation_list_add(&l, nullptr);
        osl_relation_list_push(&l, nullptr);
        osl_relation_list_dup(&l);
        osl_relation_list_drop(&l);
        osl_relation_list_destroy(&l);
        osl_relation_list_set_type(l, OSL_TYPE_READ);
        osl_relation_list_free(l);
        NOTHING(l);
        quiet(print_to_string([&](FILE* f) { osl_relation_list_print(f, l); }), "list print", "0");
        quiet(print_to_string([&](FILE* f) { osl_relation_list_pprint(f, l, nm); }), "list pprint", "0");
        quiet(print_to_string([&](FILE* f) { osl_relation_list_pprint_elts(f, l, nm); }), "list pprint_elts");
        quiet(print_to_string([&](FILE* f) { osl_relation_list_pprint_access_array_scoplib(f, l, nm, 0); }), "list pprint scoplib");
        dumped([&](FILE* f) { osl_relation_list_idump(f, l, level); }, "list");
        break;
      case 3:
        VALUE(osl_scop_equal(sc, sc), 1);
        VALUE(osl_scop_integrity_check(sc), 1);
        VALUE(osl_scop_check_compatible_scoplib(sc), 1);
        VALUE(osl_scop_number(sc), 0);
        NOTHING(osl_scop_clone(sc));
        NOTHING(osl_scop_remove_unions(sc));
        osl_scop_add(&sc, nullptr);
        NOTHING(sc);
        osl_scop_normalize_scattering(sc);
        osl_scop_free(sc);
        quiet(print_to_string([&](FILE* f) { osl_scop_print(f, sc); }), "scop print");
        quiet(print_to_string([&](FILE* f) { osl_scop_print_scoplib(f, sc); }), "scop print scoplib");
        dumped([&](FILE* f) { osl_scop_idump(f, sc, level); }, "scop");
        NOTHING(osl_scop_read(nullptr));
        NOTHING(osl_scop_pread(nullptr, nullptr, prec));
        break;
      case 4:
        VALUE(osl_statement_equal(st, st), 1);
        VALUE(osl_statement_integrity_check(st, k), 1);
        VALUE(osl_statement_number(st), 0);
        NOTHING(osl_statement_get_body(st));
        NOTHING(osl_statement_clone(st));
        NOTHING(osl_statement_nclone(st, num));
        NOTHING(osl_statement_remove_unions(st));
        osl_statement_add(&st, nullptr);
        NOTHING(st);
        osl_statement_free(st);
        quiet(print_to_string([&](FILE* f) { osl_statement_print(f, st); }), "statement print");
        quiet(print_to_string([&](FILE* f) { osl_statement_pprint(f, st, nm); }), "statement pprint");
        quiet(print_to_string([&](FILE* f) { osl_statement_pprint_scoplib(f, st, nm); }), "statement scoplib");
        dumped([&](FILE* f) { osl_statement_idump(f, st, level); }, "statement");
        break;
      case 5:
        VALUE(osl_generic_equal(ge, ge), 1);
        VALUE(osl_generic_count(ge), 0);
        VALUE(osl_generic_number(ge), 0);
        NOTHING(osl_generic_clone(ge));
        NOTHING(osl_generic_nclone(ge, num));
        NOTHING(osl_generic_has_URI(ge, word.c_str()));
        NOTHING(osl_generic_lookup(ge, word.c_str()));
        osl_generic_add(&ge, nullptr);
        osl_generic_remove(&ge, word.c_str());
        NOTHING(ge);
        osl_generic_free(ge);
        quiet_own(osl_generic_sprint(ge), "generic sprint");
        quiet(print_to_string([&](FILE* f) { osl_generic_print(f, ge); }), "generic print");
        dumped([&](FILE* f) { osl_generic_idump(f, ge, level); }, "generic");
        break;
      case 6:
        VALUE(osl_interface_equal(in, in), 1);
        VALUE(osl_interface_number(in), 0);
        NOTHING(osl_interface_clone(in));
        NOTHING(osl_interface_nclone(in, num));
        NOTHING(osl_interface_lookup(in, word.c_str()));
        osl_interface_add(&in, nullptr);
        NOTHING(in);
        osl_interface_free(in);
        dumped([&](FILE* f) { osl_interface_idump(f, in, level); }, "interface");
        break;
      case 7:
        VALUE(osl_vector_equal(v, v), 1);
        NOTHING(osl_vector_is_scalar(v));
        osl_vector_free(v);
        dumped([&](FILE* f) { osl_vector_idump(f, v, level); }, "vector");
        REFUSED((void)osl_vector_add(v, v));
        REFUSED((void)osl_vector_sub(v, v));
        REFUSED(osl_vector_tag_equality(v));
        REFUSED(osl_vector_tag_inequality(v));
        REFUSED((void)osl_vector_add_scalar(v, num));
        break;
      case 8:
        VALUE(osl_strings_equal(ss, ss), 1);
        VALUE(osl_strings_size(ss), 0);
        NOTHING(osl_strings_clone(ss));
        osl_strings_free(ss);
        quiet_own(osl_strings_sprint(ss), "strings sprint");
        quiet(print_to_string([&](FILE* f) { osl_strings_print(f, ss); }), "strings print");
        dumped([&](FILE* f) { osl_strings_idump(f, ss, level); }, "strings");
        NOTHING(osl_names_clone(nm));
        osl_names_free(nm);
        dumped([&](FILE* f) { osl_names_idump(f, nm, level); }, "names");
        break;
      case 9: {
        VALUE(osl_body_equal(b, b), 1);
        NOTHING(osl_body_clone(b));
        osl_body_free(b);
        quiet_own(osl_body_sprint(b), "body sprint");
        quiet(print_to_string([&](FILE* f) { osl_body_print(f, b); }), "body print");
        quiet(print_to_string([&](FILE* f) { osl_body_print_scoplib(f, b); }), "body print scoplib");
        dumped([&](FILE* f) { osl_body_idump(f, b, level); }, "body");
        osl_body_t* e = osl_body_malloc();
        NOTHING(osl_body_equal(e, b));
        NOTHING(osl_body_equal(b, e));
        osl_body_free(e);
        break;
      }
      case 10: {
        VALUE(osl_nb_dependences(nullptr), 0);
        VALUE(osl_loop_count(nullptr), 0);
        VALUE(osl_region_count(nullptr), 0);
        VALUE(osl_symbols_get_nb_symbols(nullptr), 0);
        NOTHING(osl_loop_clone_one(nullptr));
        VALUE(osl_loop_equal_one(nullptr, nullptr), 1);
        VALUE(osl_region_equal_one(nullptr, nullptr), 1);
        osl_loop_t* lo = osl_loop_malloc();
        VALUE(osl_loop_equal_one(nullptr, lo), 0);
        VALUE(osl_loop_equal_one(lo, nullptr), 0);
        osl_loop_free(lo);
        osl_region_t* re = osl_region_malloc();
        VALUE(osl_region_equal_one(nullptr, re), 0);
        VALUE(osl_region_equal_one(re, nullptr), 0);
        osl_region_free(re);
        NOTHING(osl_symbols_nclone(nullptr, num));
        NOTHING(osl_arrays_to_strings(nullptr));
        osl_names_t* d = osl_scop_names(nullptr);
        CHECK(d && d->parameters && d->iterators && d->scatt_dims && d->local_dims && d->arrays, "names", "nothing has incomplete names");
        osl_names_free(d);
        osl_pluto_unroll_fill(nullptr, word.c_str(), true, 2);
        break;
      }
    }
  }
}

Property pbt::property = {
    "P29",
    "edits and parts: several operations on an object that has constraints or statements; queries: several questions",
    {{"edits", edits, 40000, 1200000, true}, {"parts", parts, 30000, 800000, true}, {"queries", queries, 30000, 500000, true}}};
