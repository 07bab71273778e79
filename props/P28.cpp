// P28: a new object is empty, complete and ready to use.
// Every constructor is called in any order on a heap whose blocks hold the leftovers of other
// objects; every field of what it returns is compared with the documented default. What
// reading, copying and combining return is walked for fields that were never set.
#include <algorithm>

#include "scop.h"
using namespace pbt;
typedef std::string S;

// Leaves blocks of all the usual sizes, filled with rubbish, for the next allocations.
static void dirty(Src& s) {
  std::vector<char*> v;
  int n = s.small(6);
  unsigned char fill = s.flip() ? 0xff : (unsigned char)(1 + s.below(255));
  for (int i = 0; i < n; i++) {
    size_t size = 1 + s.below(s.flip() ? 200 : 4000);
    char* p = (char*)malloc(size);
    memset(p, fill, size);
    v.push_back(p);
  }
  for (char* p : v) free(p);
}
#define ABSENT(p, what) CHECK(!(p), "default", "a new object has a " << what)
#define IS(x, v, what) CHECK((x) == (v), "default", "the " << what << " of a new object is " << (x) << ", not " << (v))

static void new_relation(const osl_relation_t* r, int prec, int rows, int cols) {
  CHECK(r, "default", "no relation");
  IS(r->type, OSL_UNDEFINED, "type");
  IS(r->precision, prec, "precision");
  IS(r->nb_rows, rows, "number of rows");
  IS(r->nb_columns, cols, "number of columns");
  IS(r->nb_output_dims, OSL_UNDEFINED, "number of outputs");
  IS(r->nb_input_dims, OSL_UNDEFINED, "number of inputs");
  IS(r->nb_local_dims, OSL_UNDEFINED, "number of locals");
  IS(r->nb_parameters, OSL_UNDEFINED, "number of parameters");
  ABSENT(r->usr, "user field");
  ABSENT(r->next, "next part");
  for (int i = 0; i < rows; i++)
    for (int j = 0; j < cols; j++) CHECK(getZ(prec, r->m[i][j]) == 0, "default", "a coefficient of a new relation is " << getZ(prec, r->m[i][j]));
}
// what a new extension holds
static T fresh(const S& u) {
  const long U = OSL_UNDEFINED;
  T t = T::list(u);
  if (u == "body") t.c = {T::nil("iterators"), T::nil("expression")};
  if (u == "comment" || u == "clay" || u == "textual") t.c = {T::nil("text")};
  if (u == "scatnames") t.c = {T::nil("names")};
  if (u == "coordinates")
    t.c = {T::nil("name"), T::num("line_start", U), T::num("line_end", U), T::num("column_start", U), T::num("column_end", U), T::num("indent", U)};
  return t;
}
struct Obj {
  S kind;
  void* p = nullptr;
  int prec = 0, rows = 0, cols = 0;
  osl_interface_t* it = nullptr;
};
static const std::vector<S> CORE = {"relation", "list",    "statement", "scop",      "generic", "interface",
                                    "names",    "strings", "vector",    "integer"};
static void verify(const Obj& o) {
  if (o.kind == "relation")
    new_relation((osl_relation_t*)o.p, o.prec, o.rows, o.cols);
  else if (o.kind == "list") {
    auto* x = (osl_relation_list_t*)o.p;
    ABSENT(x->elt, "relation");
    ABSENT(x->next, "next element");
  } else if (o.kind == "statement") {
    auto* x = (osl_statement_t*)o.p;
    ABSENT(x->domain, "domain");
    ABSENT(x->scattering, "scattering");
    ABSENT(x->access, "list of accesses");
    ABSENT(x->extension, "list of extensions");
    ABSENT(x->usr, "user field");
    ABSENT(x->next, "next statement");
  } else if (o.kind == "scop") {
    auto* x = (osl_scop_t*)o.p;
    IS(x->version, 1, "version");
    ABSENT(x->language, "language");
    ABSENT(x->context, "context");
    ABSENT(x->parameters, "list of parameters");
    ABSENT(x->statement, "statement");
    ABSENT(x->registry, "registry");
    ABSENT(x->extension, "list of extensions");
    ABSENT(x->usr, "user field");
    ABSENT(x->next, "next scop");
  } else if (o.kind == "generic") {
    auto* x = (osl_generic_t*)o.p;
    ABSENT(x->interface, "interface");
    ABSENT(x->data, "content");
    ABSENT(x->next, "next extension");
  } else if (o.kind == "interface") {
    auto* x = (osl_interface_t*)o.p;
    ABSENT(x->URI, "URI");
    CHECK(!x->idump && !x->sprint && !x->sread && !x->malloc && !x->free && !x->clone && !x->equal, "default", "a new interface has a function");
    ABSENT(x->next, "next interface");
  } else if (o.kind == "names") {
    auto* x = (osl_names_t*)o.p;
    CHECK(!x->parameters && !x->iterators && !x->scatt_dims && !x->local_dims && !x->arrays, "default", "a new set of names has names");
  } else if (o.kind == "strings") {
    auto* x = (osl_strings_t*)o.p;
    CHECK(x->string && !x->string[0] && osl_strings_size(x) == 0, "default", "a new list of strings is not empty");
  } else if (o.kind == "vector") {
    auto* x = (osl_vector_t*)o.p;
    IS(x->precision, o.prec, "precision");
    IS(x->size, o.rows, "size");
    for (int i = 0; i < o.rows; i++) CHECK(getZ(o.prec, x->v[i]) == 0, "default", "an entry of a new vector is " << getZ(o.prec, x->v[i]));
  } else if (o.kind == "integer") {
    auto* x = (osl_int_t*)o.p;
    CHECK(getZ(o.prec, *x) == 0, "default", "a new integer is " << getZ(o.prec, *x));
  } else if (o.kind == "dependence") {
    auto* x = (osl_dependence_t*)o.p;
    for (int v : {x->depth, x->type, x->label_source, x->label_target, x->ref_source, x->ref_target, x->source_nb_output_dims_domain,
                  x->source_nb_output_dims_access, x->target_nb_output_dims_domain, x->target_nb_output_dims_access,
                  x->source_nb_local_dims_domain, x->source_nb_local_dims_access, x->target_nb_local_dims_domain,
                  x->target_nb_local_dims_access})
      IS(v, OSL_UNDEFINED, "attribute");
    CHECK(!x->domain && !x->next && !x->usr && !x->ref_source_access_ptr && !x->ref_target_access_ptr && !x->stmt_source_ptr && !x->stmt_target_ptr,
          "default", "a new dependence refers to something");
  } else if (o.kind == "symbols") {
    auto* x = (osl_symbols_t*)o.p;
    for (int v : {x->type, x->generated, x->nb_dims}) IS(v, OSL_UNDEFINED, "attribute");
    CHECK(!x->identifier && !x->datatype && !x->scope && !x->extent && !x->next && !x->usr, "default", "a new symbol refers to something");
  } else if (o.kind == "loop") {
    auto* x = (osl_loop_t*)o.p;
    IS(x->nb_stmts, 0, "number of statements");
    IS(x->directive, 0, "directive");
    CHECK(!x->iter && !x->stmt_ids && !x->private_vars && !x->user && !x->next, "default", "a new loop refers to something");
  } else if (o.kind == "pluto_unroll") {
    auto* x = (osl_pluto_unroll_t*)o.p;
    CHECK(!x->iter && !x->jam && !x->factor && !x->next, "default", "a new unroll request is not empty");
  } else if (o.kind == "extbody") {
    auto* x = (osl_extbody_t*)o.p;
    CHECK(!x->nb_access && !x->start && !x->length && !x->body, "default", "a new extended body is not empty");
  } else if (o.kind == "irregular") {
    auto* x = (osl_irregular_t*)o.p;
    CHECK(!x->nb_statements && !x->predicates && !x->nb_predicates && !x->nb_control && !x->nb_exit && !x->nb_iterators && !x->iterators && !x->body,
          "default", "a new irregular extension is not empty");
  } else if (o.kind == "arrays") {
    auto* x = (osl_arrays_t*)o.p;
    CHECK(!x->nb_names && !x->id && !x->names, "default", "a new table of arrays is not empty");
  } else if (o.kind == "scatinfos") {
    auto* x = (osl_scatinfos_t*)o.p;
    CHECK(!x->nb_scatdims && !x->parallel && !x->permutable && !x->type, "default", "a new scatinfos is not empty");
  } else if (o.kind == "region") {
    auto* x = (osl_region_t*)o.p;
    for (auto* t : {&x->prefix, &x->suffix, &x->prelude, &x->postlude})
      CHECK(!t->count && !t->lines && !t->types, "default", "a new region has text");
    CHECK(!x->location && !x->next, "default", "a new region is not empty");
  } else if (o.kind == "annotation") {
    auto* x = (osl_annotation_t*)o.p;
    for (auto* t : {&x->prefix, &x->suffix}) CHECK(!t->count && !t->lines && !t->types, "default", "a new annotation has text");
  } else if (o.kind != "null") {
    S d = diff(snap_data(o.kind, o.p), fresh(o.kind));
    CHECK(d.empty(), "default", "a new " << o.kind << " is not empty: " << d);
  }
}
static void* copy(const Obj& o) {
  if (o.it) return o.it->clone(o.p);
  if (o.kind == "relation") return osl_relation_clone((osl_relation_t*)o.p);
  if (o.kind == "list") return osl_relation_list_clone((osl_relation_list_t*)o.p);
  if (o.kind == "statement") return osl_statement_clone((osl_statement_t*)o.p);
  if (o.kind == "scop") return osl_scop_clone((osl_scop_t*)o.p);
  if (o.kind == "names") return osl_names_clone((osl_names_t*)o.p);
  if (o.kind == "strings") return osl_strings_clone((osl_strings_t*)o.p);
  return nullptr;
}
static bool same(const Obj& o, void* y) {
  if (o.it) return o.it->equal(o.p, y) && o.it->equal(y, o.p);
  if (o.kind == "relation") return osl_relation_equal((osl_relation_t*)o.p, (osl_relation_t*)y);
  if (o.kind == "list") return osl_relation_list_equal((osl_relation_list_t*)o.p, (osl_relation_list_t*)y);
  if (o.kind == "statement") return osl_statement_equal((osl_statement_t*)o.p, (osl_statement_t*)y);
  if (o.kind == "scop") return osl_scop_equal((osl_scop_t*)o.p, (osl_scop_t*)y);
  if (o.kind == "strings") return osl_strings_equal((osl_strings_t*)o.p, (osl_strings_t*)y);
  if (o.kind == "vector") return osl_vector_equal((osl_vector_t*)o.p, (osl_vector_t*)y);
  return true;
}
static void drop(Obj& o) {
  if (o.it)
    o.it->free(o.p);
  else if (o.kind == "relation")
    osl_relation_free((osl_relation_t*)o.p);
  else if (o.kind == "list")
    osl_relation_list_free((osl_relation_list_t*)o.p);
  else if (o.kind == "statement")
    osl_statement_free((osl_statement_t*)o.p);
  else if (o.kind == "scop")
    osl_scop_free((osl_scop_t*)o.p);
  else if (o.kind == "generic")
    osl_generic_free((osl_generic_t*)o.p);
  else if (o.kind == "interface")
    osl_interface_free((osl_interface_t*)o.p);
  else if (o.kind == "names")
    osl_names_free((osl_names_t*)o.p);
  else if (o.kind == "strings")
    osl_strings_free((osl_strings_t*)o.p);
  else if (o.kind == "vector")
    osl_vector_free((osl_vector_t*)o.p);
  else if (o.kind == "integer")
    osl_int_free(o.prec, (osl_int_t*)o.p);
  osl_interface_free(o.it);
  o.p = nullptr;
  o.it = nullptr;
}
static Obj make(Case& c, int env) {
  Src& s = c.s;
  Obj o;
  o.kind = s.flip() ? s.pick(CORE) : s.pick(EXT_URIS);
  bool core = std::find(CORE.begin(), CORE.end(), o.kind) != CORE.end();
  if (o.kind == "relation" || o.kind == "strings") core = s.flip();
  if (!core) {
    o.it = ext_interface(o.kind);
    o.prec = env;
    o.p = o.it->malloc();
    return o;
  }
  o.prec = ALLPREC[s.below(3)];
  if (o.kind == "relation") {
    o.rows = s.sized(5, 40);
    o.cols = s.sized(6, 40);
    if (s.flip()) {
      o.prec = env;
      o.p = osl_relation_malloc(o.rows, o.cols);
    } else
      o.p = osl_relation_pmalloc(o.prec, o.rows, o.cols);
  } else if (o.kind == "vector") {
    o.rows = s.sized(6, 200);
    if (s.flip()) {
      o.prec = env;
      o.p = osl_vector_malloc(o.rows);
    } else
      o.p = osl_vector_pmalloc(o.prec, o.rows);
  } else if (o.kind == "integer")
    o.p = osl_int_malloc(o.prec);
  else if (o.kind == "list")
    o.p = osl_relation_list_malloc();
  else if (o.kind == "statement")
    o.p = osl_statement_malloc();
  else if (o.kind == "scop")
    o.p = osl_scop_malloc();
  else if (o.kind == "generic")
    o.p = osl_generic_malloc();
  else if (o.kind == "interface")
    o.p = osl_interface_malloc();
  else if (o.kind == "names")
    o.p = osl_names_malloc();
  else
    o.p = osl_strings_malloc();
  return o;
}
static void objects(Case& c) {
  Src& s = c.s;
  int env = ALLPREC[s.below(3)];
  set_env(env);
  std::vector<Obj> pool;
  int n = 1 + s.small(12);
  c.nontrivial = n > 1;
  for (int k = 0; k < n; k++) {
    dirty(s);
    if (s.pct(15)) set_env(env = ALLPREC[s.below(3)]);
    Obj o = make(c, env);
    if (c.rendering) c.log << "new " << o.kind << " " << precname(o.prec) << " " << o.rows << "x" << o.cols << "\n";
    label(o.kind);
    CHECK(o.p, "default", "no " << o.kind << " is returned");
    verify(o);
    for (auto& q : pool) CHECK(q.p != o.p, "shared", "two new objects are the same one");
    if (s.flip()) {
      if (void* y = copy(o)) {
        Obj z = o;
        z.p = y;
        z.it = nullptr;
        CHECK(y != o.p, "shared", "the copy of a new object is the object itself");
        CHECK(same(o, y), "usable", "a new " << o.kind << " differs from its copy");
        if (o.it) {
          CHECK(snap_data(o.kind, o.p) == snap_data(o.kind, y), "usable", "the copy of a new " << o.kind << " is not empty");
          o.it->free(y);
        } else {
          verify(z);
          drop(z);
        }
        verify(o);
      }
    }
    // content of its own
    if (o.kind == "relation" && o.rows && o.cols && s.flip()) {
      auto* r = (osl_relation_t*)o.p;
      for (int i = 0; i < o.rows; i++)
        for (int j = 0; j < o.cols; j++) putZ(o.prec, &r->m[i][j], i * 50 + j);
      for (int i = 0; i < o.rows; i++)
        for (int j = 0; j < o.cols; j++) CHECK(getZ(o.prec, r->m[i][j]) == i * 50 + j, "shared", "two coefficients are the same one");
      drop(o);
      continue;
    }
    pool.push_back(o);
    if (s.pct(30)) {
      size_t x = s.below(pool.size());
      drop(pool[x]);
      pool.erase(pool.begin() + x);
    }
    for (auto& q : pool) verify(q);
  }
  for (auto& q : pool) {
    verify(q);
    drop(q);
  }
}

// ------------------------------------------------------------------ user fields of what is returned
static char mark[64];
static void usr(const void* p, const char* what) {
  CHECK(!p || ((const char*)p >= mark && (const char*)p < mark + sizeof mark), "unset", "the user field of " << what << " was never set");
}
static void walk(const osl_generic_t* g);
static void walk(const osl_relation_t* r) {
  for (; r; r = r->next) usr(r->usr, "a relation");
}
static void walk(const osl_relation_list_t* l) {
  for (; l; l = l->next) walk(l->elt);
}
static void walk(const osl_generic_t* g) {
  for (; g; g = g->next) {
    if (!g->data) continue;
    if (osl_generic_has_URI(g, "symbols"))
      for (auto* x = (osl_symbols_t*)g->data; x; x = x->next) {
        usr(x->usr, "a symbol");
        walk(x->identifier);
        walk(x->datatype);
        walk(x->scope);
        walk(x->extent);
      }
    if (osl_generic_has_URI(g, "dependence"))
      for (auto* x = (osl_dependence_t*)g->data; x; x = x->next) {
        usr(x->usr, "a dependence");
        usr(x->stmt_source_ptr, "a dependence (source statement)");
        usr(x->stmt_target_ptr, "a dependence (target statement)");
        usr(x->ref_source_access_ptr, "a dependence (source reference)");
        usr(x->ref_target_access_ptr, "a dependence (target reference)");
        walk(x->domain);
      }
    if (osl_generic_has_URI(g, "relation")) walk((osl_relation_t*)g->data);
  }
}
static void walk(const osl_statement_t* t) {
  for (; t; t = t->next) {
    usr(t->usr, "a statement");
    walk(t->domain);
    walk(t->scattering);
    walk(t->access);
    walk(t->extension);
  }
}
static void walk(const osl_scop_t* x) {
  for (; x; x = x->next) {
    usr(x->usr, "a scop");
    walk(x->context);
    walk(x->parameters);
    walk(x->statement);
    walk(x->extension);
  }
}
static void* some(Src& s) { return s.flip() ? nullptr : mark + s.below(sizeof mark); }
static void set(Src& s, osl_relation_t* r) {
  for (; r; r = r->next) r->usr = some(s);
}
static void set(Src& s, osl_scop_t* x) {
  for (; x; x = x->next) {
    x->usr = some(s);
    set(s, x->context);
    for (auto* t = x->statement; t; t = t->next) {
      t->usr = some(s);
      set(s, t->domain);
      set(s, t->scattering);
      for (auto* l = t->access; l; l = l->next) set(s, l->elt);
    }
  }
}
static void returned(Case& c) {
  Src& s = c.s;
  int op = s.below(9);
  GScop g;
  g.e.prec = ALLPREC[s.below(3)];
  set_env(g.e.prec);
  if (op < 3) {
    if (op == 2) g.absent = false;
    g.maxparts = 3;
    MScops m = gen_scops(s, g);
    c.nontrivial = !m[0].stmts.empty();
    if (c.rendering) c.log << "op " << op << " " << precname(g.e.prec) << "\n" << show(tree(m));
    osl_scop_t *a = build(m), *b = nullptr;
    set(s, a);
    walk(a);
    dirty(s);
    if (op == 0) {
      label("copy");
      b = osl_scop_clone(a);
    } else if (op == 1) {
      label("read");
      Layout l;
      l.s = &s;
      l.noise = 20 * s.below(6);
      b = read_text(emit(m, l), g.e.prec);
    } else {
      label("unions");
      b = osl_scop_remove_unions(a);
    }
    walk(b);
    walk(a);
    osl_scop_free(a);
    osl_scop_free(b);
    return;
  }
  GRel gr;
  gr.wide = false;
  MUnion u = gen_any_union(s, g.e.prec, gr, 3);
  c.nontrivial = u.size() > 1;
  if (c.rendering) c.log << "op " << op << " " << precname(g.e.prec) << "\n" << show(u);
  osl_relation_t *a = build(u), *b = nullptr;
  set(s, a);
  dirty(s);
  if (op == 3) {
    label("rows");
    b = osl_relation_nclone(a, s.below(u.size() + 1));
  } else if (op == 4) {
    label("constraints");
    int rows = u[0].rows;
    for (auto& p : u) rows = std::min(rows, p.rows);
    b = osl_relation_clone_nconstraints(a, (int)s.below(rows + 1));
  } else if (op == 5) {
    label("outputs");
    for (auto& p : u)
      if (p.out != u[0].out) discard();
    b = osl_relation_extend_output(a, u[0].out + s.small(2));
  } else if (op == 6) {
    label("vector");
    int n = 2 + s.small(5);
    osl_vector_t* v = osl_vector_pmalloc(g.e.prec, n);
    b = osl_relation_from_vector(v);
    osl_vector_free(v);
  } else if (op == 7) {
    label("concatenation");
    b = osl_relation_concat_constraints(a, a);
  } else {
    label("union");
    osl_relation_t* k = osl_relation_clone(a);
    set(s, k);
    b = osl_relation_union(a, k);
    osl_relation_free(k);
  }
  walk(b);
  walk(a);
  osl_relation_free(a);
  osl_relation_free(b);
}

Property pbt::property = {
    "P28",
    "several objects are created one after the other; what is read, copied or combined has a statement or several parts",
    {{"objects", objects, 60000, 1500000, true}, {"returned", returned, 30000, 800000, true}}};
