// P30: calls on separate objects do not influence each other.
// A task owns some objects and a script of calls on them; everything it sees goes into its
// transcript. The transcript of a task that runs alone is the reference: the task gives the
// same one when its calls alternate with those of other tasks, and when the tasks run in
// threads (the build detects unsynchronised accesses to the same memory).
#include <exception>
#include <functional>
#include <map>
#include <memory>
#include <thread>

#include "intops.h"
#include "scop.h"
using namespace pbt;
typedef std::string S;
typedef std::vector<S> V;
typedef std::function<S(int, int)> Op;

static thread_local int last_exit = -1;  // set by a call that is refused on its own
struct Live {  // the objects of a task, in the closures of its calls
  std::vector<Op> ops;   // these only look at the objects
  std::vector<Op> muts;  // these change them
  std::function<void()> done;
};
struct Task {
  S kind;
  int prec;
  std::function<Live()> start;
  struct Step {
    int op, a, b;
  };
  std::vector<Step> script;
};
static S num(long x) { return std::to_string(x) + " "; }
static S take(char* p) {
  S r = p ? p : "(nothing)";
  free(p);
  return r;
}
template <class F>
static Op out(F f) {
  return [f](int a, int b) { return print_to_string([&](FILE* o) { f(o, a, b); }); };
}
static osl_names_t* names(int k) {
  const char* p[] = {"N", "param", "a"};
  return osl_names_generate(p[k % 3], 45, p[(k + 1) % 3], 45, "sc", 45, "loc", 45, p[(k + 2) % 3], 250);
}
static S att(const std::function<void(int*, int*, int*, int*, int*)>& f) {
  int a = -1, b = -1, d = -1, e = -1, g = -1;
  f(&a, &b, &d, &e, &g);
  return num(a) + num(b) + num(d) + num(e) + num(g);
}
// ---- kinds of tasks
static Task relation_task(Src& s, int prec) {
  GRel g;
  g.wide = s.pct(30);
  MUnion u = gen_any_union(s, prec, g, 3), w = gen_any_union(s, prec, g, 2);
  int t = s.below(4) ? OSL_TYPE_SCATTERING : OSL_TYPE_READ;
  if (t == OSL_TYPE_READ) u = {gen_access(s, prec, t, 1 + s.small(5), s.small(3), s.small(3), s.small(2), s.small(3), g.wide)};
  Task k;
  k.start = [=] {
    struct St {
      osl_relation_t *x, *y;
    };
    auto st = std::make_shared<St>(St{build(u), build(w)});
    auto tame_ = [=] {
      MUnion m = snap(st->x);
      return shaped(m) && osl_relation_get_array_id(st->x) < 200;
    };
    auto copied = [](osl_relation_t* r) {
      S t = show(snap(r));
      osl_relation_free(r);
      return t;
    };
    Live l;
    l.ops = {
        out([=](FILE* f, int a, int) { osl_relation_idump(f, st->x, a); }),
        out([=](FILE* f, int, int) {
          if (tame_()) osl_relation_print(f, st->x);
        }),
        out([=](FILE* f, int a, int) {
          osl_names_t* n = names(a);
          if (tame_()) osl_relation_pprint(f, st->x, n);
          osl_names_free(n);
        }),
        [=](int, int) { return tame_() ? take(osl_relation_sprint(st->x)) : S(); },
        [=](int a, int) {
          osl_names_t* n = names(a);
          S t = tame_() ? take(osl_relation_spprint(st->x, n)) : S();
          osl_names_free(n);
          return t;
        },
        [=](int a, int) {
          if (!tame_() || !st->x->nb_rows) return S();
          std::vector<S> c;
          for (int i = 0; i < st->x->nb_columns + 1; i++) c.push_back(S(1, 'a' + (a + i) % 20) + num(i));
          std::vector<char*> p;
          for (auto& q : c) p.push_back(&q[0]);
          p.push_back(nullptr);
          return take(osl_relation_expression(st->x, a % st->x->nb_rows, p.data()));
        },
        [=](int, int) {  // read what is printed
          if (!tame_()) return S();
          S t = take(osl_relation_spprint_polylib(st->x, nullptr));
          char* p = &t[0];
          return copied(osl_relation_psread_polylib(&p, st->x->precision)) + (*p ? "left" : "");
        },
        [=](int, int) {
          if (!tame_()) return S();
          S t = take(osl_relation_sprint(st->x));
          FILE* f = file_of(t);
          osl_relation_t* r = osl_relation_pread(f, st->x->precision);
          fclose(f);
          return copied(r);
        },
        [=](int, int) { return copied(osl_relation_clone(st->x)); },
        [=](int, int) { return copied(osl_relation_union(st->x, st->y)); },
        [=](int a, int) {
          int n = st->x->nb_output_dims;
          for (osl_relation_t* r = st->x; r; r = r->next) n = std::max(n, r->nb_output_dims);
          return tame_() ? copied(osl_relation_extend_output(st->x, n + a)) : S();
        },
        [=](int, int) { return num(osl_relation_equal(st->x, st->y)) + num(osl_relation_equal(st->x, st->x)); },
        [=](int, int) {
          return num(osl_relation_integrity_check(st->x, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED)) +
                 num(osl_relation_get_array_id(st->x)) + num(osl_relation_nb_components(st->x));
        },
        [=](int, int) { return att([&](int* a, int* b, int* d, int* e, int* h) { osl_relation_get_attributes(st->x, a, b, d, e, h); }); },
        [=](int, int) {
          osl_relation_t* r = osl_relation_clone(st->y);
          osl_relation_add(&r, osl_relation_clone(st->y));
          osl_relation_set_precision(OSL_PRECISION_MP, r);
          return copied(r);
        },
    };
    l.muts = {
        [=](int a, int) {
          osl_relation_insert_blank_row(st->x, a % (st->x->nb_rows + 1));
          return show(snap(st->x));
        },
        [=](int a, int b) {
          if (!st->x->nb_columns) return S();
          osl_vector_t* v = osl_vector_pmalloc(st->x->precision, st->x->nb_columns);
          for (int i = 0; i < v->size; i++) osl_int_set_si(v->precision, &v->v[i], (i * a - b) % 7);
          osl_int_set_si(v->precision, &v->v[0], 1);
          osl_relation_insert_vector(st->x, v, b % (st->x->nb_rows + 1));
          osl_vector_free(v);
          return show(snap(st->x));
        },
        [=](int a, int) {
          if (st->x->nb_rows < 2) return S();
          osl_relation_remove_row(st->x, a % st->x->nb_rows);
          return show(snap(st->x));
        },
        [=](int a, int b) {
          if (!st->x->nb_rows) return S();
          osl_relation_swap_constraints(st->x, a % st->x->nb_rows, b % st->x->nb_rows);
          return show(snap(st->x));
        },
    };
    l.done = [=] {
      osl_relation_free(st->x);
      osl_relation_free(st->y);
    };
    return l;
  };
  return k;
}
static Task extension_task(Src& s, int prec) {
  S u = s.pick(EXT_URIS);
  GExt g;
  g.prec = prec;
  g.readable = s.pct(70);
  g.nil = !g.readable;
  bool again = g.readable && std::find(EXT_READABLE.begin(), EXT_READABLE.end(), u) != EXT_READABLE.end();
  T m = gen_ext(s, u, g), w = gen_ext(s, u, g);
  S text;
  if (again) {
    Layout lay;
    lay.s = &s;
    lay.noise = s.flip() ? 20 : 0;
    text = ext_text(m, lay);
    text = lay.o.empty() ? text : lay.o;
  }
  Task k;
  k.start = [=] {
    osl_interface_t* it = ext_interface(u);
    void *x = build_data(m), *y = build_data(w);
    Live l;
    l.ops = {
        out([=](FILE* f, int a, int) { it->idump(f, x, a); }),
        [=](int, int) { return take(it->sprint(x)); },
        [=](int, int) { return take(it->sprint(y)); },
        [=](int, int) {
          void* q = it->clone(x);
          S t = show(snap_data(u, q)) + num(it->equal(x, q));
          it->free(q);
          return t;
        },
        [=](int, int) { return num(it->equal(x, y)) + num(it->equal(y, x)); },
        [=](int, int) {
          void* q = it->malloc();
          S t = show(snap_data(u, q));
          it->free(q);
          return t;
        },
        [=](int, int) { return show(snap_data(u, x)); },
    };
    if (again)
      l.ops.push_back([=](int, int) {
        S t = text;
        char* p = &t[0];
        void* q = it->sread(&p);
        S r = show(snap_data(u, q)) + num((long)(p - &t[0]));
        it->free(q);
        return r;
      });
    l.done = [=] {
      it->free(x);
      it->free(y);
      osl_interface_free(it);
    };
    return l;
  };
  return k;
}
static S shown(const std::vector<T>& v) {
  S r;
  for (auto& t : v) r += show(t);
  return r;
}
static Task generics_task(Src& s, int prec) {
  GExt g;
  g.prec = prec;
  std::vector<T> m = gen_exts(s, EXT_READABLE, 4, g), w = gen_exts(s, EXT_READABLE, 3, g);
  Layout lay;
  lay.s = &s;
  emit_generics(m, lay, 10);
  S text = lay.o;
  S uri = s.pick(EXT_READABLE);
  Task k;
  k.start = [=] {
    osl_generic_t *x = build_generics(m), *y = build_generics(w);
    osl_interface_t* reg = osl_interface_get_default_registry();
    auto copied = [](osl_generic_t* r) {
      S t = shown(snap_generics(r));
      osl_generic_free(r);
      return t;
    };
    Live l;
    l.ops = {
        out([=](FILE* f, int a, int) { osl_generic_idump(f, x, a); }),
        out([=](FILE* f, int, int) { osl_generic_print(f, x); }),
        [=](int, int) { return take(osl_generic_sprint(y)); },
        [=](int, int) { return copied(osl_generic_clone(x)); },
        [=](int, int) { return num(osl_generic_equal(x, y)) + num(osl_generic_equal(x, x)) + num(osl_generic_count(x)); },
        [=](int, int) { return num(osl_generic_has_URI(x, uri.c_str())) + num(osl_generic_lookup(x, uri.c_str()) != nullptr); },
        [=](int, int) {
          S t = text;
          char* p = &t[0];
          return copied(osl_generic_sread(&p, reg));
        },
        [=](int, int) {
          FILE* f = file_of(text + "</OpenScop>\n");
          osl_generic_t* q = osl_generic_read(f, reg);
          fclose(f);
          return copied(q);
        },
        [=](int, int) {
          osl_interface_t* r = osl_interface_get_default_registry();
          S t = num(osl_interface_number(r)) + num(osl_interface_equal(r, reg));
          osl_interface_t* q = osl_interface_lookup(r, uri.c_str());
          t += q ? q->URI : "none";
          for (auto& n : snap_registry(r)) t += n + " ";
          osl_interface_free(r);
          return t;
        },
        out([=](FILE* f, int a, int) { osl_interface_idump(f, reg, a); }),
        [=](int, int) {
          osl_generic_t* q = osl_generic_clone(x);
          osl_generic_remove(&q, uri.c_str());
          return copied(q);
        },
    };
    l.done = [=] {
      osl_generic_free(x);
      osl_generic_free(y);
      osl_interface_free(reg);
    };
    return l;
  };
  return k;
}
static Task scop_task(Src& s, int prec) {
  GScop g;
  g.e.prec = prec;
  g.maxstmts = 2;
  g.maxacc = 2;
  g.absent = s.pct(20);
  bool text = s.pct(60);
  g.e.readable = text;
  g.e.wide = s.pct(30);
  if (text) g.absent = false;
  MScops m = gen_scops(s, g), w = gen_scops(s, g);
  S doc;
  if (text) {
    Layout lay;
    lay.s = &s;
    lay.noise = s.flip() ? 30 : 0;
    doc = emit(m, lay);
    if (!lay.o.empty()) doc = lay.o;
    if (s.pct(10) && !doc.empty()) doc.resize(s.below(doc.size()));  // refused, or less is read
  }
  int np = s.small(3);
  bool single = true, ok = shaped(m), stm = false;
  for (auto& q : m) {
    for (auto& z : q.stmts) single = single && !z.dom.empty() && !z.scat.empty();
    if (!q.stmts.empty()) stm = true;
  }
  Task k;
  k.start = [=] {
    struct St {
      osl_scop_t *x, *y;
    };
    auto st = std::make_shared<St>(St{build(m), build(w)});
    auto copied = [](osl_scop_t* r) {
      S t = show(tree(snap(r)));
      osl_scop_free(r);
      return t;
    };
    int np_ = -1, ni = -1, ns = -1, nl = -1, id = -1;
    osl_scop_get_attributes(st->x, &np_, &ni, &ns, &nl, &id);
    bool printed = ok && id < 1000;
    Live l;
    l.ops = {
        out([=](FILE* f, int a, int) { osl_scop_idump(f, st->x, a); }),
        out([=](FILE* f, int, int) {
          if (printed) osl_scop_print(f, st->x);
        }),
        [=](int, int) {
          if (!printed) return S();
          osl_names_t* n = osl_scop_names(st->x);
          S t = print_to_string([&](FILE* f) { osl_names_dump(f, n); });
          osl_names_t* q = osl_names_clone(n);
          osl_names_free(n);
          t += print_to_string([&](FILE* f) { osl_names_dump(f, q); });
          osl_names_free(q);
          return t;
        },
        [=](int, int) { return copied(osl_scop_clone(st->x)); },
        [=](int, int) { return num(osl_scop_equal(st->x, st->y)) + num(osl_scop_integrity_check(st->x)) + num(osl_scop_number(st->x)); },
        [=](int, int) { return att([&](int* a, int* b, int* d, int* e, int* h) { osl_scop_get_attributes(st->x, a, b, d, e, h); }); },
        [=](int, int) { return single ? copied(osl_scop_remove_unions(st->x)) : S(); },
        [=](int, int) {
          if (!printed || !single) return S();
          osl_scop_t* q = osl_scop_clone(st->x);
          osl_scop_normalize_scattering(q);
          return copied(q);
        },
        out([=](FILE* f, int a, int) {
          if (!printed || !stm || !st->x || !st->x->statement) return;
          osl_names_t* n = names(a);
          osl_statement_pprint(f, st->x->statement, n);
          osl_names_free(n);
        }),
        [=](int, int) {
          if (!st->x) return S();
          osl_statement_t* q = osl_statement_clone(st->x->statement);
          S t = num(osl_statement_number(q)) + num(osl_statement_equal(q, st->x->statement)) +
                num(osl_statement_integrity_check(q, np));
          osl_statement_free(q);
          return t;
        },
        [=](int, int) {
          osl_scop_t* q = osl_scop_clone(st->x);
          osl_scop_add(&q, osl_scop_clone(st->y));
          return copied(q);
        },
    };
    if (text)
      for (int i = 0; i < 2; i++)
        l.ops.push_back([=](int a, int) {
          FILE* f = file_of(doc);
          osl_scop_t* q = nullptr;
          bool e = false;
          try {
            if (a & 1) {
              osl_interface_t* reg = osl_interface_get_default_registry();
              q = osl_scop_pread(f, reg, prec);
              osl_interface_free(reg);
            } else {
              q = osl_scop_read(f);  // with the precision of the environment
            }
          } catch (OslExit& x) {
            e = true;
            last_exit = x.code;
          }
          fclose(f);
          return e ? S("refused") : copied(q);
        });
    l.done = [=] {
      osl_scop_free(st->x);
      osl_scop_free(st->y);
    };
    return l;
  };
  return k;
}
static Task tool_task(Src& s, int prec) {
  std::vector<Z> z;
  for (int i = 0; i < 6; i++) z.push_back(s.range(-300, 300));
  V ids, words;
  for (int i = 1 + s.small(4); i > 0; i--) ids.push_back(gen_ident(s));
  S text;
  for (int i = s.small(8); i > 0; i--) text += s.flip() ? s.pick(ids) + s.pick(V{"+", " ", "[", "", "*("}) : gen_word(s);
  for (int i = 1 + s.small(4); i > 0; i--) words.push_back(gen_word(s));
  GExt g;
  g.prec = prec;
  T body = gen_ext(s, "body", g);
  int size = 2 + s.small(5);
  Task k;
  k.start = [=] {
    struct St {
      osl_strings_t* w;
      osl_vector_t *v, *u;
      char* buf = nullptr;
      size_t n = 16;
    };
    auto st = std::make_shared<St>();
    st->w = osl_strings_malloc();
    st->v = osl_vector_pmalloc(prec, size);
    st->u = osl_vector_pmalloc(prec, size);
    for (int i = 0; i < size; i++) {
      putZ(prec, &st->v->v[i], z[i % 6]);
      putZ(prec, &st->u->v[i], z[(i + 3) % 6]);
    }
    st->buf = (char*)malloc(st->n);
    st->buf[0] = 0;
    osl_body_t* b = (osl_body_t*)build_data(body);
    auto values = [](osl_vector_t* v, bool free_) {
      S t = num(v->precision);
      for (int i = 0; i < v->size; i++) t += getZ(v->precision, v->v[i]).get_str() + " ";
      if (free_) osl_vector_free(v);
      return t;
    };
    Live l;
    l.ops = {
        [=](int a, int c) {  // integers
          auto& ops = int_ops();
          auto& o = ops[(a * 8 + c) % ops.size()];
          Z r, r2 = 0;
          const Z &p = z[a % 6], q = z[c % 6];
          if ((o.nz && q == 0) || !o.model(p, q, c - 3, r, r2)) return S();
          osl_int_t i1, i2, o1, o2;
          osl_int_init(prec, &i1);
          osl_int_init(prec, &i2);
          osl_int_init(prec, &o1);
          osl_int_init(prec, &o2);
          putZ(prec, &i1, p);
          putZ(prec, &i2, q);
          o.call(prec, &o1, &o2, i1, i2, c - 3);
          S t = getZ(prec, o1).get_str() + " " + getZ(prec, o2).get_str();
          char txt[64];
          osl_int_sprint(txt, prec, o1);
          t += txt;
          osl_int_sprint_txt(txt, prec, i1);
          t += txt;
          char* tp = txt;
          osl_int_sread(&tp, prec, &i2);
          t += getZ(prec, i2).get_str() + " " + num(osl_int_size_in_base_10(prec, i1)) + num(osl_int_size_in_base_2(prec, i1));
          osl_int_clear(prec, &i1);
          osl_int_clear(prec, &i2);
          osl_int_clear(prec, &o1);
          osl_int_clear(prec, &o2);
          return t;
        },
        out([=](FILE* f, int a, int) {
          osl_int_print(f, prec, st->v->v[a % size]);
          osl_int_dump_precision(f, prec);
        }),
        [=](int, int) { return num(osl_util_get_precision()); },
        [=](int, int) {
          std::vector<char*> p;
          V c = ids;
          for (auto& q : c) p.push_back(&q[0]);
          p.push_back(nullptr);
          return take(osl_util_identifier_substitution(text.c_str(), p.data()));
        },
        out([=](FILE* f, int a, int) { osl_strings_idump(f, st->w, a); }),
        out([=](FILE* f, int a, int c) {
          osl_strings_t* q = osl_strings_generate(words[0].c_str(), a);
          osl_strings_print(f, q);
          osl_strings_free(q);
          osl_names_t* n = names(c);
          osl_names_idump(f, n, a);
          osl_names_free(n);
        }),
        [=](int, int) { return values(osl_vector_add(st->v, st->u), true); },
        [=](int, int) { return values(osl_vector_sub(st->v, st->u), true); },
        [=](int a, int) { return values(osl_vector_mul_scalar(st->v, a - 2), true); },
        out([=](FILE* f, int a, int) { osl_vector_idump(f, st->v, a); }),
        out([=](FILE* f, int, int) { osl_body_print(f, b); }),
        out([=](FILE* f, int, int) { osl_body_print_scoplib(f, b); }),
        [=](int a, int c) {
          S t = "<" + words[0] + ">" + text + "</" + words[0] + ">";
          if (words[0].find_first_of("<>/") != S::npos) return S();
          return take(osl_util_tag_content(t.c_str(), words[0].c_str()));
        },
        [=](int, int) {  // words of a text with comments
          S t = "# c\n";
          for (auto& q : words) t += q + " # x\n";
          S r;
          FILE* f = file_of(t);
          for (size_t i = 0; i < words.size(); i++) r += take(osl_util_read_string(f, nullptr)) + "|";
          fclose(f);
          char* p = &t[0];
          for (size_t i = 0; i < words.size(); i++) r += take(osl_util_read_string(nullptr, &p)) + "|";
          return r;
        },
        [=](int a, int c) {
          S t = "  " + num(a * 7) + "\n# no\n" + num(c - 5);
          char* p = &t[0];
          int i = osl_util_read_int(nullptr, &p), j = osl_util_read_int(nullptr, &p);
          return num(i) + num(j);
        },
    };
    l.muts = {
        [=](int a, int) {
          osl_util_safe_strcat(&st->buf, words[a % words.size()].c_str(), &st->n);
          return S(st->buf);
        },
        [=](int a, int) {
          osl_strings_add(st->w, words[a % words.size()].c_str());
          return take(osl_strings_sprint(st->w)) + num(osl_strings_size(st->w)) + num(osl_strings_find(st->w, words[0].c_str()));
        },
        [=](int, int) {
          osl_vector_tag_inequality(st->v);
          return values(st->v, false) + num(osl_vector_equal(st->v, st->u)) + num(osl_vector_is_scalar(st->v));
        },
    };
    l.done = [=] {
      osl_strings_free(st->w);
      osl_vector_free(st->v);
      osl_vector_free(st->u);
      free(st->buf);
      osl_body_free(b);
    };
    return l;
  };
  return k;
}
static MRel mapping(Src& s, int prec, int type, int outs, int in, int np) {
  MRel r = gen_rel(s, prec, type, outs, in, 0, np, outs, false);
  for (int i = 0; i < outs; i++) {
    r.m[i][0] = 0;
    for (int j = 0; j < outs; j++) r.m[i][1 + j] = i == j ? -1 : 0;
  }
  return r;
}
static Task export_task(Src& s, int prec) {  // scoplib
  MScop m;
  m.language = T::str("language", "C");
  int np = s.small(3);
  m.ctx = {gen_rel(s, prec, OSL_TYPE_CONTEXT, 0, 0, 0, np, s.small(3), false)};
  for (int n = 1 + s.small(2); n > 0; n--) {
    MStmt x;
    int d = s.small(3);
    for (int i = s.small(1); i >= 0; i--) x.dom.push_back(gen_rel(s, prec, OSL_TYPE_DOMAIN, d, 0, 0, np, s.small(4), false));
    x.scat = {mapping(s, prec, OSL_TYPE_SCATTERING, 2 * d + 1, d, np)};
    for (int i = s.small(3); i > 0; i--) {
      MRel r = mapping(s, prec, s.flip() ? OSL_TYPE_READ : OSL_TYPE_WRITE, 1 + s.small(3), d, np);
      for (int j = 1; j < r.cols - 1; j++) r.m[0][j] = j == 1 ? -1 : 0;
      r.m[0][r.cols - 1] = 1 + s.below(9);
      x.acc.push_back({r});
    }
    T b = T::list("body"), its = T::list("iterators"), e = T::list("expression");
    for (int i = 0; i < d; i++) its.c.push_back(T::str("", gen_ident(s)));
    e.c.push_back(T::str("", gen_line(s)));
    b.c = {its, e};
    x.ext.push_back(b);
    m.stmts.push_back(x);
  }
  if (s.flip()) {
    GExt g;
    g.readable = true;
    T t = gen_ext(s, "arrays", g);
    m.ext.push_back(t);
  }
  m.registry = DEFAULT_REGISTRY;
  Task k;
  k.start = [=] {
    osl_scop_t* x = build(MScops{m});
    Live l;
    l.ops = {
        out([=](FILE* f, int, int) { osl_scop_print_scoplib(f, x); }),
        [=](int, int) { return num(osl_scop_check_compatible_scoplib(x)); },
        out([=](FILE* f, int a, int) {
          osl_names_t* n = a & 1 ? names(a) : nullptr;
          osl_statement_pprint_scoplib(f, x->statement, n);
          osl_names_free(n);
        }),
        [=](int a, int) { return take(osl_relation_spprint_scoplib(x->statement->domain, nullptr, a & 1, 0)); },
        out([=](FILE* f, int, int) { osl_scop_print(f, x); }),
        out([=](FILE* f, int a, int) { osl_scop_idump(f, x, a); }),
    };
    l.done = [=] { osl_scop_free(x); };
    return l;
  };
  return k;
}
static Task edit_task(Src& s, int prec) {  // extension contents, lists, matrices
  GExt g;
  g.prec = prec;
  std::map<S, T> m;
  for (const char* u : {"arrays", "extbody", "irregular", "dependence", "symbols", "loop", "region", "annotation", "pluto_unroll"}) m[u] = gen_ext(s, u, g);
  int np = s.small(2), d = s.small(3);
  std::vector<MUnion> la, lb;
  for (int i = s.small(3); i > 0; i--) la.push_back({gen_access(s, prec, OSL_TYPE_READ + s.below(2), 1 + s.small(5), s.small(2), d, 0, np, false)});
  for (int i = s.small(3); i > 0; i--) lb.push_back({gen_access(s, prec, OSL_TYPE_WRITE, 1 + s.small(5), s.small(2), d, 0, np, false)});
  MRel r1 = gen_rel(s, prec, OSL_TYPE_DOMAIN, d, 0, 0, np, 1 + s.small(3), false), r2 = gen_rel(s, prec, OSL_TYPE_DOMAIN, d, 0, 0, np, s.small(3), false);
  V ids;
  for (int i = 0; i < 4; i++) ids.push_back(gen_ident(s));
  S line = gen_line(s);
  S nl = "  # c\n" + line + "\n" + ids[0] + " # d\n<" + ids[1] + ">x</" + ids[1] + "> end\n";
  Task k;
  k.start = [=] {
    struct St {
      osl_relation_list_t *a, *b;
      osl_relation_t *r, *q;
      osl_vector_t* v;
      std::map<S, void*> x;
      osl_dependence_t *first = nullptr, *last = nullptr;
    };
    auto st = std::make_shared<St>();
    st->a = build_list(la);
    st->b = build_list(lb);
    st->r = build(MUnion{r1});
    st->q = build(MUnion{r2});
    st->v = osl_vector_pmalloc(prec, r1.cols);
    for (int i = 0; i < r1.cols; i++) osl_int_set_si(prec, &st->v->v[i], i * 3 % 5);
    for (auto& e : m) st->x[e.first] = build_data(e.second);
    auto rel = [](osl_relation_t* r) {
      S t = show(snap(r));
      osl_relation_free(r);
      return t;
    };
    auto list = [](osl_relation_list_t* l) {
      S t;
      for (auto& u : snap_list(l)) t += show(u);
      osl_relation_list_free(l);
      return t;
    };
    auto ext = [](const S& u, void* x) {
      S t = show(snap_data(u, x));
      osl_interface_t* it = ext_interface(u);
      it->free(x);
      osl_interface_free(it);
      return t;
    };
    auto words = [=](int n) {
      std::vector<char*> w;
      for (int i = 0; i < n; i++) w.push_back((char*)ids[i % 4].c_str());
      return w;
    };
    Live l;
    l.ops = {
        [=](int, int) { return list(osl_relation_list_clone(st->a)); },
        [=](int, int) { return list(osl_relation_list_concat(st->a, st->b)); },
        [=](int a, int) { return list(osl_relation_list_filter(st->a, a & 1 ? OSL_TYPE_READ : OSL_TYPE_ACCESS)); },
        [=](int, int) { return list(osl_relation_list_node(st->r)); },
        [=](int, int) {
          osl_relation_list_t* q = osl_relation_list_clone(st->a);
          osl_relation_list_push(&q, osl_relation_list_node(st->r));
          osl_relation_list_dup(&q);
          return list(q);
        },
        out([=](FILE* f, int a, int) { osl_relation_list_idump(f, st->a, a); }),
        out([=](FILE* f, int, int) { osl_relation_list_print(f, st->a); }),
        [=](int, int) { return num(osl_relation_list_equal(st->a, st->b)) + num(osl_relation_list_count(st->a)); },
        [=](int, int) { return rel(osl_relation_concat_constraints(st->r, st->q)); },
        [=](int, int) { return rel(osl_relation_concat_vector(st->r, st->v)); },
        [=](int, int) { return rel(osl_relation_from_vector(st->v)); },
        [=](int a, int) { return rel(osl_relation_clone_nconstraints(st->r, a % (st->r->nb_rows + 1))); },
        [=](int, int) { return rel(osl_relation_nclone(st->r, 1)); },
        [=](int a, int) {
          osl_relation_t* q = osl_relation_clone(st->r);
          osl_relation_insert_blank_column(q, 1 + a % q->nb_columns);
          return rel(q);
        },
        [=](int a, int) {
          osl_relation_t* q = osl_relation_clone(st->r);
          osl_relation_insert_columns(q, q->nb_rows == st->q->nb_rows ? st->q : st->r, 1 + a % q->nb_columns);
          return rel(q);
        },
        [=](int a, int) {
          osl_relation_t* q = osl_relation_clone(st->r);
          osl_relation_remove_column(q, a % q->nb_columns);
          return rel(q);
        },
        [=](int a, int) {
          osl_relation_t* q = osl_relation_clone(st->r);
          osl_relation_insert_constraints(q, st->q, a % (q->nb_rows + 1));
          return rel(q);
        },
        [=](int, int) { return take(osl_relation_spprint_polylib_scoplib(st->r, nullptr, 0, 0)); },
        [=](int a, int) {
          osl_int_t* i = osl_int_malloc(prec);
          osl_int_set_si(prec, i, a - 3);
          osl_int_t j;
          osl_int_init_set(prec, &j, *i);
          osl_int_t h;
          osl_int_init_set_si(prec, &h, a);
          S t = getZ(prec, *i).get_str() + " " + getZ(prec, j).get_str() + " " + getZ(prec, h).get_str();
          osl_int_clear(prec, &j);
          osl_int_clear(prec, &h);
          osl_int_free(prec, i);
          return t;
        },
        [=](int a, int) {
          osl_int_t j;
          osl_int_init_set_long(prec, &j, a - 3);
          osl_int_set_precision(prec, a % 2 ? OSL_PRECISION_DP : OSL_PRECISION_MP, &j);
          S t = getZ(a % 2 ? OSL_PRECISION_DP : OSL_PRECISION_MP, j).get_str();
          osl_int_clear(a % 2 ? OSL_PRECISION_DP : OSL_PRECISION_MP, &j);
          return t;
        },
        [=](int, int) {
          FILE* f = file_of(nl);
          S t = take(osl_util_read_line(f, nullptr)) + "|" + take(osl_util_read_string(f, nullptr)) + "|" + take(osl_util_read_tag(f, nullptr));
          fclose(f);
          return t;
        },
        [=](int, int) {
          S c = nl;
          char* p = &c[0];
          S t = take(osl_util_read_line(nullptr, &p)) + "|" + take(osl_util_read_string(nullptr, &p)) + "|" + take(osl_util_read_tag(nullptr, &p));
          return t + p;
        },
        [=](int a, int) {
          S c = nl, e = "</" + ids[1] + ">";
          char* p = &c[0];
          if (a & 1) return take(osl_util_read_uptoflag(nullptr, &p, "end")) + p;
          FILE* f = file_of(nl);
          S t = take(osl_util_read_uptoflag(f, nullptr, "end"));
          fclose(f);
          return t;
        },
        [=](int, int) {
          osl_strings_t *x = osl_strings_encapsulate(osl_util_strdup(ids[0].c_str())), *y = osl_strings_generate("k", 3), *z = nullptr;
          if (!x) return S("none");
          osl_strings_add_strings(&z, x, y);
          osl_strings_t* w = osl_strings_clone(z);
          S t = take(osl_strings_sprint(w)) + num(osl_strings_equal(w, z));
          for (osl_strings_t* q : {x, y, z, w}) osl_strings_free(q);
          return t;
        },
        [=](int a, int c) {
          osl_arrays_t* q = osl_arrays_clone((osl_arrays_t*)st->x.at("arrays"));
          int r = osl_arrays_add(q, 1 + a, ids[c % 4].c_str());
          osl_strings_t* w = osl_arrays_to_strings(q);
          S t = num(r) + take(osl_strings_sprint(w));
          osl_strings_free(w);
          return t + ext("arrays", q);
        },
        [=](int a, int c) {
          osl_extbody_t* q = osl_extbody_clone((osl_extbody_t*)st->x.at("extbody"));
          osl_extbody_add(q, a, c);
          return ext("extbody", q);
        },
        [=](int a, int) {
          auto w = words(a);
          return ext("irregular", osl_irregular_add_control((osl_irregular_t*)st->x.at("irregular"), w.data(), a, line.c_str()));
        },
        [=](int a, int) {
          auto w = words(a);
          return ext("irregular", osl_irregular_add_exit((osl_irregular_t*)st->x.at("irregular"), w.data(), a, line.c_str()));
        },
        [=](int a, int) {
          std::vector<int> w(a + 1, 0);
          return ext("irregular", osl_irregular_add_predicates((osl_irregular_t*)st->x.at("irregular"), w.data(), a));
        },
        [=](int a, int) { return ext("symbols", osl_symbols_nclone((osl_symbols_t*)st->x.at("symbols"), a)); },
        [=](int, int) { return ext("loop", osl_loop_clone_one((osl_loop_t*)st->x.at("loop"))); },
        [=](int, int) { return ext("region", osl_region_clone_one((osl_region_t*)st->x.at("region"))); },
        [=](int a, int) {
          osl_pluto_unroll_t* q = osl_pluto_unroll_malloc();
          osl_pluto_unroll_fill(q, ids[a % 4].c_str(), a & 1, a);
          return ext("pluto_unroll", q);
        },
    };
    l.muts = {
        [=](int a, int) {
          osl_region_append_suffix((osl_region_t*)st->x.at("region"), a, osl_util_strdup(line.c_str()));
          return show(snap_data("region", st->x.at("region")));
        },
        [=](int a, int) {
          osl_annotation_append_prefix((osl_annotation_t*)st->x.at("annotation"), a, osl_util_strdup(line.c_str()));
          return show(snap_data("annotation", st->x.at("annotation")));
        },
        [=](int, int) {
          osl_dependence_add(&st->first, &st->last, osl_dependence_clone((osl_dependence_t*)st->x.at("dependence")));
          return num(osl_nb_dependences(st->first));
        },
        [=](int a, int) {
          osl_relation_insert_blank_row(st->q, a % (st->q->nb_rows + 1));
          return show(snap(st->q));
        },
    };
    l.done = [=] {
      osl_relation_list_free(st->a);
      osl_relation_list_free(st->b);
      osl_relation_free(st->r);
      osl_relation_free(st->q);
      osl_vector_free(st->v);
      for (auto& e : st->x) ext(e.first, e.second);
      osl_dependence_free(st->first);
    };
    return l;
  };
  return k;
}
// ---- running
static Task gen_task(Src& s, int prec, int maxsteps) {
  int w = s.below(7);
  Task k = w == 0   ? tool_task(s, prec)
           : w == 1 ? relation_task(s, prec)
           : w == 2 ? extension_task(s, prec)
           : w == 3 ? scop_task(s, prec)
           : w == 4 ? generics_task(s, prec)
           : w == 5 ? export_task(s, prec)
                    : edit_task(s, prec);
  k.kind = V{"tool", "relation", "extension", "scop", "generics", "export", "edits"}[w];
  k.prec = prec;
  for (int n = 1 + s.below(maxsteps); n > 0; n--) k.script.push_back({(int)s.below(64), (int)s.below(8), (int)s.below(8)});
  return k;
}
struct Run {  // a task that is running
  const Task* t;
  Live l;
  size_t at = 0;
  bool over = false;
  V seen;
  Run(const Task& t_) : t(&t_), l(t_.start()) {}
  bool step() {
    if (at < t->script.size() && !over) {
      auto& x = t->script[at++];
      try {
        size_t o = x.op % (l.ops.size() + l.muts.size());
        seen.push_back((o < l.ops.size() ? l.ops[o] : l.muts[o - l.ops.size()])(x.a, x.b));
      } catch (OslExit&) {
        seen.push_back("(error exit)");
        over = true;  // its objects are given up
      }
    } else if (at == t->script.size() && !over) {
      over = true;
      l.done();
    }
    return !over;
  }
};
#ifndef P30_PARTS_ONLY
static void compare(const Task& t, const V& ref, const V& got, const S& how) {
  for (size_t i = 0; i < ref.size() || i < got.size(); i++) {
    S a = i < ref.size() ? ref[i] : "(no such call)", b = i < got.size() ? got[i] : "(no such call)";
    CHECK(a == b, "influence", "call " << i << " of a task (" << t.kind << ", call " << t.script[std::min(i, t.script.size() - 1)].op
                                       << ") gives, alone,\n" << a << "\nand " << how << "\n" << b);
  }
}
static V alone(const Task& t) {
  set_env(t.prec);
  Run r(t);
  while (r.step()) {
  }
  return r.seen;
}
static void render(Case& c, const std::vector<Task>& ts) {
  for (auto& t : ts) {
    label(t.kind);
    if (!c.rendering) continue;
    c.log << "task " << t.kind << ", " << precname(t.prec) << ":";
    for (auto& x : t.script) c.log << " " << x.op << "(" << x.a << "," << x.b << ")";
    c.log << "\n";
  }
}
static std::vector<Task> gen_tasks(Src& s) {
  std::vector<Task> ts;
  int n = 2 + s.small(2);
  bool same = s.flip();
  int prec = ALLPREC[s.below(3)];
  for (int i = 0; i < n; i++)
    if (i && s.pct(25))
      ts.push_back(ts[0]);
    else
      ts.push_back(gen_task(s, same ? prec : ALLPREC[s.below(3)], 10));
  return ts;
}
// The transcript of one of the tasks, in a process where nothing happened before.
static S fresh(Src& s, int i) {
  S r;
  for (auto& x : alone(gen_tasks(s)[i])) r += x + '\0';
  return r;
}
static void interleaved(Case& c) {
  Src& s = c.s;
  std::vector<Task> ts = gen_tasks(s);
  int n = ts.size(), total = 0;
  for (auto& t : ts) total += t.script.size();
  render(c, ts);
  int chosen = s.below(n);
  S r0;
  bool ok = pristine(fresh, chosen, r0);
  CHECK(ok, "crash", "a task crashes");
  V first;
  for (size_t i = 0; i < r0.size();) {
    size_t j = r0.find('\0', i);
    first.push_back(r0.substr(i, j - i));
    i = j + 1;
  }
  std::vector<std::unique_ptr<Run>> r(n);
  std::vector<int> alive;
  for (int i = 0; i < n; i++) alive.push_back(i);
  int switches = 0, last = -1;
  while (!alive.empty()) {
    int k = s.below(alive.size()), i = alive[k];
    if (last >= 0 && i != last) switches++;
    last = i;
    set_env(ts[i].prec);
    if (!r[i])
      r[i].reset(new Run(ts[i]));
    else if (!r[i]->step())
      alive.erase(alive.begin() + k);
  }
  c.nontrivial = switches > n && total > n;
  compare(ts[chosen], first, r[chosen]->seen, "after many other calls, between the calls of other tasks");
  for (int i = 0; i < n; i++) compare(ts[i], alone(ts[i]), r[i]->seen, "between the calls of other tasks");
}
static void threads_(Case& c) {
  Src& s = c.s;
  std::vector<Task> ts;
  int n = 2 + s.small(2), total = 0;
  int prec = ALLPREC[s.below(3)];
  for (int i = 0; i < n; i++) {
    if (i && s.pct(25))
      ts.push_back(ts[0]);
    else
      ts.push_back(gen_task(s, prec, 12));
    total += ts.back().script.size();
  }
  render(c, ts);
  bool after = s.flip();
  std::vector<V> ref(n), got(n);
  if (!after)
    for (int i = 0; i < n; i++) ref[i] = alone(ts[i]);
  set_env(prec);
  std::vector<std::exception_ptr> ex(n);
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++)
    th.emplace_back([&, i] {
      raw_alloc = true;
      try {
        Run r(ts[i]);
        while (r.step()) {
        }
        got[i] = r.seen;
      } catch (...) {
        ex[i] = std::current_exception();
      }
    });
  for (auto& t : th) t.join();
  for (auto& e : ex)
    if (e) std::rethrow_exception(e);
  if (after)
    for (int i = 0; i < n; i++) ref[i] = alone(ts[i]);
  c.nontrivial = total > n;
  for (int i = 0; i < n; i++) compare(ts[i], ref[i], got[i], "at the same time as other threads");
}
// Several threads that only look at the same objects.
static void shared_(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  Task t = gen_task(s, prec, 1);
  int n = 2 + s.small(2), total = 0;
  std::vector<std::vector<Task::Step>> script(n);
  for (auto& v : script)
    for (int k = 1 + s.below(10); k > 0; k--, total++) v.push_back({(int)s.below(64), (int)s.below(8), (int)s.below(8)});
  label(t.kind);
  if (c.rendering) {
    c.log << "objects of a " << t.kind << " task, " << precname(t.prec) << "\n";
    for (auto& v : script) {
      c.log << "thread:";
      for (auto& x : v) c.log << " " << x.op << "(" << x.a << "," << x.b << ")";
      c.log << "\n";
    }
  }
  set_env(prec);
  Live l = t.start();
  auto play = [&](const std::vector<Task::Step>& v) {
    V seen;
    for (auto& x : v) try {
        seen.push_back(l.ops[x.op % l.ops.size()](x.a, x.b));
      } catch (OslExit&) {
        seen.push_back("(error exit)");
      }
    return seen;
  };
  bool after = s.flip();
  std::vector<V> ref(n), got(n);
  if (!after)
    for (int i = 0; i < n; i++) ref[i] = play(script[i]);
  std::vector<std::exception_ptr> ex(n);
  std::vector<std::thread> th;
  for (int i = 0; i < n; i++)
    th.emplace_back([&, i] {
      raw_alloc = true;
      try {
        got[i] = play(script[i]);
      } catch (...) {
        ex[i] = std::current_exception();
      }
    });
  for (auto& q : th) q.join();
  for (auto& e : ex)
    if (e) std::rethrow_exception(e);
  if (after)
    for (int i = 0; i < n; i++) ref[i] = play(script[i]);
  l.done();
  c.nontrivial = total > n;
  for (int i = 0; i < n; i++) {
    t.script = script[i];
    compare(t, ref[i], got[i], "while other threads look at the same objects");
  }
}
struct Raw {
  Raw() { raw_alloc = true; }
  ~Raw() { raw_alloc = false; }
};
static void threads(Case& c) {
  Raw raw;
  threads_(c);
}
static void shared(Case& c) {
  Raw raw;
  shared_(c);
}
static void init() {
  // the harness's own lazily built tables
  int_ops();
}
Property pbt::property = {"P30",
                          "several tasks of more than one call, with switches between the tasks (or in threads)",
                          {{"interleaved", interleaved, 12000, 500000, false}, {"threads", threads, 6000, 150000, false},
                           {"shared", shared, 6000, 150000, false}},
                          init,
                          pristine_start};
#endif
