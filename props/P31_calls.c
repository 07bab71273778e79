/* P31: the same calls, compiled once with and once without OSL_GMP_IS_HERE (CALLS is the name).
 * What they give is written to `o`. */
#include <osl/osl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <osl/extensions/dependence.h>
#include <osl/extensions/loop.h>

static void text(FILE* o, char* s) {
  fprintf(o, "%s\n", s ? s : "(nothing)");
  free(s);
}
static void rel(FILE* o, const osl_relation_t* r) {
  const osl_relation_t* p;
  for (p = r; p; p = p->next) {
    int i, j;
    fprintf(o, "{%d %d %dx%d %d %d %d %d:", p->type, p->precision, p->nb_rows, p->nb_columns, p->nb_output_dims,
            p->nb_input_dims, p->nb_local_dims, p->nb_parameters);
    for (i = 0; i < p->nb_rows; i++)
      for (j = 0; j < p->nb_columns; j++) {
        fprintf(o, " ");
        osl_int_print(o, p->precision, p->m[i][j]);
      }
    fprintf(o, "}\n");
  }
}
static void vec(FILE* o, const osl_vector_t* v) {
  int i;
  fprintf(o, "[%d %d:", v->precision, v->size);
  for (i = 0; i < v->size; i++) {
    fprintf(o, " ");
    osl_int_print(o, v->precision, v->v[i]);
  }
  fprintf(o, "]\n");
}
static int printable(const osl_relation_t* r) {
  int id;
  for (; r; r = r->next)
    if (r->nb_output_dims < 0 || r->nb_input_dims < 0 || r->nb_local_dims < 0 || r->nb_parameters < 0 ||
        r->nb_columns != r->nb_output_dims + r->nb_input_dims + r->nb_local_dims + r->nb_parameters + 2)
      return 0;
    else if (osl_relation_is_access(r)) {
      osl_relation_t* one = osl_relation_nclone(r, 1);
      id = osl_relation_get_array_id(one);
      osl_relation_free(one);
      if (id > 1000) return 0;
    }
  return 1;
}
static void ints(FILE* o, int prec, const char* x, const char* y, int op, int i) {
  osl_int_t a, b, r, q;
  char *p, buf[200];
  osl_int_init(prec, &a);
  osl_int_init(prec, &b);
  osl_int_init(prec, &r);
  osl_int_init(prec, &q);
  p = (char*)x;
  osl_int_sread(&p, prec, &a);
  p = (char*)y;
  osl_int_sread(&p, prec, &b);
  switch (op) {
#define B(n, f) case n: f(prec, &r, a, b); break;
    B(0, osl_int_add) B(1, osl_int_sub) B(2, osl_int_mul)
    B(3, osl_int_gcd) B(4, osl_int_lcm)
    case 5: osl_int_add_si(prec, &r, a, i); break;
    case 6: osl_int_mul_si(prec, &r, a, i); break;
    case 7: osl_int_increment(prec, &r, a); break;
    case 8: osl_int_decrement(prec, &r, a); break;
    case 9: osl_int_oppose(prec, &r, a); break;
    case 10: osl_int_abs(prec, &r, a); break;
    case 11: osl_int_assign(prec, &r, a); break;
    case 12: osl_int_set_si(prec, &r, i); break;
    case 13: osl_int_swap(prec, &a, &b); break;
    case 14: fprintf(o, "%d\n", osl_int_get_si(prec, a)); break;
    case 15: fprintf(o, "%.17g\n", osl_int_get_d(prec, a)); break;
    case 16:
      fprintf(o, "%d%d%d%d%d%d", osl_int_eq(prec, a, b), osl_int_ne(prec, a, b), osl_int_lt(prec, a, b), osl_int_le(prec, a, b),
              osl_int_gt(prec, a, b), osl_int_ge(prec, a, b));
      fprintf(o, "%d%d%d%d%d\n", osl_int_pos(prec, a), osl_int_neg(prec, a), osl_int_zero(prec, a), osl_int_one(prec, a),
              osl_int_mone(prec, a));
      break;
    case 17: fprintf(o, "%d %d\n", (int)osl_int_size_in_base_2(prec, a), (int)osl_int_size_in_base_10(prec, a)); break;
    case 18:
      if (!osl_int_zero(prec, b)) fprintf(o, "%d\n", osl_int_divisible(prec, a, b) != 0);
      break;
    case 19:
      if (!osl_int_zero(prec, b) && !osl_int_mone(prec, b)) {
        osl_int_floor_div_q(prec, &r, a, b);
        osl_int_floor_div_r(prec, &q, a, b);
        osl_int_print(o, prec, q);
        osl_int_floor_div_q_r(prec, &r, &q, a, b);
      }
      break;
    case 20:
      if (!osl_int_zero(prec, b) && !osl_int_mone(prec, b)) osl_int_mod(prec, &r, a, b);
      break;
    case 21: osl_int_set_long(prec, &r, (long)i * 3000000000L); break;
    case 22: osl_int_set_long_long(prec, &r, (long long)i * 3000000000LL); break;
    case 23: fprintf(o, "%ld %lld\n", osl_int_get_long(prec, a), osl_int_get_long_long(prec, a)); break;
    case 24: fprintf(o, "%d\n", osl_int_sscanf(x, prec, &r)); break;
    case 25: {
      osl_int_t* m = osl_int_malloc(prec);
      osl_int_assign(prec, m, b);
      osl_int_print(o, prec, *m);
      osl_int_free(prec, m);
      break;
    }
    case 26: osl_int_clear(prec, &r); osl_int_init_set(prec, &r, a); break;
    case 27: osl_int_clear(prec, &r); osl_int_init_set_si(prec, &r, i); break;
    case 28: osl_int_clear(prec, &r); osl_int_init_set_long(prec, &r, (long)i * 7000000000L); break;
    case 29: osl_int_clear(prec, &r); osl_int_init_set_long_long(prec, &r, (long long)i * 7000000000LL); break;
    case 30:
      if (!osl_int_zero(prec, b) && !osl_int_mone(prec, b) && osl_int_divisible(prec, a, b)) osl_int_div_exact(prec, &r, a, b);
      break;
    default: osl_int_set_precision(prec, prec == OSL_PRECISION_SP ? OSL_PRECISION_DP : OSL_PRECISION_SP, &a);
      osl_int_set_precision(prec == OSL_PRECISION_SP ? OSL_PRECISION_DP : OSL_PRECISION_SP, prec, &a);
  }
  osl_int_print(o, prec, r);
  fprintf(o, " ");
  osl_int_sprint(buf, prec, a);
  fprintf(o, "%s ", buf);
  osl_int_sprint_txt(buf, prec, q);
  fprintf(o, "%s ", buf);
  osl_int_dump_precision(o, prec);
  osl_int_clear(prec, &a);
  osl_int_clear(prec, &b);
  osl_int_clear(prec, &r);
  osl_int_clear(prec, &q);
}
static void relations(FILE* o, int prec, const char* x, const char* y, int op, int i) {
  char *p = (char*)x, *q = (char*)y, **names;
  osl_relation_t *a = osl_relation_psread(&p, prec), *b = osl_relation_psread(&q, prec), *c = NULL;
  osl_vector_t *v, *w;
  int k, other = prec == OSL_PRECISION_SP ? OSL_PRECISION_DP : OSL_PRECISION_SP;
  rel(o, a);
  fprintf(o, "left %d\n", (int)strlen(p));
  if (a && b) switch (op) {
      case 0: if (printable(a)) osl_relation_print(o, a); break;
      case 1: osl_relation_dump(o, a); break;
      case 2: if (printable(a)) text(o, osl_relation_sprint(a)); break;
      case 3: c = osl_relation_union(a, b); break;
      case 4: if (a->nb_columns == b->nb_columns) c = osl_relation_concat_constraints(a, b); break;
      case 5: fprintf(o, "%d\n", osl_relation_equal(a, b)); break;
      case 6: if (printable(a)) c = osl_relation_extend_output(a, i + (a->nb_output_dims > 0 ? a->nb_output_dims : 0)); break;
      case 7: osl_relation_insert_blank_row(a, 0); break;
      case 8: osl_relation_set_precision(other, a); rel(o, a); osl_relation_set_precision(prec, a); break;
      case 9: osl_relation_set_precision(other, b); osl_relation_set_same_precision(a, b); rel(o, b); break;
      case 10: if (a->nb_rows && a->nb_columns) osl_relation_remove_row(a, 0); break;
      case 11: osl_relation_insert_blank_column(a, 1); break;
      case 12: fprintf(o, "%d %d\n", osl_relation_get_array_id(a), osl_relation_integrity_check(a, -1, -1, -1, -1)); break;
      case 13: c = osl_relation_clone(a); break;
      case 14:
        if (a->nb_rows && a->nb_columns > 0 && printable(a)) {
          names = (char**)calloc(a->nb_columns + 1, sizeof(char*));
          for (k = 0; k < a->nb_columns; k++) names[k] = (char*)"v";
          text(o, osl_relation_expression(a, 0, names));
          free(names);
        }
        break;
      default:
        if (a->nb_columns < 2) break;
        v = osl_vector_pmalloc(prec, a->nb_columns);
        for (k = 0; k < v->size; k++) osl_int_set_si(prec, &v->v[k], k * i - 3);
        w = osl_vector_add(v, v);
        vec(o, w);
        osl_vector_free(w);
        w = osl_vector_mul_scalar(v, i - 4);
        vec(o, w);
        osl_vector_free(w);
        osl_vector_tag_inequality(v);
        osl_relation_insert_vector(a, v, 0);
        osl_vector_dump(o, v);
        osl_relation_sub_vector(a, v, 0);
        osl_vector_free(v);
    }
  rel(o, a);
  rel(o, c);
  osl_relation_free(a);
  osl_relation_free(b);
  osl_relation_free(c);
}
static void scops(FILE* o, int prec, const char* x, int op, int i) {
  FILE* f = tmpfile();
  osl_scop_t *s, *c = NULL;
  osl_statement_t* st;
  int a[5] = {-1, -1, -1, -1, -1}, ok = 1;
  fputs(x, f);
  rewind(f);
  if (prec == OSL_UNDEFINED) {
    s = osl_scop_read(f); /* with the precision of the environment */
  } else {
    osl_interface_t* reg = osl_interface_get_default_registry();
    s = osl_scop_pread(f, reg, prec);
    osl_interface_free(reg);
  }
  fclose(f);
  if (!s) {
    fprintf(o, "nothing\n");
    return;
  }
  osl_scop_dump(o, s);
  osl_scop_get_attributes(s, a, a + 1, a + 2, a + 3, a + 4);
  fprintf(o, "%d %d %d %d %d\n", a[0], a[1], a[2], a[3], a[4]);
  if (a[4] > 1000) ok = 0;
  for (c = s; c; c = c->next) {
    if (!printable(c->context)) ok = 0;
    for (st = c->statement; st; st = st->next) {
      osl_relation_list_t* l;
      if (!printable(st->domain) || !printable(st->scattering)) ok = 0;
      for (l = st->access; l; l = l->next)
        if (!printable(l->elt)) ok = 0;
    }
  }
  c = NULL;
  switch (op) {
    case 0: if (ok) osl_scop_print(o, s); break;
    case 1: fprintf(o, "%d\n", osl_scop_integrity_check(s)); break;
    case 2: c = osl_scop_clone(s); fprintf(o, "%d\n", osl_scop_equal(c, s)); break;
    case 3: if (ok) c = osl_scop_remove_unions(s); break;
    case 4: if (ok) osl_scop_normalize_scattering(s); break;
    case 5: fprintf(o, "%d\n", osl_scop_check_compatible_scoplib(s)); break;
    case 6: if (osl_scop_check_compatible_scoplib(s)) osl_scop_print_scoplib(o, s); break;
    default: c = osl_scop_clone(s); osl_scop_add(&c, osl_scop_clone(s));
  }
  osl_scop_dump(o, s);
  if (c) osl_scop_dump(o, c);
  osl_scop_free(s);
  osl_scop_free(c);
}
static void extensions(FILE* o, const char* x, int op) {
  char* p = (char*)x;
  osl_interface_t* reg = osl_interface_get_default_registry();
  osl_generic_t *g = osl_generic_sread(&p, reg), *c = NULL;
  osl_generic_dump(o, g);
  if (op == 0) text(o, osl_generic_sprint(g));
  if (op == 1) osl_generic_print(o, g);
  if (op == 2) {
    c = osl_generic_clone(g);
    fprintf(o, "%d\n", osl_generic_equal(g, c));
  }
  if (c) osl_generic_dump(o, c);
  osl_generic_free(c);
  osl_generic_free(g);
  osl_interface_free(reg);
}
/* which precisions there are, and what is asked for and not there */
static void precisions(FILE* o, int prec, const char* x, int op, int i) {
  osl_int_t a;
  osl_relation_t* r = NULL;
  osl_vector_t* v = NULL;
  char* p = (char*)x;
  switch (op) {
    case 0: fprintf(o, "%d\n", osl_int_is_precision_supported(prec)); break;
    case 1: fprintf(o, "%d\n", osl_util_get_precision()); break;
    case 2: osl_int_dump_precision(o, prec); break;
    case 3: osl_int_init(prec, &a); osl_int_clear(prec, &a); break;
    case 4: r = osl_relation_pmalloc(prec, 1 + i, 2 + i); break;
    case 5: v = osl_vector_pmalloc(prec, 1 + i); break;
    case 6: r = osl_relation_psread(&p, prec); break;
    case 7: r = osl_relation_malloc(1, 2); fprintf(o, "%d\n", r->precision); break;
    case 8: v = osl_vector_malloc(1); fprintf(o, "%d\n", v->precision); break;
    case 9: osl_int_init_set_si(prec, &a, i); osl_int_clear(prec, &a); break;
    case 10: r = osl_relation_sread(&p); if (r) fprintf(o, "%d\n", r->precision); break;
    default: osl_int_free(prec, osl_int_malloc(prec));
  }
  osl_relation_free(r);
  osl_vector_free(v);
}
void CALLS(FILE* o, int kind, int prec, const char* x, const char* y, int op, int i) {
  if (kind == 0) ints(o, prec, x, y, op, i);
  if (kind == 1) relations(o, prec, x, y, op, i);
  if (kind == 2) scops(o, prec, x, op, i);
  if (kind == 3) extensions(o, x, op);
  if (kind == 4) precisions(o, prec, x, op, i);
}
