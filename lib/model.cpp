#include "model.h"

using namespace pbt;
using std::string;
using std::vector;

// ------------------------------------------------------------------ relations
string show(const MRel& r) {
  std::ostringstream o;
  o << "relation type " << r.type << " " << precname(r.prec) << " " << r.rows << "x" << r.cols << " out " << r.out
    << " in " << r.in << " local " << r.local << " params " << r.params << "\n";
  for (auto& row : r.m) {
    o << "   ";
    for (auto& z : row) o << " " << z;
    o << "\n";
  }
  return o.str();
}
string show(const MUnion& u) {
  string s;
  for (auto& r : u) s += show(r);
  return u.empty() ? "(no relation)\n" : s;
}
MRel blank(int prec, int rows, int cols) {
  MRel r;
  r.prec = prec;
  r.rows = rows;
  r.cols = cols;
  r.m.assign(rows, vector<Z>(cols));
  return r;
}
osl_relation_t* build(const MRel& r) {
  osl_relation_t* o = osl_relation_pmalloc(r.prec, r.rows, r.cols);
  o->type = r.type;
  o->nb_output_dims = r.out;
  o->nb_input_dims = r.in;
  o->nb_local_dims = r.local;
  o->nb_parameters = r.params;
  o->next = nullptr;
  for (int i = 0; i < r.rows; i++)
    for (int j = 0; j < r.cols; j++) putZ(r.prec, &o->m[i][j], r.m[i][j]);
  return o;
}
osl_relation_t* build(const MUnion& u) {
  osl_relation_t *first = nullptr, **p = &first;
  for (auto& r : u) {
    *p = build(r);
    p = &(*p)->next;
  }
  return first;
}
MRel snap1(const osl_relation_t* o) {
  MRel r;
  r.type = o->type;
  r.prec = o->precision;
  r.rows = o->nb_rows;
  r.cols = o->nb_columns;
  r.out = o->nb_output_dims;
  r.in = o->nb_input_dims;
  r.local = o->nb_local_dims;
  r.params = o->nb_parameters;
  if (r.prec != OSL_PRECISION_SP && r.prec != OSL_PRECISION_DP && r.prec != OSL_PRECISION_MP)
    fail("precision", "a relation has the unknown precision " + std::to_string(r.prec));
  if (r.rows < 0 || r.cols < 0) fail("negative-size", "a relation has " + std::to_string(r.rows) + " rows and " + std::to_string(r.cols) + " columns");
  if ((long)r.rows * r.cols > 300000 || r.rows > 100000 || r.cols > 100000)
    fail("size", "a relation has size " + std::to_string(r.rows) + "x" + std::to_string(r.cols));
  r.m.assign(r.rows, vector<Z>(r.cols));
  for (int i = 0; i < r.rows; i++)
    for (int j = 0; j < r.cols; j++) r.m[i][j] = getZ(r.prec, o->m[i][j]);
  return r;
}
MUnion snap(const osl_relation_t* o) {
  MUnion u;
  for (; o; o = o->next) {
    u.push_back(snap1(o));
    if (u.size() > 100000) fail("cycle", "a relation union does not end");
  }
  return u;
}
string diff(const MRel& a, const MRel& b) {
  std::ostringstream o;
#define D_(f) \
  if (a.f != b.f) o << #f << " is " << a.f << ", not " << b.f << "; "
  D_(type);
  D_(prec);
  D_(rows);
  D_(cols);
  D_(out);
  D_(in);
  D_(local);
  D_(params);
  if (a.rows == b.rows && a.cols == b.cols)
    for (int i = 0; i < a.rows; i++)
      for (int j = 0; j < a.cols; j++)
        if (a.m[i][j] != b.m[i][j]) {
          o << "coefficient [" << i << "][" << j << "] is " << a.m[i][j] << ", not " << b.m[i][j] << "; ";
          return o.str();
        }
  return o.str();
}
string diff(const MUnion& a, const MUnion& b) {
  if (a.size() != b.size())
    return "union has " + std::to_string(a.size()) + " parts, not " + std::to_string(b.size());
  for (size_t i = 0; i < a.size(); i++) {
    string d = diff(a[i], b[i]);
    if (!d.empty()) return "part " + std::to_string(i) + ": " + d;
  }
  return "";
}
bool all_fit(int prec, const MUnion& u) {
  for (auto& r : u)
    for (auto& row : r.m)
      for (auto& z : row)
        if (!fits_prec(prec, z)) return false;
  return true;
}

Z gen_coef(Src& s, int prec, bool wide) {
  if (wide && s.pct(40)) return genZ(s, prec == OSL_PRECISION_MP);
  switch (s.below(4)) {
    case 0:
      return 0;
    case 1:
      return s.range(0, 2) - 1;
    case 2:
      return s.range(0, 20) - 10;
    default:
      return s.range(0, 4000) - 2000;
  }
}
static bool access_type(int t) {
  return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE;
}
static void tame_any(MRel& r) {
  if (r.cols < 3) return;
  for (auto& row : r.m) {
    bool plain = true;
    for (int j = 0; j < r.cols - 1; j++) plain = plain && (j == 1 || row[j] == 0);
    if (!plain) continue;
    row[1] %= 8;
    row[r.cols - 1] %= 8;
  }
}
void tame(MRel& r) {
  if (access_type(r.type)) tame_any(r);
}
void tame(MUnion& u) {
  bool access = false;
  for (auto& r : u) {
    access = access || access_type(r.type);
    if (access) tame_any(r);
  }
}
MRel gen_rel(Src& s, int prec, int type, int out, int in, int local, int params, int rows, bool wide) {
  MRel r = blank(prec, rows, out + in + local + params + 2);
  r.type = type;
  r.out = out;
  r.in = in;
  r.local = local;
  r.params = params;
  for (int i = 0; i < r.rows; i++) {
    r.m[i][0] = s.flip() ? 1 : 0;
    for (int j = 1; j < r.cols; j++) r.m[i][j] = gen_coef(s, prec, wide);
  }
  tame(r);
  return r;
}
MRel gen_any_rel(Src& s, int prec, const GRel& g) {
  static const int types[] = {OSL_UNDEFINED,       OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING,
                              OSL_TYPE_ACCESS, OSL_TYPE_READ,    OSL_TYPE_WRITE,  OSL_TYPE_MAY_WRITE};
  return gen_rel(s, prec, types[s.below(8)], s.sized(g.maxout, 20), s.sized(g.maxin, 20), s.sized(g.maxlocal, 12),
                 s.sized(g.maxparams, 20), s.sized(g.maxrows, 60), g.wide);
}
MUnion gen_any_union(Src& s, int prec, const GRel& g, int maxparts) {
  MUnion u;
  int n = 1 + s.sized(maxparts - 1, 15);
  for (int i = 0; i < n; i++) u.push_back(gen_any_rel(s, prec, g));
  tame(u);
  return u;
}
