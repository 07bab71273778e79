// P18: readable comments and expressions denote the constraints they annotate.
#include <algorithm>
#include <map>

#include "scop.h"
using namespace pbt;
typedef std::string S;
typedef std::vector<S> V;

static bool is_access(int t) {
  return t == OSL_TYPE_ACCESS || t == OSL_TYPE_READ || t == OSL_TYPE_WRITE || t == OSL_TYPE_MAY_WRITE;
}
struct Names {
  V params, iters, scatt, locals, arrays;
};
// ---- linear formulas
struct Lin {
  std::map<S, Z> k;
  Z c = 0;
  void put(const S& n, const Z& z) {
    k[n] += z;
    if (k[n] == 0) k.erase(n);
  }
  bool operator==(const Lin& o) const { return k == o.k && c == o.c; }
  Lin neg() const {
    Lin r;
    r.c = -c;
    for (auto& x : k) r.k[x.first] = -x.second;
    return r;
  }
  S text() const {
    S r;
    for (auto& x : k) r += x.second.get_str() + "*" + x.first + " + ";
    return r + c.get_str();
  }
};
static bool digits(const S& s) {
  if (s.empty()) return false;
  for (char ch : s)
    if (!isdigit((unsigned char)ch)) return false;
  return true;
}
// A sum of terms: number, name, number*name. `bound` gives values to names (for arrays).
static Lin formula(const S& t, const std::map<S, int>& arrays) {
  Lin r;
  size_t i = 0;
  CHECK(!t.empty(), "formula", "empty formula");
  bool first = true;
  while (i < t.size()) {
    Z sign = 1;
    if (t[i] == '-' || t[i] == '+') {
      if (t[i] == '-') sign = -1;
      i++;
    } else {
      CHECK(first, "formula", "not a formula: \"" << t << "\"");
    }
    first = false;
    size_t j = i;
    while (j < t.size() && t[j] != '+' && t[j] != '-') j++;
    S term = t.substr(i, j - i);
    i = j;
    size_t star = term.find('*');
    Z k = 1;
    if (star != S::npos) {
      CHECK(digits(term.substr(0, star)), "formula", "not a formula: \"" << t << "\"");
      k = Z(term.substr(0, star));
      term = term.substr(star + 1);
    }
    CHECK(!term.empty() && term.find_first_of(" =*<>#") == S::npos, "formula", "not a formula: \"" << t << "\"");
    if (digits(term)) {
      CHECK(star == S::npos, "formula", "not a formula: \"" << t << "\"");
      r.c += sign * Z(term);
    } else if (arrays.count(term)) {
      r.c += sign * k * arrays.at(term);
    } else {
      r.put(term, sign * k);
    }
  }
  return r;
}
// The names of the columns; empty when the names given are not enough.
static V columns(const MRel& r, const Names& n) {
  int scatt = 0, iters = r.in;
  if (r.type == OSL_TYPE_DOMAIN || r.type == OSL_TYPE_CONTEXT)
    iters = std::max(r.out, r.in);
  else if (!is_access(r.type))
    scatt = r.out;
  if (iters > (int)n.iters.size() || scatt > (int)n.scatt.size() || r.local > (int)n.locals.size() || r.params > (int)n.params.size())
    return {};
  V v = {"e/i"};
  for (int i = 0; i < r.out; i++) {
    if (is_access(r.type))
      v.push_back(i == 0 ? "Arr" : "[" + std::to_string(i) + "]");
    else if (r.type == OSL_TYPE_DOMAIN || r.type == OSL_TYPE_CONTEXT)
      v.push_back(n.iters[i]);
    else
      v.push_back(n.scatt[i]);
  }
  for (int i = 0; i < r.in; i++) v.push_back(n.iters[i]);
  for (int i = 0; i < r.local; i++) v.push_back(n.locals[i]);
  for (int i = 0; i < r.params; i++) v.push_back(n.params[i]);
  v.push_back("1");
  return v;
}
static Lin row_form(const MRel& r, int i, const V& col) {
  Lin l;
  for (int j = 1; j < r.cols - 1; j++) l.put(col[j], r.m[i][j]);
  l.c = r.m[i][r.cols - 1];
  return l;
}
static long checked;  // comments checked in this case
// comment: what follows "## "
static void check_comment(const MRel& r, int i, const V& col, const Names& n, const S& comment) {
  std::map<S, int> arr;
  if (is_access(r.type) && r.cols > 2 && r.m[i][1] != 0)  // a row about the array: its name stands for its number
    for (size_t k = 0; k < n.arrays.size(); k++) arr[n.arrays[k]] = (int)k + 1;
  size_t eq = comment.find(" == "), ge = comment.find(" >= ");
  CHECK((eq == S::npos) != (ge == S::npos), "comment", "no relation in \"" << comment << "\"");
  size_t at = eq != S::npos ? eq : ge;
  Lin a = formula(comment.substr(0, at), {}), b = formula(comment.substr(at + 4), arr), d = a;
  for (auto& x : b.k) d.put(x.first, -x.second);
  d.c -= b.c;
  Lin want = row_form(r, i, col);
  bool good = ge != S::npos ? r.m[i][0] != 0 && d == want : r.m[i][0] == 0 && (d == want || d == want.neg());
  checked++;
  CHECK(good, "meaning", "row " << i << " of\n" << show(r) << "says " << (r.m[i][0] == 0 ? "0 == " : "0 <= ") << want.text() << ", but its comment is \"" << comment << "\"");
}
static V split(const S& t) {
  V v;
  size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find('\n', i);
    if (j == S::npos) j = t.size();
    v.push_back(t.substr(i, j - i));
    i = j + 1;
  }
  return v;
}
static S trim(const S& t) {
  size_t a = t.find_first_not_of(' ');
  if (a == S::npos) return "";
  return t.substr(a, t.find_last_not_of(' ') - a + 1);
}
static void check_heading(const MRel& r, const V& col, const S& l) {
  CHECK(!l.empty() && l[0] == '#' && l.size() == 1 + 5 * col.size(), "heading", "heading \"" << l << "\" of " << col.size() << " columns");
  int bounds[] = {1, 1 + r.out, 1 + r.out + r.in, 1 + r.out + r.in + r.local, 1 + r.out + r.in + r.local + r.params};
  for (size_t k = 0; k < col.size(); k++) {
    S cell = trim(l.substr(1 + 5 * k, 4)), want = col[k].size() <= 4 ? col[k] : col[k].substr(0, 3) + ".";
    CHECK(cell == want, "heading", "column " << k << " is headed \"" << cell << "\" instead of \"" << want << "\" in \"" << l << "\"");
    bool bar = false;
    for (int b : bounds) bar = bar || (int)k + 1 == b;
    char sep = l[1 + 5 * k + 4];
    CHECK(sep == (bar ? '|' : ' '), "heading", "separator after column " << k << " of \"" << l << "\"");
  }
}
// lines from `at` on: the relation u (after the type); returns the position after it
static size_t check_polylib(const V& l, size_t at, const MUnion& u, const Names& n) {
  auto next = [&]() -> const S& {
    CHECK(at < l.size(), "text", "the text ends too early");
    return l[at++];
  };
  if (u.size() > 1) {
    S h = next();
    CHECK(h == "# Union with " + std::to_string(u.size()) + " parts", "union", "\"" << h << "\" before a union of " << u.size());
    h = next();
    CHECK(h == std::to_string(u.size()), "union", "\"" << h << "\" parts instead of " << u.size());
  }
  for (size_t k = 0; k < u.size(); k++) {
    const MRel& r = u[k];
    if (u.size() > 1) {
      S h = next();
      CHECK(h == "# Union part No." + std::to_string(k + 1), "union", "\"" << h << "\" before part " << k + 1);
    }
    next();  // the sizes
    V col = columns(r, n);
    if (r.rows > 0 && !col.empty()) check_heading(r, col, next());
    for (int i = 0; i < r.rows; i++) {
      const S& line = next();
      size_t c = line.find("   ## ");
      if (col.empty()) {
        CHECK(line.find('#') == S::npos, "comment", "a comment without names: \"" << line << "\"");
        continue;
      }
      CHECK(c != S::npos, "comment", "no comment in \"" << line << "\"");
      check_comment(r, i, col, n, line.substr(c + 6));
      // the array is told by its name
      if (is_access(r.type)) {
        S name = line.substr(line.rfind(' ') + 1);
        Z id = abs(r.m[i][1]) == 1 && r.m[i][0] == 0 ? Z(-r.m[i][r.cols - 1] * r.m[i][1]) : Z(0);
        bool plain = id > 0 && r.out > 0;
        for (int j = 2; j < r.cols - 1; j++) plain = plain && r.m[i][j] == 0;
        int uses = 0;
        for (auto& p : u)
          for (auto& row : p.m) uses += p.cols > 2 && row[1] != 0;
        if (plain && u.size() == 1 && uses == 1 && id <= (long)n.arrays.size())
          CHECK(name == n.arrays[z2l(id) - 1], "array-name", "array " << id << " is named \"" << name << "\" instead of \"" << n.arrays[z2l(id) - 1] << "\"");
      }
    }
  }
  return at;
}
// ---- names
static V some(Src& s, const char* prefix, int n) {
  V v;
  bool big = s.pct(3);
  for (int i = 0; i < n; i++) v.push_back(s.pct(50) ? S(prefix) + std::to_string(i) : prefix + gen_ident(s, big) + "_" + std::to_string(i));
  return v;
}
static V defaults(const char* prefix, int n) {
  V v;
  for (int i = 1; i <= n; i++) v.push_back(prefix + std::to_string(i));
  return v;
}
static T strs(const V& v) {
  T t = T::list("strings");
  for (auto& x : v) t.c.push_back(T::str("", x));
  return t;
}
static osl_names_t* build_names(const Names& n) {
  osl_names_t* r = osl_names_malloc();
  r->parameters = build_strings(strs(n.params));
  r->iterators = build_strings(strs(n.iters));
  r->scatt_dims = build_strings(strs(n.scatt));
  r->local_dims = build_strings(strs(n.locals));
  r->arrays = build_strings(strs(n.arrays));
  return r;
}
static int type_of(Src& s) {
  static const int t[] = {OSL_TYPE_CONTEXT, OSL_TYPE_DOMAIN, OSL_TYPE_SCATTERING, OSL_TYPE_READ, OSL_TYPE_WRITE, OSL_TYPE_MAY_WRITE,
                          OSL_TYPE_ACCESS, OSL_UNDEFINED};
  return t[s.below(8)];
}
static MUnion a_union(Src& s, int prec) {
  MUnion u;
  int type = type_of(s), n = 1 + (s.pct(30) ? s.small(3) : 0), id = 1 + s.small(6);
  for (int i = 0; i < n; i++) {
    bool wide = s.pct(20);
    if (is_access(type) && s.pct(75)) {
      u.push_back(gen_access(s, prec, type, s.pct(90) ? id : id + 1, s.small(3), s.small(4), s.small(2), s.small(3), wide));
    } else {
      MRel r = gen_rel(s, prec, type, s.small(4), s.small(4), s.small(2), s.small(3), s.small(6), wide);
      if (s.pct(50))  // outputs given by the others
        for (int k = 0; k < r.rows; k++)
          if (s.pct(70)) {
            r.m[k][0] = s.pct(10);
            int w = (int)s.below(r.out + 1);
            for (int j = 1; j <= r.out; j++) r.m[k][j] = j == w ? (s.flip() ? -1 : 1) : 0;
          }
      tame(r);
      u.push_back(r);
    }
    u.back().type = type;
    tame(u.back());
    if (s.pct(4)) {  // many columns
      MRel& r = u.back();
      int more = 20 + (int)s.below(40);
      r.params += more;
      r.cols += more;
      for (auto& row : r.m)
        for (int q = 0; q < more; q++) row.insert(row.end() - 1, Z(s.range(0, 4) - 2));
      tame(r);
    }
  }
  return u;
}
static void need(const MUnion& u, int k[5]) {
  for (auto& r : u) {
    int v[5] = {r.params, std::max(r.in, r.type == OSL_TYPE_DOMAIN || r.type == OSL_TYPE_CONTEXT ? r.out : 0), r.out, r.local, 0};
    for (int i = 0; i < 5; i++) k[i] = std::max(k[i], v[i]);
  }
}
static S take(char* p) {
  S r = p;
  free(p);
  return r;
}
static void relation(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  MUnion u = a_union(s, prec);
  int k[5] = {0, 0, 0, 0, 0};
  need(u, k);
  bool given = s.pct(65);
  Names n;
  osl_names_t* names = nullptr;
  if (given) {
    auto cnt = [&](int x) { return x + (s.pct(20) ? s.small(3) : 0) - (s.pct(3) && x > 0 ? 1 : 0); };
    n = {some(s, "N", cnt(k[0])), some(s, "i", cnt(k[1])), some(s, "t", cnt(k[2])), some(s, "e", cnt(k[3])), some(s, "tab", s.small(8))};
    names = build_names(n);
  } else {
    // default names: as many as there are
    int d[5] = {OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED};
    for (size_t i = 0; i < u.size(); i++) {
      bool dom = u[i].type == OSL_TYPE_DOMAIN;
      d[0] = std::max(d[0], u[i].params);
      d[1] = std::max(d[1], u[i].type == OSL_TYPE_CONTEXT ? 0 : dom ? u[i].out : u[i].in);
      d[2] = std::max(d[2], u[i].type == OSL_TYPE_SCATTERING || u[i].type == OSL_UNDEFINED ? u[i].out : 0);
      d[3] = std::max(d[3], u[i].local);
    }
    n = {defaults("P", d[0]), defaults("i", d[1]), defaults("c", d[2]), defaults("l", d[3]), defaults("A", 40)};
  }
  if (c.rendering) {
    c.log << show(u) << (given ? "names" : "default names");
    for (auto* v : {&n.params, &n.iters, &n.scatt, &n.locals, &n.arrays}) {
      c.log << " |";
      for (auto& x : *v) c.log << " " << x;
    }
    c.log << "\n";
  }
  osl_relation_t* r = build(u);
  checked = 0;
  S p = take(osl_relation_spprint_polylib(r, names));
  size_t end = check_polylib(split(p), 0, u, n);
  CHECK(end == split(p).size(), "text", "more text than rows:\n" << p);
  c.nontrivial = checked > 1;
  label("type " + (u[0].type == OSL_UNDEFINED ? S("undefined") : u[0].type == OSL_TYPE_ACCESS ? S("access") : std::to_string(u[0].type)));
  // the other printers have the same rows
  S full = take(osl_relation_spprint(r, names));
  CHECK(full.size() > p.size() && full.substr(full.size() - p.size()) == p, "spprint", "osl_relation_spprint differs:\n" << full << "\nfrom\n" << p);
  if (!given) {
    S sp = take(osl_relation_sprint(r));
    CHECK(sp == full, "sprint", "osl_relation_sprint differs:\n" << sp << "\nfrom\n" << full);
    S pr = print_to_string([&](FILE* f) { osl_relation_print(f, r); });
    CHECK(pr == full, "print", "osl_relation_print differs:\n" << pr << "\nfrom\n" << full);
  }
  S pp = print_to_string([&](FILE* f) { osl_relation_pprint(f, r, names); });
  CHECK(pp == full, "pprint", "osl_relation_pprint differs:\n" << pp << "\nfrom\n" << full);
  SAME(snap(r), u, "changed", "printing changed the relation");
  osl_relation_free(r);
  osl_names_free(names);
}
static void expression(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  GRel g;
  g.wide = s.pct(40);
  g.maxparams = 6;
  if (s.pct(3)) g.maxparams = 60;
  MRel r = gen_any_rel(s, prec, g);
  if (r.rows == 0 || r.cols < 2) discard();
  V col = some(s, "x", r.cols);
  std::vector<char*> p;
  for (auto& x : col) p.push_back(const_cast<char*>(x.c_str()));
  p.push_back(nullptr);
  osl_relation_t* x = build(r);
  if (c.rendering) {
    c.log << show(r);
    for (auto& y : col) c.log << " " << y;
    c.log << "\n";
  }
  c.nontrivial = r.cols > 2;
  for (int i = 0; i < r.rows; i++) {
    S t = take(osl_relation_expression(x, i, p.data()));
    Lin got = formula(t, {}), want = row_form(r, i, col);
    CHECK(got == want, "expression", "row " << i << " is " << want.text() << ", its expression \"" << t << "\"");
  }
  SAME(snap(x), MUnion{r}, "changed", "the relation");
  osl_relation_free(x);
}
// Whole statements and scops: the names of the scop are the ones used.
static size_t find_relation(const V& l, size_t at, const MUnion& u, const Names& n) {
  static const std::map<int, S> kw = {{OSL_TYPE_CONTEXT, "CONTEXT"}, {OSL_TYPE_DOMAIN, "DOMAIN"}, {OSL_TYPE_SCATTERING, "SCATTERING"},
                                      {OSL_TYPE_READ, "READ"}, {OSL_TYPE_WRITE, "WRITE"}, {OSL_TYPE_MAY_WRITE, "MAY_WRITE"}};
  const S& w = kw.at(u[0].type);
  while (at < l.size() && l[at] != w) at++;
  CHECK(at < l.size(), "text", "no " << w << " in the text");
  return check_polylib(l, at + 1, u, n);
}
static V strings_of(const T& t) {
  V v;
  for (auto& x : t.c) v.push_back(x.s);
  return v;
}
static void scop(Case& c) {
  Src& s = c.s;
  GScop g;
  g.e.prec = ALLPREC[s.below(3)];
  g.e.readable = true;
  g.exts = false;
  g.absent = s.pct(20);
  g.e.wide = s.pct(30);
  g.maxstmts = 3;
  MScops v = gen_scops(s, g);
  bool alone = v.size() == 1 && s.pct(30);  // the statements without their scop
  for (auto& m : v) {
    if (s.pct(50)) {
      T a = T::list("arrays");
      int n = s.small(6);
      for (int i = 0; i < n; i++) {
        T e = T::list("");
        e.c = {T::num("id", i + 1 + (s.pct(10) ? s.small(4) : 0)), T::str("name", "tab" + gen_ident(s))};
        a.c.push_back(e);
      }
      std::vector<int> ids;
      std::vector<T> keep;
      for (auto& e : a.c)
        if (std::find(ids.begin(), ids.end(), (int)e.at("id").i) == ids.end()) {
          ids.push_back((int)e.at("id").i);
          T f = e;
          f.at("name").s += "_" + std::to_string(f.at("id").i);
          keep.push_back(f);
        }
      a.c = keep;
      if (!a.c.empty()) m.ext.push_back(a);
    }
  }
  // the default names: enough for all the scops
  int d[4] = {0, 0, 0, 0}, maxid = 0;
  auto more = [&](const MUnion& u) {
    for (auto& r : u) {
      d[0] = std::max(d[0], r.params);
      d[1] = std::max(d[1], r.type == OSL_TYPE_CONTEXT ? 0 : r.type == OSL_TYPE_DOMAIN ? r.out : r.in);
      d[2] = std::max(d[2], r.type == OSL_TYPE_SCATTERING ? r.out : 0);
      d[3] = std::max(d[3], r.local);
      maxid = 40;
    }
  };
  for (auto& m : v) {
    if (!alone) more(m.ctx);
    for (auto& x : m.stmts) {
      more(x.dom);
      more(x.scat);
      for (auto& u : x.acc) more(u);
    }
  }
  Names def = {defaults("P", d[0]), defaults("i", d[1]), defaults("c", d[2]), defaults("l", d[3]), defaults("A", maxid)};
  if (c.rendering) c.log << show(tree(v));
  osl_scop_t* x = build(v);
  S text = alone ? print_to_string([&](FILE* f) { osl_statement_print(f, x->statement); })
                 : print_to_string([&](FILE* f) { osl_scop_print(f, x); });
  V l = split(text);
  size_t at = 0;
  checked = 0;
  for (auto& m : v) {
    Names n = def;
    if (!alone) {
      if (!m.params.empty()) n.params = strings_of(m.params[0]);
      for (auto& t : m.ext)
        if (t.name == "arrays") {
          int mx = 0;
          for (auto& e : t.c) mx = std::max(mx, (int)e.at("id").i);
          n.arrays = defaults("Dummy", mx);
          for (auto& e : t.c) n.arrays[e.at("id").i - 1] = e.at("name").s;
        }
      at = find_relation(l, at, m.ctx, n);
    }
    for (auto& y : m.stmts) {
      Names w = n;
      for (auto& t : y.ext)
        if (t.name == "body" && t.at("iterators").k != T::NIL) w.iters = strings_of(t.at("iterators"));
      if (!y.dom.empty()) at = find_relation(l, at, y.dom, w);
      if (!y.scat.empty()) at = find_relation(l, at, y.scat, w);
      for (auto& u : y.acc) at = find_relation(l, at, u, w);
    }
  }
  c.nontrivial = checked > 3;
  label(alone ? "statements" : "scop");
  osl_scop_free(x);
}
#ifndef P18_PARTS_ONLY
Property pbt::property = {
    "P18",
    "at least two comments checked",
    {{"relation", relation, 120000, 3000000, true},
     {"expression", expression, 80000, 2000000, true},
     {"scop", scop, 25000, 800000, true}},
};
#endif
