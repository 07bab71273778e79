// P10: changing or choosing a precision preserves values and text.
#include "scop.h"
using namespace pbt;

static Z fit(Z z) {
  static const Z lo = -(Z(1) << 63), hi = (Z(1) << 63) - 1;
  return z < lo ? lo : z > hi ? hi : z;
}
static Z huge(Src& s) {
  Z r = genZ(s, true);
  int n = s.small(12);
  for (int i = 0; i < n; i++) r = r * r + s.small(9);
  return s.flip() ? Z(-r) : r;
}
// --- integers: text and conversions
static void integer(Case& c) {
  int p = ALLPREC[c.s.below(3)];
  bool big = p == OSL_PRECISION_MP && c.s.pct(30);
  Z z = big ? (c.s.pct(4) ? huge(c.s) : genZ(c.s, true)) : fit(genZ(c.s, false));
  std::string txt = z.get_str();
  c.nontrivial = !fits_int(z);
  if (c.rendering) c.log << precname(p) << " " << (txt.size() > 200 ? std::to_string(txt.size()) + " digits" : txt) << "\n";
  label(std::string(precname(p)) + (fits_int(z) ? " int" : fits64(z) ? " 64 bits" : " beyond"));
  OI a(p, z);
  std::string want = txt;
  while (want.size() < 4) want = " " + want;
  std::vector<char> buf(txt.size() + 64, 1);
  osl_int_sprint(buf.data(), p, a.v);
  CHECK(want == buf.data(), "sprint", "osl_int_sprint gives \"" << buf.data() << "\" for " << txt);
  std::string s1 = buf.data();
  osl_int_sprint_txt(buf.data(), p, a.v);
  CHECK(txt == buf.data(), "sprint_txt", "osl_int_sprint_txt gives \"" << buf.data() << "\" for " << txt);
  std::string pr = print_to_string([&](FILE* f) { osl_int_print(f, p, a.v); });
  CHECK(pr == want, "print", "osl_int_print gives \"" << pr << "\" for " << txt);
  CHECK(a.z() == z, "unchanged", "printing changed the value");
  // reading back, at any precision able to hold it, and only its own text
  static const char* after[] = {"", " ", "\n", " 12", "x", "# comment", "-3", ")", ".5", "+1", "\t7"};
  for (int q : ALLPREC) {
    if (!fits_prec(q, z)) continue;
    std::string lead = c.s.pct(20) ? (c.s.flip() ? "  " : "\t") : "", tail = after[c.s.below(11)];
    std::string body = c.s.flip() ? s1 : txt;
    if (z >= 0 && c.s.pct(10)) body = "+" + txt;
    if (c.s.pct(10)) body = (z < 0 ? "-00" : "00") + Z(abs(z)).get_str();
    std::string t = lead + body + tail;
    OI r(q, Z(77));
    int n = osl_int_sscanf(t.c_str(), q, &r.v);
    CHECK(r.z() == z, "sscanf", "reading \"" << t << "\" at " << precname(q) << " gives " << r.z());
    CHECK(n == (int)(lead.size() + body.size()), "sscanf-length", "reading \"" << t << "\" at " << precname(q) << " uses " << n << " characters");
    std::vector<char> cp(t.begin(), t.end());
    cp.push_back(0);
    char* cur = cp.data();
    OI r2(q, Z(78));
    osl_int_sread(&cur, q, &r2.v);
    CHECK(r2.z() == z, "sread", "reading \"" << t << "\" at " << precname(q) << " gives " << r2.z());
    CHECK(cur - cp.data() == n, "sread-length", "reading \"" << t << "\" stops after " << (cur - cp.data()) << " characters");
    CHECK(t == cp.data(), "sread-text", "the text read changed");
  }
  // conversions
  OI b(p, z);
  osl_int_t v = b.v;
  int cur = p;
  std::string path = precname(p);
  int steps = c.s.range(1, 6);
  for (int i = 0; i < steps; i++) {
    int q = ALLPREC[c.s.below(3)];
    if (!fits_prec(q, z)) continue;
    osl_int_set_precision(cur, q, &v);
    cur = q;
    path += std::string(" -> ") + precname(q);
    CHECK(getZ(cur, v) == z, "conversion", path << " turns " << txt << " into " << getZ(cur, v));
  }
  b.v = v;
  b.prec = cur;
}
// Not numbers, in every precision alike.
static void not_a_number(Case& c) {
  static const char* bad[] = {"", " ", "x", "-", "+", "--3", "+-3", "- 3", "#12", "abc12", ",5", ".5", "-x3", "\n", "-+4"};
  std::string t = bad[c.s.below(15)];
  int p = ALLPREC[c.s.below(3)];
  c.nontrivial = t.size() > 1;
  c.log << precname(p) << " \"" << t << "\"\n";
  OI a(p, Z(4));
  c.leak_exempt = true;
  CHECK(exits([&] { osl_int_sscanf(t.c_str(), p, &a.v); }), "accepted", "\"" << t << "\" read as " << a.z());
}
// --- relations
static MUnion at(MUnion u, int prec) {
  for (auto& r : u) r.prec = prec;
  return u;
}
static void clamp(MUnion& u, bool limits) {
  for (auto& r : u)
    for (auto& row : r.m)
      for (auto& z : row)
        if (limits) z = fit(z);
}
static bool fits(int prec, const MUnion& u) {
  for (auto& r : u)
    for (auto& row : r.m)
      for (auto& z : row)
        if (!fits_prec(prec, z)) return false;
  return true;
}
static void relation(Case& c) {
  int p = ALLPREC[c.s.below(3)];
  GRel g;
  g.wide = c.s.pct(70);
  MUnion u = gen_any_union(c.s, p, g, 4);
  if (c.s.pct(80)) clamp(u, true);
  if (c.rendering) c.log << show(u);
  c.nontrivial = u.size() > 1 || g.wide;
  // the parts of a union built by hand may differ in precision
  bool mixed = u.size() > 1 && c.s.pct(40);
  if (mixed)
    for (auto& x : u) {
      int q = ALLPREC[c.s.below(3)];
      if (fits(q, {x})) x.prec = q;
    }
  if (mixed && c.rendering) c.log << show(u);
  osl_relation_t* r = build(u);
  int steps = c.s.range(1, 5);
  for (int i = 0; i <= steps; i++) {
    int q = ALLPREC[c.s.below(3)];
    if (i == steps && mixed) q = OSL_PRECISION_MP;
    if (i == steps && !mixed) break;
    if (!fits(q, u)) continue;
    osl_relation_set_precision(q, r);
    u = at(u, q);
    SAME(snap(r), u, "relation", std::string("conversion to ") + precname(q));
    mixed = false;
  }
  if (c.s.flip()) {
    // the same precision for two relations: the larger of the two
    int q = ALLPREC[c.s.below(3)];
    MUnion w = c.s.pct(10) ? MUnion{} : gen_any_union(c.s, q, g, 3);
    if (c.s.pct(80)) clamp(w, true);
    osl_relation_t* o = build(w);
    auto rank = [](int x) { return x == OSL_PRECISION_MP ? 2 : x == OSL_PRECISION_DP ? 1 : 0; };
    if (!w.empty()) {
      int t = rank(u[0].prec) > rank(q) ? u[0].prec : q;
      u = at(u, t);
      w = at(w, t);
      label(std::string("same precision: ") + precname(t));
    }
    osl_relation_set_same_precision(r, o);
    SAME(snap(r), u, "same-precision", "first relation");
    SAME(snap(o), w, "same-precision", "second relation");
    osl_relation_free(o);
  }
  // what is done after the conversion is done at the new precision
  osl_relation_t* k = osl_relation_clone(r);
  SAME(snap(k), u, "clone", "clone of the converted relation");
  CHECK(osl_relation_equal(r, k), "equal", "the converted relation is not equal to its clone");
  osl_relation_free(k);
  osl_relation_free(r);
}
// --- whole scops
static void convert(MScops& m, int prec) {
  std::function<void(T&)> tr = [&](T& t) {
    t.u = at(t.u, prec);
    for (auto& x : t.c) tr(x);
  };
  auto exts = [&](std::vector<T>& v) {
    for (auto& t : v) tr(t);
  };
  for (auto& x : m) {
    x.ctx = at(x.ctx, prec);
    exts(x.params);
    exts(x.ext);
    for (auto& s : x.stmts) {
      s.dom = at(s.dom, prec);
      s.scat = at(s.scat, prec);
      for (auto& a : s.acc) a = at(a, prec);
      exts(s.ext);
    }
  }
}
static std::string line_of_difference(const std::string& a, const std::string& b) {
  size_t i = 0;
  while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
  auto line = [&](const std::string& t) {
    size_t s = i < t.size() ? t.rfind('\n', i ? i - 1 : 0) : std::string::npos;
    s = s == std::string::npos ? 0 : s + 1;
    return t.substr(s, 200);
  };
  return "\"" + line(a) + "\"\ninstead of \"" + line(b) + "\"";
}
// A comment may be written differently where the opposite of a coefficient does not fit.
static std::string without_comments(const std::string& t) {
  std::string o;
  bool in = false;
  for (size_t i = 0; i < t.size(); i++) {
    if (t[i] == '#' && t[i + 1] == '#') in = true;
    if (t[i] == '\n') in = false;
    if (!in) o += t[i];
  }
  return o;
}
static bool scop_fits(const MScops& m, int prec) {
  std::function<bool(const T&)> tr = [&](const T& t) {
    if (!fits(prec, t.u)) return false;
    for (auto& x : t.c)
      if (!tr(x)) return false;
    return true;
  };
  return tr(tree(m));
}
static void env(const char* v) {
  if (v)
    setenv(OSL_PRECISION_ENV, v, 1);
  else
    unsetenv(OSL_PRECISION_ENV);
}
static void reading(Case& c) {
  GScop g;
  g.e.prec = OSL_PRECISION_MP;
  g.e.readable = true;
  g.absent = false;
  g.maxstmts = 2;
  g.maxscops = 2;
  g.e.wide = c.s.flip();
  MScops m = gen_scops(c.s, g);
  Layout l;
  l.s = &c.s;
  l.noise = c.s.pct(50) ? 0 : 30;
  std::string text = emit(m, l);
  if (c.rendering) c.log << text;
  bool all = scop_fits(m, OSL_PRECISION_SP);
  c.nontrivial = all;
  label(all ? "fits 64 bits" : "GMP only");
  std::string first, printed[3];
  for (int i = 0; i < 3; i++) {
    int p = ALLPREC[i];
    if (!all && p != OSL_PRECISION_MP) continue;
    MScops want = m;
    convert(want, p);
    // by the variable
    set_env(p);
    CHECK(osl_util_get_precision() == p, "chosen", "the precision chosen is " << osl_util_get_precision());
    FILE* f = file_of(text);
    osl_scop_t* s = osl_scop_read(f);
    fclose(f);
    std::string d = tdiff(snap(s), want);
    CHECK(d.empty(), "by-environment", "read at " << precname(p) << ": " << d);
    printed[i] = without_comments(print_to_string([&](FILE* o) { osl_scop_print(o, s); }));
    if (i && !printed[i].empty())
      CHECK(printed[i] == printed[0], "printed", "the text printed at " << precname(p) << " differs from the one printed at MP:\n"
            << line_of_difference(printed[i], printed[0]));
    // by the argument
    f = file_of(text);
    osl_interface_t* reg = osl_interface_get_default_registry();
    osl_scop_t* s2 = osl_scop_pread(f, reg, p);
    fclose(f);
    d = tdiff(snap(s2), want);
    CHECK(d.empty(), "by-argument", "read at " << precname(p) << ": " << d);
    CHECK(osl_scop_equal(s, s2), "equal", "the scops read both ways are not equal");
    osl_scop_free(s2);
    osl_interface_free(reg);
    // from one precision to another
    int q = ALLPREC[c.s.below(3)];
    if (all || q == OSL_PRECISION_MP) {
      for (osl_scop_t* x = s; x; x = x->next) {
        osl_relation_set_precision(q, x->context);
        for (osl_statement_t* t = x->statement; t; t = t->next) {
          osl_relation_set_precision(q, t->domain);
          osl_relation_set_precision(q, t->scattering);
          for (osl_relation_list_t* a = t->access; a; a = a->next) osl_relation_set_precision(q, a->elt);
        }
      }
      std::string again = without_comments(print_to_string([&](FILE* o) { osl_scop_print(o, s); }));
      CHECK(again == printed[i], "converted", "the text printed after converting from " << precname(p) << " to " << precname(q)
            << " differs:\n" << line_of_difference(again, printed[i]));
    }
    osl_scop_free(s);
  }
  set_env(OSL_PRECISION_MP);
}
// The relation readers, with the environment set to something else.
static void relation_reading(Case& c) {
  GRel g;
  g.wide = true;
  MRel r0 = gen_any_rel(c.s, OSL_PRECISION_MP, g);
  MUnion u = {r0};
  clamp(u, true);
  u[0].type = OSL_TYPE_DOMAIN;
  u[0].in = 0;
  int want = 2 + u[0].out + u[0].local + u[0].params;
  u[0].cols = want;
  for (auto& row : u[0].m) {
    row.resize(want);
    row[0] = row[0] == 0 ? 0 : 1;
  }
  Layout l;
  l.s = &c.s;
  l.noise = 20;
  emit_relation(u, l);
  if (c.rendering) c.log << l.o;
  c.nontrivial = u[0].rows > 0;
  for (int p : ALLPREC) {
    set_env(ALLPREC[c.s.below(3)]);
    FILE* f = file_of(l.o);
    osl_relation_t* r = osl_relation_pread(f, p);
    fclose(f);
    SAME(snap(r), at(u, p), "pread", std::string("read at ") + precname(p));
    osl_relation_free(r);
    std::vector<char> cp(l.o.begin(), l.o.end());
    cp.push_back(0);
    char* cur = cp.data();
    r = osl_relation_psread(&cur, p);
    SAME(snap(r), at(u, p), "psread", std::string("read at ") + precname(p));
    osl_relation_free(r);
    set_env(p);
    cur = cp.data();
    r = osl_relation_sread(&cur);
    SAME(snap(r), at(u, p), "sread", std::string("read with the variable at ") + precname(p));
    osl_relation_free(r);
  }
  set_env(OSL_PRECISION_MP);
}
static void choice(Case& c) {
  static const char* v[] = {"32", "64", "0", "", "3", "320", "64 ", " 64", "00", "MP", "sp", "-1", "6", "128"};
  int k = (int)c.s.below(15);
  c.nontrivial = k >= 3;
  c.log << (k == 14 ? "unset" : v[k]) << "\n";
  env(k == 14 ? nullptr : v[k]);
  int got = osl_util_get_precision();
  int want = k == 0 ? OSL_PRECISION_SP : k == 1 ? OSL_PRECISION_DP : OSL_PRECISION_MP;
  osl_relation_t* r = osl_relation_malloc(1, 1);
  osl_vector_t* w = osl_vector_malloc(2);
  osl_dependence_t* d = nullptr;
  int rp = r->precision, vp = w->precision;
  osl_relation_free(r);
  osl_vector_free(w);
  (void)d;
  set_env(OSL_PRECISION_MP);
  CHECK(got == want, "choice", "precision chosen: " << got << " instead of " << want);
  CHECK(rp == want, "choice-relation", "precision of a new relation: " << rp);
  CHECK(vp == want, "choice-vector", "precision of a new vector: " << vp);
  for (int p : ALLPREC) CHECK(osl_int_is_precision_supported(p), "supported", precname(p) << " is not supported");
  for (int p : {1, 2, 16, 31, 33, 63, 65, 128, -1}) CHECK(!osl_int_is_precision_supported(p), "unsupported", p << " is supported");
}
Property pbt::property = {
    "P10",
    "an integer beyond int, a text that looks like a number, a relation with large coefficients, a scop fitting all precisions, an unknown setting",
    {{"integer", integer, 150000, 4000000, true},
     {"not_a_number", not_a_number, 3000, 20000, true},
     {"relation", relation, 60000, 2000000, true},
     {"reading", reading, 15000, 500000, true},
     {"relation_reading", relation_reading, 30000, 900000, true},
     {"choice", choice, 2000, 20000, true}},
};
