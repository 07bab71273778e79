// P31: the library built without GMP behaves as the one built with it, in the precisions it has.
// Both builds of /repo's sources are linked (the symbols of the second one renamed); the same calls
// (P31_calls.c, compiled for each) are made on both, and their outputs and refusals compared.
#include "scop.h"
using namespace pbt;
typedef std::string S;
typedef std::vector<S> V;
extern "C" {
void with_gmp(FILE*, int kind, int prec, const char* x, const char* y, int op, int i);
void without_gmp(FILE*, int kind, int prec, const char* x, const char* y, int op, int i);
}
typedef void (*Calls)(FILE*, int, int, const char*, const char*, int, int);
static bool g_refused;
static S run(Calls f, int kind, int prec, const S& x, const S& y, int op, int i) {
  FILE* o = tmpfile();
  std::vector<char> a(x.begin(), x.end()), b(y.begin(), y.end());
  a.push_back(0);
  b.push_back(0);
  bool e = exits([&] { f(o, kind, prec, a.data(), b.data(), op, i); });
  fflush(o);
  S t((size_t)ftell(o), 0);
  rewind(o);
  if (!t.empty() && fread(&t[0], 1, t.size(), o) != t.size()) fail("harness", "temporary file");
  fclose(o);
  g_refused = e;
  return t + (e ? "(refused)" : "(done)");
}
static void both(Case& c, int kind, int prec, const S& x, const S& y, int op, int i) {
  if (c.rendering) c.log << "kind " << kind << ", " << precname(prec) << ", call " << op << " (" << i << ")\n" << x << "\n--\n" << y << "\n";
  S a = run(with_gmp, kind, prec, x, y, op, i);
  label(g_refused ? "refused" : "done");
  c.nontrivial = a.size() > 40;
  S b = run(without_gmp, kind, prec, x, y, op, i);
  CHECK(a == b, "differ", "with GMP:\n" << a << "\nwithout:\n" << b);
}
static int sp_or_dp(Src& s) { return s.flip() ? OSL_PRECISION_SP : OSL_PRECISION_DP; }
static S number(Src& s, int prec) {
  static const V edge = {"0", "1", "-1", "9223372036854775807", "-9223372036854775808", "9223372036854775808",
                         "-9223372036854775809", "4611686018427387904", "3037000500", "-3037000500", "2147483648",
                         "-2147483649", "123456789012345678901234567890"};
  if (s.pct(30)) return s.pick(edge);
  return gen_coef(s, prec, s.flip()).get_str();
}
static void ints(Case& c) {
  Src& s = c.s;
  int prec = sp_or_dp(s);
  S x = number(s, prec), y = number(s, prec);
  both(c, 0, prec, x, y, s.below(32), s.range(-9, 9));
  c.nontrivial = x != "0" || y != "0";
}
// Replaces a word of the text now and then.
static S spoil(Src& s, S t) {
  if (!s.pct(25)) return t;
  for (int k = 1 + s.small(2); k > 0; k--) {
    std::vector<size_t> at;
    for (size_t i = 0; i < t.size(); i++)
      if (!isspace((unsigned char)t[i]) && (i == 0 || isspace((unsigned char)t[i - 1]))) at.push_back(i);
    if (at.empty()) return t;
    size_t i = s.pick(at), j = i;
    while (j < t.size() && !isspace((unsigned char)t[j])) j++;
    static const V w = {"0", "1", "2", "-1", "3", "x", "#", "", "99999999999999999999", "1.5", "DOMAIN", "</body>", "READ", "-"};
    t = t.substr(0, i) + s.pick(w) + t.substr(j);
  }
  return t;
}
static void relations(Case& c) {
  Src& s = c.s;
  int prec = sp_or_dp(s);
  GRel g;
  g.wide = s.pct(40);
  S t[2];
  for (auto& x : t) {
    MUnion u = gen_any_union(s, prec, g, 3);
    if (s.pct(40))
      u = {gen_access(s, prec, s.flip() ? OSL_TYPE_READ : OSL_TYPE_WRITE, 1 + s.small(5), s.small(3), s.small(3), s.small(2), s.small(3), g.wide)};
    for (auto& r : u) tame(r);
    Layout lay;
    lay.s = &s;
    lay.noise = s.flip() ? 20 : 0;
    emit_relation(u, lay);
    x = lay.o;
  }
  t[0] = spoil(s, t[0]);
  both(c, 1, prec, t[0], t[1], s.below(17), s.small(5));
}
static void scops(Case& c) {
  Src& s = c.s;
  GScop g;
  g.e.prec = sp_or_dp(s);
  g.e.wide = s.pct(40);
  g.absent = false;
  g.maxstmts = 2;
  g.maxacc = 2;
  MScops m = gen_scops(s, g);
  Layout lay;
  lay.s = &s;
  lay.noise = s.flip() ? 20 : 0;
  S t = emit(m, lay);
  if (!lay.o.empty()) t = lay.o;
  t = spoil(s, t);
  bool env = s.pct(30);
  set_env(g.e.prec);
  int op = s.below(8), i = s.small(5);
  both(c, 2, env ? OSL_UNDEFINED : g.e.prec, t, "", op, i);
}
static void extensions(Case& c) {
  Src& s = c.s;
  GExt g;
  g.prec = sp_or_dp(s);
  set_env(g.prec);
  std::vector<T> m = gen_exts(s, EXT_READABLE, 3, g);
  Layout lay;
  lay.s = &s;
  lay.noise = s.flip() ? 20 : 0;
  emit_generics(m, lay, 10);
  both(c, 3, g.prec, lay.o, "", s.below(3), 0);
}
// The precisions that a build has, and what it does about the others.
static void precisions(Case& c) {
  Src& s = c.s;
  static const int P[] = {OSL_PRECISION_SP, OSL_PRECISION_DP, OSL_PRECISION_MP, 1, 16, 33, 128, -1, 2};
  int p = P[s.below(9)], op = s.below(12), i = s.small(3);
  static const V E = {"", "32", "64", "0", "128", "SP", "gmp"};
  S env = s.pick(E), text = "DOMAIN\n1 3 1 0 0 0\n1 " + std::to_string(s.range(-9, 9)) + " 5\n";
  if (env.empty())
    unsetenv("OSL_PRECISION");
  else
    setenv("OSL_PRECISION", env.c_str(), 1);
  bool sp = p == OSL_PRECISION_SP, dp = p == OSL_PRECISION_DP, mp = p == OSL_PRECISION_MP;
  bool byenv = op == 1 || op == 7 || op == 8 || op == 10;
  c.nontrivial = true;
  if (c.rendering) c.log << "precision " << p << ", OSL_PRECISION=\"" << env << "\", call " << op << " (" << i << ")\n" << text;
  for (int gmp = 0; gmp < 2; gmp++) {
    S b = run(gmp ? with_gmp : without_gmp, 4, p, text, "", op, i);
    bool has = sp || dp || (mp && gmp);
    int def = env == "32" ? OSL_PRECISION_SP : env == "64" || !gmp ? OSL_PRECISION_DP : OSL_PRECISION_MP;
    S want;
    if (op == 0)
      want = has ? "1\n(done)" : "0\n(done)";
    else if (byenv)
      want = std::to_string(def) + "\n(done)";
    else if (op == 2) {
      CHECK(!g_refused && b.size() > 6, "dump", "no dump of precision " << p);
      CHECK((b.find("unknown") == S::npos) == has, "dump", "precision " << p << (gmp ? " with" : " without") << " GMP is dumped as " << b);
      continue;
    } else
      want = has ? "(done)" : "(refused)";
    CHECK(b == want, "precision", (gmp ? "with" : "without") << " GMP, precision " << p << ", call " << op << " gives " << b << " instead of " << want);
  }
}
Property pbt::property = {"P31",
                          "the build with GMP gives more than forty characters of output (ints: operands that are not both 0)",
                          {{"ints", ints, 60000, 2000000, true},
                           {"relations", relations, 30000, 900000, true},
                           {"scops", scops, 10000, 300000, true},
                           {"extensions", extensions, 12000, 400000, true},
                           {"precisions", precisions, 6000, 60000, true}}};
