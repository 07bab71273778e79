// P25: malformed input is refused (error exit) or read safely: what is read can be inspected,
// copied, compared, dumped, printed and freed, and nothing leaks. Texts: valid ones with 0 to 5
// mutations (lines, tokens, numbers, bytes, truncation), splices of two texts, soups of the
// tokens of the format, and bytes.
#include <algorithm>
#include <climits>

#include "scop.h"
using namespace pbt;
typedef std::string str;

// ------------------------------------------------------------------ mutations
static str junk(Src& s) {
  static const char* w[] = {"-1",          "0",        "2147483647", "-2147483648", "2147483648", "9223372036854775807",
                            "9223372036854775808", "-9223372036854775809", "99999999999999999999999999", "1.5",
                            "0x10",        "1e3",      "abc",        "1a",          "+3",          "-",
                            "--2",         "#",        "<",          ">",           "</",          "<>",
                            "</>",         "<strings>", "</strings>", "<OpenScop>",  "</OpenScop>", "DOMAIN",
                            "SCATTERING",  "READ",     "WRITE",      "MAY_WRITE",   "CONTEXT",     "UNDEFINED",
                            "(null)",      "%s%n",     "\\",         "\"",          "<relation>",  "</relation>",
                            "100000",      "70000",    "3",          "2",           "1",           ""};
  return w[s.below(sizeof w / sizeof *w)];
}
static str longword(Src& s) {
  static const int n[] = {100, 255, 256, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 5000, 20000};
  static const char* c[] = {"a", "1", "-", "<", "#", " ", "9 ", "a ", "@", "\t"};
  int len = n[s.below(16)] + s.range(-1, 1);
  str r, k = c[s.below(10)];
  while ((int)r.size() < len) r += k;
  return r;
}
static std::vector<str> lines_of(const str& t) {
  std::vector<str> v;
  size_t p = 0;
  while (p < t.size()) {
    size_t e = t.find('\n', p);
    if (e == str::npos) e = t.size();
    v.push_back(t.substr(p, e - p));
    p = e + 1;
  }
  return v;
}
static str join(const std::vector<str>& v) {
  str r;
  for (auto& l : v) r += l + "\n";
  return r;
}
// places of the tokens of a line
static std::vector<std::pair<size_t, size_t>> tokens(const str& l) {
  std::vector<std::pair<size_t, size_t>> v;
  size_t p = 0;
  while (p < l.size()) {
    while (p < l.size() && isspace((unsigned char)l[p])) p++;
    size_t e = p;
    while (e < l.size() && !isspace((unsigned char)l[e])) e++;
    if (e > p) v.push_back({p, e - p});
    p = e;
  }
  return v;
}
static str number_near(Src& s, const str& t) {
  char* e;
  errno = 0;
  long v = strtol(t.c_str(), &e, 10);
  if (e == t.c_str() || errno) return junk(s);
  static const int d[] = {1, -1, 2, -2, 10, 100, -100};
  if (s.pct(20)) return std::to_string(-v);
  if (v > LONG_MAX - 200 || v < LONG_MIN + 200) return "0";
  return std::to_string(v + d[s.below(7)]);
}
static str mutated(Src& s, str t, str* what) {
  std::vector<str> l = lines_of(t);
  int op = s.below(20);
  if (l.empty()) l.push_back("");
  size_t k = s.below(l.size());
  auto note = [&](const str& w) { *what += w + " (line " + std::to_string(k + 1) + ")\n"; };
  switch (op) {
    case 0: {  // truncation
      size_t p = s.below(t.size() + 1);
      *what += "cut at byte " + std::to_string(p) + "\n";
      return t.substr(0, p);
    }
    case 1: {
      size_t n = 1 + s.small(5);
      l.erase(l.begin() + k, l.begin() + std::min(l.size(), k + n));
      note("lines removed");
      break;
    }
    case 2: {
      size_t n = std::min(l.size() - k, (size_t)1 + s.small(5));
      std::vector<str> d(l.begin() + k, l.begin() + k + n);
      l.insert(l.begin() + s.below(l.size() + 1), d.begin(), d.end());
      note("lines repeated");
      break;
    }
    case 3:
      std::swap(l[k], l[s.below(l.size())]);
      note("lines exchanged");
      break;
    case 4:
      l.insert(l.begin() + k, junk(s));
      note("line inserted: " + l[k]);
      break;
    case 5:
      l[k].clear();
      note("line emptied");
      break;
    case 6:
    case 7:
    case 8:
    case 9: {  // a number (the header lines and counts are short ones)
      std::vector<size_t> nl;
      for (size_t i = 0; i < l.size(); i++)
        if (l[i].size() && (isdigit((unsigned char)l[i][0]) || l[i][0] == '-')) nl.push_back(i);
      if (!nl.empty()) k = nl[s.below(nl.size())];
      auto v = tokens(l[k]);
      if (v.empty()) break;
      auto p = v[s.below(v.size())];
      str w = l[k].substr(p.first, p.second);
      str r = op < 8 ? number_near(s, w) : junk(s);
      l[k].replace(p.first, p.second, r);
      note("number " + w + " replaced with " + r);
      break;
    }
    case 10:
    case 11: {
      auto v = tokens(l[k]);
      if (v.empty()) break;
      auto p = v[s.below(v.size())];
      switch (s.below(4)) {
        case 0:
          l[k].erase(p.first, p.second);
          note("token removed");
          break;
        case 1:
          l[k].insert(p.first, l[k].substr(p.first, p.second) + " ");
          note("token repeated");
          break;
        case 2:
          l[k].replace(p.first, p.second, junk(s));
          note("token replaced");
          break;
        default:
          l[k].insert(p.first, junk(s) + " ");
          note("token inserted");
      }
      break;
    }
    case 12: {
      auto v = tokens(l[k]);
      str w = longword(s);
      if (v.empty() || s.flip())
        l[k] = w;
      else {
        auto p = v[s.below(v.size())];
        l[k].replace(p.first, s.flip() ? p.second : 0, w);
      }
      note("long text of " + std::to_string(w.size()));
      break;
    }
    case 13: {  // tags
      std::vector<size_t> tl;
      for (size_t i = 0; i < l.size(); i++)
        if (l[i].find('<') != str::npos) tl.push_back(i);
      if (tl.empty()) break;
      k = tl[s.below(tl.size())];
      str o = l[tl[s.below(tl.size())]];
      switch (s.below(5)) {
        case 0:
          l.erase(l.begin() + k);
          note("tag removed");
          break;
        case 1:
          l[k] = o;
          note("tag replaced with " + o);
          break;
        case 2:
          l[k] = "<" + EXT_URIS[s.below(EXT_URIS.size())] + ">";
          note("tag replaced with " + l[k]);
          break;
        case 3:
          if (l[k].size() > 1) l[k].erase(s.below(l[k].size()), 1);
          note("tag spoilt");
          break;
        default:
          l.insert(l.begin() + k, o);
          note("tag inserted " + o);
      }
      break;
    }
    case 14:
    case 15: {  // bytes
      size_t p = s.below(t.size() + 1);
      int n = 1 + s.small(4);
      *what += "bytes at " + std::to_string(p) + "\n";
      str b;
      for (int i = 0; i < n; i++) b += s.flip() ? (char)s.below(256) : " \n\t#<>/-0\0\xff"[s.below(11)];
      switch (s.below(3)) {
        case 0:
          t.insert(p, b);
          break;
        case 1:
          t.erase(p, n);
          break;
        default:
          t.replace(p, n, b);
      }
      return t;
    }
    case 16: {  // line ends
      if (k + 1 < l.size()) {
        l[k] += (s.flip() ? " " : "") + l[k + 1];
        l.erase(l.begin() + k + 1);
      }
      note("lines joined");
      break;
    }
    case 17: {
      size_t p = s.below(l[k].size() + 1);
      str b = l[k].substr(p);
      l[k].erase(p);
      l.insert(l.begin() + k + 1, b);
      note("line cut in two");
      break;
    }
    case 18: {  // a part of the text elsewhere
      size_t n = std::min(l.size() - k, (size_t)1 + s.small(12));
      std::vector<str> d(l.begin() + k, l.begin() + k + n);
      l.erase(l.begin() + k, l.begin() + k + n);
      l.insert(l.begin() + s.below(l.size() + 1), d.begin(), d.end());
      note("lines moved");
      break;
    }
    default: {
      str r = join(l);
      if (!r.empty()) r.pop_back();
      *what += "no newline at the end\n";
      return r;
    }
  }
  return join(l);
}
static str mutations(Case& c, str t) {
  Src& s = c.s;
  int n = s.pct(10) ? 0 : 1 + s.small(4);
  str what;
  for (int i = 0; i < n; i++) t = mutated(s, t, &what);
  c.nontrivial = n > 0;
  if (t.size() > 400000) t.resize(400000);
  if (c.rendering) c.log << "---- mutations\n" << what;
  return t;
}
static str soup(Src& s) {
  str r;
  int n = 1 + s.small(40);
  for (int i = 0; i < n; i++) {
    r += s.pct(3) ? longword(s) : s.pct(50) ? std::to_string(s.range(-2, 6)) : junk(s);
    r += s.pct(40) ? "\n" : " ";
  }
  return r;
}
static void show_text(Case& c, const str& t) {
  if (c.rendering) c.log << "---- text\n" << t << "\n----\n";
}

// ------------------------------------------------------------------ what was read
// (Names are generated for all the arrays and dimensions up to the greatest identifier or
// number of dimensions: with huge ones, printing may run out of memory, and is not tried.)
static bool huge_dims(const MUnion& u) {
  for (auto& r : u)
    if (r.cols > 5000 || r.out > 20000 || r.in > 20000 || r.local > 20000 || r.params > 20000) return true;
  return false;
}
static bool huge_ids(const MUnion& u) {
  if (huge_dims(u)) return true;
  for (auto& r : u)
    for (auto& row : r.m)
      for (auto& z : row)
        if (z > Z(20000) || z < Z(-20000)) return true;
  return false;
}
static bool huge_ids(const std::vector<MStmt>& v) {
  for (auto& st : v) {
    if (huge_dims(st.dom) || huge_dims(st.scat)) return true;
    for (auto& a : st.acc)
      if (huge_ids(a)) return true;
  }
  return false;
}
static int g_refused, g_read;
// Runs the reader; returns false when it ended in the error exit.
static bool reads(Case& c, const std::function<void()>& f) {
  if (exits(f)) {
    c.leak_exempt = true;
    label("refused");
    if (c.rendering) c.log << "refused\n";
    return false;
  }
  label("read");
  if (c.rendering) c.log << "read\n";
  return true;
}
// What is too large to be inspected here is only freed.
#define INSPECT(...)                                                       \
  try {                                                                    \
    __VA_ARGS__                                                              \
  } catch (Fail & f_) {                                                    \
    if (f_.tag != "size") throw;                                           \
    label("too large to be inspected");                                    \
    c.leak_exempt = true;                                                  \
  }
// The structure of a relation: sizes that its matrix has (the snapshot has read all of it).
static void sound(const MUnion& u) {
  for (auto& r : u) {
    CHECK(r.rows >= 0 && r.cols >= 0, "structure", "a relation has " << r.rows << " rows and " << r.cols << " columns");
    CHECK(r.prec == OSL_PRECISION_SP || r.prec == OSL_PRECISION_DP || r.prec == OSL_PRECISION_MP, "structure",
          "a relation has no precision");
  }
}

// ------------------------------------------------------------------ documents
static void use_scop(Case& c, osl_scop_t* s) {
  MScops m = snap(s);
  bool names = false;
  for (auto& x : m) {
    sound(x.ctx);
    for (auto& st : x.stmts) {
      sound(st.dom);
      sound(st.scat);
      for (auto& a : st.acc) sound(a);
    }
    names = names || huge_ids(x.stmts) || huge_dims(x.ctx);
  }
  osl_scop_t* k = osl_scop_clone(s);
  str d = tdiff(snap(k), m);
  CHECK(d.empty(), "copy", "the copy of the scop read: " << d);
  CHECK(osl_scop_equal(s, k), "copy", "the scop read differs from its copy");
  osl_scop_free(k);
  print_to_string([&](FILE* f) { osl_scop_dump(f, s); });
  bool ok = osl_scop_integrity_check(s);
  label(ok ? "consistent" : "inconsistent");
  if (!names) {
    str t = print_to_string([&](FILE* f) { osl_scop_print(f, s); });
    if (ok && s) {
      // what it says may be refused (a missing field leaves an object that has no text), but is
      // again handled safely
      osl_scop_t* y = nullptr;
      if (exits([&] { y = read_text(t, m[0].ctx.empty() ? OSL_PRECISION_MP : m[0].ctx[0].prec); }))
        c.leak_exempt = true;
      else
        osl_scop_free(y);
    }
  }
  d = tdiff(snap(s), m);
  CHECK(d.empty(), "changed", "looking at the scop read changed it: " << d);
}
static void documents(Case& c) {
  Src& s = c.s;
  GScop g;
  g.e.prec = ALLPREC[s.below(3)];
  g.e.big = s.pct(3);
  g.loose = s.pct(15);
  g.maxstmts = 2;
  Layout l;
  l.s = &s;
  l.noise = s.flip() ? 0 : 40;
  str t = emit(gen_scops(s, g), l, s.pct(20));
  if (s.pct(10)) {  // two texts
    Layout l2;
    l2.s = &s;
    str t2 = emit(gen_scops(s, g), l2, false);
    t = t.substr(0, s.below(t.size() + 1)) + t2.substr(s.below(t2.size() + 1));
  }
  t = mutations(c, t);
  show_text(c, t);
  set_env(g.e.prec);
  FILE* f = file_of(t);
  osl_scop_t* x = nullptr;
  bool r = reads(c, [&] {
    if (s.flip())
      x = osl_scop_read(f);
    else {
      osl_interface_t* reg = osl_interface_get_default_registry();
      x = osl_scop_pread(f, reg, g.e.prec);
      osl_interface_free(reg);
    }
  });
  fclose(f);
  if (!r) return;
  INSPECT(use_scop(c, x);)
  osl_scop_free(x);
}

// ------------------------------------------------------------------ relations
static void relations(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  GRel g;
  g.wide = s.pct(20);
  Layout l;
  l.s = &s;
  l.noise = s.flip() ? 0 : 40;
  emit_relation(gen_any_union(s, prec, g, 3), l);
  str t = s.pct(6) ? soup(s) : mutations(c, l.o);
  show_text(c, t);
  osl_relation_t* x = nullptr;
  int how = s.below(3);
  set_env(prec);
  FILE* f = file_of(t);
  bool r = reads(c, [&] {
    if (how == 0)
      x = osl_relation_pread(f, prec);
    else if (how == 1)
      x = osl_relation_read(f);
    else {
      str b = t;
      char *p = &b[0], *e = p + strlen(p);
      x = osl_relation_psread(&p, prec);
      CHECK(p >= &b[0] && p <= e, "pointer", "the pointer left its text");
    }
  });
  fclose(f);
  if (!r) return;
  INSPECT(
  MUnion m = snap(x);
  sound(m);
  osl_relation_t* k = osl_relation_clone(x);
  SAME(snap(k), m, "copy", "the copy of the relation read");
  CHECK(osl_relation_equal(x, k), "copy", "the relation read differs from its copy");
  osl_relation_free(k);
  print_to_string([&](FILE* o) { osl_relation_dump(o, x); });
  if (!huge_ids(m)) {
    print_to_string([&](FILE* o) { osl_relation_print(o, x); });
    free(osl_relation_sprint(x));
  }
  osl_relation_integrity_check(x, x ? x->type : OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED, OSL_UNDEFINED);
  SAME(snap(x), m, "changed", "looking at the relation read changed it");
  )
  osl_relation_free(x);
}
static void lists(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  GRel g;
  Layout l;
  l.s = &s;
  l.noise = s.flip() ? 0 : 40;
  int n = s.small(3);
  l.line(std::to_string(n));
  for (int i = 0; i < n; i++) emit_relation(gen_any_union(s, prec, g, 2), l);
  str t = mutations(c, l.o);
  show_text(c, t);
  osl_relation_list_t* x = nullptr;
  FILE* f = file_of(t);
  set_env(prec);
  bool r = reads(c, [&] { x = s.flip() ? osl_relation_list_pread(f, prec) : osl_relation_list_read(f); });
  fclose(f);
  if (!r) return;
  INSPECT(
  for (auto& u : snap_list(x)) sound(u);
  print_to_string([&](FILE* o) { osl_relation_list_dump(o, x); });
  bool huge = false;
  for (auto& u : snap_list(x)) huge = huge || huge_ids(u);
  if (!huge) print_to_string([&](FILE* o) { osl_relation_list_print(o, x); });
  osl_relation_list_free(osl_relation_list_clone(x));
  )
  osl_relation_list_free(x);
}
static void statements(Case& c) {
  Src& s = c.s;
  GScop g;
  g.e.prec = ALLPREC[s.below(3)];
  g.loose = s.pct(15);
  g.maxstmts = 2;
  MScops m = gen_scops(s, g);
  Layout l;
  l.s = &s;
  str t = emit(m, l, s.pct(20));
  // from the first statement on
  size_t p = t.find("DOMAIN");
  if (p == str::npos) p = t.find("SCATTERING");
  if (p == str::npos) p = 0;
  // the line of the number of relations is before
  t = mutations(c, std::to_string(s.small(5)) + "\n" + t.substr(p));
  show_text(c, t);
  osl_statement_t* x = nullptr;
  FILE* f = file_of(t);
  set_env(g.e.prec);
  osl_interface_t* reg = osl_interface_get_default_registry();
  bool r = reads(c, [&] { x = s.flip() ? osl_statement_pread(f, reg, g.e.prec) : osl_statement_read(f); });
  fclose(f);
  if (!r) return;
  osl_interface_free(reg);
  INSPECT(
  std::vector<MStmt> v = snap(x);
  for (auto& st : v) {
    sound(st.dom);
    sound(st.scat);
    for (auto& a : st.acc) sound(a);
  }
  osl_statement_t* k = osl_statement_clone(x);
  str d = tdiff(snap(k), v);
  CHECK(d.empty(), "copy", "the copy of the statement read: " << d);
  CHECK(osl_statement_equal(x, k), "copy", "the statement read differs from its copy");
  osl_statement_free(k);
  print_to_string([&](FILE* o) { osl_statement_dump(o, x); });
  if (!huge_ids(v)) print_to_string([&](FILE* o) { osl_statement_print(o, x); });
  osl_statement_integrity_check(x, OSL_UNDEFINED);
  )
  osl_statement_free(x);
}

// ------------------------------------------------------------------ extensions
static void use_data(const str& u, osl_interface_t* i, void* x) {
  T m = snap_data(u, x);
  bool huge = false;
  std::function<void(const T&)> walk = [&](const T& t) {
    if (t.k == T::REL) {
      sound(t.u);
      huge = huge || huge_ids(t.u);
    }
    for (auto& e : t.c) walk(e);
  };
  walk(m);
  void* k = i->clone(x);
  str d = diff(snap_data(u, k), m);
  CHECK(d.empty(), "copy", "the copy of the " << u << " read: " << d);
  CHECK(i->equal(x, k), "copy", "the " << u << " read differs from its copy");
  i->free(k);
  print_to_string([&](FILE* o) { i->idump(o, x, 1); });
  if (x && !huge) free(i->sprint(x));
  d = diff(snap_data(u, x), m);
  CHECK(d.empty(), "changed", "looking at the " << u << " read changed it: " << d);
}
static void extensions(Case& c) {
  Src& s = c.s;
  GExt g;
  g.prec = ALLPREC[s.below(3)];
  g.big = s.pct(4);
  str u = EXT_URIS[s.below(EXT_URIS.size())];
  if (u == "textual") u = "extbody";
  label(u);
  if (c.rendering) c.log << u << "\n";
  Layout l;
  l.s = &s;
  l.noise = s.flip() ? 0 : 40;
  str t = s.pct(5) ? soup(s) : mutations(c, ext_text(gen_ext(s, u, g), l));
  t = t.c_str();
  show_text(c, t);
  set_env(g.prec);
  void* x = nullptr;
  osl_interface_t* i = ext_interface(u);
  str b = t;
  char *p = &b[0], *e = p + b.size();
  if (!reads(c, [&] { x = i->sread(&p); })) return;
  CHECK(p >= &b[0] && p <= e, "pointer", "the pointer left its text");
  CHECK(t == b, "text", "reading a " << u << " changed the text");
  INSPECT(use_data(u, i, x);)
  i->free(x);
  osl_interface_free(i);
}
static void generics(Case& c) {
  Src& s = c.s;
  GExt g;
  g.prec = ALLPREC[s.below(3)];
  Layout l;
  l.s = &s;
  emit_generics(gen_exts(s, EXT_READABLE, 4, g), l, s.pct(20) ? 30 : 0);
  str t = s.pct(4) ? soup(s) : mutations(c, l.o);
  int how = s.below(4);
  bool file = how < 2;
  if (!file) t = t.c_str();
  show_text(c, t);
  set_env(g.prec);
  osl_generic_t* x = nullptr;
  osl_interface_t* reg = osl_interface_get_default_registry();
  FILE* f = file_of(t + (s.flip() ? "</OpenScop>\n" : ""));
  str b = t;
  char *p = &b[0], *e = p + b.size();
  bool r = reads(c, [&] {
    x = how == 0   ? osl_generic_read(f, reg)
        : how == 1 ? osl_generic_read_one(f, reg)
        : how == 2 ? osl_generic_sread(&p, reg)
                   : osl_generic_sread_one(&p, reg);
  });
  fclose(f);
  if (!r) return;
  CHECK(p >= &b[0] && p <= e, "pointer", "the pointer left its text");
  CHECK(t == b, "text", "reading generics changed the text");
  INSPECT(
  std::vector<T> m = snap_generics(x);
  osl_generic_t* k = osl_generic_clone(x);
  str d = diff(snap_generics(k), m);
  CHECK(d.empty(), "copy", "the copy of the generics read: " << d);
  CHECK(osl_generic_equal(x, k), "copy", "the generics read differ from their copy");
  osl_generic_free(k);
  print_to_string([&](FILE* o) { osl_generic_dump(o, x); });
  bool huge = false;
  std::function<void(const T&)> walk = [&](const T& t) {
    if (t.k == T::REL) {
      sound(t.u);
      huge = huge || huge_ids(t.u);
    }
    for (auto& q : t.c) walk(q);
  };
  for (auto& q : m) walk(q);
  if (!huge) {
    print_to_string([&](FILE* o) { osl_generic_print(o, x); });
    free(osl_generic_sprint(x));
  }
  )
  osl_generic_free(x);
  osl_interface_free(reg);
}

// ------------------------------------------------------------------ token readers
static void readers(Case& c) {
  Src& s = c.s;
  str t = s.flip() ? soup(s) : mutations(c, soup(s));
  c.nontrivial = true;
  bool file = s.flip();
  int n = 1 + s.small(6);
  if (!file) t = t.c_str();
  show_text(c, t);
  FILE* f = file_of(t);
  str b = t;
  char *p = &b[0], *e = p + b.size();
  bool stop = false;
  for (int k = 0; k < n && !stop; k++) {
    int op = s.below(11);
    if (c.rendering) c.log << "reader " << op << " from " << (file ? "a file" : "a string") << "\n";
    str w = junk(s);
    if (w.empty()) w = "strings";
    char** sp = file ? nullptr : &p;
    FILE* fp = file ? f : nullptr;
    char* r = nullptr;
    osl_int_t z;
    int prec = ALLPREC[s.below(3)];
    stop = !reads(c, [&] {
      switch (op) {
        case 0:
          osl_util_read_int(fp, sp);
          break;
        case 1:
          r = osl_util_read_string(fp, sp);
          break;
        case 2:
          r = osl_util_read_line(fp, sp);
          break;
        case 3:
          r = osl_util_read_tag(fp, sp);
          break;
        case 4:
          r = osl_util_read_uptoflag(fp, sp, w.c_str());
          break;
        case 5:
          r = osl_util_read_uptotag(fp, sp, w.c_str());
          break;
        case 6:
          r = osl_util_read_uptoendtag(fp, sp, w.c_str());
          break;
        case 7: {
          str x = t;
          r = osl_util_tag_content(&x[0], w.c_str());
          break;
        }
        case 8:
          if (file) {
            osl_strings_t* st = osl_strings_read(f);
            osl_strings_size(st);
            osl_strings_free(st);
          } else {
            osl_strings_t* st = osl_strings_sread(&p);
            osl_strings_size(st);
            osl_strings_free(st);
          }
          break;
        case 9:
          if (file) break;
          osl_int_init(prec, &z);
          osl_int_sread(&p, prec, &z);
          osl_int_clear(prec, &z);
          break;
        default:
          if (!file) break;
          r = osl_util_read_full_line(f);
      }
    });
    if (stop) break;
    if (r) {
      size_t len = strlen(r);
      CHECK(len <= t.size() + 1, "too-long", "a reader returns more than there is");
      free(r);
    }
    CHECK(p >= &b[0] && p <= e, "pointer", "reader " << op << ": the pointer left its text");
    CHECK(t == b, "text", "reader " << op << " changed the text");
  }
  fclose(f);
}

// ------------------------------------------------------------------ texts that break the format
// A well-formed text in its plain layout, one certain defect, and then any layout: it must be
// refused with the error exit, whichever way it is read.
typedef std::vector<str> Lines;
static const char* relword(Src& s) {  // not a relation type
  static const char* w[] = {"DOMAINS", "domain", "DOMAI",  "READS",   "REA",    "WRITES", "write",  "MAYWRITE", "MAY",
                            "CONTEX",  "contextual", "SCATTERINGS", "SCATTER", "ACCESS", "MUST_WRITE", "relation", "UNDEF",
                            "Context", "undefined",  "7",   "-1", "RDWR",   "MAY_WRITES", "MAY_READ", "CONTEXT_", "xREAD"};
  return w[s.below(sizeof w / sizeof *w)];
}
static const char* notnum(Src& s) {
  static const char* w[] = {"abc", "x1", "-", "--2", "<", "N", "_3", "->", "(3)", "*", "z", "-a", "\"1\"", ",1", "=2"};
  return w[s.below(sizeof w / sizeof *w)];
}
static const char* keyword(int type) {
  switch (type) {
    case OSL_TYPE_CONTEXT:
      return "CONTEXT";
    case OSL_TYPE_DOMAIN:
      return "DOMAIN";
    case OSL_TYPE_SCATTERING:
      return "SCATTERING";
    case OSL_TYPE_READ:
      return "READ";
    case OSL_TYPE_WRITE:
      return "WRITE";
    case OSL_TYPE_MAY_WRITE:
      return "MAY_WRITE";
  }
  return "UNDEFINED";
}
static Lines rel_lines(const MUnion& u, bool count) {
  Lines l = {keyword(u[0].type)};
  if (count || u.size() > 1) l.push_back(std::to_string(u.size()));
  for (auto& r : u) {
    str h;
    for (int v : {r.rows, r.cols, r.out, r.in, r.local, r.params}) h += (h.empty() ? "" : " ") + std::to_string(v);
    l.push_back(h);
    for (auto& row : r.m) {
      str t;
      for (auto& z : row) t += (t.empty() ? "" : " ") + z.get_str();
      if (!row.empty()) l.push_back(t);
    }
  }
  return l;
}
static str with_token(const str& line, size_t k, const str& w) {
  auto v = tokens(line);
  str r = line;
  r.replace(v[k].first, v[k].second, w);
  return r;
}
// `l`: the lines of u, complete. Cuts are only allowed when nothing follows.
static void spoil_relation(Src& s, Lines& l, const MUnion& u, bool count, bool last, int prec, str* what) {
  count = count || u.size() > 1;
  struct Row {
    size_t line;
    int cols;
  };
  std::vector<Row> rows;
  std::vector<size_t> heads;
  size_t k = 1 + (count ? 1 : 0);
  for (auto& r : u) {
    heads.push_back(k++);
    for (auto& row : r.m)
      if (!row.empty()) rows.push_back({k++, (int)row.size()});
  }
  for (;;) switch (s.below(11)) {
      case 0:
        l[0] = relword(s);
        *what = "relation type " + l[0];
        return;
      case 1: {  // the first part may only have 1 number when there is no count before
        int p = s.below((uint32_t)heads.size());
        static const int n1[] = {2, 3, 4, 5, 1};
        int n = n1[s.below(p || count ? 5 : 4)];
        auto v = tokens(l[heads[p]]);
        l[heads[p]].resize(v[n - 1].first + v[n - 1].second);
        *what = std::to_string(n) + " numbers in the header of part " + std::to_string(p + 1);
        return;
      }
      case 2: {
        int p = s.below((uint32_t)heads.size());
        int t = s.below(6);
        static const char* big[] = {"4294967296", "4294967297", "2147483648", "-4294967295", "99999999999999999999"};
        if (s.pct(40)) {
          str w = big[s.below(5)];
          size_t at = count && s.pct(20) ? 1 : heads[p];
          l[at] = with_token(l[at], at == 1 && count ? 0 : t, w);
          *what = "a size beyond the int range: " + l[at];
          return;
        }
        if (t == 1 && !p && !count) continue;
        l[heads[p]] = with_token(l[heads[p]], t, notnum(s));
        *what = "no number in the header of part " + std::to_string(p + 1);
        return;
      }
      case 3:
        if (!count) continue;
        l[1] = std::to_string(-s.small(6));
        *what = "a union of " + l[1] + " parts";
        return;
      case 4: {
        if (rows.empty()) continue;
        auto& r = rows[s.below((uint32_t)rows.size())];
        auto v = tokens(l[r.line]);
        int n = s.below(r.cols);
        if (n)
          l[r.line].resize(v[n - 1].first + v[n - 1].second);
        else if (last && &r == &rows.back())
          l.erase(l.begin() + r.line);
        else
          continue;
        *what = "a row of " + std::to_string(n) + " numbers instead of " + std::to_string(r.cols);
        return;
      }
      case 5: {
        if (rows.empty()) continue;
        auto& r = rows[s.below((uint32_t)rows.size())];
        l[r.line] = with_token(l[r.line], s.below(r.cols), notnum(s));
        *what = "no number in a row: " + l[r.line];
        return;
      }
      case 6: {
        if (rows.empty() || prec == OSL_PRECISION_MP) continue;
        auto& r = rows[s.below((uint32_t)rows.size())];
        static const char* big[] = {"9223372036854775808", "-9223372036854775809", "18446744073709551616",
                                    "18446744073709551617", "-99999999999999999999999", "1000000000000000000000000000000"};
        l[r.line] = with_token(l[r.line], s.below(r.cols), big[s.below(6)]);
        *what = "a number that the precision cannot hold: " + l[r.line];
        return;
      }
      case 7: {
        if (!last) continue;
        l.resize(s.below((uint32_t)l.size()));
        *what = "cut after " + std::to_string(l.size()) + " lines of the relation";
        return;
      }
      case 8: {
        int p = s.below((uint32_t)heads.size());
        int t = s.below(2);
        l[heads[p]] = with_token(l[heads[p]], t, std::to_string(-1 - s.small(5)));
        *what = "a negative size in part " + std::to_string(p + 1);
        return;
      }
      case 9: {  // more parts than there are: a header is expected after the last one
        if (!count || !last) continue;
        l[1] = std::to_string(u.size() + 1 + s.small(4));
        *what = "a union of " + l[1] + " parts instead of " + std::to_string(u.size());
        return;
      }
      default: {  // one more row than there are
        if (rows.empty() || !last) continue;
        int p = (int)u.size() - 1;
        if (u[p].cols < 1) continue;
        l[heads[p]] = with_token(l[heads[p]], 0, std::to_string(u[p].rows + 1 + s.small(3)));
        *what = "more rows than there are in part " + std::to_string(p + 1);
        return;
      }
    }
}
static str laid_out(Src& s, const Lines& l, const std::vector<char>& plain = {}) {
  bool noisy = s.pct(40);
  str r;
  for (size_t i = 0; i < l.size(); i++) {
    bool free = noisy && (plain.empty() || !plain[i]);
    if (free && s.pct(10)) r += s.flip() ? "\n" : s.flip() ? "# a comment\n" : "  \n\t\n";
    if (free && s.pct(10)) r += "  ";
    r += l[i];
    if (free && s.pct(10)) r += s.flip() ? "  " : " # why";
    r += "\n";
  }
  return r;
}
static void must_refuse(Case& c, const str& what, const str& t, const std::function<void()>& f, const char* how) {
  if (c.rendering) c.log << "defect: " << what << "\nread with " << how << "\n";
  show_text(c, t);
  c.nontrivial = true;
  c.leak_exempt = true;
  label(how);
  CHECK(exits(f), "accepted", "a text with a defect (" << what << ") is accepted by " << how);
}
static void refusals_relation(Case& c) {
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  GRel g;
  g.wide = s.pct(20);
  MUnion u = gen_any_union(s, prec, g, 4);
  for (size_t i = 1; i < u.size(); i++) u[i].type = u[0].type;
  bool count = s.flip();
  Lines l = rel_lines(u, count);
  str what;
  int how = s.below(7);
  set_env(prec);
  if (how >= 4) {  // in a list
    int n = 1 + s.small(3), at = s.below(n);
    Lines all = {std::to_string(n)};
    for (int i = 0; i < n; i++) {
      Lines x = l;
      if (i == at && how < 6) spoil_relation(s, x, u, count, i == n - 1, prec, &what);
      all.insert(all.end(), x.begin(), x.end());
    }
    if (how == 6) {
      if (s.flip()) {
        all[0] = std::to_string(n + 1 + s.small(3));
        what = "more relations announced than there are";
      } else if (s.flip()) {
        all[0] = std::to_string(-1 - s.small(4));
        what = "a negative number of relations";
      } else {
        all[0] = notnum(s);
        what = "no number of relations";
      }
    }
    str t = laid_out(s, all);
    FILE* f = file_of(t);
    must_refuse(c, what, t, [&] { how == 4 ? osl_relation_list_pread(f, prec) : osl_relation_list_read(f); },
                "osl_relation_list_read");
    fclose(f);
    return;
  }
  spoil_relation(s, l, u, count, true, prec, &what);
  if (how == 3 && !what.compare(0, 13, "relation type")) how = 2;
  if (how == 3 && !l.empty()) l.erase(l.begin());  // without the type
  str t = laid_out(s, l);
  FILE* f = file_of(t);
  str b = t;
  char* p = &b[0];
  static const char* n[] = {"osl_relation_pread", "osl_relation_read", "osl_relation_psread", "osl_relation_psread_polylib"};
  must_refuse(c, what, t,
              [&] {
                how == 0   ? osl_relation_pread(f, prec)
                : how == 1 ? osl_relation_read(f)
                : how == 2 ? (s.flip() ? osl_relation_psread(&p, prec) : osl_relation_sread(&p))
                           : osl_relation_psread_polylib(&p, prec);
              },
              n[how]);
  fclose(f);
}
// A whole document as lines. `plain` lines take no layout.
struct Doc {
  Lines l;
  std::vector<char> plain;
  void add(const str& x, bool pl = false) {
    l.push_back(x);
    plain.push_back(pl);
  }
  void add(const Lines& x, bool pl = false) {
    for (auto& e : x) add(e, pl);
  }
};
static Lines generic_lines(const T& t) {
  Layout l;
  Lines v = {"<" + t.name + ">"};
  str x = ext_text(t, l);
  for (auto& e : lines_of(x)) v.push_back(e);
  v.push_back("</" + t.name + ">");
  return v;
}
static bool spoil_generic(Src& s, Lines& v, str* what) {
  switch (s.below(4)) {
    case 0: {
      static const char* bad[] = {"1", "-", " ", ".", "<", "\"", "9", "(", "!", "/"};
      v[0].insert(1 + s.range(1, (int)v[0].size() - 2), bad[s.below(10)]);
      *what = "no tag: " + v[0];
      return true;
    }
    case 1:
      v[0].pop_back();
      *what = "no tag: " + v[0];
      return true;
    case 2:
      v[0] = v[0].substr(1);
      *what = "no tag: " + v[0];
      return true;
    default:
      v.pop_back();
      *what = "no end tag of " + v[0];
      return false;  // only when there is no other
  }
}
static void refusals_document(Case& c) {
  Src& s = c.s;
  GScop g;
  int prec = g.e.prec = ALLPREC[s.below(3)];
  g.maxstmts = 3;
  g.maxscops = 2;
  MScops m = gen_scops(s, g);
  if (m.empty()) discard();
  // where the defect goes
  int kind = s.below(14);
  size_t ms = s.below((uint32_t)m.size());
  MScop& x = m[ms];
  size_t ns = x.stmts.size(), st = ns ? s.below((uint32_t)ns) : 0;
  if (kind >= 4 && kind <= 8 && !ns) discard();
  str what;
  Doc d;
  size_t cut_from = 0;
  str tail_tag;  // must not be found in the rest
  size_t tail_at = 0;
  auto num = [&](long n, int k, bool on) -> str {
    // a count, spoilt when asked: a word, or a wrong number when that is certain to be refused
    if (!on) return std::to_string(n);
    what = "no number where a count is expected (" + std::to_string(k) + ")";
    return notnum(s);
  };
  auto generic = [&](const T& t, bool on, bool lasttag) {
    Lines v = generic_lines(t);
    if (on) {
      if (!spoil_generic(s, v, &what)) {
        if (!lasttag) discard();
        tail_tag = "</" + t.name + ">";
      }
    }
    d.add(v, true);
    if (!tail_tag.empty() && !tail_at) tail_at = d.l.size();
  };
  for (size_t i = 0; i < m.size(); i++) {
    MScop& y = m[i];
    bool here = i == ms;
    cut_from = d.l.size() + 1;
    d.add("<OpenScop>");
    if (here && kind == 0)
      what = "no language";
    else
      d.add(y.language.s);
    {
      Lines l = rel_lines(y.ctx, false);
      if (here && kind == 1) spoil_relation(s, l, y.ctx, false, false, prec, &what);
      d.add(l);
    }
    if (here && kind == 2) {
      if (s.flip())
        d.add(num(0, 1, true));
      else {
        d.add(y.params.empty() ? str(s.flip() ? "1" : "3") : str(s.flip() ? "0" : "-1"));
        what = "a wrong number of parameters";
      }
    } else
      d.add(y.params.empty() ? "0" : "1");
    bool pg = here && kind == 9 && !y.params.empty();
    for (auto& t : y.params) generic(t, pg, true);
    if (here && kind == 3) {
      int q = s.below(4);
      if (q == 0)
        d.add(num(0, 2, true));
      else if (q == 3) {
        d.add(std::to_string(-1 - s.small(3)));
        what = "a negative number of statements";
      } else if (q == 1 || y.stmts.empty()) {
        d.add(std::to_string(y.stmts.size() + 1 + s.small(3)));
        what = "more statements announced than there are";
      } else {
        d.add(std::to_string(s.below((uint32_t)y.stmts.size())));
        what = "less statements announced than there are";
      }
    } else
      d.add(std::to_string(y.stmts.size()));
    for (size_t j = 0; j < y.stmts.size(); j++) {
      MStmt& t = y.stmts[j];
      bool hs = here && j == st;
      std::vector<const MUnion*> rel;
      for (auto& a : t.acc) rel.push_back(&a);
      for (const MUnion* u : {&t.scat, &t.dom})
        if (!u->empty()) rel.insert(rel.begin() + s.below((uint32_t)rel.size() + 1), u);
      std::vector<MUnion> own;
      for (auto* u : rel) own.push_back(*u);
      if (hs && kind == 4) {  // a relation that has no place here
        MUnion u = !t.dom.empty() ? t.dom : y.ctx;
        int q = s.below(4);
        if (q == 0 && t.dom.empty()) q = 2;
        if (q == 1 && t.scat.empty()) q = 3;
        int ty = q == 0   ? OSL_TYPE_DOMAIN
                 : q == 1 ? OSL_TYPE_SCATTERING
                 : q == 2 ? OSL_TYPE_CONTEXT
                          : OSL_UNDEFINED;
        for (auto& e : u) e.type = ty;
        own.insert(own.begin() + s.below((uint32_t)own.size() + 1), u);
        what = str("a statement with ") + (q == 0 ? "two domains" : q == 1 ? "two scatterings" : q == 2 ? "a context" : "an undefined relation");
      }
      if (hs && kind == 5) {
        int q = s.below(4);
        if (q == 0)
          d.add(num(0, 3, true));
        else if (q == 1) {
          d.add(std::to_string(own.size() + 1 + s.small(3)));
          what = "more relations announced than there are";
        } else if (q == 2 && !own.empty()) {
          d.add(std::to_string(s.below((uint32_t)own.size())));
          what = "less relations announced than there are";
        } else {
          d.add(std::to_string(-1 - s.small(3)));
          what = "a negative number of relations";
        }
      } else
        d.add(std::to_string(own.size()));
      size_t rk = own.empty() ? 0 : s.below((uint32_t)own.size());
      if (hs && (kind == 6 || kind == 7) && own.empty()) discard();
      for (size_t k = 0; k < own.size(); k++) {
        Lines l = rel_lines(own[k], false);
        if (hs && (kind == 6 || kind == 7) && k == rk) spoil_relation(s, l, own[k], false, false, prec, &what);
        d.add(l);
      }
      if (hs && kind == 8) {
        int q = s.below(4);
        if (q == 3) {
          d.add(std::to_string(-1 - s.small(3)));
          what = "a negative number of statement extensions";
        } else if (q == 0 || t.ext.empty() || j + 1 == y.stmts.size())
          d.add(num(0, 4, true));
        else if (q == 1) {
          d.add(std::to_string(t.ext.size() + 1 + s.small(3)));
          what = "more statement extensions announced than there are";
        } else {
          d.add(std::to_string(s.below((uint32_t)t.ext.size())));
          what = "less statement extensions announced than there are";
        }
      } else
        d.add(std::to_string(t.ext.size()));
      size_t ek = t.ext.empty() ? 0 : s.below((uint32_t)t.ext.size());
      for (size_t k = 0; k < t.ext.size(); k++) generic(t.ext[k], hs && kind == 10 && k == ek, true);
    }
    size_t ek = y.ext.empty() ? 0 : s.below((uint32_t)y.ext.size());
    for (size_t k = 0; k < y.ext.size(); k++) generic(y.ext[k], here && kind == 11 && k == ek, true);
    d.add("</OpenScop>");
  }
  if (kind >= 12) {  // cut inside the last scop
    size_t n = cut_from + s.below((uint32_t)(d.l.size() - cut_from));
    d.l.resize(n);
    d.plain.resize(n);
    what = "cut after " + std::to_string(n) + " lines";
  }
  if (what.empty()) discard();
  if (!tail_tag.empty())
    for (size_t i = tail_at; i < d.l.size(); i++)
      if (d.l[i].find(tail_tag) != str::npos) discard();
  str t = laid_out(s, d.l, d.plain);
  if (kind == 13 && t.size() && s.flip()) {
    t.pop_back();
    what += " (no newline)";
  }
  FILE* f = file_of(t);
  set_env(prec);
  bool own = s.flip();
  osl_interface_t* reg = osl_interface_get_default_registry();
  must_refuse(c, what, t, [&] { own ? osl_scop_read(f) : osl_scop_pread(f, reg, prec); }, "osl_scop_read");
  fclose(f);
}
static void refusals_extension(Case& c) {
  Src& s = c.s;
  GExt g;
  int prec = g.prec = ALLPREC[s.below(3)];
  static const std::vector<str> U = {"arrays", "scatinfos", "coordinates", "extbody",    "loop",      "region", "annotation",
                                     "symbols", "dependence", "irregular", "pluto_unroll", "relation", "body"};
  str u = s.pick(U);
  T x = gen_ext(s, u, g);
  if (x.k == T::NIL) discard();
  Layout lay;
  Lines l = lines_of(ext_text(x, lay));
  if (l.empty()) discard();
  str what;
  size_t first = u == "coordinates" ? 1 : 0;  // the line of the first number
  if (u == "relation") {
    MUnion v = x.u;
    l = rel_lines(v, false);
    spoil_relation(s, l, v, false, true, prec, &what);
  } else {
    int q = s.below(7);
    bool counted = u == "loop" || u == "region" || u == "symbols" || u == "scatinfos" || u == "arrays" || u == "dependence";
    bool cuttable = u == "scatinfos" || u == "arrays" || u == "coordinates" || u == "pluto_unroll" || u == "dependence";
    bool numbers = u == "scatinfos" || u == "coordinates";
    if (q >= 4) {  // any number of the text
      ext_number = NumberHook();
      ext_number.list = true;
      Layout plain;
      ext_text(x, plain);
      NumberHook h;
      h.at = s.below((uint32_t)ext_number.count);
      bool negative = s.pct(30) && !ext_number.counts.empty();
      if (negative) h.at = s.pick(ext_number.counts);
      static const char* big[] = {"4294967296", "-2147483649", "99999999999999999999", "-4294967295", "4294967297"};
      h.word = negative ? std::to_string(-1 - s.small(3)) : s.pct(60) ? notnum(s) : big[s.below(5)];
      ext_number = h;
      l = lines_of(ext_text(x, plain));
      ext_number = NumberHook();
      what = "number " + std::to_string(h.at) + " is " + h.word;
    } else if (q == 0 && counted) {
      long n = strtol(l[0].c_str(), nullptr, 10);
      if (u == "region" && n == 0) discard();
      l[0] = std::to_string(n + 1 + s.small(3));
      what = "more elements announced than there are";
    } else if (q == 1 && cuttable) {
      l.resize(s.below((uint32_t)l.size()));
      what = "cut after " + std::to_string(l.size()) + " lines";
    } else if (q == 2 && numbers) {
      size_t k = first + s.below((uint32_t)(l.size() - first));
      l[k] = with_token(l[k], s.below((uint32_t)tokens(l[k]).size()), notnum(s));
      what = "no number: " + l[k];
    } else if (q == 3 && u == "dependence" && l.size() > 1) {
      // an element: words on lines (type and five numbers), the line of 8 numbers, a relation
      size_t k = 0;
      while (k < l.size() && tokens(l[k]).size() != 8) k++;
      if (k == l.size()) discard();
      int n = 1 + s.below(7);
      auto v = tokens(l[k]);
      l[k].resize(v[n - 1].first + v[n - 1].second);
      what = "less than 8 numbers: " + l[k];
    } else {
      l[first] = with_token(l[first], 0, notnum(s));
      what = "no number: " + l[first];
    }
  }
  str t = laid_out(s, l, std::vector<char>(l.size(), 1));
  set_env(prec);
  osl_interface_t* i = ext_interface(u);
  str b = t;
  char* p = &b[0];
  what = u + ": " + what;
  bool known = std::find(DEFAULT_REGISTRY.begin(), DEFAULT_REGISTRY.end(), u) != DEFAULT_REGISTRY.end();
  if (s.flip() || !known) {
    must_refuse(c, what, t, [&] { i->sread(&p); }, "sread");
    return;
  }
  t = "<" + u + ">\n" + t + "</" + u + ">\n";
  b = t;
  p = &b[0];
  osl_interface_t* reg = osl_interface_get_default_registry();
  if (s.flip())
    must_refuse(c, what, t, [&] { osl_generic_sread(&p, reg); }, "osl_generic_sread");
  else {
    FILE* f = file_of(t);
    must_refuse(c, what, t, [&] { osl_generic_read_one(f, reg); }, "osl_generic_read_one");
    fclose(f);
  }
}
static void refusals_generics(Case& c) {
  Src& s = c.s;
  GExt g;
  g.prec = ALLPREC[s.below(3)];
  std::vector<T> v = gen_exts(s, EXT_READABLE, 4, g);
  if (v.empty()) discard();
  str what, end;
  size_t at = s.below((uint32_t)v.size());
  Lines all;
  bool tagged = true;
  size_t rest = 0;
  for (size_t i = 0; i < v.size(); i++) {
    Lines x = generic_lines(v[i]);
    if (i == at) {
      tagged = spoil_generic(s, x, &what);
      if (!tagged) end = "</" + v[i].name + ">";
    }
    all.insert(all.end(), x.begin(), x.end());
    if (i == at) rest = all.size();
  }
  if (!tagged)
    for (size_t i = rest; i < all.size(); i++)
      if (all[i].find(end) != str::npos) discard();
  str t = laid_out(s, all, std::vector<char>(all.size(), 1));
  set_env(g.prec);
  osl_interface_t* reg = osl_interface_get_default_registry();
  str b = t;
  char* p = &b[0];
  if (s.flip())
    must_refuse(c, what, t, [&] { osl_generic_sread(&p, reg); }, "osl_generic_sread");
  else {
    FILE* f = file_of(t + "</OpenScop>\n");
    must_refuse(c, what, t, [&] { osl_generic_read(f, reg); }, "osl_generic_read");
    fclose(f);
  }
}
static void refusals(Case& c) {
  switch (c.s.below(5)) {
    case 0:
      return refusals_relation(c);
    case 1:
    case 2:
      return refusals_document(c);
    case 3:
      return refusals_extension(c);
    default:
      return refusals_generics(c);
  }
}

static void init() { pbt::alloc_limit = 48u << 20; }
Property pbt::property = {
    "P25",
    "a case is non-trivial when at least one mutation was applied to a valid text (sub-check readers: always)",
    {{"documents", documents, 16000, 900000, true},
     {"relations", relations, 16000, 500000, true},
     {"lists", lists, 6000, 200000, true},
     {"statements", statements, 8000, 300000, true},
     {"extensions", extensions, 24000, 900000, true},
     {"generics", generics, 8000, 300000, true},
     {"readers", readers, 12000, 400000, true},
     {"refusals", refusals, 16000, 600000, true}},
    init};
