// P04: string forms of relations, bodies and extensions read back faithfully.
#include <algorithm>

#include "scop.h"
using namespace pbt;

static std::vector<std::string> uris() {
  std::vector<std::string> v = EXT_READABLE;
  if (std::find(v.begin(), v.end(), "irregular") == v.end()) v.push_back("irregular");
  return v;
}
static bool greedy(const std::string& u) { return u == "comment" || u == "clay" || u == "null" || u == "textual"; }
static GExt options(Case& c) {
  GExt g;
  g.prec = ALLPREC[c.s.below(3)];
  g.big = c.s.pct(10);
  return g;
}
static bool only_comments(const char* p) {
  while (*p) {
    if (*p == '#')
      while (*p && *p != '\n') p++;
    else if (isspace((unsigned char)*p))
      p++;
    else
      return false;
  }
  return true;
}
static size_t weight(const T& t) {
  size_t n = t.k == T::STR ? t.s.size() / 8 : 1;
  for (auto& x : t.c) n += weight(x);
  for (auto& r : t.u) n += r.rows;
  return n;
}
// print, then read
static void roundtrip(Case& c) {
  GExt g = options(c);
  std::vector<std::string> us = uris();
  std::string u = c.s.pick(us);
  label(u);
  T t = gen_ext(c.s, u, g);
  c.nontrivial = weight(t) > 4;
  if (c.rendering) c.log << precname(g.prec) << "\n" << show(t);
  set_env(g.prec);
  osl_interface_t* it = ext_interface(u);
  void* d = build_data(t);
  char* text = it->sprint(d);
  CHECK(text, "sprint", "no text for " << u);
  if (c.rendering) c.log << "---- printed\n" << text;
  char* p = text;
  void* r = it->sread(&p);
  CHECK(p >= text && p <= text + strlen(text), "consumes", "the input is moved out of the text");
  CHECK(only_comments(p), "consumes", "reading " << u << " leaves \"" << p << "\"");
  std::string df = diff(snap_data(u, r), t);
  CHECK(df.empty(), "roundtrip", "after printing and reading: " << df);
  CHECK(it->equal(d, r) && it->equal(r, d), "equal", "what was read is not equal to what was printed");
  // the text of what was read is the same
  char* text2 = it->sprint(r);
  CHECK(text2 && !strcmp(text, text2), "reprint", "printing what was read gives \"" << (text2 ? text2 : "(none)") << "\"");
  free(text2);
  free(text);
  it->free(d);
  it->free(r);
  osl_interface_free(it);
}
// The text of an independent writer, in any layout, items one after the other.
static void sequence(Case& c) {
  GExt g = options(c);
  std::vector<std::string> us = uris();
  int n = 1 + c.s.small(4);
  std::vector<T> v;
  std::vector<osl_interface_t*> its;
  std::string all;
  set_env(g.prec);
  for (int i = 0; i < n; i++) {
    std::string u = c.s.pick(us);
    if (greedy(u) && n > 1) u = "body";
    T t = gen_ext(c.s, u, g);
    v.push_back(t);
    its.push_back(ext_interface(u));
    if (c.s.flip()) {
      Layout l;
      l.s = &c.s;
      l.noise = 20 * c.s.below(6);
      all += ext_text(t, l);
    } else {
      void* d = build_data(t);
      bool file = c.s.flip();
      if (file && u == "body") {
        all += print_to_string([&](FILE* f) { osl_body_print(f, (osl_body_t*)d); });
      } else if (file && u == "strings") {
        all += print_to_string([&](FILE* f) { osl_strings_print(f, (osl_strings_t*)d); });
      } else if (file && u == "dependence") {
        all += print_to_string([&](FILE* f) { osl_dependence_print(f, (osl_dependence_t*)d); });
      } else {
        char* x = its[i]->sprint(d);
        CHECK(x, "sprint", "no text for " << u);
        all += x;
        free(x);
      }
      its[i]->free(d);
    }
  }
  c.nontrivial = n > 1;
  if (c.rendering) c.log << precname(g.prec) << "\n" << show(tree(std::vector<MStmt>{})) << "---- text\n" << all;
  std::string copy = all;
  char* p = &all[0];
  for (int i = 0; i < n; i++) {
    void* r = its[i]->sread(&p);
    CHECK(p >= &all[0] && p <= &all[0] + all.size(), "consumes", "the input is moved out of the text");
    std::string df = diff(snap_data(v[i].name, r), v[i]);
    CHECK(df.empty(), "read", "item " << i << " (" << v[i].name << ") is not read as written: " << df);
    its[i]->free(r);
    osl_interface_free(its[i]);
  }
  CHECK(only_comments(p), "consumes", "reading all the items leaves \"" << p << "\"");
  CHECK(all == copy, "input", "reading changed the text");
}
// The whole text is the content of a textual extension, which prints nothing.
static void textual(Case& c) {
  GExt g = options(c);
  g.readable = true;
  Layout l;
  l.s = &c.s;
  l.noise = c.s.flip() ? 0 : 60;
  std::string t;
  if (c.s.pct(90)) emit_generics(gen_exts(c.s, EXT_READABLE, 3, g), l, 20);
  t = l.o;
  if (c.s.pct(20)) t += c.s.pick(std::vector<std::string>{"\n", "<", "text", "# end", " \n\n", "</textual>\n"});
  t = t.c_str();
  c.nontrivial = t.size() > 20;
  if (c.rendering) c.log << "---- text\n" << t;
  std::string b = t;
  char* p = &b[0];
  osl_interface_t* it = ext_interface("textual");
  osl_textual_t* x = (osl_textual_t*)it->sread(&p);
  CHECK(x && x->textual && t == x->textual, "textual", "the content is not the text: \"" << (x && x->textual ? x->textual : "(none)") << "\"");
  CHECK(p == &b[0] + b.size(), "consumes", "reading leaves \"" << p << "\"");
  CHECK(b == t, "text", "reading changed the text");
  CHECK(!it->sprint(x), "sprint", "a textual extension has a text of its own");
  osl_textual_t* k = (osl_textual_t*)it->clone(x);
  b.assign(b.size(), 'x');
  CHECK(t == x->textual, "shared", "the content changes with the text");
  x->textual[0] = x->textual[0] ? 'y' : 0;
  CHECK(k && k != x && k->textual && t == k->textual, "clone", "the copy is not the same");
  it->free(x);
  it->free(k);
  char* none = nullptr;
  CHECK(!it->sread(&none), "textual", "something is read from no text");
  osl_interface_free(it);
}
// Lists of generics: all the tags of a text.
static void generics(Case& c) {
  GExt g = options(c);
  std::vector<T> v = gen_exts(c.s, EXT_READABLE, c.s.pct(10) ? 12 : 4, g);
  c.nontrivial = v.size() > 1;
  if (c.rendering)
    for (auto& t : v) c.log << show(t);
  set_env(g.prec);
  osl_generic_t* x = build_generics(v);
  char* text = osl_generic_sprint(x);
  if (c.rendering) c.log << "---- printed\n" << text;
  std::string filed = print_to_string([&](FILE* f) { osl_generic_print(f, x); });
  CHECK(filed == text, "print", "osl_generic_print and osl_generic_sprint differ");
  osl_interface_t* reg = osl_interface_get_default_registry();
  osl_generic_t* r;
  if (c.s.flip()) {
    char* p = text;
    r = osl_generic_sread(&p, reg);
    CHECK(*p == '\0', "consumes", "reading leaves \"" << p << "\"");
  } else {
    FILE* f = file_of(std::string(text) + "</OpenScop>\n");
    r = osl_generic_read(f, reg);
    fclose(f);
  }
  std::string d = diff(snap_generics(r), v);
  CHECK(d.empty(), "roundtrip", "after printing and reading: " << d);
  CHECK(osl_generic_equal(x, r) && osl_generic_equal(r, x), "equal", "what was read is not equal to what was printed");
  // one by one, from a string
  char* p = text;
  for (size_t i = 0; i < v.size(); i++) {
    osl_generic_t* one = osl_generic_sread_one(&p, reg);
    CHECK(one, "one", "extension " << i << " is not found");
    std::string e = diff(snap_generics(one), {v[i]});
    CHECK(e.empty(), "one", "extension " << i << " read alone: " << e);
    osl_generic_free(one);
  }
  CHECK(only_comments(p), "consumes", "reading the extensions leaves \"" << p << "\"");
  free(text);
  osl_interface_free(reg);
  osl_generic_free(x);
  osl_generic_free(r);
}
// Relations: all the textual forms, several in a row, every precision.
static void relation(Case& c) {
  int prec = ALLPREC[c.s.below(3)];
  set_env(prec);
  GRel g;
  g.wide = c.s.flip();
  if (c.s.pct(4)) g.maxrows = 80;
  if (c.s.pct(4)) g.maxparams = 120;
  int n = 1 + c.s.small(2);
  std::vector<MUnion> v;
  std::string text;
  bool poly = c.s.pct(40);
  for (int i = 0; i < n; i++) {
    MUnion u = gen_any_union(c.s, prec, g, 4);
    for (auto& p : u) {
      if (p.type == OSL_TYPE_ACCESS) p.type = OSL_TYPE_READ;
      p.type = poly ? OSL_UNDEFINED : u[0].type;
      tame(p);
    }
    if (prec == OSL_PRECISION_MP && c.s.pct(4)) {  // an integer longer than the buffers of the library
      MRel& p = u[c.s.below(u.size())];
      if (p.rows && p.cols > 2) {
        label("huge");
        mpz_class z;
        mpz_ui_pow_ui(z.get_mpz_t(), 10, 2030 + c.s.below(c.s.flip() ? 40 : 3000));
        z += c.s.below(1000);
        p.m[c.s.below(p.rows)][1 + c.s.below(p.cols - 1)] = c.s.flip() ? z : mpz_class(-z);
        tame(p);
      }
    }
    v.push_back(u);
    osl_relation_t* r = build(u);
    osl_names_t* names = nullptr;
    if (c.s.flip()) {
      int iters = 0, scat = 0, loc = 0, par = 0;
      for (auto& p : u) {
        iters = std::max(iters, std::max(p.in, p.out));
        scat = std::max(scat, p.out);
        loc = std::max(loc, p.local);
        par = std::max(par, p.params);
      }
      names = osl_names_generate("P", par, "i", iters, "c", scat, "l", loc, "A", 8);
    }
    char* t = poly ? osl_relation_spprint_polylib(r, names) : osl_relation_spprint(r, names);
    text += t;
    free(t);
    osl_names_free(names);
    osl_relation_free(r);
  }
  c.nontrivial = n > 1 || v[0].size() > 1;
  if (c.rendering) {
    for (auto& u : v) c.log << show(u) << "\n";
    c.log << "---- printed\n" << text;
  }
  char* p = &text[0];
  for (auto& u : v) {
    osl_relation_t* r = poly ? (c.s.flip() ? osl_relation_psread_polylib(&p, prec) : osl_relation_sread_polylib(&p))
                             : (c.s.flip() ? osl_relation_psread(&p, prec) : osl_relation_sread(&p));
    SAME(snap(r), u, "roundtrip", "after printing and reading");
    osl_relation_free(r);
  }
  CHECK(only_comments(p), "consumes", "reading all the relations leaves \"" << p << "\"");
}
Property pbt::property = {
    "P04",
    "an item with several components, or several items in a row, is printed and read",
    {{"roundtrip", roundtrip, 90000, 2000000, true},
     {"sequence", sequence, 60000, 1500000, true},
     {"generics", generics, 30000, 800000, true},
     {"relation", relation, 40000, 1000000, true},
     {"textual", textual, 10000, 200000, true}},
};
