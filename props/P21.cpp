// P21: string lists and name sets are faithful sequences of names.
#define P18_PARTS_ONLY
#include "P18.cpp"

static void is(const osl_strings_t* x, const V& m, const char* what) {
  CHECK(osl_strings_size(x) == m.size(), "size", what << ": " << osl_strings_size(x) << " strings, not " << m.size());
  for (size_t i = 0; i < m.size(); i++)
    CHECK(m[i] == x->string[i], "content", what << ": string " << i << " is \"" << x->string[i] << "\", not \"" << m[i] << "\"");
  if (x && x->string) CHECK(!x->string[m.size()], "size", what << ": the list goes on");
  V cpp = osl::osl_strings_to_cpp(x);
  CHECK(cpp == m, "c++", what << ": the C++ list of the strings has " << cpp.size() << " elements, or others than the " << m.size() << " of the list");
}
static S word(Src& s) {
  switch (s.below(12)) {
    case 0:
      return gen_word(s, true);
    case 1:
      return "";
    case 2: {
      S r;
      for (int i = 1 + s.small(6); i > 0; i--) r += "\xc3\xa9";
      return r;
    }
    case 3:
      return S(1 + s.small(3), 'i');
    case 4:
      return gen_line(s);
    case 5:
      return S(2040 + s.below(20), 'w');
    default:
      return gen_ident(s);
  }
}
static bool plain(const V& v) {  // can be read back: words without blanks and comments
  for (auto& w : v)
    if (w.empty() || w.find_first_of(" \t\n\v\f\r#") != S::npos) return false;
  return !v.empty();
}
static S join(const V& v) {
  S r;
  for (auto& w : v) r += (r.empty() && &w == &v[0] ? "" : " ") + w;
  return r + "\n";
}
static void lists(Case& c) {
  Src& s = c.s;
  osl_strings_t* l[2] = {osl_strings_malloc(), osl_strings_malloc()};
  V m[2];
  is(l[0], m[0], "a new list");
  CHECK(osl::osl_strings_to_cpp(nullptr).empty(), "c++", "the C++ list of no list is not empty");
  int n = 1 + s.small(16);
  c.nontrivial = n > 4;
  bool bare = s.pct(60);  // mostly identifiers
  auto w = [&] { return bare ? gen_ident(s) : word(s); };
  for (int i = 0; i < n; i++) {
    int k = s.below(2), o = 1 - k, op = s.below(13);
    if (c.rendering) c.log << "list " << k << " op " << op << "\n";
    auto set = [&](osl_strings_t* x, const V& v) {
      osl_strings_free(l[k]);
      l[k] = x;
      m[k] = v;
    };
    switch (op) {
      case 0:
      case 1:
      case 2:
        for (int j = s.pct(4) ? 60 : 1 + s.small(3); j > 0; j--) {
          S x = w();
          if (c.rendering) c.log << "  add \"" << x << "\"\n";
          osl_strings_add(l[k], x.c_str());
          m[k].push_back(x);
        }
        break;
      case 3: {  // a string of the list itself
        if (m[k].empty()) break;
        int j = s.below(m[k].size());
        osl_strings_add(l[k], l[k]->string[j]);
        m[k].push_back(m[k][j]);
        break;
      }
      case 4: {
        osl_strings_t* x = osl_strings_clone(l[o]);
        is(x, m[o], "a copy");
        for (size_t j = 0; j < m[o].size(); j++) CHECK(x->string[j] != l[o]->string[j], "copy", "the copy shares a string");
        CHECK(osl_strings_equal(x, l[o]) && osl_strings_equal(l[o], x), "equal", "a list and its copy differ");
        set(x, m[o]);
        break;
      }
      case 5: {
        S x = w();
        char* p = strdup(x.c_str());
        osl_strings_t* e = osl_strings_encapsulate(p);
        CHECK(e && e->string[0] == p, "encapsulate", "the string encapsulated is another one");
        set(e, V{x});
        break;
      }
      case 6: {
        S pre = s.pct(15) ? word(s) : s.pct(10) ? S() : gen_ident(s);
        int nb = s.pct(10) ? s.range(95, 130) : s.pct(2) ? 1005 : s.range(-1, 12);
        osl_strings_t* x = osl_strings_generate(pre.c_str(), nb);
        V v;
        for (int j = 1; j <= nb; j++) v.push_back(pre + std::to_string(j));
        if (c.rendering) c.log << "  generate " << nb << " \"" << pre << "\"\n";
        is(x, v, "the strings generated");
        set(x, v);
        break;
      }
      case 7: {  // concatenation; of a list with itself too
        int a = s.below(2), b = s.below(2);
        osl_strings_t* x = nullptr;
        if (m[a].size() + m[b].size() > 400) break;
        osl_strings_add_strings(&x, l[a], l[b]);
        V v = m[a];
        v.insert(v.end(), m[b].begin(), m[b].end());
        is(x, v, "the concatenation");
        is(l[0], m[0], "an argument of the concatenation");
        is(l[1], m[1], "an argument of the concatenation");
        for (size_t j = 0; j < v.size(); j++)
          CHECK(x->string[j] != (j < m[a].size() ? l[a]->string[j] : l[b]->string[j - m[a].size()]), "copy",
                "the concatenation shares a string");
        set(x, v);
        break;
      }
      case 8: {
        S x = !m[k].empty() && s.pct(70) ? s.pick(m[k]) : w();
        if (s.pct(20) && !x.empty()) x.pop_back();
        size_t want = std::find(m[k].begin(), m[k].end(), x) - m[k].begin();
        CHECK(osl_strings_find(l[k], x.c_str()) == want, "find",
              "\"" << x << "\" is found at " << osl_strings_find(l[k], x.c_str()) << ", not " << want);
        break;
      }
      case 9:
        CHECK(osl_strings_equal(l[0], l[1]) == (m[0] == m[1]), "equal", "comparison of the lists gives " << (m[0] != m[1]));
        CHECK(!osl_strings_equal(l[0], NULL) && !osl_strings_equal(NULL, l[1]), "equal", "a list equals an absent one");
        break;
      case 10: {
        char* t = osl_strings_sprint(l[k]);
        S want = join(m[k]);
        S f = print_to_string([&](FILE* x) { osl_strings_print(x, l[k]); });
        CHECK(want == t, "print", "printed \"" << t << "\", not \"" << want << "\"");
        CHECK(f == t, "print", "printed in a file: \"" << f << "\"");
        if (plain(m[k])) {
          osl_strings_t* x;
          if (s.flip()) {
            char* p = t;
            x = osl_strings_sread(&p);
            CHECK(*p == 0, "consumes", "reading leaves \"" << p << "\"");
          } else {
            FILE* file = file_of(S(t) + "rest of text\n");
            x = osl_strings_read(file);
            char buf[32];
            CHECK(fgets(buf, 32, file) && S(buf) == "rest of text\n", "consumes", "the next line is not left to be read");
            fclose(file);
          }
          is(x, m[k], "what was printed, read again");
          set(x, V(m[k]));
        }
        free(t);
        break;
      }
      case 11: {
        if (s.pct(80)) break;
        osl_strings_free(NULL);
        CHECK(osl_strings_clone(NULL) == NULL, "copy", "a copy of nothing");
        CHECK(osl_strings_size(NULL) == 0, "size", "the size of nothing");
        break;
      }
      case 12: {  // any layout
        V v;
        S t;
        auto blanks = [&] {
          S b;
          for (int j = 1 + s.small(3); j > 0; j--) b += " \t"[s.below(2)];
          return b;
        };
        for (int j = s.small(2); j > 0; j--) t += s.flip() ? "# a comment\n" : s.flip() ? "\n" : blanks() + "\n";
        if (s.pct(30)) t += blanks();
        int nb = 1 + s.small(5);
        for (int j = 0; j < nb; j++) {
          v.push_back(gen_word(s, true));
          t += (j ? blanks() : S()) + v.back();
        }
        bool comment = s.pct(30);
        if (s.pct(30)) t += blanks();
        S rest = comment ? (s.flip() ? "# words here\nnext" : "#\nnext") : "next";
        t += comment ? rest : "\n" + rest;
        if (c.rendering) c.log << "text:\n" << t << "\n";
        char* d = strdup(t.c_str());
        char* p = d;
        osl_strings_t* x = osl_strings_sread(&p);
        CHECK(x, "content", "nothing is read");
        is(x, v, "the strings of a text");
        p += strspn(p, " \t\n");
        CHECK(rest == p, "consumes", "reading leaves \"" << p << "\", not \"" << rest << "\"");
        CHECK(t == d, "input", "reading changed the text");
        free(d);
        set(x, v);
        break;
      }
    }
    is(l[0], m[0], "the list");
    is(l[1], m[1], "the list");
  }
  osl_strings_free(l[0]);
  osl_strings_free(l[1]);
}
static void names(Case& c) {
  Src& s = c.s;
  S pre[5];
  int nb[5];
  for (int i = 0; i < 5; i++) {
    pre[i] = S(1, "picla"[i]) + (s.pct(50) ? gen_ident(s) : S());
    if (s.pct(5)) pre[i] += S(300 + s.below(2000), 'x');
    nb[i] = s.pct(10) ? s.range(90, 120) : s.pct(10) ? -1 : s.small(12);
    if (nb[i] > 1) c.nontrivial = true;
    if (c.rendering) c.log << nb[i] << " " << pre[i] << "\n";
  }
  osl_names_t* a = osl_names_generate(pre[0].c_str(), nb[0], pre[1].c_str(), nb[1], pre[2].c_str(), nb[2], pre[3].c_str(),
                                      nb[3], pre[4].c_str(), nb[4]);
  static const char* what[] = {"parameters", "iterators", "scattering dimensions", "local dimensions", "arrays"};
  auto check = [&](osl_names_t* x) {
    osl_strings_t* got[] = {x->parameters, x->iterators, x->scatt_dims, x->local_dims, x->arrays};
    for (int i = 0; i < 5; i++) {
      V v;
      for (int j = 1; j <= nb[i]; j++) v.push_back(pre[i] + std::to_string(j));
      is(got[i], v, what[i]);
    }
  };
  check(a);
  osl_names_t* b = osl_names_clone(a);
  check(b);
  CHECK(a->parameters != b->parameters && a->iterators != b->iterators && a->scatt_dims != b->scatt_dims &&
            a->local_dims != b->local_dims && a->arrays != b->arrays,
        "copy", "a copy of names shares a list");
  osl_names_free(a);
  check(b);
  osl_names_free(b);
  osl_names_t* e = osl_names_malloc();
  CHECK(!e->parameters && !e->iterators && !e->scatt_dims && !e->local_dims && !e->arrays, "malloc", "new names are not empty");
  osl_names_t* f = osl_names_clone(e);
  CHECK(!f->parameters && !f->iterators && !f->scatt_dims && !f->local_dims && !f->arrays, "copy", "a copy of no names");
  osl_names_free(e);
  osl_names_free(f);
  CHECK(osl_names_clone(NULL) == NULL, "copy", "a copy of nothing");
}
// The default names of a scop: as many as it needs, numbered from 1.
static void defaults_of_scop(Case& c) {
  Src& s = c.s;
  GScop g;
  g.e.prec = ALLPREC[s.below(3)];
  g.e.readable = true;
  g.exts = false;
  g.absent = s.pct(20);
  g.maxdepth = s.pct(10) ? 12 : 3;
  g.maxparams = s.pct(10) ? 12 : 3;
  MScops v = gen_scops(s, g);
  if (c.rendering) c.log << show(tree(v));
  osl_scop_t* x = build(v);
  int np = OSL_UNDEFINED, ni = OSL_UNDEFINED, ns = OSL_UNDEFINED, nl = OSL_UNDEFINED, id = OSL_UNDEFINED;
  osl_scop_get_attributes(x, &np, &ni, &ns, &nl, &id);
  if (id > 3000) discard();
  c.nontrivial = np > 0 || ni > 0;
  osl_names_t* nm = osl_scop_names(x);
  is(nm->parameters, defaults("P", np), "parameters");
  is(nm->iterators, defaults("i", ni), "iterators");
  is(nm->scatt_dims, defaults("c", ns), "scattering dimensions");
  is(nm->local_dims, defaults("l", nl), "local dimensions");
  is(nm->arrays, defaults("A", id), "arrays");
  osl_names_free(nm);
  osl_scop_free(x);
}
Property pbt::property = {
    "P21",
    "more than four operations; a list of names with at least two; a scop whose print has more than three checked comments",
    {{"lists", lists, 60000, 1500000, true},
     {"names", names, 30000, 500000, true},
     {"defaults", defaults_of_scop, 20000, 400000, true},
     {"used", scop, 16000, 600000, true}},
};
