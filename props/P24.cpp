// P24: the helpers of the structured extensions do what a plain model of the data predicts:
// sequences of add, append, count, look up, clone-part, convert, compared after every step
// with the model, then printed (independent reader) and read back.
#include <algorithm>
#include <climits>

#include "scop.h"
using namespace pbt;

static int num(Src& s) {
  switch (s.below(6)) {
    case 0:
      return s.range(0, 9);
    case 1:
      return s.range(-9, 9);
    case 2:
      return s.flip() ? INT_MAX : INT_MIN;
    default:
      return s.range(0, 300);
  }
}
static GExt plain(Src& s) {
  GExt g;
  g.prec = ALLPREC[s.below(3)];
  g.big = s.pct(15);
  g.wide = s.pct(30);
  set_env(g.prec);
  return g;
}
#define IS(d, m, what)                                                                  \
  do {                                                                                  \
    std::string d_ = diff(snap_data((m).name, d), m);                                   \
    CHECK(d_.empty(), "content", what << ": " << d_);                                   \
  } while (0)

// The object has the content of the model; also in its text, in a copy, and in the text read
// back.
template <class X>
static void finish(Case& c, X* d, const T& m, const GExt& g) {
  const std::string& u = m.name;
  IS(d, m, "at the end of the sequence");
  osl_interface_t* i = ext_interface(u);
  void* k = i->clone(d);
  IS(k, m, "in the copy");
  CHECK(i->equal(d, k), "copy-differs", "the " << u << " built by the sequence differs from its copy");
  i->free(k);
  void* b = build_data(m);
  CHECK(i->equal(d, b) && i->equal(b, d), "built-differs",
        "the " << u << " built by the sequence differs from one built at once with the same content");
  i->free(b);
  // text (an emptied list has none)
  if (d && (m.c.size() || u == "arrays" || u == "irregular")) {
    char* t = i->sprint(d);
    CHECK(t, "text", "no text for a " << u);
    if (c.rendering) c.log << "text:\n" << t << "\n";
    std::string e = diff(ext_parse(u, t, g.prec), m);
    CHECK(e.empty(), "text", "the text of the " << u << " does not say what it holds: " << e << "\n" << t);
    char* p = t;
    void* r = i->sread(&p);
    IS(r, m, "read back from its text");
    i->free(r);
    free(t);
  }
  osl_interface_free(i);
}

// ------------------------------------------------------------------ arrays
static void arrays(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  T m = s.flip() ? T::list("arrays") : gen_ext(s, "arrays", g);
  osl_arrays_t* a = m.c.empty() ? osl_arrays_malloc() : (osl_arrays_t*)build_data(m);
  bool anyid = s.pct(30);
  int n = 1 + s.small(15);
  c.nontrivial = n > 2;
  for (int k = 0; k < n; k++) {
    int op = s.below(8);
    std::string nm = m.c.size() && s.pct(40) ? m.c[s.below(m.c.size())].at("name").s : gen_ident(s, g.big);
    int id = m.c.size() && s.pct(40) ? (int)m.c[s.below(m.c.size())].at("id").i
                                     : (anyid ? s.range(-3, 30) : 1 + (int)s.below(200));
    switch (op) {
      case 0:
      case 1:
      case 2: {
        if (c.rendering) c.log << "add " << id << " " << nm << "\n";
        std::string keep = nm;
        char* tmp = strdup(nm.c_str());
        int r = osl_arrays_add(a, id, tmp);
        CHECK(keep == tmp, "argument", "the name given to osl_arrays_add changed");
        memset(tmp, 'z', strlen(tmp));  // the table has a copy
        free(tmp);
        T e = T::list("");
        e.c = {T::num("id", id), T::str("name", nm)};
        m.c.push_back(e);
        CHECK(r == (int)m.c.size(), "arrays-add", "osl_arrays_add returns " << r << " with " << m.c.size() << " arrays");
        IS(a, m, "after osl_arrays_add");
        break;
      }
      case 3: {
        size_t want = m.c.size();
        for (size_t i = m.c.size(); i-- > 0;)
          if (m.c[i].at("id").i == id) want = i;
        size_t r = osl_arrays_get_index_from_id(a, id);
        if (c.rendering) c.log << "index of " << id << ": " << want << "\n";
        CHECK(r == want, "arrays-index", "the index of id " << id << " is " << want << ", not " << r);
        break;
      }
      case 4: {
        size_t want = m.c.size();
        for (size_t i = m.c.size(); i-- > 0;)
          if (m.c[i].at("name").s == nm) want = i;
        size_t r = osl_arrays_get_index_from_name(a, nm.c_str());
        if (c.rendering) c.log << "index of " << nm << ": " << want << "\n";
        CHECK(r == want, "arrays-index", "the index of " << nm << " is " << want << ", not " << r);
        // a beginning of the name is another name
        std::string px = nm.substr(0, nm.size() - 1);
        want = m.c.size();
        for (size_t i = m.c.size(); i-- > 0;)
          if (m.c[i].at("name").s == px) want = i;
        r = osl_arrays_get_index_from_name(a, px.c_str());
        CHECK(r == want, "arrays-index", "the index of " << px << " is " << want << ", not " << r);
        break;
      }
      case 5: {
        osl_strings_t* st = osl_arrays_to_strings(a);
        int mx = 0;
        for (auto& e : m.c) mx = std::max(mx, (int)e.at("id").i);
        T w = T::list("strings");
        for (int i = 1; i <= mx; i++) w.c.push_back(T::str("", "Dummy" + std::to_string(i)));
        for (auto& e : m.c)
          if (e.at("id").i >= 1) w.c[e.at("id").i - 1].s = e.at("name").s;
        CHECK(st, "arrays-strings", "no list of names");
        CHECK((int)osl_strings_size(st) == mx, "arrays-strings",
              "the list of names has " << osl_strings_size(st) << " elements for a greatest id of " << mx);
        for (int i = 0; i < mx; i++)
          CHECK(w.c[i].s == st->string[i], "arrays-strings",
                "name " << i + 1 << " is " << st->string[i] << " instead of " << w.c[i].s);
        osl_strings_free(st);
        IS(a, m, "after osl_arrays_to_strings");
        break;
      }
      case 6: {
        CHECK(osl_arrays_add(a, id, NULL) == -1, "arrays-null", "adding no name");
        CHECK(osl_arrays_add(NULL, id, nm.c_str()) == -1, "arrays-null", "adding to no table");
        CHECK(osl_arrays_get_index_from_id(NULL, id) == 0, "arrays-null", "index in no table");
        CHECK(osl_arrays_get_index_from_name(NULL, nm.c_str()) == 0, "arrays-null", "index in no table");
        CHECK(osl_arrays_to_strings(NULL) == NULL, "arrays-null", "names of no table");
        IS(a, m, "after calls that do nothing");
        break;
      }
      default: {  // go on with a copy
        osl_arrays_t* k2 = osl_arrays_clone(a);
        osl_arrays_free(a);
        a = k2;
        IS(a, m, "in a copy");
      }
    }
  }
  finish(c, a, m, g);
  osl_arrays_free(a);
}

// ------------------------------------------------------------------ lists of loops
static void loops(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  osl_loop_t* l[2] = {nullptr, nullptr};
  T m[2] = {T::list("loop"), T::list("loop")};
  int n = 1 + s.small(12);
  c.nontrivial = n > 2;
  auto chk = [&](int k, const char* what) {
    T w = m[k].c.empty() ? T::nil("loop") : m[k];
    IS(l[k], w, what);
  };
  for (int x = 0; x < n; x++) {
    int k = s.below(2);
    switch (s.below(6)) {
      case 0:
      case 1: {
        T e = gen_ext(s, "loop", g);
        if (c.rendering) c.log << "add to " << k << ":\n" << show(e) << "\n";
        osl_loop_add((osl_loop_t*)build_data(e), &l[k]);
        m[k].c.insert(m[k].c.end(), e.c.begin(), e.c.end());
        chk(k, "after osl_loop_add");
        break;
      }
      case 2: {  // the other list goes to the end of this one
        if (c.rendering) c.log << "add the other list to " << k << "\n";
        osl_loop_add(l[1 - k], &l[k]);
        l[1 - k] = nullptr;
        m[k].c.insert(m[k].c.end(), m[1 - k].c.begin(), m[1 - k].c.end());
        m[1 - k].c.clear();
        chk(k, "after osl_loop_add of a list");
        break;
      }
      case 3:
        CHECK(osl_loop_count(l[k]) == (int)m[k].c.size(), "count",
              "osl_loop_count returns " << osl_loop_count(l[k]) << " for " << m[k].c.size());
        break;
      case 4: {  // copy of one
        size_t p = m[k].c.empty() ? 0 : s.below(m[k].c.size());
        osl_loop_t* a = l[k];
        for (size_t i = 0; i < p; i++) a = a->next;
        osl_loop_t* o = osl_loop_clone_one(a);
        T w = m[k].c.empty() ? T::nil("loop") : T::list("loop");
        if (!m[k].c.empty()) w.c.push_back(m[k].c[p]);
        IS(o, w, "osl_loop_clone_one");
        CHECK(osl_loop_equal_one(a, o) && osl_loop_equal_one(o, a), "equal-one", "a loop differs from its copy");
        chk(k, "after osl_loop_clone_one");
        if (o) {
          // the copy, alone in a list, equals the list only when the list has one element
          CHECK(osl_loop_equal(l[k], o) == (m[k].c.size() == 1), "equal-one",
                "a list of " << m[k].c.size() << " loops compared with one loop");
          osl_loop_add(o, &l[1 - k]);
          m[1 - k].c.push_back(m[k].c[p]);
          chk(1 - k, "after osl_loop_add of a copy");
        }
        break;
      }
      default: {
        if (m[k].c.size() < 2) break;
        size_t p = s.below(m[k].c.size()), q = s.below(m[k].c.size());
        osl_loop_t *a = l[k], *b = l[k];
        for (size_t i = 0; i < p; i++) a = a->next;
        for (size_t i = 0; i < q; i++) b = b->next;
        T x1 = m[k].c[p], x2 = m[k].c[q];
        auto by = [](const T& t1, const T& t2) { return t1.i < t2.i; };
        std::sort(x1.at("stmts").c.begin(), x1.at("stmts").c.end(), by);
        std::sort(x2.at("stmts").c.begin(), x2.at("stmts").c.end(), by);
        CHECK(osl_loop_equal_one(a, b) == (x1 == x2), "equal-one", "loops " << p << " and " << q << " compared");
      }
    }
  }
  for (int k = 0; k < 2; k++) {
    T w = m[k].c.empty() ? T::nil("loop") : m[k];
    finish(c, l[k], w, g);
    osl_loop_free(l[k]);
  }
}

// ------------------------------------------------------------------ lists of dependences
static void dependences(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  struct L {
    osl_dependence_t *first = nullptr, *now = nullptr;
    T m = T::list("dependence");
  } l[2];
  int n = 1 + s.small(10);
  c.nontrivial = n > 2;
  auto chk = [&](L& x, const char* what) {
    T w = x.m.c.empty() ? T::nil("dependence") : x.m;
    IS(x.first, w, what);
    const osl_dependence_t* e = x.first;
    while (e && e->next) e = e->next;
    CHECK(x.m.c.empty() || e == x.now, "dependence-now", what << ": the current dependence is not the last one");
    CHECK(osl_nb_dependences(x.first) == (int)x.m.c.size(), "count",
          "osl_nb_dependences returns " << osl_nb_dependences(x.first) << " for " << x.m.c.size());
  };
  for (int x = 0; x < n; x++) {
    int k = s.below(2);
    switch (s.below(5)) {
      case 0:
      case 1: {
        T e = gen_ext(s, "dependence", g);
        if (s.flip()) e.c.resize(1);
        if (c.rendering) c.log << "add to " << k << ":\n" << show(e) << "\n";
        osl_dependence_add(&l[k].first, &l[k].now, (osl_dependence_t*)build_data(e));
        l[k].m.c.insert(l[k].m.c.end(), e.c.begin(), e.c.end());
        chk(l[k], "after osl_dependence_add");
        break;
      }
      case 2:
        osl_dependence_add(&l[k].first, &l[k].now, NULL);
        chk(l[k], "after osl_dependence_add of nothing");
        break;
      case 3:
        if (c.rendering) c.log << "add the other list to " << k << "\n";
        osl_dependence_add(&l[k].first, &l[k].now, l[1 - k].first);
        l[k].m.c.insert(l[k].m.c.end(), l[1 - k].m.c.begin(), l[1 - k].m.c.end());
        l[1 - k] = L();
        chk(l[k], "after osl_dependence_add of a list");
        break;
      default: {
        osl_dependence_t* d = osl_dependence_clone(l[k].first);
        osl_dependence_add(&l[1 - k].first, &l[1 - k].now, d);
        if (l[1 - k].m.c.size() + l[k].m.c.size() > 300) {
          osl_dependence_free(l[1 - k].first);
          l[1 - k] = L();
          break;
        }
        l[1 - k].m.c.insert(l[1 - k].m.c.end(), l[k].m.c.begin(), l[k].m.c.end());
        chk(l[1 - k], "after osl_dependence_add of a copy");
      }
    }
  }
  for (auto& x : l) {
    T w = x.m.c.empty() ? T::nil("dependence") : x.m;
    // the same text is read at the precision asked for
    if (x.first) {
      char* t = osl_dependence_sprint(x.first);
      int p2 = ALLPREC[s.below(3)];
      bool fits = true;
      T want = x.m;
      for (auto& e : want.c) {
        fits = fits && all_fit(p2, e.at("domain").u);
        for (auto& r : e.at("domain").u) r.prec = p2;
      }
      if (fits) {
        char* q = t;
        osl_dependence_t* r = osl_dependence_psread(&q, p2);
        IS(r, want, "osl_dependence_psread");
        osl_dependence_free(r);
      }
      free(t);
    }
    finish(c, x.first, w, g);
    osl_dependence_free(x.first);
  }
}

// ------------------------------------------------------------------ extended bodies
static void extbodies(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  T m = gen_ext(s, "extbody", g);
  if (s.flip()) m.at("accesses").c.clear();
  osl_extbody_t* e = osl_extbody_malloc();
  if (m.at("accesses").c.size()) {
    osl_extbody_free(e);
    e = (osl_extbody_t*)build_data(m);
  } else {
    T b = m.at("body");
    osl_body_free(e->body);
    e->body = (osl_body_t*)build_data(b);
  }
  int n = 1 + (s.pct(5) ? 100 + (int)s.below(200) : s.small(12));
  c.nontrivial = n > 1;
  for (int k = 0; k < n; k++) {
    int a = num(s), b = num(s);
    if (c.rendering) c.log << "add " << a << " " << b << "\n";
    osl_extbody_add(e, a, b);
    T x = T::list("");
    x.c = {T::num("start", a), T::num("length", b)};
    m.at("accesses").c.push_back(x);
    IS(e, m, "after osl_extbody_add");
    if (s.pct(10)) {
      osl_extbody_t* e2 = osl_extbody_clone(e);
      osl_extbody_free(e);
      e = e2;
      IS(e, m, "in a copy");
    }
  }
  finish(c, e, m, g);
  osl_extbody_free(e);
}

// ------------------------------------------------------------------ symbols
static void symbols(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  osl_symbols_t* l[2] = {nullptr, nullptr};
  T m[2] = {T::list("symbols"), T::list("symbols")};
  int n = 1 + s.small(9);
  c.nontrivial = n > 2;
  auto chk = [&](int k, const char* what) {
    T w = m[k].c.empty() ? T::nil("symbols") : m[k];
    IS(l[k], w, what);
    CHECK(osl_symbols_get_nb_symbols(l[k]) == (int)m[k].c.size(), "count",
          what << ": osl_symbols_get_nb_symbols returns " << osl_symbols_get_nb_symbols(l[k]) << " for " << m[k].c.size());
  };
  for (int x = 0; x < n; x++) {
    int k = s.below(2);
    switch (s.below(5)) {
      case 0:
      case 1: {
        T e = gen_ext(s, "symbols", g);
        if (c.rendering) c.log << "add to " << k << ":\n" << show(e) << "\n";
        osl_symbols_add(&l[k], (osl_symbols_t*)build_data(e));
        m[k].c.insert(m[k].c.end(), e.c.begin(), e.c.end());
        chk(k, "after osl_symbols_add");
        break;
      }
      case 2:
        osl_symbols_add(&l[k], l[1 - k]);
        l[1 - k] = nullptr;
        m[k].c.insert(m[k].c.end(), m[1 - k].c.begin(), m[1 - k].c.end());
        m[1 - k].c.clear();
        chk(k, "after osl_symbols_add of a list");
        break;
      default: {
        int q = s.range(-1, (int)m[k].c.size() + 1);
        osl_symbols_t* o = osl_symbols_nclone(l[k], q);
        T w = m[k];
        if (q >= 0 && q < (int)w.c.size()) w.c.resize(q);
        if (c.rendering) c.log << "copy " << q << " symbols of " << k << "\n";
        T w2 = w.c.empty() ? T::nil("symbols") : w;
        IS(o, w2, "osl_symbols_nclone");
        chk(k, "after osl_symbols_nclone");
        if (m[1 - k].c.size() < 60) {
          osl_symbols_add(&l[1 - k], o);
          m[1 - k].c.insert(m[1 - k].c.end(), w.c.begin(), w.c.end());
          chk(1 - k, "after osl_symbols_add of a copy");
        } else
          osl_symbols_free(o);
      }
    }
  }
  for (int k = 0; k < 2; k++) {
    T w = m[k].c.empty() ? T::nil("symbols") : m[k];
    finish(c, l[k], w, g);
    osl_symbols_free(l[k]);
  }
}

// ------------------------------------------------------------------ regions, annotations
static void regions(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  static const char* F[4] = {"prefix", "suffix", "prelude", "postlude"};
  T m = T::list("region");
  osl_region_t* first = nullptr;
  int nr = 1 + s.small(3);
  bool start = s.flip();
  for (int i = 0; i < nr; i++) {
    T e;
    osl_region_t* r;
    if (start) {
      T x = gen_ext(s, "region", g);
      x.c.resize(1);
      e = x.c[0];
      r = (osl_region_t*)build_data(x);
    } else {
      r = osl_region_malloc();
      CHECK(r->location == OSL_REGION_NONE && !r->next && !r->prefix.count && !r->suffix.count && !r->prelude.count &&
                !r->postlude.count,
            "empty", "a new region is not empty");
      r->location = num(s);
      e = T::list("");
      e.c = {T::num("location", r->location)};
      for (auto f : F) e.c.push_back(T::list(f));
    }
    osl_region_t** p = &first;
    while (*p) p = &(*p)->next;
    *p = r;
    m.c.push_back(e);
  }
  int n = 1 + s.small(12);
  c.nontrivial = n > 2;
  for (int x = 0; x < n; x++) {
    size_t p = s.below(m.c.size());
    osl_region_t* r = first;
    for (size_t i = 0; i < p; i++) r = r->next;
    if (s.pct(75)) {
      int f = s.below(4), ty = num(s);
      std::string ln = gen_line(s, g.big);
      if (c.rendering) c.log << "region " << p << " " << F[f] << " " << ty << " " << ln << "\n";
      char* t = strdup(ln.c_str());  // given to the region
      (f == 0   ? osl_region_append_prefix
       : f == 1 ? osl_region_append_suffix
       : f == 2 ? osl_region_append_prelude
                : osl_region_append_postlude)(r, ty, t);
      T e = T::list("");
      e.c = {T::num("type", ty), T::str("line", ln)};
      m.c[p].at(F[f]).c.push_back(e);
      IS(first, m, "after osl_region_append_" << F[f]);
    } else {
      osl_region_t* o = osl_region_clone_one(r);
      T w = T::list("region");
      w.c.push_back(m.c[p]);
      IS(o, w, "osl_region_clone_one");
      CHECK(osl_region_equal_one(o, r), "equal-one", "a region differs from its copy");
      size_t q = s.below(m.c.size());
      osl_region_t* r2 = first;
      for (size_t i = 0; i < q; i++) r2 = r2->next;
      CHECK(osl_region_equal_one(o, r2) == (m.c[p] == m.c[q]), "equal-one", "regions " << p << " and " << q << " compared");
      osl_region_free(o);
      CHECK(osl_region_count(first) == m.c.size(), "count",
            "osl_region_count returns " << osl_region_count(first) << " for " << m.c.size());
      CHECK(osl_region_count(r) == m.c.size() - p, "count", "osl_region_count of the end of a list");
      CHECK(osl_region_count(NULL) == 0, "count", "osl_region_count of nothing");
    }
  }
  finish(c, first, m, g);
  osl_region_free(first);
}

static void annotations(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  T m = T::list("annotation");
  m.c = {T::list("prefix"), T::list("suffix")};
  osl_annotation_t* a = osl_annotation_malloc();
  CHECK(!a->prefix.count && !a->suffix.count, "empty", "a new annotation is not empty");
  if (s.flip()) {
    osl_annotation_free(a);
    m = gen_ext(s, "annotation", g);
    a = (osl_annotation_t*)build_data(m);
  }
  int n = 1 + s.small(12);
  c.nontrivial = n > 1;
  for (int x = 0; x < n; x++) {
    bool pre = s.flip();
    int ty = num(s);
    std::string ln = gen_line(s, g.big);
    if (c.rendering) c.log << (pre ? "prefix " : "suffix ") << ty << " " << ln << "\n";
    (pre ? osl_annotation_append_prefix : osl_annotation_append_suffix)(a, ty, strdup(ln.c_str()));
    T e = T::list("");
    e.c = {T::num("type", ty), T::str("line", ln)};
    m.at(pre ? "prefix" : "suffix").c.push_back(e);
    IS(a, m, "after osl_annotation_append");
  }
  finish(c, a, m, g);
  osl_annotation_free(a);
}

// ------------------------------------------------------------------ irregular
static void irregulars(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  T m = T::list("irregular");
  m.c = {T::num("nb_control", 0), T::list("predicates"), T::list("statements")};
  osl_irregular_t* x = osl_irregular_malloc();
  if (s.pct(40)) {
    osl_irregular_free(x);
    m = gen_ext(s, "irregular", g);
    x = (osl_irregular_t*)build_data(m);
  }
  int n = 1 + s.small(8);
  c.nontrivial = n > 1;
  for (int k = 0; k < n; k++) {
    osl_irregular_t* r;
    T old = m;
    int op = s.below(3);
    if (op < 2) {
      std::vector<std::string> it;
      int ni = s.small(4);
      for (int i = 0; i < ni; i++) it.push_back(gen_ident(s, g.big));
      std::string b = gen_line(s, g.big);
      std::vector<char*> p;
      for (auto& q : it) p.push_back(&q[0]);
      p.push_back(nullptr);
      std::string b2 = b;
      r = (op ? osl_irregular_add_exit : osl_irregular_add_control)(x, p.data(), ni, b2.c_str());
      T e = T::list(""), l = T::list("iterators");
      for (auto& q : it) l.c.push_back(T::str("", q));
      e.c = {l, T::str("body", b)};
      auto& pr = m.at("predicates").c;
      if (op)
        pr.push_back(e);
      else
        pr.insert(pr.begin() + m.at("nb_control").i++, e);
      if (c.rendering) c.log << (op ? "exit\n" : "control\n") << show(e) << "\n";
      for (auto& q : it) q.assign(q.size(), 'z');  // the object has copies
      b2.assign(b2.size(), 'z');
    } else {
      std::vector<int> v;
      int nv = s.small(4);
      for (int i = 0; i < nv; i++) v.push_back(s.below(5));
      T e = T::list("");
      for (int i : v) e.c.push_back(T::num("", i));
      v.push_back(99);
      r = osl_irregular_add_predicates(x, v.data(), nv);
      m.at("statements").c.push_back(e);
      if (c.rendering) c.log << "statement\n" << show(e) << "\n";
      for (auto& i : v) i = 77;
    }
    IS(x, old, "the object an element was added to");
    IS(r, m, "after adding an element");
    if (s.flip()) {  // nothing is shared
      osl_irregular_free(x);
      x = r;
      IS(x, m, "after the original was freed");
    } else {
      osl_irregular_free(r);
      m = old;
      IS(x, m, "after the result was freed");
    }
  }
  finish(c, x, m, g);
  osl_irregular_free(x);
}

// ------------------------------------------------------------------ unroll requests
static void unrolls(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  T m = T::list("pluto_unroll");
  osl_pluto_unroll_t* first = nullptr;
  int nr = 1 + s.small(3);
  for (int i = 0; i < nr; i++) {
    osl_pluto_unroll_t *u = osl_pluto_unroll_malloc(), **p = &first;
    CHECK(!u->iter && !u->next, "empty", "a new unroll request is not empty");
    while (*p) p = &(*p)->next;
    *p = u;
    T e = T::list("");
    e.c = {T::nil("iter"), T::num("jam", u->jam), T::num("factor", u->factor)};
    m.c.push_back(e);
  }
  int n = 1 + s.small(8);
  c.nontrivial = n > 1;
  for (int k = 0; k < n + nr; k++) {
    size_t p = k < nr ? k : s.below(nr);
    osl_pluto_unroll_t* u = first;
    for (size_t i = 0; i < p; i++) u = u->next;
    std::string it = gen_line(s, g.big);
    bool jam = s.flip();
    unsigned f = s.pct(10) ? (s.flip() ? (unsigned)INT_MAX + s.below(3) : UINT_MAX) : s.below(60);
    bool none = k >= nr && s.pct(20);
    if (c.rendering) c.log << "fill " << p << " " << it << " " << jam << " " << f << "\n";
    osl_pluto_unroll_fill(u, none ? nullptr : it.c_str(), jam, f);
    if (!none) m.c[p].c[0] = T::str("iter", it);
    m.c[p].at("jam").i = jam;
    m.c[p].at("factor").i = f;
    IS(first, m, "after osl_pluto_unroll_fill");
  }
  finish(c, first, m, g);
  osl_pluto_unroll_free(first);
}

// ------------------------------------------------------------------ interfaces
// The interface of every extension works on that extension: an object it allocates is empty,
// and its functions are the ones of that type.
static void interfaces(Case& c) {
  Src& s = c.s;
  GExt g = plain(s);
  g.readable = false;
  g.nil = s.flip();
  std::string u = EXT_URIS[s.below(EXT_URIS.size())];
  c.nontrivial = true;
  osl_interface_t* i = ext_interface(u);
  CHECK(i && i->URI && u == i->URI, "uri", "the interface of " << u << " is for " << (i && i->URI ? i->URI : "nothing"));
  CHECK(!i->next, "uri", "the interface of " << u << " is a list");
  CHECK(i->idump && i->sprint && i->sread && i->malloc && i->free && i->clone && i->equal, "uri",
        "the interface of " << u << " lacks a function");
  void* e = i->malloc();
  CHECK(e, "empty", "the interface of " << u << " allocates nothing");
  void* k = i->clone(e);
  CHECK(i->equal(e, k), "empty", "an empty " << u << " differs from its copy");
  i->free(k);
  i->free(e);
  i->free(NULL);
  CHECK(i->equal(NULL, NULL), "null", "equal of two absent " << u);
  CHECK(i->clone(NULL) == NULL, "null", "copy of an absent " << u);
  T m = gen_ext(s, u, g);
  if (c.rendering) c.log << show(m) << "\n";
  void* d = build_data(m);
  m = snap_data(u, d);
  if (u != "textual")  // (two textual options are equal whatever they hold: documented)
  CHECK(i->equal(d, NULL) == (d == NULL) && i->equal(NULL, d) == (d == NULL), "null", "a " << u << " compared with none");
  // a wrapper made with the interface is one of that type
  osl_generic_t* w = osl_generic_shell(d, i);
  CHECK(w->data == d && w->interface == i && !w->next, "shell", "osl_generic_shell");
  CHECK(osl_generic_has_URI(w, u.c_str()) && !osl_generic_has_URI(w, (u + "x").c_str()) &&
            !osl_generic_has_URI(w, u.substr(0, u.size() - 1).c_str()),
        "uri", "osl_generic_has_URI on a " << u);
  CHECK(osl_generic_lookup(w, u.c_str()) == d, "uri", "lookup of a " << u);
  osl_generic_t* w2 = osl_generic_clone(w);
  IS(w2->data, m, "in a copy of the generic");
  CHECK(osl_generic_equal(w, w2), "uri", "a generic differs from its copy");
  osl_generic_free(w2);
  osl_generic_free(w);
}

Property pbt::property = {
    "P24",
    "a case is non-trivial when it applies at least two operations to the extension (sub-check interfaces: always)",
    {{"arrays", arrays, 9000, 300000, true},
     {"loops", loops, 7000, 200000, true},
     {"dependences", dependences, 5000, 150000, true},
     {"extbodies", extbodies, 6000, 200000, true},
     {"symbols", symbols, 4000, 120000, true},
     {"regions", regions, 7000, 200000, true},
     {"annotations", annotations, 7000, 200000, true},
     {"irregulars", irregulars, 7000, 200000, true},
     {"unrolls", unrolls, 7000, 200000, true},
     {"interfaces", interfaces, 9000, 300000, true}}};
