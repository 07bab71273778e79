// P20: extension lists and registries are faithful maps from tag to content.
#include <algorithm>

#include "scop.h"
using namespace pbt;
typedef std::string S;
typedef std::vector<S> V;
typedef std::vector<T> VT;

static const T* find(const VT& m, const S& u) {
  for (auto& t : m)
    if (t.name == u) return &t;
  return nullptr;
}
static bool has(const V& v, const S& u) { return std::find(v.begin(), v.end(), u) != v.end(); }
static GExt options(Case& c, bool readable) {
  GExt g;
  g.prec = ALLPREC[c.s.below(3)];
  g.readable = readable;
  g.nil = !readable && c.s.pct(30);
  g.wide = c.s.pct(30);
  set_env(g.prec);
  return g;
}
static S show_all(const VT& v) {
  S r;
  for (auto& t : v) r += show(t);
  return r;
}
// Everything that can be asked about a list.
static void ask(Case& c, const osl_generic_t* l, const VT& m, const V& uris, const char* what) {
  S d = diff(snap_generics(l), m);
  CHECK(d.empty(), "content", what << ": " << d);
  int n = (int)m.size();
  CHECK(osl_generic_number(l) == n && osl_generic_count(l) == n, "count",
        what << ": number " << osl_generic_number(l) << ", count " << osl_generic_count(l) << ", not " << n);
  for (auto& u : uris) {
    void* data = osl_generic_lookup(l, u.c_str());
    const T* t = find(m, u);
    if (!t) {
      CHECK(!data, "lookup", what << ": lookup of the absent \"" << u << "\" returns something");
      continue;
    }
    T got = snap_data(u, data);
    S e = diff(got, *t);
    CHECK(e.empty(), "lookup", what << ": lookup of \"" << u << "\": " << e);
  }
  const osl_generic_t* g = l;
  for (size_t i = 0; g; g = g->next, i++) {
    const S& u = uris[c.s.below(uris.size())];
    CHECK((osl_generic_has_URI(g, u.c_str()) != 0) == (m[i].name == u), "has_URI",
          what << ": element " << i << " (" << m[i].name << ") has the URI \"" << u << "\": " << osl_generic_has_URI(g, u.c_str()));
    CHECK(osl_generic_has_URI(g, m[i].name.c_str()), "has_URI", "element " << i << " has not its own URI " << m[i].name);
  }
}
static V all_uris() {
  V v = EXT_URIS;
  v.push_back("nothing");
  v.push_back("array");
  v.push_back("");
  return v;
}
static void lists(Case& c) {
  GExt g = options(c, false);
  V uris = all_uris();
  osl_generic_t* l[2] = {nullptr, nullptr};
  VT m[2];
  int n = 1 + c.s.small(14);
  c.nontrivial = n > 3;
  auto fresh = [&](const VT& a, const VT& b) {
    V v;
    for (auto& u : EXT_URIS)
      if (!find(a, u) && !find(b, u)) v.push_back(u);
    return v;
  };
  for (int i = 0; i < n; i++) {
    int k = c.s.below(2), o = 1 - k;
    int op = c.s.below(13);
    if (c.rendering) c.log << "list " << k << " op " << op << "\n";
    switch (op) {
      case 0:
      case 1:
      case 2: {  // add one extension made with a shell
        V f = fresh(m[k], {});
        if (f.empty()) break;
        T t = gen_ext(c.s, c.s.pick(f), g);
        void* data = build_data(t);
        osl_interface_t* it = ext_interface(t.name);
        osl_generic_t* x = osl_generic_shell(data, it);
        CHECK(x && x->data == data && x->interface == it && !x->next, "shell", "the shell does not hold what it was given");
        if (c.rendering) c.log << show(t);
        osl_generic_add(&l[k], x);
        m[k].push_back(t);
        break;
      }
      case 3: {  // add several
        V f = fresh(m[k], {});
        VT v = gen_exts(c.s, f, std::min<int>(4, (int)f.size()), g);
        if (c.rendering) c.log << show_all(v);
        osl_generic_add(&l[k], build_generics(v));
        m[k].insert(m[k].end(), v.begin(), v.end());
        break;
      }
      case 4:
      case 5: {  // remove by tag, present or not
        S u = !m[k].empty() && c.s.pct(70) ? m[k][c.s.below(m[k].size())].name : c.s.pick(uris);
        if (c.rendering) c.log << "remove " << u << "\n";
        osl_generic_remove(&l[k], u.c_str());
        m[k].erase(std::remove_if(m[k].begin(), m[k].end(), [&](const T& t) { return t.name == u; }), m[k].end());
        break;
      }
      case 6: {  // remove a node
        if (m[k].empty()) {
          osl_generic_remove_node(&l[k], NULL);
          break;
        }
        int p = c.s.below(m[k].size());
        osl_generic_t* x = l[k];
        for (int j = 0; j < p; j++) x = x->next;
        osl_generic_remove_node(&l[k], x);
        m[k].erase(m[k].begin() + p);
        break;
      }
      case 7:  // remove a node that is not there
        if (l[o]) {
          osl_generic_t* x = l[o];
          for (int j = c.s.below(m[o].size()); j > 0; j--) x = x->next;
          osl_generic_remove_node(&l[k], x);
        }
        break;
      case 8: {  // copy the first ones; -1: all
        int w = c.s.range(-1, (int)m[k].size() + 1);
        osl_generic_t* x = w == -1 && c.s.flip() ? osl_generic_clone(l[k]) : osl_generic_nclone(l[k], w);
        VT v(m[k].begin(), m[k].begin() + (w < 0 ? m[k].size() : std::min<size_t>(w, m[k].size())));
        ask(c, x, v, uris, "copy");
        for (osl_generic_t *a = x, *b = l[k]; a; a = a->next, b = b->next)
          CHECK(a != b && a->interface != b->interface && (a->data != b->data || !a->data), "copy", "the copy shares something with the list");
        osl_generic_free(l[o]);
        l[o] = x;
        m[o] = v;
        break;
      }
      case 9: {  // move one list at the end of the other when the tags differ
        bool clash = false;
        for (auto& t : m[k])
          if (find(m[o], t.name)) clash = true;
        if (clash) break;
        osl_generic_add(&l[o], l[k]);
        l[k] = nullptr;
        m[o].insert(m[o].end(), m[k].begin(), m[k].end());
        m[k].clear();
        break;
      }
      case 10: {  // a second one with a tag already there is refused
        if (m[k].empty()) break;
        const S u = m[k][c.s.below(m[k].size())].name;
        VT v;
        V f = fresh(m[k], {});
        if (c.s.pct(30)) v = gen_exts(c.s, f, std::min<int>(3, (int)f.size()), g);
        v.insert(v.begin() + c.s.below(v.size() + 1), gen_ext(c.s, u, g));
        if (c.rendering) c.log << "add again\n" << show_all(v);
        osl_generic_t* x = build_generics(v);
        bool e = exits([&] { osl_generic_add(&l[k], x); });
        label("refused");
        c.leak_exempt = true;
        CHECK(e, "duplicate", "a second extension \"" << u << "\" is added");
        ask(c, l[k], m[k], uris, "the list after a refused addition");
        return;
      }
      case 11: {  // one without an interface is refused
        if (!c.s.pct(20)) break;
        osl_generic_t* x = osl_generic_malloc();
        if (c.s.flip()) x->interface = osl_interface_malloc();
        bool e = exits([&] { osl_generic_add(&l[k], x); });
        c.leak_exempt = true;
        CHECK(e, "anonymous", "an extension without a tag is added");
        ask(c, l[k], m[k], uris, "the list after a refused addition");
        return;
      }
      case 12:
        osl_generic_add(&l[k], NULL);
        break;
    }
    ask(c, l[k], m[k], uris, "the list");
    ask(c, l[o], m[o], uris, "the other list");
  }
  osl_generic_free(l[0]);
  osl_generic_free(l[1]);
}
// ---- registries
struct Entry {
  S uri;
  const osl_interface_t* like;  // the functions
};
static bool same_functions(const osl_interface_t* a, const osl_interface_t* b) {
  return a->idump == b->idump && a->sprint == b->sprint && a->sread == b->sread && a->malloc == b->malloc &&
         a->free == b->free && a->clone == b->clone && a->equal == b->equal;
}
static void reg_is(const osl_interface_t* l, const std::vector<Entry>& m, const char* what) {
  size_t i = 0;
  const osl_interface_t* x = l;
  for (; x; x = x->next, i++) {
    CHECK(i < m.size(), "registry", what << ": more than the expected " << m.size() << " interfaces");
    CHECK(x->URI && m[i].uri == x->URI, "registry", what << ": interface " << i << " is \"" << (x->URI ? x->URI : "(none)") << "\", not \"" << m[i].uri << "\"");
    CHECK(same_functions(x, m[i].like), "registry", what << ": interface \"" << m[i].uri << "\" has not its functions");
  }
  CHECK(i == m.size(), "registry", what << ": " << i << " interfaces, not " << m.size());
  CHECK(osl_interface_number(l) == (int)m.size(), "number", what << ": number is " << osl_interface_number(l) << ", not " << m.size());
}
static std::vector<osl_interface_t*> SAMPLES;
static void init() {
  for (auto& u : EXT_URIS) SAMPLES.push_back(ext_interface(u));
}
static void registries(Case& c) {
  V uris = EXT_URIS;
  for (const char* x : {"foo", "string", "scatnamess", "ANNOTATION", "body2", ""}) uris.push_back(x);
  osl_interface_t* l[2] = {nullptr, nullptr};
  std::vector<Entry> m[2];
  int n = 1 + c.s.small(16);
  c.nontrivial = n > 3;
  auto known = [&](int k, const S& u) {
    for (auto& e : m[k])
      if (e.uri == u) return true;
    return false;
  };
  auto make = [&](const S& u, Entry& e) {
    size_t p = std::find(EXT_URIS.begin(), EXT_URIS.end(), u) - EXT_URIS.begin();
    osl_interface_t* x;
    if (p < EXT_URIS.size() && c.s.pct(80)) {
      x = ext_interface(u);
      e = {u, SAMPLES[p]};
    } else {  // an interface made by the user
      const osl_interface_t* like = SAMPLES[c.s.below(SAMPLES.size())];
      x = osl_interface_malloc();
      CHECK(!x->URI && !x->next && !x->sread && !x->sprint && !x->free && !x->clone && !x->equal && !x->malloc && !x->idump,
            "malloc", "a new interface is not empty");
      *x = *like;
      x->next = NULL;
      x->URI = strdup(u.c_str());
      e = {u, like};
    }
    return x;
  };
  for (int i = 0; i < n; i++) {
    int k = c.s.below(2), o = 1 - k, op = c.s.below(11);
    if (c.rendering) c.log << "registry " << k << " op " << op << "\n";
    switch (op) {
      case 0:
      case 1:
      case 2:
      case 3: {  // add some
        osl_interface_t *first = nullptr, **p = &first;
        std::vector<Entry> v;
        for (int j = 1 + c.s.small(2); j > 0; j--) {
          S u = c.s.pick(uris);
          bool dup = known(k, u);
          for (auto& e : v) dup = dup || e.uri == u;
          if (dup) continue;
          Entry e;
          *p = make(u, e);
          p = &(*p)->next;
          v.push_back(e);
          if (c.rendering) c.log << "  add " << u << "\n";
        }
        osl_interface_add(&l[k], first);
        m[k].insert(m[k].end(), v.begin(), v.end());
        break;
      }
      case 4: {
        S u = !m[k].empty() && c.s.flip() ? m[k][c.s.below(m[k].size())].uri : c.s.pick(uris);
        osl_interface_t* x = osl_interface_lookup(l[k], u.c_str());
        CHECK(!x == !known(k, u), "lookup", "lookup of \"" << u << "\" returns " << (x ? "something" : "nothing"));
        if (x) {
          CHECK(u == x->URI, "lookup", "lookup of \"" << u << "\" returns \"" << x->URI << "\"");
          bool in = false;
          for (osl_interface_t* y = l[k]; y; y = y->next) in = in || x == y;
          CHECK(in, "lookup", "what is found is not in the list");
        }
        break;
      }
      case 5: {
        int w = c.s.range(-1, (int)m[k].size() + 1);
        osl_interface_t* x = w == -1 && c.s.flip() ? osl_interface_clone(l[k]) : osl_interface_nclone(l[k], w);
        std::vector<Entry> v(m[k].begin(), m[k].begin() + (w < 0 ? m[k].size() : std::min<size_t>(w, m[k].size())));
        reg_is(x, v, "copy");
        for (osl_interface_t *a = x, *b = l[k]; a; a = a->next, b = b->next) {
          CHECK(a != b && a->URI != b->URI, "copy", "the copy shares something");
          CHECK(osl_interface_equal(a, b) && osl_interface_equal(b, a), "equal", "an interface and its copy differ");
        }
        osl_interface_free(l[o]);
        l[o] = x;
        m[o] = v;
        break;
      }
      case 6: {
        bool clash = false;
        for (auto& e : m[k]) clash = clash || known(o, e.uri);
        if (clash) break;
        osl_interface_add(&l[o], l[k]);
        l[k] = nullptr;
        m[o].insert(m[o].end(), m[k].begin(), m[k].end());
        m[k].clear();
        break;
      }
      case 7: {
        if (m[k].empty()) break;
        const S u = m[k][c.s.below(m[k].size())].uri;
        Entry e;
        osl_interface_t* x = make(u, e);
        if (c.s.pct(30)) {  // the last of two
          S other = c.s.pick(uris);
          if (!known(k, other)) {
            osl_interface_t* y = make(other, e);
            y->next = x;
            x = y;
          }
        }
        bool ex = exits([&] { osl_interface_add(&l[k], x); });
        c.leak_exempt = true;
        label("refused");
        CHECK(ex, "duplicate", "a second interface \"" << u << "\" is added");
        reg_is(l[k], m[k], "the list after a refused addition");
        return;
      }
      case 8: {  // comparison of two single interfaces
        if (m[k].empty() || m[o].empty()) break;
        int a = c.s.below(m[k].size()), b = c.s.below(m[o].size());
        osl_interface_t *x = l[k], *y = l[o];
        for (int j = 0; j < a; j++) x = x->next;
        for (int j = 0; j < b; j++) y = y->next;
        bool want = m[k][a].uri == m[o][b].uri && same_functions(m[k][a].like, m[o][b].like);
        CHECK(osl_interface_equal(x, y) == want, "equal", "comparison of " << x->URI << " and " << y->URI << " is " << !want);
        break;
      }
      case 9: {
        if (!c.s.pct(30)) break;
        osl_interface_t* x = osl_interface_get_default_registry();
        std::vector<Entry> v;
        for (auto& u : DEFAULT_REGISTRY) v.push_back({u, SAMPLES[std::find(EXT_URIS.begin(), EXT_URIS.end(), u) - EXT_URIS.begin()]});
        reg_is(x, v, "the default registry");
        osl_interface_free(l[k]);
        l[k] = x;
        m[k] = v;
        break;
      }
      case 10:
        osl_interface_add(&l[k], NULL);
        break;
    }
    reg_is(l[k], m[k], "the registry");
    reg_is(l[o], m[o], "the other registry");
  }
  osl_interface_free(l[0]);
  osl_interface_free(l[1]);
}
// ---- texts with several extensions
static V some_registry(Case& c, const VT& v) {
  V r;
  V pool = EXT_READABLE;
  int keep = c.s.pct(50) ? 100 : c.s.range(0, 100);
  while (!pool.empty()) {
    int p = c.s.pct(50) ? 0 : c.s.below(pool.size());
    bool used = find(v, pool[p]);
    if (c.s.pct(used ? keep : 50) || (used && keep == 100)) r.push_back(pool[p]);
    pool.erase(pool.begin() + p);
  }
  return r;
}
static VT retrieved(const VT& v, const V& reg) {
  VT r;
  for (auto& t : v)
    if (has(reg, t.name)) r.push_back(t);
  return r;
}
static void shuffle(Case& c, VT& v) {
  for (size_t i = 1; i < v.size(); i++) std::swap(v[i], v[c.s.below(i + 1)]);
}
static void reading(Case& c) {
  GExt g = options(c, true);
  VT v = gen_exts(c.s, EXT_READABLE, c.s.pct(15) ? 12 : 5, g);
  if (c.s.flip()) shuffle(c, v);
  V reg = some_registry(c, v);
  VT want = retrieved(v, reg);
  c.nontrivial = want.size() > 1;
  bool again = !v.empty() && c.s.pct(12);
  VT w = v;
  bool refused = false;
  if (again) {  // a second extension of the same tag
    T t = gen_ext(c.s, c.s.pick(v).name, g);
    w.insert(w.begin() + c.s.below(w.size() + 1), t);
    refused = has(reg, t.name);
    if (!refused) want = retrieved(w, reg);
  }
  Layout l;
  l.s = &c.s;
  l.noise = c.s.pct(50) ? 0 : c.s.range(0, 100);
  emit_generics(w, l, c.s.flip() ? 20 : 0);
  const S text = l.o;
  if (c.rendering) {
    c.log << "registry:";
    for (auto& u : reg) c.log << " " << u;
    c.log << "\n" << text;
  }
  osl_interface_t* r = build_registry(reg);
  int how = c.s.below(4);
  S copy = text;
  char* p = &copy[0];
  osl_generic_t* x = nullptr;
  auto read = [&] {
    switch (how) {
      case 0:
        x = osl_generic_sread(&p, r);
        break;
      case 1: {
        FILE* f = file_of(text + "</OpenScop>\nwhat follows\n");
        struct Close {
          FILE* f;
          ~Close() { fclose(f); }
        } close{f};
        x = osl_generic_read(f, r);
        char buf[32];
        CHECK(fgets(buf, 32, f) && (S(buf) == "\n" ? fgets(buf, 32, f) != NULL : true) && S(buf) == "what follows\n", "consumes",
              "the text after the end tag is not left to be read");
        break;
      }
      case 2:
        while (*p) osl_generic_add(&x, osl_generic_sread_one(&p, r));
        break;
      case 3: {
        FILE* f = file_of(text);
        struct Close {
          FILE* f;
          ~Close() { fclose(f); }
        } close{f};
        while (!feof(f)) osl_generic_add(&x, osl_generic_read_one(f, r));
        break;
      }
    }
  };
  if (refused) {
    bool e = exits(read);
    c.leak_exempt = true;
    label("refused");
    CHECK(e, "duplicate", "a text with two extensions of the same tag is accepted");
    return;
  }
  read();
  S d = diff(snap_generics(x), want);
  CHECK(d.empty(), "reading", "the extensions read: " << d);
  CHECK(snap_registry(r) == reg, "registry", "reading changed the registry");
  if (how == 0) CHECK(*p == 0, "consumes", "reading leaves \"" << p << "\"");
  ask(c, x, want, all_uris(), "what was read");
  osl_generic_free(x);
  osl_interface_free(r);
}
// ---- interfaces registered in a scop; its textual extension gives the content
static void registering(Case& c) {
  GExt g = options(c, true);
  VT v = gen_exts(c.s, EXT_READABLE, 5, g);
  Layout l;
  l.s = &c.s;
  l.noise = c.s.pct(50) ? 0 : 60;
  emit_generics(v, l, c.s.flip() ? 20 : 0);
  if (c.rendering) c.log << l.o;
  MScop s;
  bool textual = c.s.pct(85);
  V before;  // registered (and extracted) already
  VT present;
  for (auto& u : EXT_READABLE)
    if (c.s.pct(20)) before.push_back(u);
  present = retrieved(v, before);
  s.registry = before;
  s.ext = present;
  if (textual) {
    T t = T::list("textual");
    t.c.push_back(T::str("textual", l.o));
    t = [&] {
      osl_textual_t* x = osl_textual_malloc();
      x->textual = strdup(l.o.c_str());
      T r = snap_data("textual", x);
      osl_textual_free(x);
      return r;
    }();
    s.ext.insert(s.ext.begin() + c.s.below(s.ext.size() + 1), t);
  }
  MScops all = {s};
  osl_scop_t* scop = build(all);
  int n = 1 + c.s.small(3), found = 0;
  for (int i = 0; i < n; i++) {
    V add;
    for (int j = 1 + c.s.small(2); j > 0; j--) {
      S u = c.s.pct(60) && !v.empty() ? c.s.pick(v).name : c.s.pick(EXT_READABLE);
      if (!has(add, u) && !has(all[0].registry, u)) add.push_back(u);
    }
    if (c.rendering) {
      c.log << "register";
      for (auto& u : add) c.log << " " << u;
      c.log << "\n";
    }
    osl_scop_register_extension(scop, build_registry(add));
    all[0].registry.insert(all[0].registry.end(), add.begin(), add.end());
    if (textual)
      for (auto& t : retrieved(v, add)) {
        all[0].ext.push_back(t);
        found++;
      }
    S d = tdiff(snap(scop), all);
    CHECK(d.empty(), "register", "the scop after registering: " << d);
  }
  c.nontrivial = found > 0;
  if (!all[0].registry.empty() && c.s.pct(20)) {
    S u = c.s.pick(all[0].registry);
    osl_interface_t* x = ext_interface(u);
    bool e = exits([&] { osl_scop_register_extension(scop, x); });
    c.leak_exempt = true;
    label("refused");
    CHECK(e, "duplicate", "the interface \"" << u << "\" is registered twice");
    return;
  }
  osl_scop_free(scop);
}

namespace pbt {
Property property = {"P20",
                     "nontrivial: more than three operations; at least two extensions retrieved from a text; at least one "
                     "extension retrieved by registering",
                     {
                         {"lists", lists, 60000, 1500000, true},
                         {"registries", registries, 60000, 1500000, true},
                         {"reading", reading, 40000, 1000000, true},
                         {"registering", registering, 30000, 800000, true},
                     },
                     init};
}
