// P32: a call has no effect outside of its arguments and result.
// The tasks of P30 run under watch: standard input and output, the open files, the environment,
// the working directory, the locale, ... are the same after every call; what is written on
// standard error are messages.
#include <errno.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <signal.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#define P30_PARTS_ONLY
#include "P30.cpp"
extern char** environ;

// ---- the outside
static int fd_in = -1, fd_out = -1, fd_err = -1;
static int temporary(const char* content) {
  FILE* f = tmpfile();
  if (!f) fail("harness", "no temporary file");
  fputs(content, f);
  fflush(f);
  int d = fcntl(fileno(f), F_DUPFD, 200);
  fclose(f);
  return d;
}
static const char INPUT[] = "<OpenScop>\nthis is the standard input\n1 2 3\n";
static void begin() {
  fd_in = temporary(INPUT);
  lseek(fd_in, 5, SEEK_SET);
  dup2(fd_in, 0);
  fd_out = temporary("");
  dup2(fd_out, 1);
  alloc_limit = 64 << 20;
  fd_err = temporary("");
  if (!setlocale(LC_ALL, "C.UTF-8")) setlocale(LC_ALL, "POSIX");
}
struct Outside {
  S out, env, cwd, loc;
  long in;
  std::vector<int> fds;
  std::vector<void*> sig;
  int round, mask;
  bool operator==(const Outside& o) const {
    return out == o.out && env == o.env && cwd == o.cwd && loc == o.loc && in == o.in && fds == o.fds && sig == o.sig &&
           round == o.round && mask == o.mask;
  }
};
static S content(int fd) {
  struct stat st;
  fstat(fd, &st);
  S t((size_t)st.st_size, 0);
  if (!t.empty() && pread(fd, &t[0], t.size(), 0) != (ssize_t)t.size()) t = "?";
  return t;
}
static Outside outside() {
  Outside o;
  fflush(stdout);
  o.out = content(1);
  o.in = lseek(0, 0, SEEK_CUR);
  for (char** e = environ; *e; e++) o.env += S(*e) + "\n";
  char b[4096];
  o.cwd = getcwd(b, sizeof b) ? b : "?";
  o.loc = setlocale(LC_ALL, nullptr);
  for (int i = 0; i < 64; i++)
    if (fcntl(i, F_GETFD) >= 0) o.fds.push_back(i);
  for (int i : {SIGINT, SIGTERM, SIGPIPE, SIGFPE, SIGUSR1, SIGCHLD, SIGALRM}) {
    struct sigaction a;
    sigaction(i, nullptr, &a);
    o.sig.push_back((void*)a.sa_handler);
  }
  o.round = fegetround();
  o.mask = 0;
  return o;
}
// Runs f with standard error in a file.
template <class F>
static S messages(F f) {
  fflush(stderr);
  if (ftruncate(fd_err, 0)) fail("harness", "temporary file");
  lseek(fd_err, 0, SEEK_SET);
  int old = fcntl(2, F_DUPFD, 200);
  dup2(fd_err, 2);
  struct Back {
    int old;
    ~Back() {
      fflush(stderr);
      dup2(old, 2);
      close(old);
    }
  };
  {
    Back b{old};
    f();
  }
  return content(fd_err);
}
static bool refused(const S& m) { return m.find("rror") != S::npos; }
static S said;  // by the last call
static void watch(Case& c, const S& what, const std::function<void()>& f, bool silent) {
  Outside a = outside();
  bool e = false;
  int code = 0;
  last_exit = -1;
  S m = messages([&] {
    try {
      f();
    } catch (OslExit& x) {
      e = true;
      code = x.code;
    }
  });
  said = m;
  if (last_exit >= 0) {
    e = true;
    code = last_exit;
  }
  Outside b = outside();
  CHECK(a.out == b.out, "stdout", what << " writes on the standard output: " << b.out.substr(std::min(a.out.size(), b.out.size())));
  CHECK(a.in == b.in, "stdin", what << " reads the standard input");
  CHECK(a.env == b.env, "environment", what << " changes the environment:\n" << a.env << "\nto\n" << b.env);
  CHECK(a.cwd == b.cwd && a.loc == b.loc, "process", what << " changes the working directory or the locale");
  CHECK(a.fds == b.fds || e, "files", what << " leaves a file open, or closes one");
  CHECK(a == b || e, "process", what << " changes a signal handler or the rounding of numbers");
  if (e) {
    c.leak_exempt = true;
    CHECK(code == 1, "status", what << " ends the program with status " << code);
    CHECK(refused(m), "message", what << " ends the program without an error message, but \"" << m << "\"");
  } else {
    CHECK(!refused(m), "message", what << " returns after an error message: " << m);
    CHECK(!silent || m.empty(), "talk", what << " writes a message: " << m);
  }
  CHECK(m.empty() || m.back() == '\n', "message", what << " writes a message that does not end: " << m);
}
static void tasks(Case& c) {
  Src& s = c.s;
  Task t = gen_task(s, ALLPREC[s.below(3)], 14);
  label(t.kind);
  set_env(t.prec);
  if (c.rendering) {
    c.log << "task " << t.kind << ", " << precname(t.prec) << ":";
    for (auto& x : t.script) c.log << " " << x.op << "(" << x.a << "," << x.b << ")";
    c.log << "\n";
  }
  c.nontrivial = t.script.size() > 2;
  std::unique_ptr<Live> l;
  watch(c, t.kind + ": the construction of the objects", [&] { l.reset(new Live(t.start())); }, false);
  if (!l) return;
  for (auto& x : t.script) {
    size_t o = x.op % (l->ops.size() + l->muts.size());
    bool over = true;
    watch(c, t.kind + ", call " + std::to_string(o), [&] {
      (o < l->ops.size() ? l->ops[o] : l->muts[o - l->ops.size()])(x.a, x.b);
      over = false;
    }, t.kind == "tool" || t.kind == "export");
    if (over) return;
  }
  watch(c, t.kind + ": the release of the objects", [&] { l->done(); }, true);
}

// ---- the streams and texts that calls are given
static S rest_of(FILE* f) {
  S t;
  for (int ch; (ch = fgetc(f)) != EOF;) t += (char)ch;
  return t;
}
static S damaged(Src& s, S t) {  // often not at all
  if (t.empty()) return t;
  if (s.pct(10)) t.resize(s.below(t.size()));
  if (s.pct(70)) return t;
  std::vector<std::pair<size_t, size_t>> w;  // the words, or the lines
  bool lines = s.pct(30);
  for (size_t i = 0; i < t.size();) {
    size_t j = i;
    while (j < t.size() && (lines ? t[j] != '\n' : !isspace((unsigned char)t[j]))) j++;
    if (j > i) w.push_back({i, j - i});
    i = j + 1;
  }
  if (w.empty()) return t;
  auto a = w[s.below(w.size())], b = w[s.below(w.size())];
  int how = s.below(5);
  if (how == 4) {  // one keyword for another
    const V key = {"DOMAIN", "SCATTERING", "READ", "WRITE", "MAY_WRITE", "CONTEXT"};
    std::vector<std::pair<size_t, size_t>> k;
    for (auto& x : w)
      if (std::find(key.begin(), key.end(), t.substr(x.first, x.second)) != key.end()) k.push_back(x);
    if (k.empty()) return t;
    a = k[s.below(k.size())];
    return t.replace(a.first, a.second, s.pick(key));
  }
  if (how == 0) return t.erase(a.first, a.second);
  if (how == 1) return t.insert(a.first, t.substr(b.first, b.second) + (lines ? "\n" : " "));
  if (how == 2) {
    V words = {"DOMAIN", "SCATTERING", "READ", "CONTEXT", "-1", "0", "7", "<", "</OpenScop>", "#", "99999999999", "x"};
    return t.replace(a.first, a.second, s.pick(words));
  }
  return t.replace(a.first, a.second, t.substr(b.first, b.second));
}
static void prints(Case& c) {  // what is in a stream stays, and the stream is as usable as before
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  set_env(prec);
  GScop g;
  g.e.prec = prec;
  g.maxstmts = 2;
  g.maxacc = 2;
  g.absent = false;
  g.loose = s.pct(30);
  osl_scop_t* x = build(gen_scops(s, g));
  osl_names_t* names_ = nullptr;
  osl_relation_t* rel = build(gen_any_union(s, prec, GRel(), 2));
  typedef std::function<void(FILE*)> Print;
  std::vector<std::pair<S, Print>> ps;
  int a_[5];
  osl_scop_get_attributes(x, a_, a_ + 1, a_ + 2, a_ + 3, a_ + 4);
  if (a_[4] < 1000) {
    ps.push_back({"osl_scop_print", [=](FILE* f) { osl_scop_print(f, x); }});
    names_ = osl_scop_names(x);
    ps.push_back({"osl_names_dump", [=](FILE* f) { osl_names_dump(f, names_); }});
    if (x->context) ps.push_back({"osl_relation_print", [=](FILE* f) { osl_relation_print(f, x->context); }});
    if (x->statement) ps.push_back({"osl_statement_print", [=](FILE* f) { osl_statement_print(f, x->statement); }});
    if (x->context)
      ps.push_back({"osl_relation_pprint", [=](FILE* f) { osl_relation_pprint(f, x->context, names_); }});
  }
  ps.push_back({"osl_scop_dump", [=](FILE* f) { osl_scop_dump(f, x); }});
  ps.push_back({"osl_relation_dump", [=](FILE* f) { osl_relation_dump(f, rel); }});
  ps.push_back({"osl_generic_print", [=](FILE* f) { osl_generic_print(f, x ? x->extension : nullptr); }});
  ps.push_back({"osl_generic_dump", [=](FILE* f) { osl_generic_dump(f, x ? x->extension : nullptr); }});
  ps.push_back({"osl_interface_dump", [=](FILE* f) { osl_interface_dump(f, x->registry); }});
  if (x && x->statement) ps.push_back({"osl_statement_dump", [=](FILE* f) { osl_statement_dump(f, x->statement); }});
  std::vector<int> order;
  int n = 1 + s.small(4);
  for (int i = 0; i < n; i++) order.push_back(s.below(ps.size()));
  bool append = s.flip(), update = s.flip(), small = s.flip();
  bool sound = true;
  S want, before = s.flip() ? "" : "what is in the file\n";
  for (int i : order) want += print_to_string(ps[i].second) + "|";
  want = before + want;
  FILE* f = tmpfile();
  fputs(before.c_str(), f);
  if (append && !update) {
    fflush(f);
    int d = dup(fileno(f));
    fclose(f);
    f = fdopen(d, "a");
  }
  if (small) setvbuf(f, nullptr, s.flip() ? _IONBF : _IOLBF, 0);
  for (int i : order) {
    label(ps[i].first);
    watch(c, ps[i].first, [&] { ps[i].second(f); }, false);
    if (ps[i].first == "osl_scop_print") {
      S t = said;
      watch(c, "osl_scop_integrity_check", [&] { sound = osl_scop_integrity_check(x); }, false);
      CHECK((t.find("ntegrity check failed") == S::npos) == sound, "warning",
            "osl_scop_print of " << (sound ? "a correct" : "an incorrect") << " scop says \"" << t << "\"");
      label(sound ? "correct" : "incorrect");
    }
    CHECK(fputc('|', f) == '|' && !ferror(f), "stream", "the stream given to " << ps[i].first << " cannot be written to anymore");
  }
  fflush(f);
  S got = content(fileno(f));
  CHECK(got == want, "stream", "printing " << order.size() << " objects one after the other gives\n" << got << "\ninstead of\n" << want);
  fclose(f);
  c.nontrivial = order.size() > 1;
  osl_names_free(names_);
  osl_relation_free(rel);
  osl_scop_free(x);
}
static void reads(Case& c) {  // any kind of stream with the same characters gives the same
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  set_env(prec);
  GScop g;
  g.e.prec = prec;
  g.e.readable = true;
  g.maxstmts = 2;
  g.maxacc = 2;
  g.absent = false;
  MScops m = gen_scops(s, g);
  Layout lay;
  lay.s = &s;
  lay.noise = s.flip() ? 30 : 0;
  int what = s.below(4);
  S doc, name;
  GRel gr;
  MUnion u = gen_any_union(s, prec, gr, 2);
  if (what == 0) {
    doc = emit(m, lay);
    if (!lay.o.empty()) doc = lay.o;
    name = "osl_scop_read";
  } else if (what == 1) {
    emit_relation(u, lay);
    doc = lay.o;
    name = "osl_relation_read";
  } else if (what == 2) {
    emit_generics(m.empty() ? std::vector<T>() : m[0].ext, lay, 0);
    doc = lay.o + "</OpenScop>\n";
    name = "osl_generic_read";
  } else {
    doc = "one two three # four\nrest\n";
    name = "osl_strings_read";
  }
  doc = damaged(s, doc);
  if (s.pct(30)) doc += "\n# the end\n12 34\n";
  if (doc.size() > 60000) discard();
  label(name);
  auto run = [&](FILE* f) {
    S r;
    bool e = true;
    watch(c, name, [&] {
      if (what == 0) {
        osl_interface_t* reg = osl_interface_get_default_registry();
        osl_scop_t* q = osl_scop_pread(f, reg, prec);
        osl_interface_free(reg);
        r = show(tree(snap(q)));
        osl_scop_free(q);
      } else if (what == 1) {
        osl_relation_t* q = osl_relation_pread(f, prec);
        r = show(snap(q));
        osl_relation_free(q);
      } else if (what == 2) {
        osl_interface_t* reg = osl_interface_get_default_registry();
        osl_generic_t* q = osl_generic_read(f, reg);
        osl_interface_free(reg);
        r = shown(snap_generics(q));
        osl_generic_free(q);
      } else {
        osl_strings_t* q = osl_strings_read(f);
        r = print_to_string([&](FILE* o) { osl_strings_print(o, q); });
        osl_strings_free(q);
      }
      e = false;
    }, false);
    return (e ? S("refused") : r) + "; left:\n" + rest_of(f);
  };
  FILE* f = file_of(doc);
  S ref = run(f);
  fclose(f);
  bool memory = said.find("memory overflow") != S::npos;
  c.nontrivial = ref.compare(0, 7, "refused") != 0;
  int kind = s.below(4);
  if (kind == 0) {  // in the middle of a file
    S before = "<OpenScop>\n1 2 3\nnot for the call\n";
    f = file_of(before + doc);
    for (size_t i = 0; i < before.size(); i++) fgetc(f);
  } else if (kind == 1) {  // a file open for reading and writing, without a buffer
    f = tmpfile();
    fputs(doc.c_str(), f);
    rewind(f);
    setvbuf(f, nullptr, _IONBF, 0);
  } else if (kind == 2) {  // a small buffer
    f = file_of(doc);
    static char b[16];
    setvbuf(f, b, _IOFBF, 1 + s.below(16));
  } else {  // not seekable
    int p[2];
    if (pipe(p)) fail("harness", "pipe");
    if (write(p[1], doc.data(), doc.size()) != (ssize_t)doc.size()) fail("harness", "pipe");
    close(p[1]);
    f = fdopen(p[0], "r");
  }
  S how = V{"in the middle of a file", "without a buffer", "with a small buffer", "from a pipe"}[kind];
  label(how);
  S got = run(f);
  fclose(f);
  if (memory || said.find("memory overflow") != S::npos) discard();  // damaged sizes
  CHECK(ref == got, "stream", name << " of the same text, " << how
                                   << ", gives\n" << got << "\ninstead of\n" << ref << "\ntext:\n" << doc);
}
static void texts(Case& c) {  // a text that is read stays as it is
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  set_env(prec);
  GExt g;
  g.prec = prec;
  g.readable = true;
  Layout lay;
  lay.s = &s;
  lay.noise = s.flip() ? 30 : 0;
  S doc, name;
  int what = s.below(4);
  S uri = s.pick(EXT_READABLE);
  if (what == 0) {
    T m = gen_ext(s, uri, g);
    doc = ext_text(m, lay);
    if (!lay.o.empty()) doc = lay.o;
    name = uri;
  } else if (what == 1) {
    emit_relation(gen_any_union(s, prec, GRel(), 2), lay);
    doc = lay.o;
    name = "osl_relation_sread";
  } else if (what == 2) {
    emit_generics(gen_exts(s, EXT_READABLE, 3, g), lay, 10);
    doc = lay.o;
    name = "osl_generic_sread";
  } else {
    doc = "one  two\tthree # four\nrest\n";
    name = "osl_strings_sread";
  }
  doc = damaged(s, doc);
  if (s.pct(30)) doc += "\n# the end\n12 34\n";
  label(name);
  std::vector<char> b(doc.begin(), doc.end());
  b.push_back(0);
  char *p = b.data(), *q = p;
  bool done = false;
  watch(c, name, [&] {
    if (what == 0) {
      osl_interface_t* it = ext_interface(uri);
      void* d = it->sread(&q);
      it->free(d);
      osl_interface_free(it);
    } else if (what == 1) {
      osl_relation_free(osl_relation_psread(&q, prec));
    } else if (what == 2) {
      osl_interface_t* reg = osl_interface_get_default_registry();
      osl_generic_free(osl_generic_sread(&q, reg));
      osl_interface_free(reg);
    } else {
      osl_strings_free(osl_strings_sread(&q));
    }
    done = true;
  }, false);
  c.nontrivial = done && !doc.empty();
  CHECK(S(b.data(), doc.size()) == doc && !b.back(), "text", name << " changes the text it reads, from\n" << doc << "\nto\n" << S(b.data(), doc.size()));
  CHECK(!done || !q || (q >= p && q <= p + doc.size()), "text", name << " moves out of the text");
}
Property pbt::property = {"P32",
                          "more than two calls; several prints; not refused",
                          {{"tasks", tasks, 16000, 500000, true},
                           {"prints", prints, 4000, 100000, true},
                           {"reads", reads, 6000, 150000, true},
                           {"texts", texts, 6000, 150000, true}},
                          nullptr,
                          begin};
