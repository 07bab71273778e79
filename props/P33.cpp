// P33: running out of memory ends the program with an error.
// One of the allocations of a sequence of calls (the tasks of P30, and others) fails.
#include <errno.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#define P30_PARTS_ONLY
#include "P30.cpp"

static int fd_err = -1;
static void begin() {
  FILE* f = tmpfile();
  if (!f) fail("harness", "no temporary file");
  fd_err = fcntl(fileno(f), F_DUPFD, 200);
  fclose(f);
}
static S content(int fd) {
  struct stat st;
  fstat(fd, &st);
  S t((size_t)st.st_size, 0);
  if (!t.empty() && pread(fd, &t[0], t.size(), 0) != (ssize_t)t.size()) t = "?";
  return t;
}
struct Outcome {
  V seen;
  bool exited = false;
  int code = 0, at = -1;
  S messages;
  long allocs = 0;
  bool failed = false;
};
// The transcript of the calls of a task when its k-th allocation fails.
static Outcome run(const Task& t, long k) {
  Outcome o;
  set_env(t.prec);
  Live l = t.start();
  fflush(stderr);
  if (ftruncate(fd_err, 0)) fail("harness", "temporary file");
  lseek(fd_err, 0, SEEK_SET);
  int old = fcntl(2, F_DUPFD, 200);
  struct Back {
    int old;
    ~Back() {
      alloc_fail = 0;
      fflush(stderr);
      dup2(old, 2);
      close(old);
    }
  };
  {
    Back b{old};
    dup2(fd_err, 2);
    alloc_failed = nullptr;
    alloc_count = 0;
    alloc_fail = k;
    try {
      for (auto& x : t.script) {
        o.at = x.op % (l.ops.size() + l.muts.size());
        last_exit = -1;
        S r = o.at < (int)l.ops.size() ? l.ops[o.at](x.a, x.b) : l.muts[o.at - l.ops.size()](x.a, x.b);
        if (last_exit >= 0) throw OslExit{last_exit};
        o.seen.push_back(r);
      }
      l.done();
    } catch (OslExit& e) {
      o.exited = true;
      o.code = e.code;
    }
    o.allocs = alloc_count;
    o.failed = alloc_failed != nullptr;
  }
  o.messages = content(fd_err);
  return o;
}
extern "C" void __sanitizer_symbolize_pc(void*, const char*, char*, size_t);
static S site() {
  static std::map<void*, S> known;
  if (!known.count(alloc_failed)) {
    char b[300] = "";
    __sanitizer_symbolize_pc((char*)alloc_failed - 1, "%f", b, sizeof b);
    known[alloc_failed] = b;
  }
  return known[alloc_failed];
}
static void decide(Case& c, const Task& t) {
  Src& s = c.s;
  if (c.rendering) {
    c.log << "task " << t.kind << ", " << precname(t.prec) << ":";
    for (auto& x : t.script) c.log << " " << x.op << "(" << x.a << "," << x.b << ")";
    c.log << "\n";
  }
  Outcome ref = run(t, 0);
  if (ref.exited) c.leak_exempt = true;
  if (!ref.allocs) {
    label(t.kind + ": without allocations");
    return;
  }
  long k = 1 + s.below(ref.allocs);
  Outcome o = run(t, k);
  S where = site();
  c.leak_exempt = true;
  CHECK(o.failed, "deterministic", "the same calls ask for memory " << ref.allocs << " times, then fewer than " << k);
  label(t.kind);
  label("in " + where);
  c.nontrivial = true;
  if (c.rendering) c.log << "allocation " << k << " of " << ref.allocs << " fails, in " << where << "\n";
  if (o.exited) {
    CHECK(o.code == 1, "status", "memory runs out in " << where << ": the program ends with status " << o.code);
    CHECK(o.messages.find("rror") != S::npos, "message", "memory runs out in " << where << ": the program ends without an error, but \"" << o.messages << "\"");
  } else
    CHECK(o.seen == ref.seen, "result", "memory runs out in " << where << ", and calls go on with other results");
}
static void tasks(Case& c) { decide(c, gen_task(c.s, ALLPREC[c.s.below(3)], 4)); }

// ---- streams that fail
struct Sink {
  S got;
  size_t room;
};
static ssize_t sink_write(void* c, const char* b, size_t n) {
  Sink* k = (Sink*)c;
  size_t m = std::min(n, k->room - k->got.size());
  k->got.append(b, m);
  if (!m && n) errno = ENOSPC;
  return m;
}
static void full(Case& c) {  // no room for the whole text
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  set_env(prec);
  GScop g;
  g.e.prec = prec;
  g.maxstmts = 2;
  g.maxacc = 2;
  g.absent = false;
  osl_scop_t* x = build(gen_scops(s, g));
  int a[5];
  osl_scop_get_attributes(x, a, a + 1, a + 2, a + 3, a + 4);
  int what = s.below(a[4] < 1000 ? 7 : 4);
  if (!x && what != 0) what = 3;
  const char* name[] = {"osl_scop_dump", "osl_generic_print", "osl_interface_dump", "osl_relation_dump", "osl_scop_print", "osl_statement_print", "osl_names_dump"};
  if (what == 5 && !x->statement) what = 4;
  osl_names_t* n = what == 6 ? osl_scop_names(x) : nullptr;
  auto print = [&](FILE* f) {
    switch (what) {
      case 0: osl_scop_dump(f, x); break;
      case 1: osl_generic_print(f, x->extension); break;
      case 2: osl_interface_dump(f, x->registry); break;
      case 3: osl_relation_dump(f, x ? x->context : nullptr); break;
      case 4: osl_scop_print(f, x); break;
      case 5: osl_statement_print(f, x->statement); break;
      default: osl_names_dump(f, n);
    }
  };
  label(name[what]);
  S want = print_to_string(print), before = show(tree(snap(x)));
  Sink k;
  k.room = s.below(want.size() + 2);
  cookie_io_functions_t io = {nullptr, sink_write, nullptr, nullptr};
  FILE* f = fopencookie(&k, "w", io);
  int mode = s.below(3);
  char b[64];
  if (mode == 0) setvbuf(f, nullptr, _IONBF, 0);
  if (mode == 1) setvbuf(f, b, _IOFBF, sizeof b);
  c.nontrivial = k.room < want.size() && k.room > 0;
  if (c.rendering) c.log << name[what] << " of\n" << before << "\nwith room for " << k.room << " of " << want.size() << " characters, buffering " << mode << "\n";
  print(f);
  bool error = fflush(f) || ferror(f);
  CHECK(error == (k.room < want.size()), "stream", name[what] << (error ? " reports an error" : " hides the error of its stream"));
  CHECK(k.got == want.substr(0, k.got.size()), "stream", name[what] << " on a stream that fails writes\n" << k.got << "\nwhich is no beginning of\n" << want);
  CHECK(mode == 2 || k.got.size() == std::min(k.room, want.size()), "stream", name[what] << " writes " << k.got.size() << " characters with room for " << k.room);
  fclose(f);
  osl_names_free(n);
  CHECK(before == show(tree(snap(x))), "const", name[what] << " on a stream that fails changes the object");
  osl_scop_free(x);
}
struct Source {
  S text;
  size_t at = 0, piece;
};
static ssize_t source_read(void* c, char* b, size_t n) {
  Source* k = (Source*)c;
  size_t m = std::min({n, k->piece, k->text.size() - k->at});
  if (!m) {
    errno = EIO;
    return -1;
  }
  memcpy(b, k->text.data() + k->at, m);
  k->at += m;
  return m;
}
static void broken(Case& c) {  // the text cannot be read up to the end
  Src& s = c.s;
  int prec = ALLPREC[s.below(3)];
  set_env(prec);
  GScop g;
  g.e.prec = prec;
  g.e.readable = true;
  g.maxstmts = 2;
  g.maxacc = 2;
  g.absent = false;
  Layout lay;
  lay.s = &s;
  lay.noise = s.flip() ? 30 : 0;
  int what = s.below(3);
  const char* name[] = {"osl_scop_read", "osl_relation_read", "osl_generic_read"};
  S doc;
  if (what == 0) {
    doc = emit(gen_scops(s, g), lay);
  } else if (what == 1) {
    emit_relation(gen_any_union(s, prec, GRel(), 2), lay);
  } else {
    emit_generics(gen_exts(s, EXT_READABLE, 3, g.e), lay, 0);
    lay.o += "</OpenScop>\n";
  }
  if (!lay.o.empty()) doc = lay.o;
  label(name[what]);
  auto run = [&](FILE* f) {
    S r = "refused";
    try {
      if (what == 0) {
        osl_interface_t* reg = osl_interface_get_default_registry();
        osl_scop_t* q = osl_scop_pread(f, reg, prec);
        osl_interface_free(reg);
        r = show(tree(snap(q)));
        osl_scop_free(q);
      } else if (what == 1) {
        osl_relation_t* q = osl_relation_pread(f, prec);
        r = show(snap(q));
        osl_relation_free(q);
      } else {
        osl_interface_t* reg = osl_interface_get_default_registry();
        osl_generic_t* q = osl_generic_read(f, reg);
        osl_interface_free(reg);
        r = shown(snap_generics(q));
        osl_generic_free(q);
      }
    } catch (OslExit& e) {
      c.leak_exempt = true;
      CHECK(e.code == 1, "status", name[what] << " ends the program with status " << e.code);
    }
    fclose(f);
    return r;
  };
  Source k;
  k.text = doc.substr(0, s.below(doc.size() + 1));
  k.piece = s.flip() ? 4096 : 1 + s.below(20);
  size_t line = k.text.rfind('\n');
  line = line == S::npos ? 0 : line + 1;
  cookie_io_functions_t io = {source_read, nullptr, nullptr, nullptr};
  S got = run(fopencookie(&k, "r", io)), cut = run(file_of(k.text)), lines = run(file_of(k.text.substr(0, line)));
  c.nontrivial = k.text.size() > 10 && k.text.size() < doc.size();
  CHECK(got == cut || got == lines || got == "refused", "stream",
        name[what] << " on a stream that fails after\n" << k.text << "\ngives\n" << got << "\nwhen this text gives\n" << cut);
}
Property pbt::property = {"P33",
                          "an allocation failed; a stream failed in the middle of the text",
                          {{"memory", tasks, 40000, 800000, false}, {"full", full, 6000, 150000, true}, {"broken", broken, 6000, 150000, true}},
                          nullptr,
                          begin};
