// P26: the token readers return exactly the next item of the input and stop right after it.
// A text and a sequence of readers, from a file or from a string, against a model that works on
// positions in the text.
#include <climits>

#include "scop.h"
using namespace pbt;
typedef std::string str;

static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f' || c == '\v'; }

// ------------------------------------------------------------------ texts
static str spaces(Src& s) {
  static const char* w[] = {" ", "  ", "\t", " \t ", "      ", "\r", " \f"};
  return w[s.below(7)];
}
static str an_int(Src& s) {
  static const char* w[] = {"0",  "1",  "-1", "12",         "-345",        "2147483647", "-2147483648", "2147483648", "-2147483649",
                            "+7", "007", "-0", "4294967296", "99999999999999999999", "9223372036854775807", "5x", "3.5", "-", "--1", "x"};
  return s.pct(60) ? std::to_string(s.range(-200, 200)) : w[s.below(20)];
}
static str a_word(Src& s) {
  static const char* w[] = {"a", "foo", "A_b", "x1", "(null)", "i+j", "[0]", "<", ">", "<b", "a>", "</x", "=", "%d", "\\n", "\"q\""};
  if (s.pct(4)) return str(100 + s.below(1200), 'w');
  return s.pct(60) ? w[s.below(16)] : str(1 + s.small(8), 'a' + s.below(26));
}
static str a_name(Src& s) {
  static const char* w[] = {"a", "foo", "OpenScop", "A_b", "body", "x", "foobar", "fo"};
  return s.pct(3) ? str(1 + s.below(1000), 't') : str(w[s.below(8)]);
}
static str a_tag(Src& s) {
  str n = a_name(s);
  switch (s.below(12)) {
    case 0:
      return "<>";
    case 1:
      return "<" + n;
    case 2:
      return "<" + n + "1>";
    case 3:
      return "<" + n + "/>";
    case 4:
      return "< " + n + ">";
    case 5:
      return "</>";
    case 6:
    case 7:
    case 8:
      return "</" + n + ">";
  }
  return "<" + n + ">";
}
static str a_text(Src& s, bool file, int size) {
  str t;
  int lines = s.small(size);
  for (int i = 0; i < lines; i++) {
    if (s.pct(15)) t += s.flip() ? "\n" : spaces(s) + "\n";
    if (s.pct(20)) t += (s.flip() ? "" : spaces(s)) + "# a <foo> comment 12" + (s.pct(5) ? str(s.below(3000), '#') : "") + "\n";
    str l;
    if (s.pct(25)) l += spaces(s);
    int n = s.pct(60) ? 1 : s.small(5);
    for (int k = 0; k < n; k++) {
      if (k) l += s.pct(80) ? " " : spaces(s);
      int q = s.below(10);
      l += q < 4 ? an_int(s) : q < 7 ? a_word(s) : a_tag(s);
      if (q > 8) l += s.flip() ? a_word(s) : a_tag(s);
    }
    if (s.pct(4)) {  // a long line, of words
      int k = 1 + s.below(400);
      for (int j = 0; j < k; j++) l += " word" + std::to_string(j);
    }
    if (s.pct(20)) l += spaces(s);
    if (s.pct(20)) l += str(s.flip() ? " #" : "#") + str(s.flip() ? " why" : "") + (s.pct(5) ? str(s.below(3000), '-') : "");
    t += l + "\n";
  }
  if (s.pct(20) && !t.empty()) t.pop_back();
  return t;
}

// ------------------------------------------------------------------ the model
struct Res {
  enum K { TEXT, NONE, REFUSED, INT, WORDS } k = NONE;
  str t;
  long v = 0;
  std::vector<str> w;
};
struct Model {
  const str& t;
  size_t p = 0;
  bool file;
  Model(const str& x, bool f) : t(x), file(f) {}
  // to the next character which is neither blank nor in a comment
  void skip() {
    while (p < t.size()) {
      if (blank(t[p]))
        p++;
      else if (t[p] == '#')
        while (p < t.size() && t[p] != '\n') p++;
      else
        break;
    }
  }
  // A file is read line after line: the rest of the line of an item is dropped.
  str rest() {
    size_t e = t.find('\n', p);
    if (e == str::npos) e = t.size();
    return t.substr(p, e - p);
  }
  void next_line() {
    size_t e = t.find('\n', p);
    p = e == str::npos ? t.size() : e + 1;
  }
  Res word_like(int op) {
    Res r;
    skip();
    bool end = p >= t.size();
    str l = rest();
    if (op == 0) {  // an int
      size_t i = 0;
      if (i < l.size() && (l[i] == '-' || l[i] == '+')) i++;
      size_t d = i;
      while (i < l.size() && isdigit((unsigned char)l[i])) i++;
      if (i == d) {
        r.k = Res::REFUSED;
        return r;
      }
      Z z(l.substr(l[0] == '+' ? 1 : 0, i - (l[0] == '+' ? 1 : 0)));
      if (z > Z(INT_MAX) || z < Z(INT_MIN)) {
        r.k = Res::REFUSED;
        return r;
      }
      r.k = Res::INT;
      r.v = z.get_si();
    } else if (op == 1) {  // a word
      size_t i = 0;
      while (i < l.size() && !blank(l[i]) && l[i] != '#') i++;
      if (end) {
        r.k = Res::REFUSED;
        return r;
      }
      r.k = Res::TEXT;
      r.t = l.substr(0, i);
    } else if (op == 2) {  // a line
      if (end && file) {
        r.k = Res::REFUSED;
        return r;
      }
      r.k = Res::TEXT;
      r.t = l.substr(0, l.find('#'));
      if (!file) {
        p += r.t.size();
        return r;
      }
    } else {  // a tag
      if (end) return r;
      size_t i = 1;
      if (l[0] != '<') {
        r.k = Res::REFUSED;
        return r;
      }
      while (i < l.size() && (isalpha((unsigned char)l[i]) || l[i] == '_' || (l[i] == '/' && i == 1))) i++;
      if (i >= l.size() || l[i] != '>') {
        r.k = Res::REFUSED;
        return r;
      }
      r.k = Res::TEXT;
      r.t = l.substr(1, i - 1);
      if (!file) {
        p += i + 1;
        return r;
      }
    }
    if (file)
      next_line();
    else
      while (p < t.size() && !blank(t[p]) && t[p] != '#') p++;
    return r;
  }
  Res upto(const str& flag) {
    Res r;
    size_t e = t.find(flag, p);
    if (e == str::npos) {
      p = t.size();
      return r;
    }
    r.k = Res::TEXT;
    r.t = t.substr(p, e - p);
    p = e + flag.size();
    return r;
  }
  Res words() {
    Res r;
    skip();
    if (p >= t.size()) return r;
    r.k = Res::WORDS;
    str l = rest();
    l = l.substr(0, l.find('#'));
    size_t i = 0, last = 0;
    while (i < l.size()) {
      while (i < l.size() && blank(l[i])) i++;
      size_t b = i;
      while (i < l.size() && !blank(l[i])) i++;
      if (i > b) {
        r.w.push_back(l.substr(b, i - b));
        last = i;
      }
    }
    if (file)
      next_line();
    else {
      p += last;
      if (p < t.size() && t[p] != '#') p++;  // with the blank that ends the last word
    }
    return r;
  }
  Res full() {
    Res r;
    skip();
    if (p >= t.size()) return r;
    r.k = Res::TEXT;
    size_t b = p;
    next_line();
    r.t = t.substr(b, p - b);
    return r;
  }
};

// (In a file, the items other than lists of words and full lines are in lines of at most 2047
// characters, comments aside.)
static bool long_line(const str& t, size_t p) {
  Model m(t, true);
  m.p = p;
  // as a line, from its beginning
  m.skip();
  size_t b = m.p;
  while (b > 0 && t[b - 1] != '\n') b--;
  b = std::max(b, p);
  size_t e = t.find('\n', m.p);
  if (e == str::npos) e = t.size();
  return e - b > 2000;
}
static void sequence(Case& c) {
  Src& s = c.s;
  bool file = s.flip();
  str t = a_text(s, file, s.pct(5) ? 60 : 10);
  Model m(t, file);
  if (c.rendering) c.log << (file ? "file" : "string") << "\n---- text\n" << t << "----\n";
  FILE* f = file ? file_of(t) : nullptr;
  str b = t;
  char* p = &b[0];
  char** sp = file ? nullptr : &p;
  int n = 1 + s.small(16), done = 0;
  static const char* N[] = {"read_int", "read_string", "read_line", "read_tag", "read_uptoflag", "read_uptotag", "read_uptoendtag",
                            "strings_read", "full_line", "skip_blank_and_comments"};
  for (int i = 0; i < n; i++) {
    int op;
    // mostly what is there
    Model look = m;
    look.skip();
    char next = look.p < t.size() ? t[look.p] : 0;
    if (s.pct(70))
      op = isdigit((unsigned char)next) || next == '-' ? (s.pct(80) ? 0 : 7) : next == '<' ? 3 : 1 + s.below(2);
    else
      op = s.below(10);
    if (op == 9 && file) op = 8;
    if (op == 8 && !file) op = 9;
    if (file && op < 4 && long_line(t, m.p)) op = s.flip() ? 7 : 8;
    str flag = s.flip() ? a_word(s) : a_name(s);
    if (s.flip()) {  // something that comes
      size_t k = m.p + s.below(200);
      if (k + 1 < t.size()) flag = t.substr(k, 1 + s.below(6));
    }
    if (op == 5 || op == 6) flag = a_name(s);
    if (flag.size() > 1000) flag.resize(1000);
    Res e;
    switch (op) {
      case 4:
        e = m.upto(flag);
        break;
      case 5:
        e = m.upto("<" + flag + ">");
        break;
      case 6:
        e = m.upto("</" + flag + ">");
        break;
      case 7:
        e = m.words();
        break;
      case 8:
        e = m.full();
        break;
      case 9:
        m.skip();
        break;
      default:
        e = m.word_like(op);
    }
    if (c.rendering) {
      c.log << "osl " << N[op];
      if (op >= 4 && op <= 6) c.log << " \"" << flag << "\"";
      c.log << "\n";
    }
    label(N[op]);
    char* r = nullptr;
    int v = 0;
    osl_strings_t* w = nullptr;
    bool ex = exits([&] {
      switch (op) {
        case 0:
          v = osl_util_read_int(f, sp);
          break;
        case 1:
          r = osl_util_read_string(f, sp);
          break;
        case 2:
          r = osl_util_read_line(f, sp);
          break;
        case 3:
          r = osl_util_read_tag(f, sp);
          break;
        case 4:
          r = osl_util_read_uptoflag(f, sp, flag.c_str());
          break;
        case 5:
          r = osl_util_read_uptotag(f, sp, flag.c_str());
          break;
        case 6:
          r = osl_util_read_uptoendtag(f, sp, flag.c_str());
          break;
        case 7:
          w = file ? osl_strings_read(f) : osl_strings_sread(&p);
          break;
        case 8:
          r = osl_util_read_full_line(f);
          break;
        default:
          osl_util_sskip_blank_and_comments(&p);
      }
    });
    if (e.k == Res::REFUSED) {
      CHECK(ex, N[op], N[op] << " accepts what is not one, or the end of the input");
      c.leak_exempt = true;
      break;
    }
    if (ex) fail(N[op], str(N[op]) + " refuses a proper item");
    done++;
    if (e.k == Res::INT) CHECK(v == e.v, N[op], N[op] << " returns " << v << " instead of " << e.v);
    if (e.k == Res::NONE) CHECK(!r && !w, N[op], N[op] << " returns something: \"" << (r ? r : "") << "\"");
    // (A full line holds its comment, whose end may be dropped when it is long.)
    if (op == 8 && r) {
      bool commented = e.t.find('#') != str::npos;
      if (strchr(r, '#')) *strchr(r, '#') = 0;
      e.t = e.t.substr(0, e.t.find('#'));
      if (commented && *r && r[strlen(r) - 1] == '\n') r[strlen(r) - 1] = 0;
    }
    if (e.k == Res::TEXT) {
      CHECK(r, N[op], N[op] << " returns nothing instead of \"" << e.t << "\"");
      CHECK(e.t == r, N[op], N[op] << " returns \"" << r << "\" instead of \"" << e.t << "\"");
    }
    if (e.k == Res::WORDS) {
      CHECK(w, N[op], N[op] << " returns nothing");
      CHECK(osl_strings_size(w) == e.w.size(), N[op], N[op] << " returns " << osl_strings_size(w) << " words instead of " << e.w.size());
      for (size_t k = 0; k < e.w.size(); k++)
        CHECK(e.w[k] == w->string[k], N[op], N[op] << " word " << k << " is \"" << w->string[k] << "\" instead of \"" << e.w[k] << "\"");
    }
    free(r);
    osl_strings_free(w);
    CHECK(t == b, "text", N[op] << " changed the text");
    if (!file)
      CHECK(p == &b[0] + m.p, N[op], N[op] << " leaves the input at " << p - &b[0] << " instead of " << m.p);
    else if (e.k == Res::NONE && op != 3) {
      // (the end of the file)
    } else
      CHECK(ftell(f) == (long)m.p, N[op], N[op] << " leaves the file at " << ftell(f) << " instead of " << m.p);
  }
  c.nontrivial = done >= 2;
  if (f) fclose(f);
}

// ------------------------------------------------------------------ contents of tags
static str close_to(int how, const str& n, Src& s) {
  str m = how == 0   ? n + a_name(s)
          : how == 1 ? n.substr(0, n.size() - 1)
          : how == 2 ? n
                     : a_name(s) + n;
  return (s.flip() ? "</" : "<") + m + (how == 2 ? "" : ">");
}
static void content(Case& c) {
  Src& s = c.s;
  str t, n = a_name(s);
  int k = s.small(12);
  for (int i = 0; i < k; i++) {
    if (s.pct(20)) {  // almost the tag
      t += close_to(s.below(4), n, s);
      continue;
    }
    switch (s.below(6)) {
      case 0:
        t += "<" + n + ">";
        break;
      case 1:
        t += "</" + n + ">";
        break;
      case 2:
        t += a_tag(s);
        break;
      case 3:
        t += "\n";
        break;
      default:
        t += s.flip() ? a_word(s) : an_int(s) + " ";
    }
  }
  if (c.rendering) c.log << n << " in\n" << t << "\n";
  str b = t;
  char* r = osl_util_tag_content(&b[0], n.c_str());
  size_t p = t.find("<" + n + ">");
  bool some = false;
  str want;
  if (p != str::npos) {
    p += n.size() + 2;
    if (p < t.size() && t[p] == '\n') p++;
    size_t e = t.find("</" + n + ">", p);
    if (e != str::npos) {
      some = true;
      want = t.substr(p, e - p);
    }
  }
  c.nontrivial = some;
  CHECK((r != nullptr) == some, "tag_content", "the content is " << (some ? "not found" : "found though there is none"));
  if (some) CHECK(want == r, "tag_content", "the content is \"" << r << "\" instead of \"" << want << "\"");
  CHECK(t == b, "text", "the text changed");
  free(r);
  CHECK(!osl_util_tag_content(nullptr, n.c_str()), "tag_content", "a content of no text");
}

// ------------------------------------------------------------------ growing strings
static void growing(Case& c) {
  Src& s = c.s;
  size_t hwm = s.flip() ? OSL_MAX_STRING : 1 + s.below(5000);
  char* d = (char*)malloc(hwm);
  d[0] = 0;
  str m;
  int n = 1 + s.small(20);
  static const int L[] = {0, 1, 2, 7, 100, 1023, 1024, 2046, 2047, 2048, 2049, 4095, 4096, 6000, 9000};
  c.nontrivial = n > 1;
  for (int i = 0; i < n; i++) {
    int len = s.pct(40) ? (int)std::max<long>(0, (long)hwm - (long)m.size() + s.range(-2, 1)) : L[s.below(15)];
    str x;
    for (int k = 0; k < len; k++) x += (char)('a' + (i + k) % 26);
    if (c.rendering) c.log << "size " << hwm << ", holding " << m.size() << ", adding " << len << "\n";
    osl_util_safe_strcat(&d, x.c_str(), &hwm);
    m += x;
    CHECK(m == d, "safe_strcat", "after adding " << len << " characters the string is not what it should be");
    CHECK(hwm > m.size(), "safe_strcat", "the size of the buffer " << hwm << " is less than its content " << m.size());
    d[hwm - 1] = d[hwm - 1];  // (the buffer has that size)
    volatile char v = d[hwm - 1];
    d[hwm - 1] = hwm - 1 == m.size() ? 0 : v;
  }
  char* k = osl_util_strdup(d);
  CHECK(k != d && m == k, "strdup", "the copy differs");
  free(k);
  free(d);
}

Property pbt::property = {
    "P26",
    "a case is non-trivial when two readers or more succeeded, or a content was found, or several texts were added",
    {{"sequence", sequence, 500000, 10000000, true},
     {"content", content, 40000, 800000, true},
     {"growing", growing, 20000, 400000, true}}};
