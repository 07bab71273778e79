// P19: identifier substitution in body text is exact and reversible.
#include "scop.h"
using namespace pbt;
typedef std::string S;

static bool wordc(char ch) {
  return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_';
}
static S substitute(const S& text, const std::vector<S>& ids) {
  std::vector<char*> p;
  for (auto& x : ids) p.push_back(const_cast<char*>(x.c_str()));
  p.push_back(nullptr);
  S before = text;
  std::vector<char> copy(text.begin(), text.end());  // exactly as long as needed
  copy.push_back(0);
  char* r = osl_util_identifier_substitution(copy.data(), p.data());
  CHECK(before == copy.data(), "changed", "the text given changed");
  S out = r;
  free(r);
  return out;
}
static bool blank(char ch) { return ch == ' ' || (ch >= '\t' && ch <= '\r'); }
struct Word {
  size_t at;
  int id;
  S name;
};
// The words of the text that are identifiers of the list.
static std::vector<Word> words(const S& t, const std::vector<S>& ids) {
  std::vector<Word> v;
  for (size_t i = 0; i < t.size();) {
    if (!wordc(t[i])) {
      i++;
      continue;
    }
    size_t j = i;
    while (j < t.size() && wordc(t[j])) j++;
    S w = t.substr(i, j - i);
    for (size_t k = 0; k < ids.size(); k++)
      if (ids[k] == w) {
        v.push_back({i, (int)k, w});
        break;
      }
    i = j;
  }
  return v;
}
// the output follows the text, with a mark for each word; which marks have parentheses
static std::vector<bool> follow(const S& t, const S& out, const std::vector<Word>& w) {
  std::vector<bool> par;
  size_t i = 0, o = 0;
  for (auto& x : w) {
    S between = t.substr(i, x.at - i);
    CHECK(out.compare(o, between.size(), between) == 0, "text", "the text before mark " << par.size() << " is not kept:\n" << out << "\nfrom\n" << t);
    o += between.size();
    S mark = "@" + std::to_string(x.id) + "@", pm = "(" + mark + ")";
    if (out.compare(o, mark.size(), mark) == 0) {
      par.push_back(false);
      o += mark.size();
    } else {
      CHECK(out.compare(o, pm.size(), pm) == 0, "mark", "no mark " << x.id << " for \"" << x.name << "\" at " << x.at << ":\n" << out << "\nfrom\n" << t);
      par.push_back(true);
      o += pm.size();
    }
    i = x.at + x.name.size();
  }
  CHECK(out.substr(o) == t.substr(i), "text", "the text after the last mark is not kept:\n" << out << "\nfrom\n" << t);
  return par;
}
static std::vector<S> identifiers(Src& s) {
  static const char* some[] = {"i", "j", "k", "ii", "i1", "i2", "ij", "t1", "N", "_i", "i_", "I", "x"};
  std::vector<S> v;
  int n = s.small(5);
  if (s.pct(3)) n = 10 + (int)s.below(10);
  for (int i = 0; i < n; i++) {
    if (s.pct(70))
      v.push_back(some[s.below(13)]);
    else
      v.push_back(gen_ident(s, s.pct(5)));
  }
  return v;
}
static void exact(Case& c) {
  Src& s = c.s;
  std::vector<S> ids = identifiers(s);
  static const char* piece[] = {" ",  "+", "-", "*", "/", "(", ")",  "[",  "]",  ",",  ";",  "=", "==", "<=", "  ", "2", "10", ".", "->", "\t",
                                "%", "&", "|", "!", "?", ":", "\"", "'", "@", "@0@", "#", "<", ">", "\n", "\\", "~", "^", "$", "\x80", "\xe9"};
  S t;
  int n = s.small(14);
  if (s.pct(2)) n = 500 + (int)s.below(1500);
  for (int i = 0; i < n && t.size() < 5000; i++) {
    if (ids.size() > 5 && t.size() > 2000) break;
    switch (s.below(7)) {
      case 0:
      case 1:
        if (!ids.empty()) t += ids[s.below((uint32_t)ids.size())];
        break;
      case 2:  // nearly an identifier
        if (!ids.empty()) {
          S w = ids[s.below((uint32_t)ids.size())];
          static const char* ext[] = {"1", "_", "x", "0", "A", "i"};
          if (s.flip())
            w += ext[s.below(6)];
          else
            w = ext[s.below(6)] + w;
          if (s.pct(20)) w.pop_back();
          t += w;
        }
        break;
      case 3:
        t += gen_ident(s);
        break;
      default:
        t += piece[s.below(40)];
    }
    if (s.pct(50)) t += piece[s.below(20)];
  }
  std::vector<Word> w = words(t, ids);
  c.nontrivial = !w.empty();
  label(w.empty() ? "no identifier" : w.size() == 1 ? "one" : "several");
  if (c.rendering) {
    c.log << "\"" << t << "\"\nidentifiers:";
    for (auto& x : ids) c.log << " " << x;
    c.log << "\n";
  }
  S out = substitute(t, ids);
  if (c.rendering) c.log << "\"" << out << "\"\n";
  std::vector<bool> par = follow(t, out, w);
  // without parentheses only where an expression can stand
  for (size_t k = 0; k < w.size(); k++) {
    size_t a = w[k].at, b = a + w[k].name.size();
    while (a > 0 && blank(t[a - 1])) a--;
    while (b < t.size() && blank(t[b])) b++;
    char l = a > 0 ? t[a - 1] : 0, r = b < t.size() ? t[b] : 0;
    bool open = !l || strchr("[(+=,", l), close = !r || strchr("]),+;", r);
    if (!par[k])
      CHECK(open && close, "bare", "mark " << k << " has no parentheses between '" << l << "' and '" << r << "':\n" << out << "\nfrom\n" << t);
    else if ((l == '[' && r == ']') || (l == '(' && r == ')'))
      CHECK(false, "parentheses", "mark " << k << " has useless parentheses:\n" << out << "\nfrom\n" << t);
  }
}
// ---- the meaning of expressions
struct Parser {
  const S& t;
  size_t i = 0;
  const std::function<Z(const S&)>& val;
  bool bad = false;
  void sp() {
    while (i < t.size() && blank(t[i])) i++;
  }
  bool eat(char ch) {
    sp();
    if (i < t.size() && t[i] == ch) {
      i++;
      return true;
    }
    return false;
  }
  Z args(Z h, char close) {
    Z k = 7;
    if (eat(close)) return h * 31 + 5;
    do {
      h = (h * 1000003 + k * expr()) % 1000000007;
      k += 2;
    } while (eat(','));
    if (!eat(close)) bad = true;
    return h;
  }
  Z atom() {
    sp();
    if (eat('-')) return -atom();
    if (eat('(')) {
      Z r = expr();
      if (!eat(')')) bad = true;
      return r;
    }
    size_t j = i;
    while (j < t.size() && wordc(t[j])) j++;
    if (j == i) {
      bad = true;
      i = t.size();
      return 0;
    }
    S w = t.substr(i, j - i);
    i = j;
    Z r = isdigit((unsigned char)w[0]) ? Z(w) : val(w);
    for (;;) {
      if (eat('['))
        r = args(r + 1, ']');
      else if (eat('('))
        r = args(r + 2, ')');
      else
        return r;
    }
  }
  Z prod() {
    Z r = atom();
    for (;;) {
      if (eat('*'))
        r = r * atom();
      else if (eat('%')) {
        Z d = atom();
        r = d == 0 ? r : Z(r % d);
      } else if (eat('/')) {
        Z d = atom();
        r = d == 0 ? r : Z(r / d);
      } else
        return r;
    }
  }
  Z expr() {
    Z r = prod();
    for (;;) {
      if (eat('+'))
        r = r + prod();
      else if (eat('-'))
        r = r - prod();
      else
        return r;
    }
  }
  Z statement() {
    Z h = 1;
    do {
      h = h * 1009 + expr();
    } while (eat('='));
    eat(';');
    sp();
    if (i != t.size()) bad = true;
    return h;
  }
};
static S gen_expr(Src& s, const std::vector<S>& ids, int depth) {
  static const char* other[] = {"AQ", "BQ", "NQ", "MQ", "fQ", "cQ", "i3Q", "jjQ"};
  S sp = s.pct(30) ? " " : "";
  switch (depth <= 0 ? s.below(3) : s.below(9)) {
    case 0:
      return std::to_string(s.range(0, 12));
    case 1:
    case 2:
      return !ids.empty() && s.pct(75) ? ids[s.below((uint32_t)ids.size())] : S(other[s.below(8)]);
    case 3:
      return gen_expr(s, ids, depth - 1) + sp + "+" + sp + gen_expr(s, ids, depth - 1);
    case 4:
      return gen_expr(s, ids, depth - 1) + sp + "- " + sp + gen_expr(s, ids, depth - 1);
    case 5: {
      static const char* op[] = {"*", "/", "%"};
      return gen_expr(s, ids, 0) + sp + op[s.below(3)] + sp + gen_expr(s, ids, 0);
    }
    case 6:
      return "(" + sp + gen_expr(s, ids, depth - 1) + sp + ")";
    case 7:
      return "-" + sp + gen_expr(s, ids, 0);
    default: {
      S r = other[s.below(8)];
      int n = 1 + s.small(2);
      for (int i = 0; i < n; i++) {
        if (s.flip())
          r += sp + "[" + sp + gen_expr(s, ids, depth - 1) + sp + "]";
        else
          r += "(" + gen_expr(s, ids, depth - 1) + sp + "," + sp + gen_expr(s, ids, depth - 1) + ")";
      }
      return r;
    }
  }
}
static S replace(const S& out, const std::vector<S>& by) {
  S r = out;
  for (size_t k = by.size(); k-- > 0;) {
    S m = "@" + std::to_string(k) + "@";
    size_t p;
    while ((p = r.find(m)) != S::npos) r = r.substr(0, p) + by[k] + r.substr(p + m.size());
  }
  return r;
}
static void meaning(Case& c) {
  Src& s = c.s;
  std::vector<S> ids;
  for (auto& x : identifiers(s)) {
    bool dup = isdigit((unsigned char)x[0]);
    for (auto& y : ids) dup = dup || x == y;
    if (!dup) ids.push_back(x);
  }
  S t = gen_expr(s, ids, 3);
  if (s.pct(50)) t = gen_expr(s, ids, 1) + (s.flip() ? "=" : " = ") + t;
  if (s.flip()) t += ";";
  S out = substitute(t, ids);
  // other expressions instead of the identifiers
  static const char* by[] = {"p-q", "p+q", "2*p-3", "-p", "p - 2*q + 1", "q", "5", "-3", "p*q"};
  std::vector<S> subst;
  for (size_t k = 0; k < ids.size(); k++) subst.push_back(by[s.below(9)]);
  S with = replace(out, subst);
  c.nontrivial = !words(t, ids).empty();
  if (c.rendering) c.log << t << "\n" << out << "\n" << with << "\n";
  // same names: same meaning, and the text itself but for parentheses
  std::vector<bool> par = follow(t, out, words(t, ids));
  std::function<Z(const S&)> base = [&](const S& w) -> Z {
    Z h = 11;
    for (char ch : w) h = (h * 131 + (unsigned char)ch) % 9973;
    return h;
  };
  std::function<Z(const S&)> renamed = [&](const S& w) -> Z {
    for (size_t k = 0; k < ids.size(); k++)
      if (ids[k] == w) {
        S e = subst[k];
        Parser q{e, 0, base};
        return q.expr();
      }
    return base(w);
  };
  Parser a{t, 0, renamed}, b{with, 0, base};
  Z x = a.statement(), y = b.statement();
  if (a.bad) fail("harness", "the harness cannot read its own expression " + t);
  CHECK(!b.bad && x == y, "meaning", "with other expressions for the identifiers, \"" << t << "\" becomes \"" << with << "\", which means something else");
  S back = replace(out, ids);
  Parser d{back, 0, base}, e{t, 0, base};
  x = d.statement();
  y = e.statement();
  CHECK(!d.bad && x == y, "back", "\"" << t << "\" comes back as \"" << back << "\"");
}
Property pbt::property = {
    "P19",
    "a text with at least one identifier of the list",
    {{"exact", exact, 250000, 6000000, true}, {"meaning", meaning, 250000, 6000000, true}},
};
