// Model of the extensions (generics): every object is a tree of named fields, so that
// comparing, showing and modifying are generic over all types.
#pragma once
#include "model.h"

struct T {
  enum K { NIL, INT, STR, LIST, REL } k = NIL;
  std::string name;
  long i = 0;
  std::string s;
  std::vector<T> c;
  MUnion u;
  T() {}
  T(K k_, const std::string& n) : k(k_), name(n) {}
  static T nil(const std::string& n) { return T(NIL, n); }
  static T num(const std::string& n, long v) {
    T t(INT, n);
    t.i = v;
    return t;
  }
  static T str(const std::string& n, const std::string& v) {
    T t(STR, n);
    t.s = v;
    return t;
  }
  static T list(const std::string& n) { return T(LIST, n); }
  static T rel(const std::string& n, const MUnion& v) {
    T t(REL, n);
    t.u = v;
    return t;
  }
  const T& at(const std::string& n) const;
  T& at(const std::string& n);
  bool has(const std::string& n) const;
  size_t size() const { return c.size(); }
  const T& operator[](size_t x) const { return c.at(x); }
};
bool operator==(const T&, const T&);
inline bool operator!=(const T& a, const T& b) { return !(a == b); }
std::string show(const T&, int indent = 0);
std::string diff(const T&, const T&);  // path of the first difference, "" when equal
std::string diff(const std::vector<T>&, const std::vector<T>&);

extern const std::vector<std::string> EXT_URIS;      // all documented extension types
extern const std::vector<std::string> EXT_READABLE;  // those with a text form that can be read

osl_interface_t* ext_interface(const std::string& uri);
void* build_data(const T&);  // by t.name (the tag); NULL for NIL
T snap_data(const std::string& uri, const void* data);
osl_generic_t* build_generic(const T&);
osl_generic_t* build_generics(const std::vector<T>&);
std::vector<T> snap_generics(const osl_generic_t*);
osl_strings_t* build_strings(const T&);
T snap_strings(const std::string& name, const osl_strings_t*);

struct GExt {
  int prec = OSL_PRECISION_MP;
  bool readable = true;  // only contents whose text form can be read back
  bool big = false;      // sometimes very long words, lines and lists
  bool nil = false;      // absent data and absent fields allowed
  bool wide = true;      // large coefficients
};
std::string gen_word(pbt::Src&, bool big = false);   // no blank, no '#'
std::string gen_ident(pbt::Src&, bool big = false);  // C identifier
std::string gen_line(pbt::Src&, bool big = false);   // non-empty, no '#', no newline, not blank at the ends
T gen_strings(pbt::Src&, const std::string& name, int minsize, int maxsize, bool ident, bool big = false);
T gen_ext(pbt::Src&, const std::string& uri, const GExt&);
std::vector<T> gen_exts(pbt::Src&, const std::vector<std::string>& uris, int maxn, const GExt&);

// Changes exactly one thing somewhere in the tree; returns a description or "" if nothing
// can be changed.
std::string mutate(pbt::Src&, T&);

// Texts (tag content only)
struct Layout;
std::string ext_text(const T&, Layout&);  // an independent writer
// It writes `word` instead of its `at`-th number (-1: none) and counts its numbers in `count`;
// `counts` has those that are numbers of elements, when `list` is set.
struct NumberHook {
  int at = -1, count = 0;
  std::string word;
  bool list = false;
  std::vector<int> counts;
};
extern NumberHook ext_number;
// An independent reader of the content of a tag; fails with tag "format" when it does not
// follow the documented form.
T ext_parse(const std::string& uri, const std::string& content, int prec);
