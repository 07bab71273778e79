// Model of statements and scops, generators, an independent writer (with any layout) and an
// independent reader of the OpenScop text format.
#pragma once
#include "ext.h"

struct MStmt {
  MUnion dom, scat;         // empty: absent
  std::vector<MUnion> acc;  // an empty union is an element without a relation
  std::vector<T> ext;
};
struct MScop {
  int version = 1;
  T language = T::nil("language");
  MUnion ctx;
  std::vector<T> params;
  std::vector<MStmt> stmts;
  std::vector<T> ext;
  std::vector<std::string> registry;  // tags, in order
};
typedef std::vector<MScop> MScops;
T tree(const MStmt&);
T tree(const MScop&);
T tree(const MScops&);
T tree(const std::vector<MStmt>&);
osl_statement_t* build(const MStmt&);
osl_statement_t* build(const std::vector<MStmt>&);
osl_relation_list_t* build_list(const std::vector<MUnion>&);
std::vector<MUnion> snap_list(const osl_relation_list_t*);
osl_scop_t* build(const MScops&);
std::vector<MStmt> snap(const osl_statement_t*);
MScops snap(const osl_scop_t*);
std::vector<std::string> snap_registry(const osl_interface_t*);
osl_interface_t* build_registry(const std::vector<std::string>&);
extern const std::vector<std::string> DEFAULT_REGISTRY;
template <class A, class B>
std::string tdiff(const A& a, const B& b) {
  return diff(tree(a), tree(b));
}

struct GScop {
  GExt e;                   // precision, readable, ...
  int maxscops = 2, maxstmts = 4, maxparams = 3, maxdepth = 3, maxparts = 3, maxacc = 4;
  bool unions = true, exts = true, bodies = true, locals = true;
  bool absent = true;        // statements may lack domain, scattering, accesses
  bool loose = false;        // shapes that are not consistent with one another
  bool undef = false;        // some attributes are undefined (such relations cannot be printed)
  bool samescat = false;     // all the scatterings have the same number of outputs
};
bool shaped(const MUnion&);  // the counts of dimensions agree with the columns
bool shaped(const MStmt&);
bool shaped(const MScops&);
MStmt gen_stmt(pbt::Src&, const GScop&, int nparams);
MScop gen_scop(pbt::Src&, const GScop&);
MScops gen_scops(pbt::Src&, const GScop&);
MRel gen_access(pbt::Src&, int prec, int type, int id, int dims, int in, int local, int params, bool wide);

// ---- text
struct Layout {
  pbt::Src* s = nullptr;  // null: canonical layout
  int noise = 0;          // percentage
  std::string o;
  bool roll(int p) { return s && s->pct(p * noise / 100); }
  void gap();                                          // blank lines and comment lines
  void line(const std::string&, bool comment = true);  // one line, maybe trailing comment
  void words(const std::vector<std::string>&);         // words on any number of lines
};
void emit_relation(const MUnion&, Layout&);
void emit_generics(const std::vector<T>&, Layout&, int unknown_pct);  // needs a Src
std::string emit(const MScops&, Layout&, bool unknown_tags = false);
// Fails (tag "format") when the text does not follow the format.
MScops parse_scops(const std::string& text, int prec);
std::vector<MStmt> parse_stmts(const std::string& text, int prec);
MUnion parse_relation(const std::string& text, int prec);

// ---- files
std::string print_to_string(const std::function<void(FILE*)>&);
FILE* file_of(const std::string&);
osl_scop_t* read_text(const std::string&, int prec);  // with the default registry
void set_env(int prec);
