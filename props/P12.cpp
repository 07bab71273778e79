// P12: editing a constraint matrix changes exactly what was asked.
#include "model.h"
using namespace pbt;
typedef std::vector<Z> V;

static osl_vector_t* mkvec(int p, const V& v) {
  osl_vector_t* o = osl_vector_pmalloc(p, (int)v.size());
  for (size_t j = 0; j < v.size(); j++) putZ(p, &o->v[j], v[j]);
  return o;
}
static V genvec(Src& s, int p, int n, bool wide) {
  V v(n);
  for (int j = 0; j < n; j++) v[j] = j == 0 ? Z(s.below(2)) : gen_coef(s, p, wide);
  return v;
}

static void history(Case& c) {
  int p = ALLPREC[c.s.below(3)];
  GRel g;
  g.wide = c.s.pct(40);
  MRel m = gen_any_rel(c.s, p, g);
  osl_relation_t* r = build(m);
  MUnion tail;  // further parts of the union must not be touched
  if (c.s.pct(30)) {
    tail.push_back(gen_any_rel(c.s, p, g));
    r->next = build(tail);
  }
  c.log << show(m);
  SAME(snap1(r), m, "build", "a new relation");
  int steps = 1 + c.s.small(16), done = 0;
  for (int s = 0; s < steps; s++) {
    int op = (int)c.s.below(16);
    MRel before = m;
    const char* name = "";
    switch (op) {
      case 0: {
        name = "replace_vector";
        if (!m.rows) continue;
        int row = (int)c.s.below(m.rows);
        V v = genvec(c.s, p, m.cols, g.wide);
        osl_vector_t* o = mkvec(p, v);
        osl_relation_replace_vector(r, o, row);
        for (int j = 0; j < m.cols; j++) CHECK(getZ(p, o->v[j]) == v[j], "argument", "the vector changed");
        osl_vector_free(o);
        m.m[row] = v;
        c.log << name << " row " << row << "\n";
        break;
      }
      case 1: {
        name = "insert_vector";
        int row = c.s.range(-1, m.rows);
        V v = genvec(c.s, p, m.cols, g.wide);
        osl_vector_t* o = mkvec(p, v);
        osl_relation_insert_vector(r, o, row);
        for (int j = 0; j < m.cols; j++) CHECK(getZ(p, o->v[j]) == v[j], "argument", "the vector changed");
        osl_vector_free(o);
        m.m.insert(row < 0 ? m.m.end() : m.m.begin() + row, v);
        m.rows++;
        c.log << name << " row " << row << "\n";
        break;
      }
      case 2: {
        name = "insert_blank_row";
        int row = c.s.range(-1, m.rows);
        osl_relation_insert_blank_row(r, row);
        m.m.insert(row < 0 ? m.m.end() : m.m.begin() + row, V(m.cols));
        m.rows++;
        c.log << name << " row " << row << "\n";
        break;
      }
      case 3: {
        name = "insert_blank_column";
        int col = c.s.range(0, m.cols);
        osl_relation_insert_blank_column(r, col);
        for (auto& row : m.m) row.insert(row.begin() + col, Z(0));
        m.cols++;
        c.log << name << " " << col << "\n";
        break;
      }
      case 4:
      case 5: {
        name = op == 4 ? "add_vector" : "sub_vector";
        if (!m.rows || !m.cols) continue;
        int row = (int)c.s.below(m.rows);
        V v = genvec(c.s, p, m.cols, g.wide);
        MRel t = m;
        if (!fits_int(t.m[row][0])) continue;
        if (t.m[row][0] == 0) t.m[row][0] = v[0];
        for (int j = 1; j < m.cols; j++) t.m[row][j] = op == 4 ? Z(t.m[row][j] + v[j]) : Z(t.m[row][j] - v[j]);
        if (!all_fit(p, {t})) continue;
        osl_vector_t* o = mkvec(p, v);
        if (op == 4)
          osl_relation_add_vector(r, o, row);
        else
          osl_relation_sub_vector(r, o, row);
        for (int j = 0; j < m.cols; j++) CHECK(getZ(p, o->v[j]) == v[j], "argument", "the vector changed");
        osl_vector_free(o);
        m = t;
        c.log << name << " row " << row << "\n";
        break;
      }
      case 6: {
        name = "replace_constraints";
        int row = (int)c.s.below(m.rows + 1), n = (int)c.s.below(m.rows - row + 1);
        MRel x = gen_rel(c.s, p, OSL_UNDEFINED, 0, 0, 0, 0, n, g.wide);
        x.cols = m.cols;
        bool self = row == 0 && n == m.rows && c.s.pct(10);
        if (self) x = m;
        else
          for (auto& v : x.m) v = genvec(c.s, p, m.cols, g.wide);
        osl_relation_t* o = self ? r : build(x);
        osl_relation_replace_constraints(r, o, row);
        SAME(snap1(o), x, "argument", "the argument");
        if (!self) osl_relation_free(o);
        for (int i = 0; i < n; i++) m.m[row + i] = x.m[i];
        c.log << name << " row " << row << " by " << n << "\n";
        break;
      }
      case 7: {
        name = "insert_constraints";
        int row = c.s.range(-1, m.rows), n = c.s.small(4);
        bool self = c.s.pct(10) && m.rows < 12;
        MRel x = self ? m : blank(p, n, m.cols);
        if (!self)
          for (auto& v : x.m) v = genvec(c.s, p, m.cols, g.wide);
        osl_relation_t* o = self ? r : build(x);
        osl_relation_insert_constraints(r, o, row);
        if (!self) {
          SAME(snap1(o), x, "argument", "the argument");
          osl_relation_free(o);
        }
        m.m.insert(row < 0 ? m.m.end() : m.m.begin() + row, x.m.begin(), x.m.end());
        m.rows += x.rows;
        c.log << name << " row " << row << " " << x.rows << (self ? " (itself)" : "") << "\n";
        break;
      }
      case 8: {
        name = "swap_constraints";
        if (!m.rows) continue;
        int a = (int)c.s.below(m.rows), b = (int)c.s.below(m.rows);
        osl_relation_swap_constraints(r, a, b);
        std::swap(m.m[a], m.m[b]);
        c.log << name << " " << a << " " << b << "\n";
        break;
      }
      case 9: {
        name = "remove_row";
        if (!m.rows) continue;
        int a = (int)c.s.below(m.rows);
        osl_relation_remove_row(r, a);
        m.m.erase(m.m.begin() + a);
        m.rows--;
        c.log << name << " " << a << "\n";
        break;
      }
      case 10: {
        name = "remove_column";
        if (m.cols < 2) continue;
        int a = (int)c.s.below(m.cols);
        osl_relation_remove_column(r, a);
        for (auto& v : m.m) v.erase(v.begin() + a);
        m.cols--;
        c.log << name << " " << a << "\n";
        break;
      }
      case 11: {
        name = "insert_columns";
        int a = (int)c.s.below(m.cols + 1), n = c.s.small(3);
        bool self = c.s.pct(10);
        if (self) n = m.cols;
        if (m.cols + n > 40) continue;
        MRel x = self ? m : blank(p, m.rows, n);
        if (!self)
          for (auto& v : x.m) v = genvec(c.s, p, n, g.wide);
        osl_relation_t* o = self ? r : build(x);
        osl_relation_insert_columns(r, o, a);
        if (!self) {
          SAME(snap1(o), x, "argument", "the argument");
          osl_relation_free(o);
        }
        for (int i = 0; i < m.rows; i++) m.m[i].insert(m.m[i].begin() + a, x.m[i].begin(), x.m[i].end());
        m.cols += n;
        c.log << name << " " << a << " " << n << "\n";
        break;
      }
      case 12: {
        name = "concat_constraints";
        int n = c.s.small(4);
        bool self = c.s.pct(10);
        MRel x = self ? m : blank(p, n, m.cols);
        if (!self)
          for (auto& v : x.m) v = genvec(c.s, p, m.cols, g.wide);
        osl_relation_t* o = self ? r : build(x);
        bool front = c.s.flip();
        osl_relation_t* q = front ? osl_relation_concat_constraints(o, r) : osl_relation_concat_constraints(r, o);
        MRel e = blank(p, 0, m.cols);
        e.m = front ? x.m : m.m;
        e.m.insert(e.m.end(), front ? m.m.begin() : x.m.begin(), front ? m.m.end() : x.m.end());
        e.rows = (int)e.m.size();
        MRel got = snap1(q);
        CHECK(got.rows == e.rows && got.cols == e.cols && got.m == e.m && got.prec == p, name,
              "concatenation is\n" << show(got) << "not\n" << show(e));
        CHECK(!q->next, name, "the result is a union");
        SAME(snap1(o), x, "argument", "the argument");
        if (!self) osl_relation_free(o);
        osl_relation_free(q);
        c.log << name << " " << n << "\n";
        break;
      }
      case 13: {
        name = "concat_vector/from_vector";
        V v = genvec(c.s, p, m.cols, g.wide);
        osl_vector_t* o = mkvec(p, v);
        osl_relation_t* q = osl_relation_concat_vector(r, o);
        osl_relation_t* f = osl_relation_from_vector(o);
        MRel e = m;
        e.m.push_back(v);
        MRel got = snap1(q);
        CHECK(got.m == e.m && got.rows == m.rows + 1 && got.cols == m.cols, name, "wrong rows\n" << show(got));
        got = snap1(f);
        CHECK(got.rows == 1 && got.cols == m.cols && got.m[0] == v && got.prec == p && !f->next, name,
              "relation from a vector\n" << show(got));
        osl_vector_free(o);
        osl_relation_free(q);
        osl_relation_free(f);
        c.log << name << "\n";
        break;
      }
      case 14: {
        name = "clone_nconstraints";
        int n = c.s.range(-1, m.rows);
        MUnion e = tail;
        e.insert(e.begin(), m);
        bool ok = true;
        for (auto& x : e) {
          if (n > x.rows) ok = false;
          if (n >= 0) x.m.resize(x.rows = n);
        }
        if (!ok) {
          osl_relation_t* q;
          CHECK(exits([&] { q = osl_relation_clone_nconstraints(r, n); }), name, "more rows cloned than there are");
          continue;
        }
        osl_relation_t* q = osl_relation_clone_nconstraints(r, n);
        SAME(snap(q), e, name, name);
        osl_relation_free(q);
        c.log << name << " " << n << "\n";
        break;
      }
      default: {  // what does not fit is refused, without effect
        name = "bad request";
        static const char* W[] = {"remove_row",         "replace_vector",  "add_vector",       "sub_vector",
                                  "insert_vector",      "insert_blank_row", "swap_constraints", "insert_constraints",
                                  "replace_constraints", "remove_column",    "insert_blank_column", "insert_columns",
                                  "concat_constraints", "concat_vector"};
        int w = (int)c.s.below(14);
        int over = c.s.small(3), size = m.cols, prec = p;
        // 0: the position, 1: the size, 2: the precision (where there is an argument)
        int bad = w == 0 || w == 5 || w == 6 || w == 9 || w == 10 ? 0 : w >= 12 ? 1 + c.s.below(2) : (int)c.s.below(3);
        bool insert = w == 4 || w == 5 || w == 7;
        int row = m.rows ? (int)c.s.below(m.rows) : 0;
        int n = c.s.small(3);  // rows of the argument
        if (w == 8 && c.s.pct(80)) {  // the last one does not fit
          row = c.s.range(0, m.rows);
          n = m.rows - row + (bad == 0 ? 1 + over : 0);
        } else if (bad == 0)
          row = c.s.flip() ? (insert ? m.rows + 1 : w == 8 ? m.rows + 1 : m.rows) + over : (insert ? -2 : -1) - over;
        if (bad == 1) {
          size = c.s.flip() || !m.cols ? m.cols + 1 + over : m.cols - 1 - (int)c.s.below(m.cols);
          if (w == 1 || w == 2 || w == 3) {
            if (!m.rows) continue;
          }
        }
        if (bad == 2) prec = ALLPREC[((p == ALLPREC[0] ? 0 : p == ALLPREC[1] ? 1 : 2) + 1 + c.s.below(2)) % 3];
        int col = c.s.flip() ? m.cols + over + (w == 9 ? 0 : 1) : -1 - over;
        V v(size);
        for (auto& z : v) z = c.s.range(-3, 3);
        if (size) v[0] = 0;
        osl_vector_t* o = mkvec(prec, v);
        MRel x = blank(prec, w == 11 ? m.rows : n, w == 11 ? n : size);
        if (w == 11 && bad == 1) {
          x = blank(prec, c.s.flip() || !m.rows ? m.rows + 1 + over : m.rows - 1, n);
          if (!x.rows && !x.cols) x = blank(prec, m.rows + 1, n);
        }
        if (w == 11 && bad) col = c.s.range(0, m.cols);
        if (w == 12 && bad == 2 && !c.s.flip()) x = blank(prec, 1 + n, size);
        osl_relation_t* y = build(x);
        int r2 = m.rows ? (int)c.s.below(m.rows) : 0;
        if (r2 == row) r2 = row == 0 ? 1 : 0;
        bool flip = c.s.flip();
        c.log << name << " " << W[w] << " bad " << bad << " row " << row << " column " << col << " size " << size << " argument\n"
              << show(x);
        bool ex = exits([&] {
          switch (w) {
            case 0:
              osl_relation_remove_row(r, row);
              break;
            case 1:
              osl_relation_replace_vector(r, o, row);
              break;
            case 2:
              osl_relation_add_vector(r, o, row);
              break;
            case 3:
              osl_relation_sub_vector(r, o, row);
              break;
            case 4:
              osl_relation_insert_vector(r, o, row);
              break;
            case 5:
              osl_relation_insert_blank_row(r, row);
              break;
            case 6:
              flip ? osl_relation_swap_constraints(r, row, r2) : osl_relation_swap_constraints(r, r2, row);
              break;
            case 7:
              osl_relation_insert_constraints(r, y, row);
              break;
            case 8:
              osl_relation_replace_constraints(r, y, row);
              break;
            case 9:
              osl_relation_remove_column(r, col);
              break;
            case 10:
              osl_relation_insert_blank_column(r, col);
              break;
            case 11:
              osl_relation_insert_columns(r, y, col);
              break;
            case 12:
              flip ? osl_relation_concat_constraints(r, y) : osl_relation_concat_constraints(y, r);
              break;
            default:
              osl_relation_concat_vector(r, o);
          }
        });
        CHECK(ex, "bad-request", W[w] << " accepts what does not fit");
        c.leak_exempt = true;
        osl_vector_free(o);
        osl_relation_free(y);
      }
    }
    done++;
    SAME(snap1(r), m, name, std::string("after ") + name);
    SAME(snap(r->next), tail, "next", std::string("next part after ") + name);
  }
  c.nontrivial = done >= 2 && m.cols > 2;
  // The edited relation is still a proper object.
  osl_relation_t* k = osl_relation_clone(r);
  MUnion all = tail;
  all.insert(all.begin(), m);
  SAME(snap(k), all, "clone", "clone of the edited relation");
  osl_relation_free(k);
  osl_relation_free(r);
}

Property pbt::property = {
    "P12",
    "random edit programs on a relation, compared with a matrix model after every step; non-trivial: at least two "
    "edits on a matrix of more than two columns",
    {{"history", history, 160000, 4000000, true}}};
