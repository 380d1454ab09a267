#include "util.hh"
#include "flpr/parse_stmt.hh"
#include "flpr/Stmt_Parser_Exts.hh"
#include <fstream>
#include <iostream>
#include <map>
using namespace FLPR;
namespace mon {

int tok_index(TT_SEQ::const_iterator const &beg,
              TT_SEQ::const_iterator const &it) {
  int i = 0;
  for (auto p = beg; p != it && i < 100000; ++p)
    ++i;
  return i;
}

using SNode = Stmt::Stmt_Tree::node;

static int find_tok(std::vector<Token_Text const *> const &tv,
                    Token_Text const *p) {
  for (size_t i = 0; i < tv.size(); ++i)
    if (tv[i] == p)
      return (int)i;
  return -1;
}

// [label, first_token_index, ntokens, children...]
static void stree(J &j, SNode const &n,
                  std::vector<Token_Text const *> const &tv) {
  j.open('[');
  j.str(tag_label(n->syntag));
  auto const &r = n->token_range;
  if (r.empty()) {
    j.num(-1).num(0);
  } else {
    j.num(find_tok(tv, &r.front()));
    j.num((long long)r.size());
  }
  if (n.is_fork())
    for (auto const &b : n.branches())
      stree(j, b, tv);
  j.close(']');
}


using Rule = Stmt::Stmt_Tree (*)(TT_Stream &);
static std::map<std::string, Rule> const &rules() {
  static std::map<std::string, Rule> const m{
#define R(x) {#x, &Stmt::x},
#include "rules.inc"
#undef R
  };
  return m;
}

static int tag_of_label(std::string const &label) {
  for (int i = 0; i < Syntax_Tags::CLIENT_EXTENSION; ++i)
    if (Syntax_Tags::label(i) == label)
      return i;
  return -1;
}

static Logical_Line make_ll(std::string const &fmt, int lc,
                            std::string const &text) {
  auto lines = to_lines(text);
  if (fmt == "fixed")
    return Logical_Line(lines, lc);
  return Logical_Line(lines);
}

// stmt <fmt> <last_col> <text> <rule> [<rule>...]
// A rule is a grammar rule name, or "@LABEL" for the tag dispatcher.
void op_stmt(J &j, Args const &a) {
  LL_SEQ ls;
  ls.emplace_back(make_ll(a.at(0), atoi(a.at(1).c_str()), a.at(2)));
  Logical_Line &ll = ls.front();
  ll.init_stmts();
  std::vector<Token_Text const *> tv;
  j.key("toks").open('[');
  for (auto const &t : ll.fragments()) {
    tv.push_back(&t);
    j.str(t.text());
  }
  j.close(']');
  j.key("nstmt").num((long long)ll.stmts().size());
  if (ll.stmts().empty())
    return;
  j.key("res").open('[');
  std::vector<LL_Stmt> st;
  LL_Stmt_Src src(ls);
  while (src) {
    st.push_back(src.move());
    src.advance();
  }
  for (size_t r = 3; r < a.size(); ++r) {
    j.open('[');
    for (auto &s : st) {
      TT_Stream ts{static_cast<LL_TT_Range &>(s)};
      Stmt::Stmt_Tree t;
      if (a[r][0] == '@') {
        int tag = tag_of_label(a[r].substr(1));
        t = Stmt::parse_stmt_dispatch(tag, ts);
      } else {
        auto f = rules().find(a[r]);
        if (f == rules().end())
          throw std::runtime_error("norule " + a[r]);
        t = f->second(ts);
      }
      j.open('{');
      j.key("used").num(ts.num_consumed());
      j.key("eol").boolean(ts.is_eol());
      if (t.empty())
        j.key("t").null();
      else {
        t.check();
        j.key("t");
        stree(j, *t, tv);
      }
      j.close('}');
    }
    j.close(']');
  }
  j.close(']');
}

// ---------------------------------------------------------------- programs
using PFile = Parsed_File<>;
struct PCtx {
  std::map<LL_Stmt const *, int> idx;
  bool trees;
  PFile *pf;
  long bad_hook = 0, bad_range = 0, leaf = 0;
  bool rebuild = false;
  std::vector<std::pair<int, std::string>> bad_rebuild;
  std::vector<std::pair<int, int>> iftags;
  LL_STMT_SEQ *stmts;
};

// [label, nstmts_in_range, first_stmt_index, [children]] or leaf
// [label, stmt_index, tree?]
static void ptree(J &j, PFile::Parse_Tree::node &n, PCtx &c) {
  j.open('[');
  j.str(tag_label(n->syntag()));
  auto &r = n->stmt_range();
  if (n.is_leaf()) {
    if (n->is_stmt()) {
      ++c.leaf;
      LL_Stmt &s = n->ll_stmt();
      auto it = c.idx.find(&s);
      j.num(it == c.idx.end() ? -2 : it->second);
      if (s.get_hook() != &n)
        ++c.bad_hook;
      auto cur = c.pf->stmt_to_node_cursor(n->ll_stmt_iter());
      if (!cur || &(cur.node()) != &n)
        ++c.bad_hook;
      j.str(tag_label(s.syntax_tag()));
      if (r.size() != 1 || &r.front() != &s)
        ++c.bad_range;
      if (c.trees) {
        std::vector<Token_Text const *> tv;
        for (auto p = s.begin(); p != s.end(); ++p)
          tv.push_back(&*p);
        auto &t = n->stmt_tree();
        t.check();
        stree(j, *t, tv);
      }
      if (c.rebuild && s.get_hook() == &n) {
        std::vector<Token_Text const *> tv;
        for (auto p = s.begin(); p != s.end(); ++p)
          tv.push_back(&*p);
        J a, b;
        // an action-stmt root is optional: the same statement has one or not
        // depending on the construct it was recognized in
        auto root = [](Stmt::Stmt_Tree const &t) -> SNode const & {
          SNode const &r = *t;
          return r->syntag == Syntax_Tags::SG_ACTION_STMT && r.is_fork()
                     ? r.branches().front()
                     : r;
        };
        stree(a, root(s.stmt_tree()), tv);
        int const tag = s.syntax_tag();
        int const inner = s.stmt_tag(true);
        s.drop_stmt_tree();
        stree(b, root(static_cast<LL_Stmt const &>(s).stmt_tree()), tv);
        if (a.s != b.s || s.syntax_tag() != tag)
          c.bad_rebuild.emplace_back(it == c.idx.end() ? -2 : it->second,
                                     a.s + " / " + b.s);
        if (inner != s.stmt_tag(true))
          c.bad_rebuild.emplace_back(it->second, "stmt_tag");
        // a reset statement forgets its tag, and gets it back with its tree
        s.reset_stmt_tree();
        if (s.syntax_tag() != Syntax_Tags::UNKNOWN)
          c.bad_rebuild.emplace_back(it->second, "tag after reset");
        s.set_stmt_syntag(tag);
        J d;
        stree(d, root(static_cast<LL_Stmt const &>(s).stmt_tree()), tv);
        if (a.s != d.s || s.syntax_tag() != tag)
          c.bad_rebuild.emplace_back(it->second, "tree after reset");
        if (inner != tag)
          c.iftags.emplace_back(it->second, inner);
      }
    } else {
      j.num(-1);
    }
  } else {
    if (r.empty())
      j.num(0).num(-1);
    else {
      j.num((long long)r.size());
      auto it = c.idx.find(&r.front());
      j.num(it == c.idx.end() ? -2 : it->second);
    }
    j.open('[');
    for (auto &b : n.branches())
      ptree(j, b, c);
    j.close(']');
  }
  j.close(']');
}

static void apply_indent_opt(Indent_Table &t, std::string const &spec) {
  // e.g. "c3" constant 3, "f2" constant fixed 2, "e" emacs
  if (spec.empty())
    return;
  int n = atoi(spec.c_str() + 1);
  switch (spec[0]) {
  case 'c':
    t.apply_constant_indent(n);
    break;
  case 'f':
    t.apply_constant_fixed_indent(n);
    break;
  case 'e':
    t.apply_emacs_indent();
    break;
  case 's': // s<continued>,<label>=<n>,...
    t.set_continued_offset(n);
    for (auto const &kv : split(spec, ',')) {
      auto eq = kv.find('=');
      if (eq != std::string::npos) {
        int const tag = tag_of_label(kv.substr(0, eq));
        t.set_indent(tag, atoi(kv.c_str() + eq + 1));
        if (t[tag] != t.get_indent(tag))
          throw std::runtime_error("Indent_Table entry not kept");
      }
    }
    break;
  }
}

// parse <type> <last_col> <name> <opts> <indent> <text>
// opts: t dump statement trees, v dump lines, W/N write the text to the named
// file and use read_file or the constructor, R (with W) after a failed attempt
// with other text (arg 6), M move the object after parsing
static void dump_parsed(J &j, PFile &pf, Args const &a);
void op_parse(J &j, Args const &a) {
  std::string const &opts = a.at(3);
  auto has = [&](char c) { return opts.find(c) != std::string::npos; };
  int const lc = atoi(a.at(1).c_str());
  PFile pf = [&]() -> PFile {
    if (has('N') || has('W')) {
      std::ofstream(a.at(2)) << a.at(5);
      if (has('N'))
        return PFile(a.at(2), lc, ftype(a.at(0)));
      PFile f;
      if (has('R')) { // a failed attempt with the same object first
        std::string const before = "b" + a.at(2);
        std::ofstream(before) << a.at(6);
        f.read_file(before, lc, ftype(a.at(0)));
        f.prefetch_statements();
        f.parse_tree();
        if (f) // it did not fail, so the object can't be used again
          return PFile(a.at(2), lc, ftype(a.at(0)));
      }
      bool const r = f.read_file(a.at(2), lc, ftype(a.at(0)));
      if (r != bool(f))
        throw std::runtime_error("read_file and the file state disagree");
      return f;
    }
    std::istringstream is(a.at(5));
    return PFile(is, a.at(2), lc, ftype(a.at(0)));
  }();
  j.key("ok").boolean(bool(pf));
  if (!pf)
    return;
  if (has('c'))
    j.key("conv").boolean(pf.logical_file().convert_fixed_to_free());
  j.key("pre").str(emit(pf.logical_lines()));
  long semis = 0;
  for (auto const &ll : pf.logical_lines())
    for (auto const &t : ll.fragments())
      semis += t.token == Syntax_Tags::TK_SEMICOLON;
  j.key("semis").num(semis);
  j.key("nst").num((long long)pf.statements().size());
  auto &tree = pf.parse_tree();
  j.key("good").boolean(bool(pf));
  if (!pf) {
    j.key("out").str(emit(pf.logical_lines()));
    j.key("tempty").boolean(tree.empty());
    j.key("ind").boolean(pf.indent(Indent_Table{}));
    return;
  }
  if (has('M')) { // move the parsed file to another object
    PFile tmp(std::move(pf));
    PFile other(std::move(tmp));
    dump_parsed(j, other, a);
    return;
  }
  dump_parsed(j, pf, a);
}

static void dump_parsed(J &j, PFile &pf, Args const &a) {
  std::string const &opts = a.at(3);
  auto has = [&](char c) { return opts.find(c) != std::string::npos; };
  auto &tree = pf.parse_tree();
  PCtx c;
  c.trees = has('t');
  c.rebuild = has('r');
  c.pf = &pf;
  c.stmts = &pf.statements();
  int k = 0;
  for (auto &s : pf.statements())
    c.idx[&s] = k++;
  if (tree.empty())
    j.key("tree").null();
  else {
    tree.check();
    j.key("tree");
    ptree(j, *tree, c);
  }
  if (c.rebuild) {
    j.key("rebuild").open('[');
    for (auto const &x : c.bad_rebuild)
      j.open('[').num(x.first).str(x.second).close(']');
    j.close(']');
    j.key("iftag").open('[');
    for (auto const &x : c.iftags)
      j.open('[')
          .num(x.first)
          .str((x.second < 0 ? "-" : "+") + tag_label(std::abs(x.second)))
          .close(']');
    j.close(']');
  }
  j.key("badhook").num(c.bad_hook);
  j.key("badrange").num(c.bad_range);
  j.key("stmts");
  dump_stmts(j, pf.logical_lines(), pf.statements(), opts);
  j.key("out").str(emit(pf.logical_lines()));
  if (has('v')) {
    j.key("lines");
    dump_lines(j, pf.logical_lines(), opts);
  }
  if (!a.at(4).empty()) {
    Indent_Table t;
    apply_indent_opt(t, a.at(4));
    j.key("ind1").boolean(pf.indent(t));
    j.key("iout").str(emit(pf.logical_lines()));
    j.key("ind2").boolean(pf.indent(t));
    j.key("iout2").str(emit(pf.logical_lines()));
    j.key("lead").open('[');
    for (auto &s : pf.statements())
      j.num(s.get_leading_spaces());
    j.close(']');
  }
}

} // namespace mon
