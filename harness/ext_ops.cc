// Grammar extensions: a table of statement parsers which a case configures.
#include "util.hh"
#include "flpr/Stmt_Parser_Exts.hh"
#include "flpr/Stmt_Parsers.hh"
#include "flpr/parse_stmt.hh"
namespace mon {
void op_parse(J &j, Args const &a);
}
using namespace FLPR;

namespace mon {
namespace {
struct Slot {
  std::string shape = "";
  std::string word;
  int n = 0;
  long calls = 0, matches = 0;
};
constexpr int NSLOT = 8;
Slot g_slot[NSLOT];
} // namespace
} // namespace mon

// It is much easier to use the parser combinators from this namespace
namespace FLPR::Stmt {
namespace {
constexpr int base = Syntax_Tags::CLIENT_EXTENSION + 2;

template <int I> Stmt_Tree slot_parser_(TT_Stream &ts) {
  constexpr int tag = base + I;
  auto &s = mon::g_slot[I];
  ++s.calls;
  auto word = [&] { return ts.peek() == Syntax_Tags::TK_NAME && ts.peek_tt().lower() == s.word; };
  if (s.shape == "greedy") { // takes some tokens, then finds that it does not match
    for (int k = 0; k < s.n && ts.peek() != Syntax_Tags::BAD; ++k)
      ts.consume(1);
    return Stmt_Tree();
  }
  if (s.shape == "never")
    return Stmt_Tree();
  if (s.shape == "names") { // word name [, name]...
    if (!word())
      return Stmt_Tree();
    constexpr auto p = seq(tag, tok(Syntax_Tags::TK_NAME), list(Syntax_Tags::SG_NAMED_CONSTANT_DEF_LIST, name()), eol());
    return p(ts);
  }
  if (s.shape == "exprs") { // word { expr [, expr]... }
    if (!word())
      return Stmt_Tree();
    constexpr auto p = seq(tag, tok(Syntax_Tags::TK_NAME), tok(Syntax_Tags::TK_COLON), opt(list(Syntax_Tags::SG_OUTPUT_ITEM_LIST, rule(expr))), eol());
    return p(ts);
  }
  if (s.shape == "hand") { // word word, built without the combinators
    if (!word() || ts.peek(2) != Syntax_Tags::TK_NAME || ts.peek(3) != Syntax_Tags::BAD)
      return Stmt_Tree();
    Stmt_Tree t(tag);
    for (int k = 0; k < 2; ++k) {
      Stmt_Tree c(Syntax_Tags::TK_NAME, ts.digest(1));
      t.graft_back(std::move(c));
    }
    cover_branches(*t);
    return t;
  }
  if (s.shape == "wcomma") { // write ( ... ) , items
    constexpr auto p = seq(tag, tok(Syntax_Tags::KW_WRITE), tag_if(Syntax_Tags::SG_IO_CONTROL_SPEC_LIST, rule(consume_parens)), tok(Syntax_Tags::TK_COMMA), opt(list(Syntax_Tags::SG_OUTPUT_ITEM_LIST, rule(output_item))), eol());
    return p(ts);
  }
  if (s.shape == "wstd") { // the same under the standard tag
    constexpr auto p = seq(Syntax_Tags::SG_WRITE_STMT, tok(Syntax_Tags::KW_WRITE), tag_if(Syntax_Tags::SG_IO_CONTROL_SPEC_LIST, rule(consume_parens)), tok(Syntax_Tags::TK_COMMA), opt(list(Syntax_Tags::SG_OUTPUT_ITEM_LIST, rule(output_item))), eol());
    return p(ts);
  }
  if (s.shape == "anycall") { // CALL and anything after it
    if (ts.peek() != Syntax_Tags::KW_CALL)
      return Stmt_Tree();
    Stmt_Tree t(tag);
    while (ts.peek() != Syntax_Tags::BAD) {
      int const tk = ts.peek();
      Stmt_Tree c(tk, ts.digest(1));
      t.graft_back(std::move(c));
    }
    cover_branches(*t);
    return t;
  }
  throw std::runtime_error("bad shape " + s.shape);
}
template <int I> Stmt_Tree slot_parser(TT_Stream &ts) {
  Stmt_Tree t = slot_parser_<I>(ts);
  if (t)
    ++mon::g_slot[I].matches;
  return t;
}
using P = Parser_Exts::stmt_parser;
P const slots[] = {&slot_parser<0>, &slot_parser<1>, &slot_parser<2>, &slot_parser<3>,
                   &slot_parser<4>, &slot_parser<5>, &slot_parser<6>, &slot_parser<7>};
} // namespace
} // namespace FLPR::Stmt

namespace mon {
// ext <config> <config> <parse arguments...>
// config: entries separated by '|':
//   d<slot>:<shape>:<word>:<n>  define what a slot accepts
//   a<slot> register as action-stmt, s<slot> as other-specification-stmt,
//   C clear the registrations.
// The first config is applied, the file is parsed, then the second one is
// applied and the file is parsed again.
void op_ext(J &j, Args const &a) {
  static bool const once = [] { // the other slots keep the default labels
    for (int k = 0; k < NSLOT; k += 2)
      Syntax_Tags::register_ext(Stmt::base + k, ("ext-" + std::to_string(k) + "-stmt").c_str(), 5);
    return true;
  }();
  (void)once;
  auto &ex = Stmt::get_parser_exts();
  if (&ex != &Stmt::get_parser_exts())
    throw std::runtime_error("several extension tables");
  ex.clear();
  Args rest(a.begin() + 2, a.end());
  j.key("runs").open('[');
  for (int r = 0; r < 2; ++r) {
    for (auto &s : g_slot)
      s.calls = s.matches = 0;
    for (auto const &e : split(a.at(r), '|')) {
      if (e.empty())
        continue;
      if (e[0] == 'C')
        ex.clear();
      else if (e[0] == 'a')
        ex.register_action_stmt(Stmt::slots[atoi(e.c_str() + 1)]);
      else if (e[0] == 's')
        ex.register_other_specification_stmt(Stmt::slots[atoi(e.c_str() + 1)]);
      else if (e[0] == 'd') {
        auto f = split(e.substr(1), ':');
        auto &s = g_slot[atoi(f.at(0).c_str())];
        s.shape = f.at(1);
        s.word = f.at(2);
        s.n = atoi(f.at(3).c_str());
      }
    }
    j.open('{');
    try {
      op_parse(j, rest);
    } catch (...) {
      ex.clear();
      throw;
    }
    j.key("calls").open('[');
    for (auto &s : g_slot)
      j.open('[').num(s.calls).num(s.matches).close(']');
    j.close(']');
    j.close('}');
  }
  ex.clear();
  j.close(']');
}
} // namespace mon
