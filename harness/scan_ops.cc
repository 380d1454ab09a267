#include "util.hh"
#include <fstream>
#include <iostream>
using namespace FLPR;
namespace mon {

std::string tag_label(int tag) { return Syntax_Tags::label(tag); }

std::string emit(LL_SEQ const &lines) {
  std::ostringstream os;
  for (auto const &ll : lines)
    os << ll;
  return os.str();
}

static void dump_fl(J &j, File_Line const &fl) {
  j.open('[');
  j.num(fl.linenum).str(fl.left_txt).str(fl.left_space).str(fl.main_txt);
  j.str(fl.right_space).str(fl.right_txt).num((unsigned char)fl.open_delim);
  std::string f;
  if (fl.is_blank()) f += 'b';
  if (fl.is_comment()) f += 'c';
  if (fl.is_continued()) f += 'd';
  if (fl.is_continuation()) f += 'n';
  if (fl.has_label()) f += 'l';
  if (fl.is_preprocessor()) f += 'p';
  if (fl.is_include()) f += 'i';
  if (fl.is_flpr_pp()) f += 'P';
  if (fl.is_flpr_lit()) f += 'L';
  if (fl.is_fixed_format()) f += 'x';
  if (fl.is_fortran()) f += 'F';
  j.str(f);
  std::ostringstream os;
  os << fl;
  j.str(os.str());
  j.num(fl.main_first_col());
  j.num((long long)fl.size());
  j.num(fl.get_leading_spaces());
  j.close(']');
}

void dump_line(J &j, Logical_Line const &ll, std::string const &opts) {
  bool mt = opts.find('p') != std::string::npos;
  j.open('{');
  j.key("label").num(ll.label);
  j.key("cat").num((int)ll.cat);
  if (ll.suppress)
    j.key("sup").boolean(true);
  j.key("start").num(ll.start_line());
  j.key("end").num(ll.end_line());
  j.key("layout").open('[');
  for (auto const &fl : ll.layout())
    dump_fl(j, fl);
  j.close(']');
  j.key("toks").open('[');
  for (auto const &tt : ll.fragments()) {
    j.open('[');
    j.str(tag_label(tt.token)).str(tt.text()).num(tt.start_line).num(tt.start_pos);
    j.str(tt.lower());
    if (mt)
      j.num(tt.main_txt_line())
          .num(tt.main_txt_col())
          .num(tt.main_txt_eline())
          .num(tt.main_txt_ecol())
          .num(tt.pre_spaces())
          .num(tt.post_spaces());
    j.close(']');
  }
  j.close(']');
  if (ll.has_stmts()) {
    j.key("nsemi").num(ll.num_semicolons());
    j.key("nstmt").num((long long)ll.stmts().size());
    j.key("empty").boolean(ll.has_empty_statements());
    j.key("comp").boolean(ll.is_compound());
    j.key("srange").open('[');
    for (auto const &r : ll.stmts()) {
      j.open('[');
      for (auto it = r.begin(); it != r.end(); ++it)
        j.str(it->text());
      j.close(']');
    }
    j.close(']');
  }
  j.close('}');
}

void dump_lines(J &j, LL_SEQ &lines, std::string const &opts) {
  j.open('[');
  for (auto const &ll : lines)
    dump_line(j, ll, opts);
  j.close(']');
}

void dump_stmts(J &j, LL_SEQ &lines, LL_STMT_SEQ &stmts,
                std::string const &opts) {
  (void)opts;
  std::vector<Logical_Line const *> order;
  for (auto const &ll : lines)
    order.push_back(&ll);
  auto idx = [&](Logical_Line const *p) {
    for (size_t i = 0; i < order.size(); ++i)
      if (order[i] == p)
        return (long long)i;
    return -1LL;
  };
  j.open('[');
  for (auto &s : stmts) {
    j.open('{');
    j.key("label").num(s.label());
    j.key("comp").num(s.is_compound());
    j.key("prefix").open('[');
    for (auto const &p : s.prefix_lines)
      j.num(idx(&*p));
    j.close(']');
    if (s.empty()) {
      j.key("ll").num(-1);
      j.key("toks").open('[').close(']');
    } else {
      j.key("ll").num(idx(&s.ll()));
      j.key("line").num(s.linenum());
      j.key("col").num(s.colnum());
      j.key("toks").open('[');
      for (auto it = s.begin(); it != s.end(); ++it)
        j.str(it->text());
      j.close(']');
      // does the statement's token range lie inside its line's fragments?
      bool inside = false;
      auto &fr = s.ll().fragments();
      size_t want = 0, seen = 0;
      for (auto it = s.begin(); it != s.end(); ++it)
        ++want;
      auto sit = s.begin();
      for (auto it = fr.begin(); it != fr.end() && seen < want; ++it)
        if (&*it == &*sit) {
          ++seen;
          if (seen < want)
            ++sit;
        }
      inside = seen == want;
      j.key("inside").boolean(inside);
    }
    j.key("tag").str(tag_label(s.syntax_tag()));
    j.close('}');
  }
  j.close(']');
}

static std::string bits(File_Line const &fl) {
  std::ostringstream os;
  fl.print_classbits(os);
  os << fl.is_fixed_format() << fl.is_include() << fl.is_flpr_lit();
  return os.str();
}

// Does what is written depend on the state of the stream, or change it?
static std::string emit_otherwise(LL_SEQ const &lines, std::string const &want, bool const alone) {
  std::ostringstream os;
  os << std::right << std::hex << std::showbase << std::uppercase;
  os.fill('*');
  auto const flags = os.flags();
  for (auto const &ll : lines) {
    os << ll;
    for (auto const &fl : ll.layout()) {
      // exchanged, and with its blanks moved around, it is still the same line
      std::ostringstream p, q;
      p << fl;
      File_Line a(fl), b;
      b.swap(a);
      q << b;
      if (p.str() != q.str() || !a.left_txt.empty() || !a.main_txt.empty() ||
          b.linenum != fl.linenum || bits(b) != bits(fl) || b.open_delim != fl.open_delim)
        return "exchanged line \"" + p.str() + "\" is \"" + q.str() + '"';
      if (fl.size() != p.str().size())
        return "size() of \"" + p.str() + "\" is " + std::to_string(fl.size());
      if (alone && !fl.is_fixed_format() && &fl == &ll.layout().front() && !fl.is_flpr_lit()) {
        File_Line const c = File_Line::analyze_free(p.str(), fl.linenum);
        std::ostringstream s;
        s << c;
        if (s.str() != p.str() || bits(c) != bits(fl) || c.linenum != fl.linenum ||
            c.main_txt != fl.main_txt || c.left_txt != fl.left_txt || c.open_delim != fl.open_delim)
          return "line \"" + p.str() + "\" alone is another line: " + bits(c) + ", not " + bits(fl);
      }
      if (fl.main_txt.empty() || !fl.is_fortran())
        continue;
      std::ostringstream r;
      b.unspace_main();
      if (!b.is_blank() && (b.main_txt.front() == ' ' || b.main_txt.back() == ' '))
        return "unspace_main left blanks in \"" + p.str() + '"';
      r << b;
      if (p.str() != r.str())
        return "line \"" + p.str() + "\" is \"" + r.str() + "\" after unspace_main";
    }
    for (auto const &tt : ll.fragments()) {
      std::ostringstream x;
      x << tt;
      std::string const w = tag_label(tt.token) + ":\"" + tt.text() + "\" (" +
                            std::to_string(tt.start_line) + '.' +
                            std::to_string(tt.start_pos) + ')';
      if (x.str() != w)
        return "token written as " + x.str() + ", expected " + w;
    }
  }
  if (os.flags() != flags || os.fill() != '*' || os.width() != 0)
    return "the state of the stream is changed";
  if (os.str() != want)
    return "another text is written to a stream in another state";
  return "";
}

// Text and kinds of tokens taken out of a line
static std::string rendered(LL_SEQ const &lines, int &n) {
  for (auto const &ll : lines) {
    if (ll.fragments().empty())
      continue;
    std::ostringstream os;
    os.fill('*');
    render(os, ll.fragments().cbegin(), ll.fragments().cend());
    std::string const txt = os.str();
    ++n;
    if (ll.layout().size() == 1) {
      std::string w = ll.layout()[0].main_txt;
      for (auto &c : w)
        if (c == '\t' || c == '\r')
          c = ' ';
      std::string v = txt;
      for (auto &c : v)
        if (c == '\t' || c == '\r')
          c = ' ';
      w.resize(w.find_last_not_of(' ') + 1);
      if (w != v && w != std::string(w.size() - v.size(), ' ') + v)
        return "tokens of \"" + w + "\" rendered as \"" + v + '"';
    }
    if (std::isalpha((unsigned char)txt[0]) && txt.find("nclude") == std::string::npos &&
        txt.find("NCLUDE") == std::string::npos) {
      Logical_Line const k(txt);
      auto a = k.fragments().begin();
      for (auto const &b : ll.fragments()) {
        if (a == k.fragments().end() || a->token != b.token || a->text() != b.text())
          return "rendered text \"" + txt + "\" has other tokens at " + b.text();
        ++a;
      }
      if (a != k.fragments().end())
        return "rendered text \"" + txt + "\" has more tokens";
    }
    // names for keywords
    for (int first = 0; first < 4; ++first) {
      TT_SEQ c(ll.fragments());
      int const num = first == 3 ? -1 : first * first + first; // 0 2 6 all
      unkeyword(c.begin(), c.end(), num);
      int i = 0;
      auto o = ll.fragments().begin();
      for (auto const &t : c) {
        std::string u = o->text();
        for (auto &x : u)
          x = std::toupper((unsigned char)x);
        bool const kw = std::isalpha((unsigned char)u[0]) && tag_label(o->token) == u;
        if (kw != Syntax_Tags::is_keyword(o->token))
          return "is_keyword of " + o->text();
        int const w = kw && (num < 0 || i < num) ? (int)Syntax_Tags::TK_NAME : o->token;
        if (t.token != w || t.text() != o->text())
          return "unkeyword: " + o->text() + " becomes " + tag_label(t.token);
        ++i, ++o;
      }
    }
  }
  return "";
}

// Make each Fortran line of its own from the raw text; what differs?
static std::string rebuilt_lines(LL_SEQ const &lines,
                                 std::vector<std::string> const &raw,
                                 bool fixed, int lc, int &n) {
  for (auto const &ll : lines) {
    if (!ll.layout().front().is_fortran())
      continue;
    std::vector<std::string> txt;
    for (auto const &fl : ll.layout())
      txt.push_back(raw.at(fl.linenum - 1));
    int const off = ll.layout().front().linenum - 1;
    auto cmp = [&](Logical_Line const &k, bool num) -> std::string {
      if (k.label != ll.label)
        return "label";
      if (k.layout().size() != ll.layout().size())
        return "number of lines";
      for (size_t i = 0; i < txt.size(); ++i) {
        auto const &x = k.layout()[i], &y = ll.layout()[i];
        if (x.left_txt != y.left_txt || x.left_space != y.left_space ||
            x.main_txt != y.main_txt || x.right_space != y.right_space ||
            x.right_txt != y.right_txt || x.open_delim != y.open_delim)
          return "fields of line " + std::to_string(i);
      }
      auto a = k.fragments().begin();
      for (auto const &b : ll.fragments()) {
        if (a == k.fragments().end())
          return "number of tokens";
        if (a->token != b.token || a->text() != b.text())
          return "token " + b.text();
        if ((num && a->start_line + off != b.start_line) ||
            a->start_pos != b.start_pos ||
            a->main_txt_line() != b.main_txt_line() ||
            a->main_txt_col() != b.main_txt_col() ||
            a->main_txt_eline() != b.main_txt_eline() ||
            a->main_txt_ecol() != b.main_txt_ecol() ||
            a->pre_spaces() != b.pre_spaces() ||
            a->post_spaces() != b.post_spaces())
          return "place of " + b.text();
        ++a;
      }
      return a == k.fragments().end() ? "" : "number of tokens";
    };
    ++n;
    std::string r = cmp(fixed ? Logical_Line(txt, lc) : Logical_Line(txt), true);
    if (r.empty() && txt.size() == 1)
      r = cmp(fixed ? Logical_Line(txt[0], lc) : Logical_Line(txt[0]), false);
    if (!r.empty())
      return "line " + std::to_string(off + 1) + ": " + r;
  }
  return "";
}

// scan <type> <last_col> <name> <opts> <text>
// opts: m make stmts, v verbose lines, p token placement, o output only,
//       L use the line-vector interface, F write to the named file and read it,
//       R scan other text (args 5: extension, 6: text) with the same object
//       first, c convert fixed to free first
void op_scan(J &j, Args const &a) {
  std::string const &opts = a.at(3);
  auto has = [&](char c) { return opts.find(c) != std::string::npos; };
  Logical_File lf;
  bool ok;
  int const lc = atoi(a.at(1).c_str());
  if (has('R')) { // the object has been used before
    std::istringstream is(a.at(6));
    lf.read_and_scan(is, "before." + a.at(5), 72);
    if (a.at(5) == "f" || !lf.lines.empty())
      lf.make_stmts();
  }
  if (has('L')) {
    ok = lf.scan(to_lines(a.at(4)), a.at(2), lc, ftype(a.at(0)));
  } else if (has('F')) {
    std::ofstream(a.at(2)) << a.at(4);
    ok = lf.read_and_scan(a.at(2), lc, ftype(a.at(0)));
  } else {
    std::istringstream is(a.at(4));
    ok = lf.read_and_scan(is, a.at(2), lc, ftype(a.at(0)));
  }
  j.key("ok").boolean(ok);
  j.key("n").num((long long)lf.num_input_lines);
  j.key("pp").boolean(lf.has_flpr_pp);
  j.key("fixed").boolean(lf.is_fixed_format());
  if (!ok)
    return;
  auto info = [&](char const *when) {
    std::string r;
    size_t k = 0;
    for (auto const &ll : lf.lines) {
      if (ll.file_info != lf.file_info && r.empty())
        r = std::string(when) + ": logical line " + std::to_string(k) +
            " does not refer to its file";
      ++k;
    }
    if (r.empty() && (!lf.file_info || lf.file_info->filename != a.at(2)))
      r = std::string(when) + ": name of the file";
    if (r.empty() && lf.is_fixed_format() && lf.file_info->last_fixed_column != lc)
      r = std::string(when) + ": last column of the file";
    return r;
  };
  j.key("info").str(info("scanned"));
  std::string const out = emit(lf.lines);
  j.key("out").str(out);
  j.key("otherwise").str(emit_otherwise(lf.lines, out, has('A')));
  if (has('v')) {
    j.key("lines");
    dump_lines(j, lf.lines, opts);
  }
  if (has('k')) {
    int n = 0;
    j.key("ctor").str(rebuilt_lines(lf.lines, to_lines(a.at(4)),
                                    lf.is_fixed_format(), lc, n));
    j.key("nctor").num(n);
    n = 0;
    j.key("render").str(rendered(lf.lines, n));
    j.key("nrender").num(n);
  }
  if (has('c')) {
    j.key("conv").boolean(lf.convert_fixed_to_free());
    j.key("cfixed").boolean(lf.is_fixed_format());
    j.key("cout").str(emit(lf.lines));
    j.key("clines");
    dump_lines(j, lf.lines, opts);
    if (has('r')) {
      // what a free-form reader makes of the converted text
      Logical_File rf;
      std::istringstream is(emit(lf.lines));
      bool const rok = rf.read_and_scan(is, "r.f90", 0, File_Type::FREEFMT);
      j.key("rok").boolean(rok);
      if (rok) {
        j.key("rlines");
        dump_lines(j, rf.lines, opts);
        j.key("rout").str(emit(rf.lines));
      }
      j.key("again").boolean(lf.convert_fixed_to_free());
      j.key("aout").str(emit(lf.lines));
    }
  }
  if (has('m')) {
    lf.make_stmts();
    j.key("stmts");
    dump_stmts(j, lf.lines, lf.ll_stmts, opts);
    j.key("slines");
    dump_lines(j, lf.lines, opts);
    j.key("sout").str(emit(lf.lines));
  }
}

} // namespace mon
