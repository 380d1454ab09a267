#include "util.hh"
#include "flpr/Stmt_Parser_Exts.hh"
#include "flpr/parse_stmt.hh"
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
using namespace FLPR;
namespace mon {
using PFile = Parsed_File<>;

static int tag_of(std::string const &label) {
  static std::map<std::string, int> m;
  if (m.empty())
    for (int i = 0; i < Syntax_Tags::CLIENT_EXTENSION; ++i)
      m.emplace(Syntax_Tags::label(i), i);
  auto it = m.find(label);
  if (it == m.end())
    throw std::runtime_error("driver: unknown tag " + label);
  return it->second;
}

static void brief_stmts(J &j, Logical_File &lf) {
  std::map<Logical_Line const *, int> idx;
  int k = 0;
  for (auto const &ll : lf.lines)
    idx[&ll] = k++;
  j.open('[');
  for (auto &s : lf.ll_stmts) {
    j.open('[');
    j.num(s.label());
    j.num(s.is_compound());
    if (s.empty())
      j.num(-1);
    else {
      auto it = idx.find(&s.ll());
      j.num(it == idx.end() ? -2 : it->second);
    }
    j.open('[');
    for (auto it = s.begin(); it != s.end(); ++it)
      j.str(it->text());
    j.close(']');
    j.open('[');
    for (auto const &p : s.prefix_lines) {
      auto it = idx.find(&*p);
      j.num(it == idx.end() ? -2 : it->second);
    }
    j.close(']');
    j.str(tag_label(s.syntax_tag()));
    j.close(']');
  }
  j.close(']');
}

static void brief_rescan(J &j, std::string const &text, File_Type ft, int lc) {
  Logical_File lf;
  std::istringstream is(text);
  bool ok = lf.read_and_scan(is, "rescan", lc, ft);
  if (!ok) {
    j.null();
    return;
  }
  lf.make_stmts();
  j.open('[');
  brief_stmts(j, lf);
  j.str(emit(lf.lines));
  j.close(']');
}

static void state(J &j, Logical_File &lf, std::string const &opts, int lc) {
  std::string out = emit(lf.lines);
  j.key("out").str(out);
  j.key("st");
  brief_stmts(j, lf);
  if (opts.find('r') != std::string::npos) {
    j.key("re");
    brief_rescan(j, out, lf.file_type(), lc);
  }
  if (opts.find('v') != std::string::npos) {
    j.key("lines");
    dump_lines(j, lf.lines, opts);
  }
  // trees of statements which have a known tag must agree with their tokens
  if (opts.find('t') != std::string::npos) {
    long bad = 0, good = 0;
    for (auto &s : lf.ll_stmts) {
      if (s.empty() || s.syntax_tag() == Syntax_Tags::UNKNOWN)
        continue;
      auto &t = s.stmt_tree();
      if (t.empty()) {
        ++bad;
        continue;
      }
      auto &r = t->operator*().token_range;
      size_t n = 0;
      for (auto it = s.begin(); it != s.end(); ++it)
        ++n;
      if (r.size() != n || &r.front() != &*s.begin())
        ++bad;
      else
        ++good;
    }
    j.key("tbad").num(bad);
    j.key("tgood").num(good);
  }
}

static LL_STMT_SEQ::iterator nth(Logical_File &lf, std::string const &s) {
  long n = atol(s.c_str());
  auto it = lf.ll_stmts.begin();
  for (long i = 0; i < n; ++i) {
    if (it == lf.ll_stmts.end())
      throw std::runtime_error("driver: bad statement index");
    ++it;
  }
  return it;
}

// edit <type> <last_col> <name> <opts> <text> <op>...
// opts: r rescan after each op, v dump lines, t statement trees, P parse first
void op_edit(J &j, Args const &a) {
  std::string const &opts = a.at(3);
  int lc = atoi(a.at(1).c_str());
  std::istringstream is(a.at(4));
  PFile pf(is, a.at(2), lc, ftype(a.at(0)));
  j.key("ok").boolean(bool(pf));
  if (!pf)
    return;
  Logical_File &lf = pf.logical_file();
  if (opts.find('P') != std::string::npos) {
    pf.parse_tree();
    j.key("good").boolean(bool(pf));
    if (!pf)
      return;
  } else if (opts.find('N') == std::string::npos)
    lf.make_stmts();
  j.key("init").open('{');
  state(j, lf, opts, lc);
  j.close('}');
  j.key("steps").open('[');
  for (size_t k = 5; k < a.size(); ++k) {
    auto f = split(a[k], '\x01');
    j.open('{');
    std::string const &op = f[0];
    bool ret = true;
    if (op == "split") {
      ret = lf.split_compound_before(nth(lf, f.at(1)));
    } else if (op == "isolate") {
      ret = lf.isolate_stmt(nth(lf, f.at(1)));
    } else if (op == "emplace" || op == "emplace_ap") {
      // pos tag text(lines by \n)
      auto ll = lf.is_fixed_format() ? Logical_Line(to_lines(f.at(3)), lc)
                                     : Logical_Line(to_lines(f.at(3)));
      auto it = op == "emplace"
                    ? lf.emplace_ll_stmt(nth(lf, f.at(1)), std::move(ll),
                                         tag_of(f.at(2)))
                    : lf.emplace_ll_stmt_after_prefix(
                          nth(lf, f.at(1)), std::move(ll), tag_of(f.at(2)));
      long i = 0;
      for (auto p = lf.ll_stmts.begin(); p != it && i < 100000; ++p)
        ++i;
      j.key("at").num(i);
    } else if (op == "replace") {
      lf.replace_stmt_text(nth(lf, f.at(1)), to_lines(f.at(3)),
                           tag_of(f.at(2)));
    } else if (op == "substr") {
      auto s = nth(lf, f.at(1));
      auto b = s->begin();
      std::advance(b, atoi(f.at(2).c_str()));
      auto e = b;
      std::advance(e, atoi(f.at(3).c_str()));
      LL_TT_Range r(s->it(), b, e);
      lf.replace_stmt_substr(s, r, f.at(4));
    } else if (op == "insert") {
      auto s = nth(lf, f.at(1));
      auto b = s->begin();
      std::advance(b, atoi(f.at(2).c_str()));
      lf.insert_text_after(s, b, f.at(3));
    } else if (op == "append") {
      lf.append_stmt_text(nth(lf, f.at(1)), f.at(2));
    } else if (op == "label") {
      ret = lf.set_stmt_label(nth(lf, f.at(1)), atoi(f.at(2).c_str()));
    } else if (op == "tag") {
      nth(lf, f.at(1))->set_stmt_syntag(tag_of(f.at(2)));
    } else if (op == "conv") {
      ret = lf.convert_fixed_to_free();
    } else if (op == "lead") {
      ret = nth(lf, f.at(1))
                ->set_leading_spaces(atoi(f.at(2).c_str()),
                                     atoi(f.at(3).c_str()));
    } else if (op == "fragrep") { // stmt tok text
      auto s = nth(lf, f.at(1));
      auto b = s->begin();
      std::advance(b, atoi(f.at(2).c_str()));
      s->ll().replace_fragment(b, Syntax_Tags::TK_NAME, f.at(3));
    } else if (op == "make") {
      lf.make_stmts();
    } else
      throw std::runtime_error("driver: unknown edit op " + op);
    j.key("op").str(op);
    j.key("ret").boolean(ret);
    state(j, lf, opts, lc);
    j.close('}');
  }
  j.close(']');
}

static void ll_state(J &j, Logical_Line &ll, std::string const &opts) {
  std::ostringstream os;
  os << ll;
  j.key("out").str(os.str());
  j.key("ll");
  dump_line(j, ll, opts);
  if (opts.find('r') != std::string::npos) {
    // the printed text, read again
    bool const fixed = opts.find('x') != std::string::npos;
    Logical_File lf;
    std::istringstream is(os.str());
    bool ok = lf.read_and_scan(is, "rescan", atoi(opts.substr(opts.find('r') + 1).c_str()),
                               fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
    j.key("re");
    if (!ok) {
      j.null();
      return;
    }
    j.open('[');
    for (auto const &l : lf.lines) {
      if (!l.has_fortran())
        continue;
      j.open('[').num(l.label).open('[');
      for (auto const &tt : l.cfragments())
        j.str(tt.text());
      j.close(']').close(']');
    }
    j.close(']');
  }
}

// what a line says about itself goes with it when it is copied or moved
static std::string transfer_attributes(Logical_Line const &ll) {
  Logical_Line p(ll);
  p.cat = LineCat::MACRO;
  p.suppress = true;
  p.needs_reformat = true;
  p.label = 4711;
  p.file_info = std::make_shared<File_Info>("attr.f90", File_Type::FREEFMT);
  auto cmp = [&](Logical_Line const &o) -> std::string {
    if (o.cat != LineCat::MACRO)
      return "cat";
    if (!o.suppress)
      return "suppress";
    if (!o.needs_reformat)
      return "needs_reformat";
    if (o.label != 4711)
      return "label";
    if (o.file_info != p.file_info && p.file_info)
      return "file_info";
    if (!o.file_info || o.file_info->filename != "attr.f90")
      return "file_info";
    if (o.has_stmts() && (o.num_semicolons() != ll.num_semicolons() ||
                          o.has_empty_statements() != ll.has_empty_statements()))
      return "semicolons";
    if (o.stmts().size() != ll.stmts().size() ||
        o.fragments().size() != ll.fragments().size() ||
        o.layout().size() != ll.layout().size())
      return "sizes";
    return "";
  };
  std::string r;
  Logical_Line c(p);
  if (!(r = cmp(c)).empty())
    return "copy: " + r;
  Logical_Line d("a = 1 ; b = 2");
  d.init_stmts();
  d = p;
  if (!(r = cmp(d)).empty())
    return "copy assignment: " + r;
  Logical_Line e(std::move(c));
  if (!(r = cmp(e)).empty())
    return "move: " + r;
  Logical_Line f("include 'x'");
  f = std::move(e);
  if (!(r = cmp(f)).empty())
    return "move assignment: " + r;
  f.clear();
  if (f.cat != LineCat::UNKNOWN || f.suppress || f.needs_reformat || f.label ||
      !f.layout().empty() || !f.fragments().empty())
    return "clear";
  return "";
}

// ll <fmt> <last_col> <opts> <text> <op>...
void op_ll(J &j, Args const &a) {
  int lc = atoi(a.at(1).c_str());
  std::string const &opts = a.at(2);
  auto lines = to_lines(a.at(3));
  Logical_Line ll = a.at(0) == "fixed" ? Logical_Line(lines, lc)
                                       : Logical_Line(lines);
  if (opts.find('m') != std::string::npos)
    ll.init_stmts();
  j.key("init").open('{');
  ll_state(j, ll, opts);
  j.close('}');
  j.key("steps").open('[');
  auto frag = [](Logical_Line &l, std::string const &s) {
    auto it = l.fragments().begin();
    std::advance(it, atoi(s.c_str()));
    return it;
  };
  for (size_t k = 4; k < a.size(); ++k) {
    auto f = split(a[k], '\x01');
    std::string const &op = f[0];
    j.open('{');
    j.key("op").str(op);
    bool ret = true;
    if (op == "replfrag") {
      ll.replace_fragment(frag(ll, f.at(1)), tag_of(f.at(2)), f.at(3));
    } else if (op == "rmfrag") {
      ll.remove_fragment(frag(ll, f.at(1)));
    } else if (op == "repltext") {
      ll.replace_main_text(to_lines(f.at(1)));
    } else if (op == "replsub") {
      auto b = frag(ll, f.at(1));
      auto e = b;
      std::advance(e, atoi(f.at(2).c_str()));
      TT_Range r(b, e);
      ll.replace_stmt_substr(r, f.at(3));
    } else if (op == "rmempty") {
      ll.init_stmts();
      ret = ll.remove_empty_statements();
    } else if (op == "split") {
      Logical_Line n;
      ret = ll.split_after(frag(ll, f.at(1)), n);
      if (ret) {
        if (n.has_stmts() == false)
          n.init_stmts();
        j.key("new").open('{');
        ll_state(j, n, opts);
        j.close('}');
      }
    } else if (op == "insbef") {
      ll.insert_text_before(frag(ll, f.at(1)), f.at(2));
    } else if (op == "insaft") {
      ll.insert_text_after(frag(ll, f.at(1)), f.at(2));
    } else if (op == "comment") {
      ll.append_comment(f.at(1));
    } else if (op == "lead") {
      ret = ll.set_leading_spaces(atoi(f.at(1).c_str()), atoi(f.at(2).c_str()));
    } else if (op == "label") {
      ret = ll.set_label(atoi(f.at(1).c_str()));
    } else if (op == "fromfrags") {
      ll.text_from_frags();
    } else if (op == "init") {
      ll.init_stmts();
    } else if (op == "copy" || op == "copyassign" || op == "move" ||
               op == "moveassign") {
      // switch to the copy and wreck the original
      bool const has = ll.has_stmts(), empties = has && ll.has_empty_statements();
      int const semis = has ? ll.num_semicolons() : 0;
      Logical_Line other;
      if (op == "copy") {
        Logical_Line c(ll);
        if (ll.stmts().size() < 2)
          ll.replace_main_text({"zz = 0"});
        for (auto &fl : ll.layout())
          fl.make_blank();
        ll.fragments().clear();
        Logical_Line d(std::move(c));
        other = std::move(d);
      } else if (op == "copyassign") {
        Logical_Line c("q = 1 ; w = 2");
        c.init_stmts();
        c = ll;
        ll = Logical_Line("wrecked = 1");
        other = c;
        c = Logical_Line();
      } else if (op == "move") {
        Logical_Line c(std::move(ll));
        other = std::move(c);
      } else {
        other = std::move(ll);
      }
      Logical_Line fresh(other);
      ll = fresh;
      std::string attr = transfer_attributes(ll);
      if (ll.has_stmts() != has ||
          (has && (ll.num_semicolons() != semis ||
                   ll.has_empty_statements() != empties)))
        attr = "number of semicolons";
      j.key("attr").str(attr);
      ll_state(j, ll, opts);
      j.key("ret").boolean(true);
      j.close('}');
      continue;
    } else
      throw std::runtime_error("driver: unknown ll op " + op);
    j.key("ret").boolean(ret);
    ll_state(j, ll, opts);
    j.close('}');
  }
  j.close(']');
}

static void fl_state(J &j, File_Line const &fl) {
  std::ostringstream os;
  os << fl;
  j.key("out").str(os.str());
  j.key("f").open('[');
  j.str(fl.left_txt).str(fl.left_space).str(fl.main_txt).str(fl.right_space);
  j.str(fl.right_txt).num((unsigned char)fl.open_delim).num(fl.linenum);
  std::string c;
  if (fl.is_blank()) c += 'b';
  if (fl.is_comment()) c += 'c';
  if (fl.is_continued()) c += 'd';
  if (fl.is_continuation()) c += 'n';
  if (fl.has_label()) c += 'l';
  if (fl.is_preprocessor()) c += 'p';
  if (fl.is_include()) c += 'i';
  if (fl.is_flpr_pp()) c += 'P';
  if (fl.is_flpr_lit()) c += 'L';
  if (fl.is_fixed_format()) c += 'x';
  if (fl.is_fortran()) c += 'F';
  if (fl.is_trivial()) c += 't';
  j.str(c);
  j.num(fl.main_first_col());
  j.num((long long)fl.size());
  j.num(fl.get_leading_spaces());
  j.close(']');
}

// fl free <open_delim> <prev_cont> <in_lit> <text> <op>...
// fl fixed <open_delim> <last_col> - <text> <op>...
void op_fl(J &j, Args const &a) {
  char od = a.at(1).empty() ? '\0' : a.at(1)[0];
  File_Line fl;
  if (a.at(0) == "fixed") {
    fl = File_Line::analyze_fixed(7, a.at(4), od, atoi(a.at(2).c_str()));
  } else {
    bool lit = a.at(3) == "1";
    fl = File_Line::analyze_free(7, a.at(4), od, a.at(2) == "1", lit);
    j.key("lit").boolean(lit);
  }
  j.key("init").open('{');
  fl_state(j, fl);
  j.close('}');
  j.key("steps").open('[');
  for (size_t k = 5; k < a.size(); ++k) {
    auto f = split(a[k], '\x01');
    std::string const &op = f[0];
    j.open('{');
    j.key("op").str(op);
    bool ret = true;
    if (op == "uncont")
      fl.make_uncontinued();
    else if (op == "cont")
      fl.make_continued();
    else if (op == "pp")
      fl.make_preprocessor();
    else if (op == "blank")
      fl.make_blank();
    else if (op == "cob")
      fl.make_comment_or_blank();
    else if (op == "lead")
      ret = fl.set_leading_spaces(atoi(f.at(1).c_str()));
    else if (op == "label")
      ret = fl.set_label(atoi(f.at(1).c_str()));
    else if (op == "unspace")
      fl.unspace_main();
    else if (op == "swap") {
      File_Line o;
      o.swap(fl);
      fl.swap(o);
    } else
      throw std::runtime_error("driver: unknown fl op " + op);
    j.key("ret").boolean(ret);
    fl_state(j, fl);
    // the text of the line on its own, read again in the same context
    std::ostringstream os;
    os << fl;
    j.key("re").open('{');
    try {
      bool lit = a.at(3) == "1";
      File_Line const again =
          a.at(0) == "fixed"
              ? File_Line::analyze_fixed(7, os.str(), od, atoi(a.at(2).c_str()))
              : File_Line::analyze_free(7, os.str(), od, a.at(2) == "1", lit);
      fl_state(j, again);
    } catch (std::exception const &e) {
      j.key("exc").str(e.what());
    }
    j.close('}');
    j.close('}');
  }
  j.close(']');
}

// ------------------------------------------------------------- procedures
struct Collect {
  J *j;
  std::string opts;
  std::vector<std::string> const *script;
  int lc = 0;
  int count = 0;
  using Proc = Procedure<PFile>;
  static Proc::Region_Iterator where(Proc &p, std::string const &r,
                                     std::string const &w) {
    auto reg = (Proc::Region_Tag)atoi(r.c_str());
    if (w == "b")
      return p.begin(reg);
    if (w == "e")
      return p.end(reg);
    if (w == "l")
      return p.last(reg);
    auto it = p.begin(reg); // the n-th statement of the region
    for (int n = atoi(w.c_str()); n > 0; --n)
      ++it;
    return it;
  }
  bool operator()(PFile &file, PFile::Prgm_Cursor c, bool internal,
                  bool module) {
    J &o = *j;
    std::unique_ptr<Proc> pp(new Proc(file));
    bool const before = *pp;
    bool const ok = pp->ingest(c);
    o.open('{');
    o.key("before").boolean(before);
    o.key("ok").boolean(ok);
    o.key("internal").boolean(internal);
    o.key("module").boolean(module);
    o.key("kind").str(tag_label(c->syntag()));
    int const me = count++;
    if (ok) {
      facts(o, *pp, file);
      std::vector<int> labels;
      pp->scan_out_labels(std::back_inserter(labels));
      o.key("labels").open('[');
      for (int l : labels)
        o.num(l);
      o.close(']');
      o.key("cursors").open('{'); // node of each region
      for (int r = 0; r < Proc::NUM_REGION_TAG; ++r) {
        auto reg = (Proc::Region_Tag)r;
        if (pp->has_region(reg))
          o.key(std::to_string(r).c_str())
              .str(tag_label(pp->range_cursor(reg)->syntag()));
      }
      o.close('}');
      // script entries: "<procindex>\x01op..."
      o.key("ops").open('[');
      for (auto const &sc : *script) {
        auto f = split(sc, '\x01');
        if (atoi(f[0].c_str()) != me)
          continue;
        bool r = true;
        Proc &p = *pp;
        o.open('{');
        o.key("op").str(f[1]);
        if (f[1] == "rename")
          r = p.rename(f.at(2));
        else if (f[1] == "cend")
          r = p.complete_end_stmt();
        else if (f[1] == "emplace") { // region where tag text bp
          auto pos = where(p, f.at(2), f.at(3));
          auto ll = file.logical_file().is_fixed_format()
                        ? Logical_Line(to_lines(f.at(5)), lc)
                        : Logical_Line(to_lines(f.at(5)));
          auto it = p.emplace_stmt(pos, std::move(ll), tag_of(f.at(4)),
                                   f.at(6) == "1");
          o.key("rreg").num(it.get_region());
          long i = 0;
          for (auto q = file.statements().begin(); q != it && i < 100000; ++q)
            ++i;
          o.key("at").num(i);
        } else if (f[1] == "replace") { // region which tag text
          auto pos = where(p, f.at(2), f.at(3));
          auto it = p.replace_stmt(pos, f.at(5), tag_of(f.at(4)));
          r = it == pos && it.get_region() == pos.get_region();
        } else if (f[1] == "substr") { // region which tok n text
          auto pos = where(p, f.at(2), f.at(3));
          auto b = pos->begin();
          std::advance(b, atoi(f.at(4).c_str()));
          auto e = b;
          std::advance(e, atoi(f.at(5).c_str()));
          LL_TT_Range rg(pos->it(), b, e);
          p.replace_stmt_substr(pos, rg, f.at(6));
        } else if (f[1] == "insert") { // region which tok text
          auto pos = where(p, f.at(2), f.at(3));
          auto b = pos->begin();
          std::advance(b, atoi(f.at(4).c_str()));
          p.insert_text_after(pos, b, f.at(5));
        } else if (f[1] == "again") {
          r = p.ingest(c);
        } else if (f[1] == "clear") {
          p.clear();
          o.key("cleared").boolean(!p && !p.procedure_initialized() &&
                                   !p.is_main_program());
          for (int q = 0; q < Proc::NUM_REGION_TAG; ++q)
            if (p.has_region((Proc::Region_Tag)q))
              r = false;
          r = p.ingest(c) && r;
        } else if (f[1] == "move") {
          Proc q(std::move(p));
          pp.reset(new Proc(std::move(q)));
        } else if (f[1] == "touch") { // look at every region
          for (int q = 0; q < Proc::NUM_REGION_TAG; ++q) {
            auto reg = (Proc::Region_Tag)q;
            long n = 0;
            for (auto &s : p.range(reg))
              n += s.size() > 0;
            r = r && (p.begin(reg) == p.end(reg)) == (n == 0) &&
                (n != 0) == p.has_region(reg);
          }
        } else
          throw std::runtime_error("driver: bad proc op");
        o.key("ret").boolean(r);
        facts(o, *pp, file);
        if (!opts.empty())
          state(o, file.logical_file(), opts, lc);
        o.close('}');
      }
      o.close(']');
    }
    o.close('}');
    return (me & 1) != 0;
  }
  void facts(J &o, Proc &p, PFile &file) {
    o.key("name").str(p.name());
    o.key("headless").boolean(p.headless_main_program());
    o.key("main").boolean(p.is_main_program());
    std::map<LL_Stmt const *, int> ix;
    int k = 0;
    for (auto &s : file.statements())
      ix[&s] = k++;
    o.key("reg").open('{');
    Proc const &cp = p;
    for (int r = 0; r < Proc::NUM_REGION_TAG; ++r) {
      auto reg = (Proc::Region_Tag)r;
      if (!cp.has_region(reg))
        continue;
      o.key(std::to_string(r).c_str()).open('[');
      int guard = 0;
      for (Proc::Stmt_Const_Iterator it = cp.cbegin(reg);
           it != cp.cend(reg) && guard < 5000; ++it, ++guard)
        o.num(ix.count(&*it) ? ix[&*it] : -1);
      if (guard < 5000 && &*cp.clast(reg) != &*std::prev(cp.cend(reg)))
        o.num(-2);
      int g2 = 0;
      for (auto const &s : cp.crange(reg)) {
        (void)s;
        if (++g2 > 5000)
          break;
      }
      if (g2 != guard)
        o.num(-3);
      o.close(']');
    }
    o.close('}');
  }
};

// proc <type> <last_col> <name> <opts> <text> <script>...
void op_proc(J &j, Args const &a) {
  std::istringstream is(a.at(4));
  PFile pf(is, a.at(2), atoi(a.at(1).c_str()), ftype(a.at(0)));
  j.key("ok").boolean(bool(pf));
  if (!pf)
    return;
  pf.parse_tree();
  j.key("good").boolean(bool(pf));
  if (!pf)
    return;
  j.key("visits").open('[');
  std::vector<std::string> script(a.begin() + 5, a.end());
  Collect col;
  col.j = &j;
  col.opts = a.at(3);
  col.lc = atoi(a.at(1).c_str());
  col.script = &script;
  Procedure_Visitor<PFile, Collect> v(pf, col);
  bool r = v.visit();
  j.close(']');
  j.key("vret").boolean(r);
  j.key("out").str(emit(pf.logical_lines()));
}

// stmttags: label and type of each statement grammar tag
void op_stmttags(J &j, Args const &) {
  j.key("tags").open('[');
  for (int i = Syntax_Tags::SG_000_LB + 1; i < Syntax_Tags::SG_ZZZ_UB; ++i) {
    j.open('[');
    j.str(Syntax_Tags::label(i)).num(Syntax_Tags::type(i));
    j.close(']');
  }
  j.close(']');
}

// tags <int>...: registration and lookup of labels
void op_tags(J &j, Args const &a) {
  // entries: "r:offset:label:type" or "q:offset" or "k:label of builtin"
  j.key("r").open('[');
  for (auto const &e : a) {
    auto f = split(e, ':');
    int tag = Syntax_Tags::CLIENT_EXTENSION + atoi(f.at(1).c_str());
    if (f[0] == "r")
      j.boolean(Syntax_Tags::register_ext(tag, f.at(2).c_str(),
                                          atoi(f.at(3).c_str())));
    else if (f[0] == "q") {
      j.open('[');
      j.str(Syntax_Tags::label(tag));
      j.num(Syntax_Tags::type(tag));
      std::ostringstream os;
      Syntax_Tags::print(os, tag);
      j.str(os.str());
      j.boolean(Syntax_Tags::is_keyword(tag));
      j.boolean(Syntax_Tags::is_name(tag));
      j.close(']');
    }
  }
  j.close(']');
}
} // namespace mon
