// What executions cost: memory and file handles kept, and work done.
#include "util.hh"
#include "flpr/Indent_Table.hh"
#include "flpr/Parsed_File.hh"
#include "flpr/Procedure.hh"
#include "flpr/Procedure_Visitor.hh"
#include <dirent.h>
#include <fstream>
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
using namespace FLPR;
namespace mon {

static long long bytes_in_use() {
#if defined(__SANITIZE_ADDRESS__)
  return (long long)__sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

static int open_fds() {
  int n = 0;
  if (DIR *d = opendir("/proc/self/fd")) {
    while (readdir(d))
      ++n;
    closedir(d);
  }
  return n;
}

// leak <op> <args>...: do an operation again and again; what is kept each time?
void op_leak(J &j, Args const &a) {
  Handler const h = find_handler(a.at(0));
  if (!h)
    throw std::runtime_error("driver: bad op");
  Args const b(a.begin() + 1, a.end());
  auto once = [&] {
    J x;
    x.open('{');
    try {
      h(x, b);
    } catch (std::exception &) {
    }
  };
  once();
  once();
  long long kept = -1;
  int fds = 1 << 20;
  for (int i = 0; i < 3; ++i) {
    int const f0 = open_fds();
    long long const b0 = bytes_in_use();
    once();
    long long const k = bytes_in_use() - b0;
    kept = i ? std::min(kept, k) : k;
    fds = std::min(fds, open_fds() - f0);
  }
  j.key("kept").num(kept);
  j.key("fds").num(fds);
}

namespace {
using PFile = Parsed_File<>;
struct Count_Action {
  using Cursor = typename PFile::Parse_Tree::cursor_t;
  long n = 0;
  bool operator()(PFile &f, Cursor c, bool, bool) {
    Procedure<PFile> p(f);
    n += p.ingest(c);
    return false;
  }
};
} // namespace

// work <type> <last_col> <what> <text>: do something, and observe nothing
void op_work(J &j, Args const &a) {
  auto const type = ftype(a.at(0));
  int const lc = atoi(a.at(1).c_str());
  std::string const &what = a.at(2);
  std::string const nm = a.at(0) == "free" ? "x.f90" : "x.f";
  std::istringstream is(a.at(3));
  long n = 0;
  auto put = [&](LL_SEQ const &lines) {
    std::ostringstream os;
    for (auto const &ll : lines)
      os << ll;
    n = (long)os.str().size();
  };
  auto const skip = [&] { return what == "none"; };
  if (skip()) {
    n = (long)a.at(3).size();
  } else if (what == "scan" || what == "stmts" || what == "emit" ||
             what == "conv" || what == "isolate" || what == "label" ||
             what == "replace" || what == "append" || what == "emplace" ||
             what == "insert") {
    Logical_File f;
    if (!f.read_and_scan(is, nm, lc, type))
      throw std::runtime_error("not scanned");
    if (what != "scan" && what != "emit")
      f.make_stmts();
    if (what == "emit")
      put(f.lines);
    if (what == "conv")
      f.convert_fixed_to_free();
    for (auto s = f.ll_stmts.begin(); s != f.ll_stmts.end(); ++s) {
      if (s->empty())
        continue;
      if (what == "isolate")
        n += f.isolate_stmt(s);
      else if (what == "label")
        n += f.set_stmt_label(s, 10);
      else if (what == "replace")
        f.replace_stmt_text(s, {"      y = 2"}, Syntax_Tags::SG_ASSIGNMENT_STMT);
      else if (what == "append")
        f.append_stmt_text(s, "+ z");
      else if (what == "insert")
        f.insert_text_after(s, s->begin(), "(1)");
      else if (what == "emplace")
        f.emplace_ll_stmt(
            s,
            type == File_Type::FIXEDFMT ? Logical_Line("      y = 2", 72)
                                        : Logical_Line("y = 2"),
            Syntax_Tags::SG_ASSIGNMENT_STMT);
    }
  } else {
    PFile f(is, nm, lc, type);
    if (!f)
      throw std::runtime_error("not read");
    f.parse_tree();
    bool const good = bool(f);
    if (!good && what != "any")
      throw std::runtime_error("not parsed");
    if (what == "indent") {
      Indent_Table t;
      t.apply_constant_indent(2);
      n = f.indent(t);
    } else if (what == "visit") {
      Count_Action act;
      Procedure_Visitor<PFile, Count_Action> v(f, act);
      v.visit();
      n = act.n;
    } else if (what == "rebuild") {
      for (auto &s : f.statements()) {
        s.drop_stmt_tree();
        n += s.stmt_tree().empty();
      }
    }
  }
  j.key("n").num(n);
}
} // namespace mon
