// Streams which deliver their text in pieces, or break down part-way.
#include "util.hh"
#include "flpr/Parsed_File.hh"
#include <stdexcept>
#include <streambuf>
using namespace FLPR;
namespace mon {
namespace {
class Piecewise : public std::streambuf {
public:
  Piecewise(std::string const &s, size_t piece, long fail_at)
      : s_(s), piece_(piece), fail_(fail_at) {}

protected:
  int_type underflow() override {
    if (gptr() < egptr())
      return traits_type::to_int_type(*gptr());
    if (fail_ >= 0 && pos_ >= (size_t)fail_)
      throw std::runtime_error("input/output error");
    size_t n = std::min(piece_, s_.size() - pos_);
    if (fail_ >= 0)
      n = std::min(n, (size_t)fail_ - pos_);
    if (!n)
      return traits_type::eof();
    char *p = &s_[0] + pos_;
    setg(p, p, p + n);
    pos_ += n;
    return traits_type::to_int_type(*p);
  }

private:
  std::string s_;
  size_t piece_, pos_ = 0;
  long fail_;
};
} // namespace

// broken <type> <last_col> <name> <piece> <fail at, or -1> <text>: read from a
// stream, then read all of it with the same object
void op_broken(J &j, Args const &a) {
  auto const type = ftype(a.at(0));
  int const lc = atoi(a.at(1).c_str());
  std::string const &nm = a.at(2), &text = a.at(5);
  size_t const piece = (size_t)atoi(a.at(3).c_str());
  long const fail = atol(a.at(4).c_str());
  {
    Logical_File lf;
    Piecewise b(text, piece, fail);
    std::istream is(&b);
    j.key("ok").boolean(lf.read_and_scan(is, nm, lc, type));
    j.key("out").str(emit(lf.lines));
    lf.make_stmts();
    j.key("n").num((long long)lf.ll_stmts.size());
    std::istringstream js(text);
    j.key("ok2").boolean(lf.read_and_scan(js, nm, lc, type));
    j.key("out2").str(emit(lf.lines));
  }
  {
    Piecewise b(text, piece, fail);
    std::istream is(&b);
    Parsed_File<> pf(is, nm, lc, type);
    j.key("pok").boolean((bool)pf);
    j.key("pn").num((long long)pf.statements().size());
    j.key("ptree").boolean(!pf.parse_tree().empty());
    j.key("pout").str(emit(pf.logical_lines()));
  }
}

// unreadable <name>: read something which is not a readable file
void op_unreadable(J &j, Args const &a) {
  Logical_File lf;
  j.key("ok").boolean(lf.read_and_scan(a.at(0), 0));
  j.key("n").num((long long)lf.lines.size());
  Parsed_File<> p(a.at(0), 0);
  j.key("pok").boolean((bool)p);
  Parsed_File<> q;
  j.key("qret").boolean(q.read_file(a.at(0), 0));
  j.key("qok").boolean((bool)q);
  j.key("qn").num((long long)q.statements().size());
}
} // namespace mon
