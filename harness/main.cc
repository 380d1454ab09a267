// Monitor driver: executes cases (one per input line, tab separated, percent
// escaped) against the real FLPR library and prints one JSON observation per
// case.  A case that terminates the process is attributed by the controller.
#include "util.hh"
#include <cstdio>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <unistd.h>

namespace mon {
std::vector<std::string> split(std::string const &s, char c) {
  std::vector<std::string> r;
  size_t b = 0;
  for (;;) {
    size_t e = s.find(c, b);
    if (e == std::string::npos) {
      r.push_back(s.substr(b));
      return r;
    }
    r.push_back(s.substr(b, e - b));
    b = e + 1;
  }
}
static int hx(char c) {
  if (c >= '0' && c <= '9')
    return c - '0';
  return (c | 32) - 'a' + 10;
}
std::string unesc(std::string const &s) {
  std::string r;
  r.reserve(s.size());
  for (size_t i = 0; i < s.size(); ++i) {
    if (s[i] == '%' && i + 2 < s.size()) {
      r += (char)(hx(s[i + 1]) * 16 + hx(s[i + 2]));
      i += 2;
    } else
      r += s[i];
  }
  return r;
}
std::vector<std::string> to_lines(std::string const &text) {
  // same convention as reading a stream with getline
  std::vector<std::string> r;
  std::istringstream is(text);
  for (std::string l; std::getline(is, l);)
    r.push_back(l);
  return r;
}
FLPR::File_Type ftype(std::string const &t) {
  if (t == "free")
    return FLPR::File_Type::FREEFMT;
  if (t == "fixed")
    return FLPR::File_Type::FIXEDFMT;
  return FLPR::File_Type::UNKNOWN;
}
Handler find_handler(std::string const &op) {
  static std::map<std::string, Handler> const tab{
      {"scan", op_scan},   {"parse", op_parse},   {"stmt", op_stmt},
      {"edit", op_edit},   {"ll", op_ll},         {"fl", op_fl},
      {"ext", op_ext},     {"proc", op_proc},     {"slist", op_slist},
      {"tree", op_tree},   {"rpart", op_rpart},   {"lstack", op_lstack},
      {"tts", op_tts},     {"tags", op_tags},   {"stmttags", op_stmttags},
      {"leak", op_leak},   {"work", op_work}, {"broken", op_broken}, {"unreadable", op_unreadable}};
  auto it = tab.find(op);
  return it == tab.end() ? nullptr : it->second;
}
} // namespace mon

namespace mon {
static std::string run_case(std::string const &line, bool &bad) {
  auto f = split(line, '\t');
  for (auto &a : f)
    a = unesc(a);
  std::string op = f[0];
  f.erase(f.begin());
  J j;
  j.open('{');
  auto h = find_handler(op);
  if (!h) {
    fprintf(stderr, "monitor driver: bad op %s\n", op.c_str());
    bad = true;
    return "";
  }
  try {
    h(j, f);
    j.close('}');
  } catch (std::exception &e) {
    J k;
    k.open('{');
    k.key("exc").str(e.what());
    k.close('}');
    j = k;
  }
  return j.s;
}

} // namespace mon

int main(int argc, char **argv) {
  std::ifstream in;
  if (argc > 1) {
    in.open(argv[1]);
    if (!in)
      return 97;
  }
  std::istream &is = argc > 1 ? static_cast<std::istream &>(in) : std::cin;
  // protect the observation channel from anything the library prints
  int ofd = dup(1);
  dup2(2, 1);
  FILE *out = fdopen(ofd, "w");
  long idx = argc > 2 ? atol(argv[2]) : 0; // first index (skip)
  long n = 0;
  for (std::string line; std::getline(is, line); ++n) {
    if (n < idx)
      continue;
    fprintf(stderr, "@@CASE %ld\n", n);
    bool bad = false;
    std::string const r = mon::run_case(line, bad);
    if (bad)
      return 98;
    fprintf(out, "%ld\t%s\n", n, r.c_str());
    fflush(out);
  }
  fprintf(out, "END\n");
  fclose(out);
  return 0;
}
