// Small helpers shared by the monitor driver's translation units.
#pragma once
#include "flpr/flpr.hh"
#include "flpr/Logical_File.hh"
#include "flpr/LL_Stmt_Src.hh"
#include <cstdint>
#include <sstream>
#include <string>
#include <vector>

namespace mon {
using Args = std::vector<std::string>;

struct J {
  std::string s;
  static void esc(std::string &o, std::string const &t) {
    static char const *hex = "0123456789abcdef";
    o += '"';
    for (unsigned char c : t) {
      if (c == '"' || c == '\\') {
        o += '\\';
        o += (char)c;
      } else if (c >= 0x20 && c < 0x7f)
        o += (char)c;
      else {
        o += "\\u00";
        o += hex[c >> 4];
        o += hex[c & 15];
      }
    }
    o += '"';
  }
  void sep() {
    if (!s.empty() && s.back() != '[' && s.back() != '{' && s.back() != ':')
      s += ',';
  }
  J &key(char const *k) {
    sep();
    s += '"';
    s += k;
    s += "\":";
    return *this;
  }
  J &str(std::string const &v) {
    sep();
    esc(s, v);
    return *this;
  }
  J &num(long long v) {
    sep();
    s += std::to_string(v);
    return *this;
  }
  J &boolean(bool v) {
    sep();
    s += v ? "true" : "false";
    return *this;
  }
  J &null() {
    sep();
    s += "null";
    return *this;
  }
  J &open(char c) {
    sep();
    s += c;
    return *this;
  }
  J &close(char c) {
    s += c;
    return *this;
  }
};

std::vector<std::string> split(std::string const &s, char c);
std::string unesc(std::string const &s);
std::vector<std::string> to_lines(std::string const &text);
FLPR::File_Type ftype(std::string const &t);

std::string tag_label(int tag);
void dump_line(J &j, FLPR::Logical_Line const &ll, std::string const &opts);
void dump_lines(J &j, FLPR::LL_SEQ &lines, std::string const &opts);
void dump_stmts(J &j, FLPR::LL_SEQ &lines, FLPR::LL_STMT_SEQ &stmts,
                std::string const &opts);
std::string emit(FLPR::LL_SEQ const &lines);
//! Dump a statement tree: [label, ntok, [children]] ; leaf: [label,"text"]
void dump_stree(J &j, FLPR::Stmt::Stmt_Tree::node const &n,
                FLPR::TT_SEQ::const_iterator const &beg, bool ranges);
int tok_index(FLPR::TT_SEQ::const_iterator const &beg,
              FLPR::TT_SEQ::const_iterator const &it);

using Handler = void (*)(J &, Args const &);
Handler find_handler(std::string const &op);

// handlers
void op_scan(J &, Args const &);
void op_parse(J &, Args const &);
void op_stmt(J &, Args const &);
void op_edit(J &, Args const &);
void op_ll(J &, Args const &);
void op_fl(J &, Args const &);
void op_ext(J &, Args const &);
void op_proc(J &, Args const &);
void op_slist(J &, Args const &);
void op_tree(J &, Args const &);
void op_rpart(J &, Args const &);
void op_lstack(J &, Args const &);
void op_tts(J &, Args const &);
void op_tags(J &, Args const &);
void op_stmttags(J &, Args const &);
void op_leak(J &, Args const &);
void op_work(J &, Args const &);
void op_broken(J &, Args const &);
void op_unreadable(J &, Args const &);
} // namespace mon
