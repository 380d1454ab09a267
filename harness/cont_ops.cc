// Container histories: every step's observable state is reported, the
// reference model lives on the controller side.
#include "util.hh"
#include "flpr/Label_Stack.hh"
#include "flpr/Safe_List.hh"
#include "flpr/TT_Stream.hh"
#include "flpr/Tree.hh"
#include <map>
#include <stdexcept>
using namespace FLPR;
namespace mon {

struct Val { // not trivially relocatable, detects use of dead objects
  int *p;
  Val() : p(new int(-777)) {}
  explicit Val(int v) : p(new int(v)) {}
  Val(Val const &o) : p(new int(*o.p)) {}
  Val(Val &&o) : p(new int(*o.p)) { *o.p = -888; }
  Val &operator=(Val const &o) { *p = *o.p; return *this; }
  Val &operator=(Val &&o) { int v = *o.p; if (this != &o) *o.p = -888; *p = v; return *this; }
  ~Val() { *p = -999; delete p; }
  bool operator==(Val const &o) const { return *p == *o.p; }
};

static void put(J &j, Safe_List<Val> const &l) {
  j.open('[');
  for (auto const &v : l)
    j.num(*v.p);
  j.close(']');
}

// slist <op>...   ; several lists, several tracked iterators
void op_slist(J &j, Args const &a) {
  std::map<int, Safe_List<Val>> L;
  struct It { int list; Safe_List<Val>::iterator it; };
  std::map<int, It> I;
  j.key("s").open('[');
  for (auto const &e : a) {
    auto f = split(e, ' ');
    auto n = [&](size_t i) { return atoi(f.at(i).c_str()); };
    std::string const &op = f[0];
    J r;
    r.open('[');
    if (op == "new") L[n(1)] = Safe_List<Val>();
    else if (op == "newn") L[n(1)] = Safe_List<Val>((size_t)n(2), Val(n(3)));
    else if (op == "init3") L[n(1)] = Safe_List<Val>{Val(n(2)), Val(n(3)), Val(n(4))};
    else if (op == "pb") { Val v(n(2)); L.at(n(1)).push_back(v); }
    else if (op == "pbm") L.at(n(1)).push_back(Val(n(2)));
    else if (op == "eb") r.num(*L.at(n(1)).emplace_back(n(2)).p);
    else if (op == "ef") r.num(*L.at(n(1)).emplace_front(n(2)).p);
    else if (op == "popb") L.at(n(1)).pop_back();
    else if (op == "clear") L.at(n(1)).clear();
    else if (op == "trk") { auto it = L.at(n(1)).begin(); std::advance(it, n(2)); I[n(3)] = It{n(1), it}; }
    else if (op == "trkend") I[n(2)] = It{n(1), L.at(n(1)).end()};
    else if (op == "emp") { auto &t = I.at(n(1)); auto it = L.at(t.list).emplace(t.it, n(2)); r.num(*it->p); }
    else if (op == "ins") { auto &t = I.at(n(1)); Val v(n(2)); auto it = L.at(t.list).insert(t.it, v); r.num(*it->p); }
    else if (op == "insr") { auto &t = I.at(n(1)); std::vector<Val> v; for (size_t k = 2; k < f.size(); ++k) v.emplace_back(n(k)); L.at(t.list).insert(t.it, v.begin(), v.end()); }
    else if (op == "era") { auto &t = I.at(n(1)); auto it = L.at(t.list).erase(t.it); r.num(it == L.at(t.list).end() ? -1 : *it->p); I.erase(n(1)); }
    else if (op == "erar") { auto &t = I.at(n(1)); auto &u = I.at(n(2)); L.at(t.list).erase(t.it, u.it); if (f.size() > 3) I.erase(n(1)); }
    else if (op == "rmif") { int m = n(2), k = n(3); L.at(n(1)).remove_if([&](Val const &v) { int x = *v.p; return (x % m + m) % m == k; }); }
    else if (op == "copy") L[n(1)] = L.at(n(2));
    else if (op == "cctor") { Safe_List<Val> t(L.at(n(2))); r.num((long long)t.size()); L.erase(n(1)); L.emplace(n(1), t); }
    else if (op == "mctor") { auto src = L.find(n(2)); Safe_List<Val> t(std::move(src->second)); L.erase(n(2)); put(r, t); if (n(1) >= 0) { L.erase(n(1)); L.emplace(n(1), std::move(t)); } }
    else if (op == "massign") { if (n(1) != n(2)) { L[n(1)] = std::move(L.at(n(2))); L.erase(n(2)); } }
    else if (op == "mkeep") { L[n(1)] = std::move(L.at(n(2))); for (auto &kv : I) if (kv.second.list == n(2)) kv.second.list = n(1); }
    else if (op == "self") { auto &l = L.at(n(1)); auto &m = l; l = m; l = std::move(m); }
    else if (op == "eq") r.boolean(L.at(n(1)) == L.at(n(2)));
    else if (op == "drop") I.erase(n(1));
    else if (op == "range") {
      auto &t = I.at(n(1)); auto &u = I.at(n(2));
      SL_Range<Val> g(t.it, u.it);
      r.num((long long)g.size()).boolean(g.empty());
      r.open('['); for (auto &v : g) r.num(*v.p); r.close(']');
      if (!g.empty()) r.num(*g.front().p).num(*g.back().p).num(*g.last()->p);
      SL_Range_Iterator<Val> ri(g);
      r.open('['); while (ri) { r.num(*ri->p); ri.advance(); } r.close(']');
    } else if (op == "rebase") { // it1 it2 : copy list, rebase range
      auto &t = I.at(n(1)); auto &u = I.at(n(2));
      Safe_List<Val> &src = L.at(t.list);
      Safe_List<Val> cpy(src);
      SL_Range<Val> g(t.it, u.it);
      auto b = rebase<Val>(src.cbegin(), g, cpy.begin());
      r.num((long long)b.size());
      r.open('['); for (auto &v : b) r.num(*v.p); r.close(']');
      if (!b.empty()) { *b.front().p = -5; r.num(*g.front().p); }
    } else if (op == "join") { // it1 it2 it3: [1,2)+[2,3) via push_back and push_front
      SL_Range<Val> x(I.at(n(1)).it, I.at(n(2)).it), y(I.at(n(2)).it, I.at(n(3)).it);
      SL_Range<Val> p = x; p.push_back(y);
      SL_Range<Val> q = y; q.push_front(x);
      r.num((long long)p.size()).num((long long)q.size());
      r.open('['); for (auto it = p.begin(); p.size() && it != p.end(); ++it) r.num(*it->p); r.close(']');
      r.open('['); for (auto it = q.begin(); q.size() && it != q.end(); ++it) r.num(*it->p); r.close(']');
      r.boolean(p.empty()).boolean(q.empty()).boolean(p.equal(q));
    } else throw std::runtime_error("driver: slist op " + op);
    r.close(']');
    j.open('{');
    j.key("r"); j.sep(); j.s += r.s;
    j.key("l").open('{');
    for (auto &kv : L) { j.key(std::to_string(kv.first).c_str()); j.open('['); j.num((long long)kv.second.size()).boolean(kv.second.empty()); put(j, kv.second); if (!kv.second.empty()) j.num(*kv.second.front().p).num(*kv.second.back().p); j.close(']'); }
    j.close('}');
    // tracked iterators: value (or null for end) and distance to end
    j.key("i").open('{');
    for (auto &kv : I) {
      j.key(std::to_string(kv.first).c_str());
      auto lf = L.find(kv.second.list);
      if (lf == L.end()) { j.null(); continue; }
      auto &l = lf->second;
      long d = 0; bool found = false;
      for (auto it = l.begin();; ++it, ++d) {
        if (it == kv.second.it) { found = true; break; }
        if (it == l.end()) break;
      }
      j.open('[');
      j.num(found ? d : -1);
      if (found && kv.second.it != l.end()) j.num(*kv.second.it->p);
      j.close(']');
    }
    j.close('}');
    j.close('}');
  }
  j.close(']');
}

using VT = Tree<Val>;
static void putn(J &j, VT::node const &n) {
  j.open('[');
  j.num(*(*n).p);
  if (n.is_fork())
    for (auto const &b : n.branches())
      putn(j, b);
  j.close(']');
}
static VT::node &walk(VT &t, std::string const &path) {
  VT::node *n = &*t;
  if (path != "-")
    for (auto const &c : split(path, '.')) {
      auto it = n->branches().begin();
      std::advance(it, atoi(c.c_str()));
      n = &*it;
    }
  return *n;
}

// moves by several steps agree with as many single ones; the cursor types agree
template <typename C> static long moves(C const &c0) {
  long bad = 0;
  auto same = [](C const &a, C const &b) { return &a.node() == &b.node(); };
  auto run = [&](auto has, auto step, auto stepn, auto tryn, bool tries) {
    C c = c0;
    int n = 0;
    while (has(c) && n < 50) {
      step(c);
      ++n;
      C d = c0;
      stepn(d, n);
      if (!same(c, d))
        ++bad;
      if (tries) {
        C e = c0;
        if (!tryn(e, n) || !same(c, e))
          ++bad;
      }
    }
    if (tries && n < 50) {
      C e = c0;
      if (tryn(e, n + 1))
        ++bad;
    }
    return n;
  };
  auto never = [](C &, int) { return true; };
  run([](C &c) { return c.has_up(); }, [](C &c) { c.up(); },
      [](C &c, int n) { c.up(n); }, never, false);
  run([](C &c) { return c.has_prev(); }, [](C &c) { c.prev(); },
      [](C &c, int n) { c.prev(n); }, never, false);
  run([](C &c) { return c.has_next(); }, [](C &c) { c.next(); },
      [](C &c, int n) { c.next(n); },
      [](C &c, int n) { return c.try_next(n); }, true);
  run([](C &c) { return c.has_down(); }, [](C &c) { c.down(); },
      [](C &c, int n) { c.down(n); },
      [](C &c, int n) { return c.try_down(n); }, true);
  return bad;
}

// verify navigation with cursors from every node; count anomalies
static void nav(VT &t, long &nodes, long &bad) {
  t.check();
  std::vector<VT::cursor_t> todo{t.cursor()};
  if (!todo[0].is_root() || todo[0].has_up())
    ++bad;
  while (!todo.empty()) {
    VT::cursor_t c = todo.back();
    todo.pop_back();
    ++nodes;
    if (c.is_leaf() == c.is_fork() || (c.num_branches() == 0) != c.is_leaf() ||
        c.has_down() != c.is_fork())
      ++bad;
    if (&*c.self() != &c.node())
      ++bad;
    VT::const_cursor_t cc(c);
    if (!cc || !c || cc->p != c->p || (*cc).p != (*c).p || &cc.node() != &c.node() ||
        cc.is_root() != c.is_root() || cc.is_leaf() != c.is_leaf() ||
        cc.is_fork() != c.is_fork() || cc.num_branches() != c.num_branches() ||
        cc.has_up() != c.has_up() || cc.has_down() != c.has_down() ||
        cc.has_prev() != c.has_prev() || cc.has_next() != c.has_next())
      ++bad;
    bad += moves(c) + moves(cc);
    {
      VT::const_cursor_t x(cc);
      VT::cursor_t y(c);
      x.clear();
      y.clear();
      if (x || y || !cc || !c)
        ++bad;
    }
    if (c.is_fork()) {
      VT::cursor_t d = c;
      d.down();
      if (d.has_prev())
        ++bad;
      size_t k = 0;
      for (;;) {
        ++k;
        VT::cursor_t u = d;
        u.up();
        if (&u.node() != &c.node())
          ++bad;
        todo.push_back(d);
        VT::cursor_t e = d;
        if (d.has_next() != e.try_next())
          ++bad;
        if (!d.has_next())
          break;
        d.next();
        VT::cursor_t b = d;
        if (!b.has_prev())
          ++bad;
        b.prev();
        b.next();
        if (&b.node() != &d.node())
          ++bad;
        if (k > 10000)
          break;
      }
      if (k != c.num_branches())
        ++bad;
    } else {
      VT::cursor_t d = c;
      if (d.try_down())
        ++bad;
    }
  }
}

void op_tree(J &j, Args const &a) {
  std::map<int, VT> T;
  std::map<int, VT::cursor_t> C;
  j.key("s").open('[');
  for (auto const &e : a) {
    auto f = split(e, ' ');
    auto n = [&](size_t i) { return atoi(f.at(i).c_str()); };
    std::string const &op = f[0];
    if (op == "new") T[n(1)] = VT(Val(n(2)));
    else if (op == "newc") { Val const v(n(2)); T[n(1)] = VT(v); }
    else if (op == "newt") T[n(1)] = VT(true);
    else if (op == "empty") T[n(1)] = VT();
    else if (op == "gb") { VT d(std::move(T.at(n(2)))); T.at(n(1)).graft_back(std::move(d)); T.erase(n(2)); }
    else if (op == "gf") { VT d(std::move(T.at(n(2)))); T.at(n(1)).graft_front(std::move(d)); T.erase(n(2)); }
    else if (op == "gbl") { T.at(n(1)).graft_back(T.at(n(2))); T.erase(n(2)); }
    else if (op == "gfl") { T.at(n(1)).graft_front(T.at(n(2))); T.erase(n(2)); }
    else if (op == "nb") { auto &nd = walk(T.at(n(1)), f.at(2)); nd.emplace_back(VT::node(Val(n(3)))); }
    else if (op == "nf") { auto &nd = walk(T.at(n(1)), f.at(2)); nd.emplace_front(VT::node(Val(n(3)))); }
    else if (op == "nm") { auto &nd = walk(T.at(n(1)), f.at(2)); auto it = nd.branches().begin(); std::advance(it, n(4)); nd.emplace(it, VT::node(Val(n(3)))); }
    else if (op == "ne") { auto &nd = walk(T.at(n(1)), f.at(2)); auto tr = nd.trunk(); tr->branches().erase(nd.self()); }
    else if (op == "swap") T.at(n(1)).swap(T.at(n(2)));
    else if (op == "ns") walk(T.at(n(1)), f.at(2)).swap(walk(T.at(n(3)), f.at(4)));
    else if (op == "mv") { VT d(std::move(T.at(n(2)))); T.erase(n(2)); T[n(1)] = std::move(d); }
    else if (op == "clear") T.at(n(1)).clear();
    else if (op == "set") *(*walk(T.at(n(1)), f.at(2))).p = n(3);
    else throw std::runtime_error("driver: tree op " + op);
    j.open('{');
    for (auto &kv : T) {
      j.key(std::to_string(kv.first).c_str()).open('[');
      j.boolean(kv.second.empty()).num((long long)kv.second.size()).boolean(bool(kv.second));
      if (!kv.second.empty()) {
        putn(j, *kv.second);
        long nodes = 0, bad = 0;
        nav(kv.second, nodes, bad);
        j.num(nodes).num(bad);
      }
      j.close(']');
    }
    j.close('}');
  }
  j.close(']');
}

// rpart <nparts> <nelem> <op>... ; elements 0..nelem-1 in a Safe_List
struct Trk {
  int id;
  template <class I, class D> void update_begin(I, I, D) {}
  template <class I> void update_end(I, I) {}
  template <class D> void update_size(D) {}
};
void op_rpart(J &j, Args const &a) {
  using SL = Safe_List<Val>;
  using RP = Range_Partition<SL_Range<Val>, Trk>;
  SL l;
  size_t np = (size_t)atoi(a.at(0).c_str());
  int ne = atoi(a.at(1).c_str());
  for (int i = 0; i < ne; ++i)
    l.emplace_back(i);
  RP rp(np);
  auto at = [&](int i) { auto it = l.begin(); std::advance(it, i); return it; };
  j.key("s").open('[');
  for (size_t k = 2; k < a.size(); ++k) {
    auto f = split(a[k], ' ');
    auto n = [&](size_t i) { return atoi(f.at(i).c_str()); };
    if (f[0] == "app") rp.append((size_t)n(1), at(n(2)), at(n(3)));
    else if (f[0] == "trk") rp.set_tracker((size_t)n(1), Trk{n(2)});
    else if (f[0] == "touch") { (void)rp.begin((size_t)n(1)); }
    else if (f[0] == "clear") rp.clear_partitions();
    else if (f[0] == "ins") { // part position-in-part(e: end) value
      size_t part = (size_t)n(1);
      auto pos = f.at(2) == "e" ? rp.end(part) : rp.begin(part);
      if (f.at(2) != "e")
        std::advance(pos, n(2));
      auto it = l.emplace(pos, n(3));
      rp.insert(part, it, pos);
    }
    else throw std::runtime_error("driver: rpart op");
    j.open('{');
    j.key("e").boolean(rp.empty());
    j.key("v").boolean(rp.validate());
    RP const &c = rp;
    j.key("p").open('[');
    for (size_t i = 0; i < np && !rp.empty(); ++i) {
      j.open('[');
      if (!c.empty(i))
        for (auto it = c.cbegin(i); it != c.cend(i); ++it)
          j.num(*it->p);
      j.close(']');
    }
    j.close(']');
    if (!rp.empty()) {
      j.key("all").open('[');
      for (auto it = c.cbegin(); it != c.cend(); ++it)
        j.num(*it->p);
      j.close(']');
    }
    j.close('}');
  }
  j.close(']');
}

void op_lstack(J &j, Args const &a) {
  Label_Stack s;
  j.key("s").open('[');
  for (auto const &e : a) {
    auto f = split(e, ' ');
    int x = f.size() > 1 ? atoi(f[1].c_str()) : 0;
    j.open('[');
    if (f[0] == "push") s.push(x);
    else if (f[0] == "pop") s.pop();
    else if (f[0] == "level") j.num(s.level(x));
    else if (f[0] == "top") j.boolean(s.is_top(x));
    j.num((long long)s.size()).boolean(s.empty());
    j.close(']');
  }
  j.close(']');
}

// tts <text> <op>... : token stream navigation
void op_tts(J &j, Args const &a) {
  LL_SEQ ls;
  ls.emplace_back(to_lines(a.at(0)));
  Logical_Line &ll = ls.front();
  std::vector<Token_Text const *> tv;
  j.key("toks").open('[');
  for (auto const &t : ll.fragments()) {
    tv.push_back(&t);
    j.open('[').num(t.token).str(t.text()).close(']');
  }
  j.close(']');
  LL_TT_Range full(ls.begin(), ll.fragments().begin(), ll.fragments().end());
  TT_Stream ts(full);
  auto mark = ts.mark();
  j.key("s").open('[');
  for (size_t k = 1; k < a.size(); ++k) {
    auto f = split(a[k], ' ');
    int x = f.size() > 1 ? atoi(f[1].c_str()) : 0;
    j.open('[');
    if (f[0] == "consume") ts.consume(x);
    else if (f[0] == "eolc") ts.consume_until_eol();
    else if (f[0] == "digest") { auto r = ts.digest(x); j.num((long long)r.size()); if (!r.empty()) j.str(r.front().text()).str(r.back().text()); }
    else if (f[0] == "back") ts.put_back();
    else if (f[0] == "rewind") ts.rewind();
    else if (f[0] == "mark") mark = ts.mark();
    else if (f[0] == "tomark") ts.rewind(mark);
    else if (f[0] == "peekn") j.num(ts.peek(x)).num(ts.peek_tt(x).token);
    else if (f[0] == "close") j.boolean(ts.move_to_close_paren());
    else if (f[0] == "bclose") j.boolean(ts.move_before_close_paren());
    else if (f[0] == "open") j.boolean(ts.move_to_open_paren());
    else if (f[0] == "brack") j.boolean(ts.ignore_bracket_expr());
    else throw std::runtime_error("driver: tts op");
    j.num(ts.num_consumed()).boolean(ts.is_eol()).num(ts.peek());
    if (ts.num_consumed() > 0) j.num(ts.curr());
    j.close(']');
  }
  j.close(']');
}
} // namespace mon
