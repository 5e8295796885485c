// Reference reading of the hext language: the grammar automaton of cppvc/grammar.py (generated header grammar.h)
// plus an interpreter of its actions; compared with the real parser on random texts.
#include "h.h"
#include "hext/Hext.h"
#include <set>
#include "grammar.h"
bool same_tree(const hext::Rule& r, const vector<SRule>& s);
bool same_shape(const hext::Rule& r, const vector<SRule>& s);
extern string PROP;
namespace {
struct Bad { string msg; };
struct Reader
{
  const string& t;
  struct Ctx { vector<SRule> done, open; };
  vector<Ctx> st{1};
  size_t begin = 0;
  string tok;
  pair<long, long> nth{0, 0};
  int fn = 0; string attr, lit, pat, name; size_t pat_begin = 0; bool icase = false, collate = false, optcap = false;
  optional<boost::regex> rx; string rxs; optional<STest> test; SMatch trait; vector<SMatch> neg; vector<SPipe> pipes;
  explicit Reader(const string& x) : t(x) {}

  [[noreturn]] void fail_at(const string& head, size_t uc, size_t mark, const string& tail = "") const
  {
    size_t line = 1, col = 1;
    for (size_t i = 0; i < uc; ++i) if (t[i] == '\n') { ++line; col = 1; } else ++col;
    string m = head + (uc == t.size() ? string("at end of input:\n\n") : "at line " + std::to_string(line) + ", char " + std::to_string(col) + ":\n\n");
    string shown = t.substr(0, uc == t.size() || t[uc] == '\n' ? uc : uc + 1);
    vector<string> ls(1);
    for (char c : shown) { if (c == '\n') ls.emplace_back(); else ls.back() += c; }
    size_t w = std::to_string(ls.size()).size();
    for (size_t i = 0; i < ls.size(); ++i) { string n = std::to_string(i + 1); m += string(w - n.size(), ' ') + n + ": " + ls[i] + "\n"; }
    bool ascii = true; for (char c : t) if (static_cast<unsigned char>(c) > 127) ascii = false;
    if (mark && ascii) { size_t k = std::min(mark, col); m += string(std::to_string(line).size() + 2 + col - k, ' ') + string(k, '^') + " here\n"; }
    throw Bad{m + tail};
  }
  static string chr(char c)
  {
    switch (c) { case '\n': return "[newline]"; case '\t': return "[tab]"; case '\r': return "[carriage-return]"; case ' ': return "[space]"; case '\0': return "[nullbyte]"; }
    if (c >= 33 && c <= 126) return string(1, c);
    return "[ascii: " + std::to_string(int(static_cast<signed char>(c))) + "]";
  }
  void unexpected(size_t p) const { fail_at(p == t.size() ? "Premature termination " : "Unexpected character '" + chr(t[p]) + "' ", p, 1); }
  void error(const string& s, size_t p) const { fail_at(s + " ", p - 1, 1); }
  static bool known(const string& s) { return gumbo_tag_enum(s.c_str()) != GUMBO_TAG_UNKNOWN; }
  static string tag_text(const SRule& r) { if (r.any) return "*"; return known(r.tag) ? gumbo_normalized_tagname(gumbo_tag_enum(r.tag.c_str())) : r.tag; }
  SRule& cur() { return st.back().open.back(); }
  int number(size_t p) const
  {
    bool neg = tok[0] == '-'; long v = 0;
    for (char c : tok) if (c >= '0' && c <= '9') { v = v * 10 + (c - '0'); if (v > 4294967296L) v = 4294967296L; }
    if (neg) v = -v;
    if (v > 2147483647L || v < -2147483648L) error("Number out of range", p);
    return int(v);
  }
  void close()
  {
    Ctx& c = st.back();
    SRule r = c.open.back(); c.open.pop_back();
    if (c.open.empty()) c.done.push_back(r); else c.open.back().kids.push_back(r);
  }
  void set_test(int kind) { STest x; x.kind = kind; x.lit = lit; if (kind == 4) { string w; for (char c : lit + " ") if (c == ' ') { if (!w.empty()) x.words.push_back(w); w.clear(); } else w += c; } test = x; }
  void nth_trait(long a, long b, int o) { trait = SMatch(); trait.kind = 6; trait.a = int(a); trait.b = int(b); trait.opt = o; }
  void pipe(int kind, const string& a) { SPipe q; q.kind = kind; q.a = a; if (kind == 5 || kind == 6) { q.rx = *rx; q.b = a; } pipes.push_back(q); }
  void act(const string& a, size_t p)
  {
    static const std::set<string> ends = {"nth_number", "nth_shift", "literal", "pattern", "attr_name", "name", "open_tag", "close_tag", "t_child_count", "t_attribute_count"};
    if (a == "begin") { begin = p; return; }
    if (ends.count(a)) tok = t.substr(begin, p - begin);
    const int F = 2, L = 4, T = 8;
    if (a == "literal") lit = tok;
    else if (a == "pattern") { pat = tok; pat_begin = begin; icase = collate = false; }
    else if (a == "flag_i") icase = true;
    else if (a == "flag_c") collate = true;
    else if (a == "regex") {
      boost::regex::flag_type f = boost::regex::perl; if (icase) f |= boost::regex::icase; if (collate) f |= boost::regex::collate;
      try { rx = boost::regex(pat, f); rxs = pat; }
      catch (const boost::regex_error& e) { boost::regex_traits<char> tr; fail_at("In regular expression ", p - 1, p - pat_begin + 1, "\nError: " + tr.error_string(e.code())); }
      icase = collate = false;
    }
    else if (a == "nth_even") nth = {2, 0};
    else if (a == "nth_odd") nth = {2, 1};
    else if (a == "nth_number") nth = {0, number(p)};
    else if (a == "nth_n") nth = {nth.second, 0};
    else if (a == "nth_shift") nth.second = number(p);
    else if (a == "t_empty" || a == "t_child_count") { int n = a == "t_empty" ? 0 : number(p); trait = SMatch(); trait.kind = 2; trait.a = n; }
    else if (a == "t_attribute_count") { int n = number(p); trait = SMatch(); trait.kind = 0; trait.a = n; }
    else if (a == "t_nth_child") nth_trait(nth.first, nth.second, F);
    else if (a == "t_nth_last_child") nth_trait(nth.first, nth.second, L);
    else if (a == "t_nth_of_type") nth_trait(nth.first, nth.second, F | T);
    else if (a == "t_nth_last_of_type") nth_trait(nth.first, nth.second, L | T);
    else if (a == "t_first_child") nth_trait(0, 1, F);
    else if (a == "t_first_of_type") nth_trait(0, 1, F | T);
    else if (a == "t_last_child") nth_trait(0, 1, L);
    else if (a == "t_last_of_type") nth_trait(0, 1, L | T);
    else if (a == "t_only_child" || a == "t_only_of_type") { trait = SMatch(); trait.kind = 7; trait.opt = a == "t_only_child" ? 2 : 4; }
    else if (a == "t_type_matches") { trait = SMatch(); trait.kind = 8; trait.rx = *rx; trait.rxs = rxs; }
    else if (a == "not_begin") neg.clear();
    else if (a == "not_add") neg.push_back(trait);
    else if (a == "add_not") { SMatch m; m.kind = 5; m.subs = neg; cur().ms.push_back(m); }
    else if (a == "add_trait") cur().ms.push_back(trait);
    else if (a == "b_text") fn = 0;
    else if (a == "b_inner_html") fn = 1;
    else if (a == "b_strip_tags") fn = 2;
    else if (a == "p_trim") pipe(7, " ");
    else if (a == "p_trim_literal") pipe(7, lit);
    else if (a == "p_collapsews") pipe(4, "");
    else if (a == "p_tolower") pipe(2, "");
    else if (a == "p_toupper") pipe(3, "");
    else if (a == "p_prepend") pipe(1, lit);
    else if (a == "p_append") pipe(0, lit);
    else if (a == "p_filter") pipe(5, "");
    else if (a == "p_replace") pipe(6, lit);
    else if (a == "name_literal") name = lit;
    else if (a == "name") name = tok;
    else if (a == "attr_name") attr = tok;
    else if (a == "o_equals") set_test(0);
    else if (a == "o_begins") set_test(1);
    else if (a == "o_ends") set_test(2);
    else if (a == "o_contains") set_test(3);
    else if (a == "o_words") set_test(4);
    else if (a == "o_regex") { STest x; x.kind = 5; x.rx = *rx; x.rxs = rxs; test = x; }
    else if (a == "negate") { STest x; x.kind = test ? 6 : 7; if (test) x.sub = std::make_shared<STest>(*test); test = x; }
    else if (a == "no_test") test.reset();
    else if (a == "optional_capture") optcap = true;
    else if (a == "add_function_capture") { SCap c; c.kind = 1; c.fn = fn; c.name = name; c.pipes = pipes; cur().cs.push_back(c); }
    else if (a == "add_function_match") { SMatch m; m.kind = 4; m.fn = fn; m.test = test; cur().ms.push_back(m); }
    else if (a == "add_attribute_capture") { SCap c; c.kind = 0; c.attr = attr; c.name = name; c.pipes = pipes; cur().cs.push_back(c); if (!optcap) { SMatch m; m.kind = 1; m.name = attr; cur().ms.push_back(m); } }
    else if (a == "add_attribute_match") { SMatch m; m.kind = 1; m.name = attr; m.test = test; cur().ms.push_back(m); }
    else if (a == "pattern_end") { test.reset(); pipes.clear(); optcap = false; }
    else if (a == "open_rule") st.back().open.emplace_back();
    else if (a == "set_optional") cur().opt = true;
    else if (a == "set_greedy") cur().greedy = true;
    else if (a == "open_tag") { cur().any = tok == "*"; cur().tag = tok; }
    else if (a == "close_rule") close();
    else if (a == "close_tag") {
      string head = "Unexpected closing tag '</" + tok + ">'";
      if (st.back().open.empty()) fail_at(head + " ", p - 1, tok.size() + 2);
      const SRule& r = cur();
      bool ok = r.any ? tok == "*" : known(r.tag) ? tok != "*" && gumbo_tag_enum(tok.c_str()) == gumbo_tag_enum(r.tag.c_str()) : tok == r.tag;
      if (!ok) fail_at(head + ", expected '</" + tag_text(r) + ">' ", p - 1, tok.size() + 2);
      close();
    }
    else if (a == "open_nested") { if (st.back().open.empty()) error("Nested rules must have a parent", p); st.emplace_back(); }
    else if (a == "close_nested") {
      if (!st.back().open.empty()) error("Closing nested rule without open", p);
      if (st.back().done.empty()) error("Nested rules cannot be empty", p);
      if (st.size() == 1) error("Closing nested rule without open", p);
      auto d = st.back().done; st.pop_back(); cur().nested.push_back(d);
    }
    else fail("reference: unknown action " + a);
  }
  vector<SRule> finish()
  {
    if (st.size() > 1) error("Unclosed nested rule", t.size());
    if (!st[0].open.empty()) fail_at("Missing closing tag '</" + tag_text(st[0].open.back()) + ">' ", t.size(), 0);
    if (st[0].done.empty()) return {SRule()};
    return st[0].done;
  }
};
struct Auto
{
  vector<vector<const GEdge *>> out; std::map<int, const vector<int> *> ends; vector<int> dist; 
  Auto() : out(G_STATES), dist(G_STATES, 1 << 20)
  {
    for (auto& e : G_EDGES) out[size_t(e.from)].push_back(&e);
    for (auto& e : G_ENDS) { ends[e.first] = &e.second; dist[size_t(e.first)] = 0; }
    for (bool ch = true; ch;) { ch = false; for (auto& e : G_EDGES) if (dist[size_t(e.to)] + 1 < dist[size_t(e.from)]) { dist[size_t(e.from)] = dist[size_t(e.to)] + 1; ch = true; } }
  }
};
const Auto& au() { static const Auto a; return a; }
bool in(const GEdge& e, char c) { auto u = static_cast<unsigned char>(c); return (static_cast<unsigned char>(e.set[u >> 3]) >> (u & 7)) & 1; }
struct Read { bool ok = false; vector<SRule> s; string msg; };
Read reference(const string& t)
{
  struct H { int state, parent; const vector<int> * acts; };
  vector<H> hist{{0, -1, nullptr}};
  vector<int> alive{0};
  size_t i = 0; int last = 0; bool whole = true;
  for (; i < t.size(); ++i) {
    vector<int> nx; std::set<int> seen;
    for (int h : alive) for (auto e : au().out[size_t(hist[size_t(h)].state)]) if (in(*e, t[i]) && seen.insert(e->to).second) { hist.push_back({e->to, h, &e->acts}); nx.push_back(int(hist.size()) - 1); }
    if (nx.empty()) { whole = false; break; }
    alive = nx;
  }
  last = alive[0];
  const vector<int> * end = nullptr;
  if (whole) for (int h : alive) { auto it = au().ends.find(hist[size_t(h)].state); if (it != au().ends.end()) { last = h; end = it->second; break; } }
  vector<int> path; for (int h = last; h > 0; h = hist[size_t(h)].parent) path.push_back(h);
  std::reverse(path.begin(), path.end());
  Reader r(t); Read o;
  try {
    for (size_t p = 0; p < path.size(); ++p) for (int a : *hist[size_t(path[p])].acts) r.act(G_ACTIONS[a], p);
    if (!end) r.unexpected(i);
    for (int a : *end) r.act(G_ACTIONS[a], t.size());
    o.s = r.finish(); o.ok = true;
  } catch (const Bad& b) { o.msg = b.msg; }
  return o;
}
// ---- texts
string quote(const string& s)
{
  char q = R.coin() ? '"' : '\'';
  string r(1, q);
  for (size_t i = 0; i < s.size(); ++i) { if (s[i] == q) r += '\\'; r += s[i]; }
  while (r.size() > 1 && r.back() == '\\') r.pop_back();
  return r + q;
}
const vector<string> AN = {"class", "id", "href", "data-x", "title", "src", "a", "x", "value", "n_1"};
string lit() { string v = R.coin(6) ? "" : R.coin(3) ? rnd_value() : pick(vector<string>{"foo", "bar", "a", "b", "foo bar", "x", " ", "1", "a b", "\\", "\"", "'", "a\nb"}); return quote(v); }
string rxt()
{
  static const vector<string> X = {"a", "^b", "foo|bar", "(a)(b)?", "o+", "^$", "\\\\s", "[a-c]+", "x?", ".", "F", "", "^FOO", "[[:alpha:]]", "\\\\/", "("};
  string r = pick(X); if (r == "(" && !R.coin(6)) r = "b";
  string c = pick(vector<string>{"/", "'", "\""});
  string s = c + r + c; int n = R.coin() ? 0 : R.below(3); for (int i = 0; i < n; ++i) s += pick(vector<string>{"i", "c", "i"});
  return s;
}
string num() { return R.coin(25) ? pick(vector<string>{"2147483647", "2147483648", "99999999999", "4294967295", "00000000000000000000007"}) : std::to_string(R.below(5)); }
string nthp()
{
  switch (R.below(6)) { case 0: return "even"; case 1: return "odd"; case 2: return (R.coin(3) ? "-" : "") + num(); case 3: return (R.coin(3) ? "-" : "") + num() + "n"; default: return (R.coin(3) ? "-" : "") + num() + "n" + (R.coin(3) ? "-" : "+") + num(); }
}
string trt()
{
  switch (R.below(14)) {
    case 0: return ":empty"; case 1: return ":child-count(" + num() + ")"; case 2: return ":attribute-count(" + num() + ")"; case 3: return ":nth-child(" + nthp() + ")"; case 4: return ":nth-last-child(" + nthp() + ")";
    case 5: return ":nth-of-type(" + nthp() + ")"; case 6: return ":nth-last-of-type(" + nthp() + ")"; case 7: return ":first-child"; case 8: return ":first-of-type"; case 9: return ":last-child"; case 10: return ":last-of-type";
    case 11: return ":only-child"; case 12: return ":only-of-type"; default: return ":type-matches(" + rxt() + ")";
  }
}
string sp(int least) { string s; int n = least + (R.coin(3) ? R.below(3) : 0); for (int i = 0; i < n; ++i) s += R.coin(5) ? pick(vector<string>{"\n", "\t", "\r", "\v", "\f"}) : " "; return s; }
string pip()
{
  switch (R.below(9)) { case 0: return ":trim"; case 1: return ":trim(" + lit() + ")"; case 2: return ":collapsews"; case 3: return ":tolower"; case 4: return ":toupper"; case 5: return ":prepend(" + lit() + ")"; case 6: return ":append(" + lit() + ")"; case 7: return ":filter(" + rxt() + ")";
    default: return ":replace(" + rxt() + sp(0) + "," + sp(0) + lit() + ")"; }
}
string pat()
{
  string s = sp(1);
  bool fn = R.coin(3);
  s += fn ? pick(vector<string>{"@text", "@inner-html", "@strip-tags"}) : pick(AN);
  switch (R.below(fn ? 2 : 3)) {
    case 0: { int n = R.coin() ? 0 : R.below(4); for (int i = 0; i < n; ++i) s += pip(); s += ":" + (R.coin(4) ? lit() : pick(vector<string>{"n", "name", "trim", "a.b", "x-1", "_", "tolower", "9"})); if (!fn && R.coin(3)) s += "?"; return s; }
    case 1: { static const vector<string> O = {"=", "==", "^=", "*=", "$="}; s += R.coin(4) ? "=~" + rxt() : pick(O) + lit(); if (R.coin(3)) s += "!"; return s; }
    default: return s + (R.coin(3) ? "!" : "");
  }
}
string gap() { string s = sp(0); if (R.coin(4)) s += "\n"; if (R.coin(6)) s += pick(vector<string>{"# comment\n", "#\n", "# <x {\n", "#'\n"}); return s; }
string body(int depth);
string rul(int depth)
{
  static const vector<string> TG = {"*", "*", "div", "p", "a", "b", "span", "ul", "li", "h1", "DIV", "x-y", "X-y", "q", "zz", "svg", "i"};
  string t = pick(TG), s = "<"; int n = R.coin(3) ? R.below(3) : 0; for (int i = 0; i < n; ++i) s += R.coin() ? "?" : "+";
  s += t;
  n = R.coin() ? 0 : R.below(4); for (int i = 0; i < n; ++i) { if (R.coin(3)) { s += ":not("; int k = 1 + R.below(3); for (int j = 0; j < k; ++j) s += trt(); s += ")"; } else s += trt(); }
  n = R.coin(4) ? 0 : R.below(4); for (int i = 0; i < n; ++i) s += pat();
  s += sp(0);
  if (depth <= 0 || R.coin(3)) return s + "/>";
  string e = R.coin(60) ? pick(TG) : t;
  return s + ">" + body(depth) + "</" + e + ">";
}
string body(int depth)
{
  string s; int n = R.below(4);
  for (int i = 0; i < n; ++i) { s += gap(); if (R.coin(4)) { s += "{"; int k = R.coin(60) ? 0 : 1 + R.below(2); for (int j = 0; j < k; ++j) s += gap() + rul(depth - 1); s += gap() + "}"; } else s += rul(depth - 1); }
  return s + gap();
}
string text() { string s; int n = 1 + R.below(3); for (int i = 0; i < n; ++i) s += gap() + rul(3); return s + gap(); }
// a random walk through the grammar automaton
string walk()
{
  string s; int st = 0; size_t want = size_t(2 + R.below(40));
  for (;;) {
    if (s.size() >= want && au().ends.count(st)) return s;
    if (s.size() > 400) return s;
    auto& o = au().out[size_t(st)];
    const GEdge * e = nullptr;
    if (s.size() >= want) { for (auto x : o) if (!e || au().dist[size_t(x->to)] < au().dist[size_t(e->to)] || (au().dist[size_t(x->to)] == au().dist[size_t(e->to)] && R.coin())) e = x; }
    else e = pick(o);
    char c = 0; bool got = false;
    for (int k = 0; k < 20 && !got; ++k) { c = pick(vector<char>{'a', ' ', 'b', '1', 'o', 'n', '"', '/', ')', '\\', '\n', '-', '_'}); got = in(*e, c); }
    while (!got) { c = char(R.below(256)); got = in(*e, c); }
    s += c; st = e->to;
  }
}
string mutate(string s)
{
  static const string C = "<>/{}:@*#!?+=~^$\"'\\(),- \n\tabnixc019_.\0\x80\xff\x7f%;";
  int n = 1 + R.below(3);
  for (int i = 0; i < n; ++i) {
    size_t p = size_t(R.below(int(s.size()) + 1)), q = size_t(R.below(int(s.size()) + 1)); if (p > q) std::swap(p, q);
    switch (R.below(7)) {
      case 0: if (p < s.size()) s.erase(p, 1); break;
      case 1: s.insert(p, 1, C[size_t(R.below(int(C.size())))]); break;
      case 2: if (p < s.size()) s[p] = C[size_t(R.below(int(C.size())))]; break;
      case 3: s = s.substr(0, q); break;
      case 4: s.insert(q, s.substr(p, std::min(q - p, size_t(12)))); break;
      case 5: s.erase(p, std::min(q - p, size_t(8))); break;
      default: s.insert(p, pick(vector<string>{"</", "<", "/>", "{", "}", "</a>", "<a>", ":not(", "@text", "!", "?", "=\"\"", "#", "\n", "99999999999"})); break;
    }
  }
  return s;
}
void walk_cmp(const hext::Rule * r, const vector<SRule>& s, Doc& d)
{
  for (size_t i = 0; r && i < s.size(); ++i, r = r->next()) {
    for (NP n : d.nodes) {
      bool g = r->matches(n), w = s[i].accepts(n);
      if (g != w) fail("html " + show(d.html) + "\nrule " + s[i].str() + "matches a node of type " + std::to_string(int(n->type)) + (el(n) ? " <" + ref_tagname(n) + ">" : string()) + ": got " + (g ? "true" : "false") + ", expected " + (w ? "true" : "false"));
      vector<pair<string, string>> gs = r->capture(n), ws; for (auto& y : s[i].cs) if (auto z = y.eval(n)) ws.push_back(*z);
      if (gs != ws) { string a, b; for (auto& x : gs) a += show(x.first) + ":" + show(x.second) + ","; for (auto& x : ws) b += show(x.first) + ":" + show(x.second) + ","; fail("html " + show(d.html) + "\nrule " + s[i].str() + "captures: got " + a + " expected " + b); }
    }
    walk_cmp(r->child(), s[i].kids, d);
    for (size_t k = 0; k < s[i].nested.size() && k < r->nested().size(); ++k) walk_cmp(&r->nested()[k], s[i].nested[k], d);
  }
}
void judge(const string& t, bool behaviour)
{
  note("rule text " + show(t));
  Read w = reference(t);
  optional<hext::Rule> r; string msg; bool threw = false;
  size_t n = t.size();
  unique_ptr<char[]> buf(new char[n ? n : 1]); memcpy(buf.get(), t.data(), n);
  bool z = t.find('\0') == string::npos && R.coin(4);
  try { if (z) r.emplace(hext::ParseHext(t.c_str())); else r.emplace(hext::ParseHext(buf.get(), n)); }
  catch (const hext::SyntaxError& e) { threw = true; msg = e.what(); }
  catch (const std::exception& e) { fail(string("throws something else than a syntax error: ") + e.what()); }
  // what counts for the property asked for (all of it for C18 and C20)
  if (threw == w.ok) { if (PROP == "C18" && !w.ok) return; if (PROP == "C19" && w.ok) return; fail(w.ok ? "rejected: " + msg + "\nexpected\n" + str_seq(w.s) : "accepted, expected the error\n" + w.msg); }
  if (threw) { if (PROP != "C16" && PROP != "C17" && PROP != "C18" && string(msg.c_str()) != string(w.msg.c_str())) fail("the message is\n" + msg + "\nexpected\n" + w.msg); return; }
  if (PROP == "C17" || PROP == "C19") return;
  if (PROP == "C16") { if (!same_shape(*r, w.s)) fail("the nesting differs, expected\n" + str_seq(w.s)); return; }
  if (!same_tree(*r, w.s)) fail("the tree differs, expected\n" + str_seq(w.s));
  if (behaviour) { Doc d(rnd_html()); walk_cmp(&*r, w.s, d); }
}
} // namespace
void t_parse() { for (int k = 0; k < 3; ++k) judge(R.coin(6) ? walk() : text(), true); }
void t_reject() { for (int k = 0; k < 10; ++k) { string s = R.coin(3) ? walk() : text(); if (!R.coin(4)) s = mutate(s); if (R.coin(12)) s = string(R.coin(3) ? R.below(12) : R.coin(20) ? 980 + R.below(40) : 85 + R.below(40), '\n') + s; judge(s, R.coin(10)); } }
void judge_text(const string& t) { judge(t, false); for (int k = 0; k < 20; ++k) judge(t, true); }
