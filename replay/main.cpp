// harness PROPERTY SEED SECONDS NOTEFILE
#include "h.h"
#include <set>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <ctime>
#include <cstdio>
Rng R{1};
static char * NOTE = nullptr;
static const size_t NOTESZ = 1 << 20;
void note(const string& s) { if (!NOTE) return; size_t n = std::min(s.size(), NOTESZ - 1); memcpy(NOTE, s.data(), n); NOTE[n] = 0; alarm(20); }
void fail(const string& s) { printf("FOUND\n%s\n%s\n", NOTE ? NOTE : "", s.c_str()); fflush(stdout); _exit(9); }
static string desc(NP n)
{
  if (!n) return "null";
  string p; NP x = n;
  while (x && x->parent) { p = "/" + std::to_string(x->index_within_parent) + p; x = x->parent; }
  static const char * T[] = {"document", "element", "text", "cdata", "comment", "whitespace", "template"};
  return string(T[n->type]) + (n->type == 1 || n->type == 6 ? "<" + ref_tagname(n) + ">" : "") + " at " + (p.empty() ? "/" : p);
}
template<class A> static void eq(const A& got, const A& want, const string& what) { if (!(got == want)) { std::ostringstream o; o << what; fail(o.str()); } }
static string b(bool x) { return x ? "true" : "false"; }
static string recs(const vector<std::multimap<string, string>>& v) { string r = "["; for (auto& m : v) { r += "{"; for (auto& p : m) r += show(p.first) + ":" + show(p.second) + ","; r += "}"; } return r + "]"; }

static void t_strings()
{
  string s = rnd_value() + (R.coin() ? rnd_value() : "");
  if (R.coin(8)) { s.clear(); int n = R.below(6); for (int i = 0; i < n; ++i) s += char(R.below(256)); }
  note("TrimAndCollapseWs(" + show(s) + ")");
  string g = hext::TrimAndCollapseWs(s);
  eq(g, ref_collapse(s), "got " + show(g) + ", expected " + show(ref_collapse(s)));
  for (int c = 0; c < 256; ++c) { note("IsSpace(" + std::to_string(c) + ")"); eq(hext::IsSpace(char(c)), c == 32 || c == 9 || c == 10 || c == 12 || c == 13, "wrong answer"); }
}
static void t_tests()
{
  STest t = rnd_test();
  OS v; if (!R.coin(8)) v = rnd_value();
  if (v && R.coin(4) && !t.lit.empty()) { switch (R.below(5)) { case 0: v = t.lit; break; case 1: v = t.lit + *v; break; case 2: v = *v + t.lit; break; case 3: v = *v + " " + t.lit + " " + rnd_value(); break; default: v = t.lit.substr(R.below(int(t.lit.size()))); } }
  if (v && v->find('\0') != string::npos) return;
  note("value test " + t.str() + " on " + (v ? show(*v) : string("null")));
  auto o = t.make();
  bool g = o->test(v ? v->c_str() : nullptr), w = t.eval(v);
  eq(g, w, "got " + b(g) + ", expected " + b(w));
}
static void t_pipes()
{
  vector<SPipe> p; int n = 1 + R.below(4); for (int i = 0; i < n; ++i) p.push_back(rnd_pipe());
  string s = rnd_value(), d; for (auto& x : p) d += "|" + x.str();
  note("pipes " + d + " on " + show(s));
  auto o = make_pipes(p);
  string g = o->pipe(s), w = eval_pipes(p, s);
  eq(g, w, "got " + show(g) + ", expected " + show(w));
  string g2 = o->pipe(s); eq(g2, w, "second use: got " + show(g2) + ", expected " + show(w));
}
static SMatch match_for(int set)
{
  for (;;) {
    SMatch m = rnd_match();
    if (set == 6 && m.kind != 6) { if (!R.coin(3)) continue; m.kind = 6; m.opt = pick(vector<int>{2, 4, 10, 12}); m.a = R.below(9) - 4; m.b = R.below(9) - 4; }
    if (set == 7 && m.kind == 6) continue;
    if (set == 8 && m.kind != 1 && m.kind != 4) continue;
    return m;
  }
}
static void t_match(int set)
{
  Doc d(rnd_html());
  for (int k = 0; k < 12; ++k) {
    SMatch m = match_for(set);
    auto o = m.make();
    for (NP n : d.nodes) {
      note("condition " + m.str() + "\nhtml " + show(d.html) + "\nnode " + desc(n));
      bool g = o->matches(n), w = m.eval(n);
      eq(g, w, "got " + b(g) + ", expected " + b(w));
    }
  }
}
static void t_text()
{
  Doc d(rnd_html());
  for (NP n : d.nodes) {
    note("text of " + desc(n) + "\nhtml " + show(d.html));
    string g = hext::NodeText(n), w = ref_text(n); eq(g, w, "@text got " + show(g) + ", expected " + show(w));
    g = hext::StripTags(n); w = ref_strip(n, false); eq(g, w, "@strip-tags got " + show(g) + ", expected " + show(w));
    g = hext::TextBuiltin(n); w = ref_text(n); eq(g, w, "TextBuiltin got " + show(g) + ", expected " + show(w));
    g = hext::StripTagsBuiltin(n); w = ref_strip(n, false); eq(g, w, "StripTagsBuiltin got " + show(g) + ", expected " + show(w));
  }
  note("text of null"); eq(hext::NodeText(nullptr), string(), "text of null is not empty");
}
static void t_inner()
{
  Doc d(rnd_html());
  for (NP n : d.nodes) {
    note("inner html of " + desc(n) + "\nhtml " + show(d.html));
    string g = hext::NodeInnerHtml(n), w = ref_inner(n); eq(g, w, "got " + show(g) + ", expected " + show(w));
    g = hext::InnerHtmlBuiltin(n); eq(g, w, "InnerHtmlBuiltin got " + show(g) + ", expected " + show(w));
  }
  note("inner html of null"); eq(hext::NodeInnerHtml(nullptr), string(), "inner html of null is not empty");
}
static string cap_s(const optional<pair<string, string>>& c) { return c ? show(c->first) + ":" + show(c->second) : "nothing"; }
static string caps_s(const vector<pair<string, string>>& c) { string r; for (auto& x : c) r += show(x.first) + ":" + show(x.second) + ","; return r; }
static void t_caps()
{
  Doc d(rnd_html());
  for (int k = 0; k < 8; ++k) {
    SCap c = rnd_cap(); auto o = c.make();
    SRule r; int nc = R.below(4); for (int i = 0; i < nc; ++i) r.cs.push_back(rnd_cap());
    hext::Rule rule = make_one(r);
    for (NP n : d.nodes) {
      note("capture " + c.str() + "\nhtml " + show(d.html) + "\nnode " + desc(n));
      optional<pair<string, string>> g = o->capture(n), w = c.eval(n);
      eq(g, w, "got " + cap_s(g) + ", expected " + cap_s(w));
      note("rule captures " + r.str() + "html " + show(d.html) + "\nnode " + desc(n));
      vector<pair<string, string>> gs = rule.capture(n), ws; for (auto& x : r.cs) if (auto y = x.eval(n)) ws.push_back(*y);
      eq(gs, ws, "got " + caps_s(gs) + ", expected " + caps_s(ws));
    }
  }
}
static void t_accept()
{
  Doc d(rnd_html());
  for (int k = 0; k < 8; ++k) {
    SRule r = rnd_seq(0)[0];
    int n = R.below(4); for (int i = 0; i < n; ++i) r.ms.push_back(rnd_match(1));
    if (R.coin(4)) r.tag = pick(vector<string>{"X-Y", "x-yz", "x", "blink", "x-y1", "section"});
    note("rule " + r.str());
    hext::Rule o = make_one(r);
    if (R.coin(10)) o.append_match(nullptr);
    for (NP x : d.nodes) {
      note("rule " + r.str() + "html " + show(d.html) + "\nnode " + desc(x));
      bool g = o.matches(x), w = r.accepts(x); eq(g, w, "got " + b(g) + ", expected " + b(w));
    }
    note("rule " + r.str() + "null node"); eq(o.matches(nullptr), false, "null accepted");
  }
}
static void check_extract(const hext::Rule& rule, const vector<SRule>& s, Doc& d, const string& what)
{
  Found f = ref_search(s, d.root());
  auto want = ref_records(f);
  string in = what + "rule\n" + str_seq(s) + "html " + show(d.html);
  note(in);
  vector<std::multimap<string, string>> got = rule.extract(d.h);
  eq(got, want, "extract: got " + recs(got) + "\nexpected " + recs(want));
  for (uint64_t m : {uint64_t(f.cost), uint64_t(f.cost + 1), uint64_t(f.cost > 1 ? f.cost - 1 : 1), uint64_t(1 + R.below(int(f.cost) + 3)), ~uint64_t(0)}) {
    note(in + "\nmax_searches " + std::to_string(m) + " (search needs " + std::to_string(f.cost) + ")");
    bool thrown = false; vector<std::multimap<string, string>> g;
    try { g = rule.extract(d.h, m); } catch (const hext::MaxSearchError&) { thrown = true; }
    eq(thrown, uint64_t(f.cost) >= m, thrown ? "throws the limit error" : "does not throw the limit error");
    if (!thrown) eq(g, want, "extract with limit: got " + recs(g) + "\nexpected " + recs(want));
  }
}
static void t_extract()
{
  Doc d(rnd_html());
  for (int k = 0; k < 4; ++k) {
    auto s = rnd_seq(R.below(3));
    if (R.coin(3)) { SRule b; b.any = R.coin(); b.tag = "body"; if (!b.any) { b.kids = s; s = {b}; } }
    note("building rule\n" + str_seq(s));
    hext::Rule rule = make_seq(s);
    check_extract(rule, s, d, "");
  }
}
template<class T, class B> static bool assign1(B * a, const B * b) { auto x = dynamic_cast<T *>(a); auto y = dynamic_cast<const T *>(b); if (!x || !y) return false; *x = *y; return true; }
static bool assign(hext::Match * a, const hext::Match * b) { return assign1<hext::AttributeCountMatch>(a, b) || assign1<hext::AttributeMatch>(a, b) || assign1<hext::ChildCountMatch>(a, b) || assign1<hext::FunctionMatch>(a, b)
  || assign1<hext::FunctionValueMatch>(a, b) || assign1<hext::NegateMatch>(a, b) || assign1<hext::NthChildMatch>(a, b) || assign1<hext::OnlyChildMatch>(a, b) || assign1<hext::TypeRegexMatch>(a, b); }
static bool assign(hext::ValueTest * a, const hext::ValueTest * b) { return assign1<hext::EqualsTest>(a, b) || assign1<hext::BeginsWithTest>(a, b) || assign1<hext::EndsWithTest>(a, b) || assign1<hext::ContainsTest>(a, b)
  || assign1<hext::ContainsWordsTest>(a, b) || assign1<hext::RegexTest>(a, b) || assign1<hext::NegateTest>(a, b); }
static bool assign(hext::Capture * a, const hext::Capture * b) { return assign1<hext::AttributeCapture>(a, b) || assign1<hext::FunctionCapture>(a, b); }
static bool assign(hext::StringPipe * a, const hext::StringPipe * b) { return assign1<hext::AppendPipe>(a, b) || assign1<hext::PrependPipe>(a, b) || assign1<hext::CasePipe>(a, b) || assign1<hext::CollapseWsPipe>(a, b)
  || assign1<hext::RegexPipe>(a, b) || assign1<hext::RegexReplacePipe>(a, b) || assign1<hext::TrimPipe>(a, b); }
static void t_assign()
{
  Doc d(rnd_html());
  for (int k = 0; k < 12; ++k) {
    { SMatch x = rnd_match(), y = rnd_match(); while (y.kind != x.kind) y = rnd_match(); if (R.coin()) y.name = x.name; if (R.coin(3)) y.test = x.test; if (R.coin(6)) y.test.reset();
      auto a = x.make(), b = y.make();
      if (assign(a.get(), b.get())) for (NP n : d.nodes) { note("copy-assigned: " + x.str() + " = " + y.str() + " on " + desc(n) + "\nhtml " + show(d.html)); eq(a->matches(n), y.eval(n), "the assigned condition differs from its source"); eq(b->matches(n), y.eval(n), "the source changed"); } 
      b.reset(); auto c = a->clone(); if (assign(a.get(), a.get())) for (NP n : d.nodes) { note("condition " + x.str() + " assigned to itself"); eq(a->matches(n), c->matches(n), "self-assignment changed the condition"); } }
    { STest x = rnd_test(), y = rnd_test(); while (x.kind != y.kind) y = rnd_test(); { auto a = x.make(), b = y.make(); if (assign(a.get(), b.get())) for (int q = 0; q < 4; ++q) { string v = rnd_value(); note("copy-assigned: " + x.str() + " = " + y.str() + " on " + show(v)); eq(a->test(v.c_str()), y.eval(v), "the assigned test differs from its source"); eq(a->test(nullptr), y.eval({}), "the assigned test differs from its source on null"); eq(b->test(v.c_str()), y.eval(v), "the source changed"); } } }
    { SCap x = rnd_cap(), y = rnd_cap(); if (R.coin()) y.kind = x.kind; if (R.coin()) y.name = x.name; if (R.coin()) y.attr = x.attr; if (R.coin()) y.fn = x.fn; if (R.coin(4)) y.pipes.clear(); if (R.coin(4)) x.pipes.clear(); if (R.coin(4)) y.pipes = x.pipes;
      auto a = x.make(), b = y.make();
      if (assign(a.get(), b.get())) for (int rst = 0; rst < 2; ++rst) { for (NP n : d.nodes) { note("copy-assigned: " + x.str() + " = " + y.str() + " on " + desc(n) + "\nhtml " + show(d.html)); optional<pair<string, string>> g = a->capture(n); eq(g, y.eval(n), "the assigned capture differs from its source"); if (b) { g = b->capture(n); eq(g, y.eval(n), "the source changed"); } } b.reset(); }
      assign(a.get(), a.get()); }
    { SPipe x = rnd_pipe(), y = rnd_pipe(); while (x.kind != y.kind) y = rnd_pipe(); vector<SPipe> xs{x}, ys{y}; while (R.coin()) xs.push_back(rnd_pipe()); while (R.coin()) ys.push_back(rnd_pipe()); auto a = make_pipes(xs), b = make_pipes(ys);
      if (assign(a.get(), b.get())) for (int q = 0; q < 3; ++q) { string v = rnd_value(), w = eval_pipes(ys, v), nm; for (auto& z : xs) nm += "|" + z.str(); nm += "  =  "; for (auto& z : ys) nm += "|" + z.str(); note("copy-assigned pipes: " + nm + " on " + show(v)); eq(a->pipe(v), w, "the assigned pipe differs from its source"); if (b) eq(b->pipe(v), w, "the source changed"); if (q == 1) b.reset(); if (q == 0) { auto self = a->pipe(v); assign(a.get(), a.get()); eq(a->pipe(v), self, "self-assignment changed the pipe"); } } }
  }
}
static void t_copy()
{
  Doc d(rnd_html());
  auto s = rnd_seq(2), s2 = rnd_seq(1);
  note("copying rule\n" + str_seq(s));
  auto a = std::make_unique<hext::Rule>(make_seq(s));
  auto c = std::make_unique<hext::Rule>(*a);
  hext::Rule e = make_seq(s2);
  e = *a;
  hext::Rule f = make_seq(s2);
  hext::Rule m(std::move(f));
  auto& self = *a; self = *a;
  auto nul = std::make_unique<hext::Rule>(hext::HtmlTag::ANY);
  nul->append_match(nullptr).append_capture(nullptr); hext::Rule nulc(*nul);
  check_extract(*c, s, d, "copied "); check_extract(e, s, d, "assigned "); check_extract(*a, s, d, "self-assigned "); check_extract(m, s2, d, "moved ");
  // changes to one leave the other alone
  a->append_child(hext::Rule("zzz")).append_next(hext::Rule("zzz")).append_nested(hext::Rule("zzz"));
  a->append_match(std::make_unique<hext::ChildCountMatch>(77));
  if (a->child()) a->child()->set_optional(true).append_match(std::make_unique<hext::ChildCountMatch>(77));
  check_extract(*c, s, d, "copy of a rule changed later: ");
  a.reset();
  check_extract(*c, s, d, "copy of a destroyed rule: ");
  std::swap(*c, m);
  check_extract(*c, s2, d, "swapped "); check_extract(m, s, d, "swapped ");
  // swap with itself
  
  for (int k = 0; k < 4; ++k) {
    SMatch x = rnd_match(); auto o = x.make(); auto q = o->clone();
    for (NP n : d.nodes) { note("clone of " + x.str() + " on " + desc(n) + "\nhtml " + show(d.html)); eq(q->matches(n), x.eval(n), "clone differs"); eq(o->matches(n), x.eval(n), "original differs"); }
    o.reset();
    for (NP n : d.nodes) { note("clone of destroyed " + x.str() + " on " + desc(n)); eq(q->matches(n), x.eval(n), "clone differs"); }
    SCap cp = rnd_cap(); auto co = cp.make(); auto cq = co->clone(); co.reset();
    for (NP n : d.nodes) { note("clone of destroyed " + cp.str() + " on " + desc(n)); optional<pair<string, string>> g = cq->capture(n); eq(g, cp.eval(n), "clone differs"); }
    STest t = rnd_test(); auto to = t.make(); auto tq = to->clone(); to.reset();
    string v = rnd_value(); note("clone of " + t.str() + " on " + show(v)); eq(tq->test(v.c_str()), t.eval(v), "clone differs"); eq(tq->test(nullptr), t.eval({}), "clone differs on null");
    vector<SPipe> ps; int n = 1 + R.below(4); for (int i = 0; i < n; ++i) ps.push_back(rnd_pipe());
    auto po = make_pipes(ps); auto pq = po->clone(); string pd; for (auto& y : ps) pd += "|" + y.str();
    pq->append(std::make_unique<hext::AppendPipe>("Q"));
    note("clone of pipe " + pd + " on " + show(v)); string w = eval_pipes(ps, v); eq(po->pipe(v), w, "original changed"); eq(pq->pipe(v), w + "Q", "clone differs");
    po.reset(); note("clone of destroyed pipe " + pd); eq(pq->pipe(v), w + "Q", "clone differs");
    // assignment
    { hext::AttributeMatch m1("class", t.make()), m2("id", rnd_test().make()); m2 = m1; m1 = static_cast<const hext::AttributeMatch&>(m1); STest t2 = t; SMatch sm; sm.kind = 1; sm.name = "class"; sm.test = t2;
      for (NP nn : d.nodes) { note("assigned AttributeMatch " + sm.str() + " on " + desc(nn)); eq(m2.matches(nn), sm.eval(nn), "assigned differs"); eq(m1.matches(nn), sm.eval(nn), "self-assigned differs"); }
      hext::AttributeMatch m3("x"), m4("title", t.make()); m4 = m3; for (NP nn : d.nodes) { bool has; ref_attr(nn, "x", &has); note("assigned AttributeMatch without test"); eq(m4.matches(nn), el(nn) && has, "assigned differs"); } }
    { hext::NegateTest n1(t.make()), n2(nullptr); n2 = n1; n1 = static_cast<const hext::NegateTest&>(n1); note("assigned NegateTest of " + t.str()); eq(n2.test(v.c_str()), !t.eval(v), "assigned differs"); eq(n1.test(v.c_str()), !t.eval(v), "self-assigned differs"); }
    { SMatch sm = rnd_match(); hext::NegateMatch n1(sm.make()), n2; n2.append_match(rnd_match().make()); n2 = n1; n1 = static_cast<const hext::NegateMatch&>(n1); hext::NegateMatch n3(n1); n3.append_match(std::make_unique<hext::FunctionMatch>([](NP) { return true; }));
      for (NP nn : d.nodes) { note("assigned NegateMatch of " + sm.str() + " on " + desc(nn)); eq(n2.matches(nn), !sm.eval(nn), "assigned differs"); eq(n1.matches(nn), !sm.eval(nn), "self-assigned differs"); eq(n3.matches(nn), false, "appended condition ignored"); } }
    { SMatch fm; fm.kind = 4; fm.fn = R.below(4); fm.test = t; hext::FunctionValueMatch f1(fn_of(fm.fn), t.make()), f2(fn_of(3), rnd_test().make()); f2 = f1; f1 = static_cast<const hext::FunctionValueMatch&>(f1);
      for (NP nn : d.nodes) { note("assigned FunctionValueMatch " + fm.str() + " on " + desc(nn)); eq(f2.matches(nn), fm.eval(nn), "assigned differs"); eq(f1.matches(nn), fm.eval(nn), "self-assigned differs"); } }
    { SCap s1 = rnd_cap(); s1.kind = 0; hext::AttributeCapture c1(s1.attr, s1.name, make_pipes(s1.pipes)), c2("q", "q"); c2 = c1; c1 = static_cast<const hext::AttributeCapture&>(c1);
      SCap s3 = s1; s3.kind = 1; hext::FunctionCapture c3(fn_of(s3.fn), s3.name, make_pipes(s3.pipes)), c4(fn_of(0), "q"); c4 = c3; c3 = static_cast<const hext::FunctionCapture&>(c3);
      for (NP nn : d.nodes) { note("assigned capture " + s1.str() + " on " + desc(nn)); optional<pair<string, string>> g; g = c2.capture(nn); eq(g, s1.eval(nn), "assigned differs"); g = c1.capture(nn); eq(g, s1.eval(nn), "self-assigned differs");
        note("assigned capture " + s3.str() + " on " + desc(nn)); g = c4.capture(nn); eq(g, s3.eval(nn), "assigned differs"); g = c3.capture(nn); eq(g, s3.eval(nn), "self-assigned differs"); } }
    { hext::TrimPipe p1("a"), p2("b"); if (R.coin()) p1.append(std::make_unique<hext::AppendPipe>("1")); p2.append(std::make_unique<hext::AppendPipe>("2")); p2.append(std::make_unique<hext::AppendPipe>("3"));
      string w1 = p1.pipe(v); p2 = p1; note("assigned pipe on " + show(v)); eq(p2.pipe(v), w1, "assigned differs"); p1 = static_cast<const hext::TrimPipe&>(p1); eq(p1.pipe(v), w1, "self-assigned differs"); }
  }
}
static bool SHAPE = false;
string PROP;
static bool same(const hext::Rule * r, const vector<SRule>& s, size_t i);
static bool same_one(const hext::Rule * r, const SRule& s)
{
  if (!SHAPE && (r->is_optional() != s.opt || r->is_greedy() != s.greedy)) return false;
  if (s.any ? r->get_tag() != hext::HtmlTag::ANY : int(r->get_tag()) != int(gumbo_tag_enum(s.tag.c_str()))) return false;
  auto tn = r->get_tagname();
  if (!s.any && gumbo_tag_enum(s.tag.c_str()) == GUMBO_TAG_UNKNOWN) { if (!tn || *tn != s.tag) return false; } else if (tn) return false;
  if (s.kids.empty() ? r->child() != nullptr : !same(r->child(), s.kids, 0)) return false;
  if (r->nested().size() != s.nested.size()) return false;
  for (size_t k = 0; k < s.nested.size(); ++k) if (!same(&r->nested()[k], s.nested[k], 0)) return false;
  return true;
}
static bool same(const hext::Rule * r, const vector<SRule>& s, size_t i) { for (; i < s.size(); ++i, r = r->next()) if (!r || !same_one(r, s[i])) return false; return !r; }
bool same_tree(const hext::Rule& r, const vector<SRule>& s) { return same(&r, s, 0); }
bool same_shape(const hext::Rule& r, const vector<SRule>& s);
bool same_shape(const hext::Rule& r, const vector<SRule>& s) { SHAPE = true; bool b = same(&r, s, 0); SHAPE = false; return b; }
static void t_builder()
{
  auto s = rnd_seq(2); Doc d(rnd_html());
  note("building\n" + str_seq(s));
  hext::Rule r = make_seq(s);
  if (!same_tree(r, s)) fail("the tree built differs");
  for (int k = 0; k < 6; ++k) {
    SRule x = rnd_seq(1)[0];
    int op = R.below(9);
    note("operation " + std::to_string(op) + " (append_child, append_next, append_nested, append_match, append_capture, set_optional, set_greedy, set_tag, set_tagname)\nargument " + x.str() + "on rule\n" + str_seq(s));
    SRule& h = s[0];
    switch (op) {
      case 0: r.append_child(make_one(x)); h.kids.push_back(x); break;
      case 1: r.append_next(make_one(x)); s.push_back(x); break;
      case 2: r.append_nested(make_one(x)); h.nested.push_back({x}); break;
      case 3: { SMatch m = rnd_match(); r.append_match(m.make()); s[0].ms.push_back(m); break; }
      case 4: { SCap c = rnd_cap(); r.append_capture(c.make()); s[0].cs.push_back(c); break; }
      case 5: h.opt = R.coin(); r.set_optional(h.opt); break;
      case 6: h.greedy = R.coin(); r.set_greedy(h.greedy); break;
      case 7: if (h.any || gumbo_tag_enum(h.tag.c_str()) != GUMBO_TAG_UNKNOWN) { h.any = false; h.tag = "p"; r.set_tag(hext::HtmlTag::P); } break;
      default: if (!h.any && gumbo_tag_enum(h.tag.c_str()) == GUMBO_TAG_UNKNOWN) { h.tag = "x-yz"; r.set_tagname("x-yz"); } break;
    }
    if (!same_tree(r, s)) fail("the tree after the operation differs");
    for (NP n : d.nodes) { bool g = r.matches(n), w = s[0].accepts(n); eq(g, w, "node " + desc(n) + ": got " + b(g)); vector<pair<string, string>> gs = r.capture(n), ws; for (auto& y : s[0].cs) if (auto z = y.eval(n)) ws.push_back(*z); eq(gs, ws, "captures differ"); }
  }
  check_extract(r, s, d, "built ");
}
static void t_setters()
{
  static const vector<hext::HtmlTag> TT = {hext::HtmlTag::ANY, hext::HtmlTag::UNKNOWN, hext::HtmlTag::P, hext::HtmlTag::DIV, hext::HtmlTag::A};
  auto nm = [](const OS& o) { return o ? *o : string("(none)"); };
  string h;
  hext::HtmlTag t = pick(TT); OS n; bool o = R.coin(), g = R.coin(); unique_ptr<hext::Rule> r;
  if (R.coin()) { r = std::make_unique<hext::Rule>(t, o, g); h = "Rule(tag " + std::to_string(int(t)) + ", " + b(o) + ", " + b(g) + ")"; }
  else { string x = pick(vector<string>{"x-y", "p", "q", "X-y", "zzz", "DIV"}); GumboTag k = gumbo_tag_enum(x.c_str()); t = hext::HtmlTag(int(k)); if (k == GUMBO_TAG_UNKNOWN) n = x; r = std::make_unique<hext::Rule>(x, o, g); h = "Rule(" + show(x) + ", " + b(o) + ", " + b(g) + ")"; }
  for (int k = 0; k < 6; ++k) {
    note(h);
    if (r->get_tag() != t) fail("get_tag() is " + std::to_string(int(r->get_tag())) + " instead of " + std::to_string(int(t)));
    if (r->get_tagname() != n) fail("get_tagname() is " + nm(r->get_tagname()) + " instead of " + nm(n));
    if (r->is_optional() != o) fail("is_optional() is wrong");
    if (r->is_greedy() != g) fail("is_greedy() is wrong");
    switch (R.below(4)) {
      case 0: t = pick(TT); r->set_tag(t); h += ".set_tag(" + std::to_string(int(t)) + ")"; break;
      case 1: n = pick(vector<string>{"x-y", "", "p", "q"}); r->set_tagname(*n); h += ".set_tagname(" + *n + ")"; break;
      case 2: o = R.coin(); r->set_optional(o); h += string(".set_optional(") + b(o) + ")"; break;
      default: g = R.coin(); r->set_greedy(g); h += string(".set_greedy(") + b(g) + ")"; break;
    }
  }
}
// Purity: a child process that extracts at once is compared with one that first goes through a random history.
static string in_child(const std::function<string()>& f)
{
  int p[2]; if (pipe(p)) _exit(2);
  fflush(stdout);
  pid_t c = fork();
  if (c == 0) { close(p[0]); string r = f(); size_t o = 0; while (o < r.size()) { ssize_t n = write(p[1], r.data() + o, r.size() - o); if (n <= 0) break; o += size_t(n); } close(p[1]); _exit(0); }
  close(p[1]); string r; char buf[4096]; ssize_t n; while ((n = read(p[0], buf, sizeof buf)) > 0) r.append(buf, size_t(n));
  close(p[0]); int st = 0; waitpid(c, &st, 0);
  if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { printf("%s", r.c_str()); } fail("a process extracting from the document failed (status " + std::to_string(st) + ")"); }
  return r;
}
static string run_extract(const hext::Rule& r, const hext::Html& h, uint64_t max)
{
  try { auto g = max ? r.extract(h, max) : r.extract(h); return recs(g); }
  catch (const hext::MaxSearchError&) { return "search limit exceeded"; }
}
static string whole(const Doc& d) { string s; for (NP n : d.nodes) { s += std::to_string(int(n->type)); if (el(n) || n->type == GUMBO_NODE_TEMPLATE) { s += ref_tagname(n); for (unsigned i = 0; i < n->v.element.attributes.length; ++i) { auto a = static_cast<const GumboAttribute *>(n->v.element.attributes.data[i]); s += string(" ") + a->name + "=" + a->value; } } else if (n->type != GUMBO_NODE_DOCUMENT) s += n->v.text.text; s += ";"; } return s; }
static void t_pure()
{
  vector<unique_ptr<Doc>> ds; vector<vector<SRule>> ss; vector<unique_ptr<hext::Rule>> rs;
  for (int i = 0; i < 3; ++i) { ds.push_back(std::make_unique<Doc>(rnd_html())); ss.push_back(rnd_seq(2)); rs.push_back(std::make_unique<hext::Rule>(make_seq(ss.back()))); }
  uint64_t max = R.coin(3) ? uint64_t(1 + R.below(300)) : 0;
  string what = "extracting with\n" + str_seq(ss[0]) + "from " + show(ds[0]->html) + (max ? " (limit " + std::to_string(max) + ")" : string());
  note(what);
  string first = in_child([&] { return run_extract(*rs[0], ds[0]->h, max); });
  string hist; vector<std::function<void()>> hs;
  int n = 1 + R.below(6);
  for (int k = 0; k < n; ++k) {
    int ri = R.below(3), di = R.below(3); uint64_t m = R.coin(3) ? uint64_t(1 + R.below(40)) : 0;
    switch (R.below(4)) {
      case 0: case 1: hist += "extract rule " + std::to_string(ri) + " from document " + std::to_string(di) + (m ? " limit " + std::to_string(m) : string()) + "; "; hs.push_back([&, ri, di, m] { run_extract(*rs[ri], ds[di]->h, m); }); break;
      case 2: hist += "match and capture rule " + std::to_string(ri) + " on every node of document " + std::to_string(di) + "; "; hs.push_back([&, ri, di] { for (NP x : ds[di]->nodes) { rs[ri]->matches(x); rs[ri]->capture(x); } }); break;
      default: hist += "text and inner html of document " + std::to_string(di) + "; "; hs.push_back([&, di] { for (NP x : ds[di]->nodes) { hext::NodeText(x); hext::NodeInnerHtml(x); hext::StripTags(x); } }); break;
    }
  }
  for (int i = 0; i < 3; ++i) hist += "\nrule " + std::to_string(i) + ":\n" + str_seq(ss[size_t(i)]) + "document " + std::to_string(i) + ": " + show(ds[size_t(i)]->html);
  note(what + "\nafter: " + hist);
  string then = in_child([&] {
    vector<string> b4; for (auto& d : ds) b4.push_back(whole(*d));
    for (auto& h : hs) h();
    string r = run_extract(*rs[0], ds[0]->h, max);
    for (int i = 0; i < 3; ++i) { if (!same_tree(*rs[size_t(i)], ss[size_t(i)])) return string("the rule was changed"); if (whole(*ds[size_t(i)]) != b4[size_t(i)]) return string("the document was changed"); }
    return r;
  });
  eq(then, first, "got " + then + "\nwithout the history: " + first);
  string twice = in_child([&] { run_extract(*rs[0], ds[0]->h, max); return run_extract(*rs[0], ds[0]->h, max); });
  note(what + "\na second time"); eq(twice, first, "got " + twice + "\nthe first time: " + first);
}
// every parse result that exists (the linker sends the library's calls here)
static std::map<GumboOutput *, long> LIVE;
static long NPARSED = 0, NFREED = 0;
extern "C" {
GumboOutput * __real_gumbo_parse_with_options(const GumboOptions *, const char *, size_t);
void __real_gumbo_destroy_output(const GumboOptions *, GumboOutput *);
GumboOutput * __wrap_gumbo_parse_with_options(const GumboOptions * o, const char * b, size_t n) { auto r = __real_gumbo_parse_with_options(o, b, n); LIVE[r] = 1; ++NPARSED; return r; }
void __wrap_gumbo_destroy_output(const GumboOptions * o, GumboOutput * p) { if (!LIVE.count(p)) fail(p ? "a document is destroyed twice" : "a null document is destroyed"); LIVE.erase(p); ++NFREED; __real_gumbo_destroy_output(o, p); }
}
// random histories of document handles against a table of who owns which document
static void t_handles()
{
  struct H { unique_ptr<hext::Html> h; };
  static const vector<string> texts = {"<p>one</p>", "<div>two<b>x</b></div>", "three", "", "<ul><li>4", "<!DOCTYPE html><html><head></head><body><p>five</p></body></html>"};
  vector<unique_ptr<hext::Html>> hs; vector<int> own; vector<const GumboNode *> root;
  size_t base = LIVE.size();
  string hist;
  auto say = [&](const string& x) { hist += x + "; "; note("document handles: " + hist); };
  auto all = [&] { std::set<const GumboNode *> seen; for (size_t i = 0; i < hs.size(); ++i) { NP r = hs[i]->root(); if (own[i] < 0) { if (r) fail("handle " + std::to_string(i) + " should be empty"); continue; } if (!r) fail("handle " + std::to_string(i) + " lost its document"); if (r != root[i]) fail("handle " + std::to_string(i) + " changed its document"); if (!seen.insert(r).second) fail("two handles own one document"); Doc w(texts[size_t(own[i])]); eq(ref_inner(r), ref_inner(w.root()), "handle " + std::to_string(i) + " has the wrong document"); } };
  int n = 2 + R.below(10);
  for (int k = 0; k < n; ++k) {
    int op = hs.empty() ? 0 : R.below(6); size_t i = hs.empty() ? 0 : size_t(R.below(int(hs.size()))), j = hs.empty() ? 0 : size_t(R.below(int(hs.size())));
    if (op <= 1) { int t = R.below(int(texts.size())); say("h" + std::to_string(hs.size()) + " = parse " + show(texts[size_t(t)])); hs.push_back(R.coin() ? std::make_unique<hext::Html>(texts[size_t(t)].c_str()) : std::make_unique<hext::Html>(texts[size_t(t)].c_str(), texts[size_t(t)].size())); own.push_back(t); root.push_back(hs.back()->root()); }
    else if (op == 2) { say("h" + std::to_string(hs.size()) + "(move(h" + std::to_string(i) + "))"); hs.push_back(std::make_unique<hext::Html>(std::move(*hs[i]))); own.push_back(own[i]); root.push_back(root[i]); own[i] = -1; root[i] = nullptr; }
    else if (op == 3 && i != j) { say("h" + std::to_string(i) + " = move(h" + std::to_string(j) + ")"); *hs[i] = std::move(*hs[j]); NP r = hs[j]->root(); int oi = own[i]; NP ri = root[i]; own[i] = own[j]; root[i] = root[j]; if (r) { if (oi < 0 || r != ri) fail("the source of a move assignment keeps a document it did not receive"); own[j] = oi; root[j] = ri; } else { own[j] = -1; root[j] = nullptr; } }
    else if (op == 4) { say("h" + std::to_string(i) + " = move(h" + std::to_string(i) + ")"); auto& a = *hs[i]; auto& c = *hs[i]; a = std::move(c); if (!a.root()) { own[i] = -1; root[i] = nullptr; } }
    else if (op == 5) { say("destroy h" + std::to_string(i)); hs.erase(hs.begin() + long(i)); own.erase(own.begin() + long(i)); root.erase(root.begin() + long(i)); }
    all();
    size_t docs = 0; for (int o : own) docs += o >= 0; if (LIVE.size() != base + docs) fail(std::to_string(LIVE.size() - base) + " documents exist, " + std::to_string(docs) + " are owned");
  }
  say("destroy all"); hs.clear();
  if (LIVE.size() != base) fail(std::to_string(LIVE.size() - base) + " documents were never freed");
}
static void t_html()
{
  string s = rnd_html();
  note("Html handles on " + show(s));
  auto want = Doc(s);
  string w = ref_inner(want.root());
  hext::Html a(s.c_str(), s.size());
  hext::Html m(std::move(a));
  if (a.root()) fail("moved-from handle is not empty");
  eq(hext::NodeInnerHtml(m.root()), w, "moved handle lost the document");
  string s2 = rnd_html(); string w2 = ref_inner(Doc(s2).root());
  hext::Html c(s2.c_str(), s2.size());
  c = std::move(m);
  eq(hext::NodeInnerHtml(c.root()), w, "assigned handle has not got the document");
  m = hext::Html(s2.c_str(), s2.size());
  eq(hext::NodeInnerHtml(m.root()), w2, "handle assigned from a temporary has not got the document");
  vector<hext::Html> v; for (int i = 0; i < 5; ++i) { v.emplace_back(s.c_str(), s.size()); v.push_back(hext::Html(s2.c_str(), s2.size())); }
  v.erase(v.begin());
  for (size_t i = 0; i < v.size(); ++i) eq(hext::NodeInnerHtml(v[i].root()), i % 2 ? w : w2, "document in a container differs");
  hext::Html z(s.c_str()); eq(hext::NodeInnerHtml(z.root()), w, "document from a C string differs");
  auto f = [&]() { hext::Html x(s.c_str(), s.size()); return x; };
  hext::Html y = f(); eq(hext::NodeInnerHtml(y.root()), w, "returned document differs");
  hext::Html& yr = y; y = std::move(yr);
}
void judge_text(const string& t); void t_parse(); void t_reject(); void t_json();
static void t_safety()
{
  Doc d(rnd_html());
  auto s = rnd_seq(1); hext::Rule r = make_seq(s);
  for (NP n : d.nodes) {
    note("matching and extracting from " + desc(n) + "\nrule\n" + str_seq(s) + "html " + show(d.html));
    r.matches(n); r.capture(n); auto got = r.extract(n); auto want = ref_records(ref_search(s, n)); eq(static_cast<vector<std::multimap<string, string>>>(got), want, "extract from a node: got " + recs(got) + "\nexpected " + recs(want));
    hext::NodeText(n); hext::StripTags(n); hext::NodeInnerHtml(n); hext::NextNode(n); eq(hext::NextNode(n), ref_next(n), "next sibling differs");
  }
  note("null node"); r.matches(nullptr); r.capture(nullptr); hext::NextNode(nullptr);
  GumboNode lone; memset(&lone, 0, sizeof lone); lone.type = GUMBO_NODE_ELEMENT; lone.v.element.tag = GUMBO_TAG_DIV; lone.index_within_parent = size_t(-1);
  note("element without parent\nrule\n" + str_seq(s)); r.matches(&lone); for (int k = 0; k < 10; ++k) { SMatch m = rnd_match(); note("element without parent, condition " + m.str()); eq(m.make()->matches(&lone), m.eval(&lone), "wrong answer"); }
  note("element without parent\nrule\n" + str_seq(s)); r.extract(&lone); hext::NodeText(&lone); hext::NodeInnerHtml(&lone);
  t_strings(); t_tests();
}
int main(int argc, char ** argv)
{
  if (argc < 5) return 2;
  string prop = PROP = argv[1]; if (prop == "WORDS" && argc > 6) PROP = argv[6]; R.s = strtoull(argv[2], nullptr, 10) * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; double secs = atof(argv[3]);
  int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0600); if (ftruncate(fd, NOTESZ)) return 2;
  NOTE = static_cast<char *>(mmap(nullptr, NOTESZ, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
  std::map<string, vector<std::function<void()>>> T;
  T["C01"] = T["C02"] = T["C03"] = T["C04"] = {t_extract};
  T["C04"].push_back(t_caps);
  T["C05"] = {t_accept}; T["C06"] = {[] { t_match(6); }}; T["C07"] = {[] { t_match(7); }}; T["C08"] = {t_tests, t_tests, t_tests, t_tests, [] { t_match(8); }};
  T["C09"] = {t_strings}; T["C10"] = {t_text}; T["C11"] = {t_inner}; T["C12"] = {t_caps}; T["C13"] = {t_pipes}; T["C14"] = {t_copy, t_assign}; T["C15"] = {t_builder, t_setters};
#ifdef WITH_PARSER
  T["C16"] = T["C17"] = T["C18"] = {t_parse, t_reject}; T["C19"] = {t_reject};
#endif
#ifdef WITH_JSON
  T["C21"] = {t_json};
#endif
  T["C20"] = {t_safety, t_extract, [] { t_match(0); }, t_text, t_inner, t_pipes}; T["C22"] = {t_pure}; T["C23"] = {t_handles, t_html};
#ifdef WITH_PARSER
  if (prop == "WORDS") { // argv[5]: rule texts, one per line in hexadecimal
    FILE * f = fopen(argv[5], "r"); char line[1 << 16]; long k = 0;
    while (f && fgets(line, sizeof line, f)) { string w; for (size_t i = 0; line[i] > ' ' && line[i + 1] > ' '; i += 2) { char b[3] = {line[i], line[i + 1], 0}; w += char(strtol(b, nullptr, 16)); } judge_text(w); ++k; }
    printf("CASES %ld\n", k); fflush(stdout); _exit(0);
  }
#endif
  auto it = T.find(prop); if (it == T.end()) { printf("NOTHING\n"); return 0; }
  long n = 0; timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  for (;;) {
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (double(t1.tv_sec - t0.tv_sec) + double(t1.tv_nsec - t0.tv_nsec) * 1e-9 > secs) break;
    try { it->second[size_t(n) % it->second.size()](); }
    catch (const std::exception& e) { fail(string("unexpected exception: ") + e.what()); }
    ++n;
  }
  printf("CASES %ld\n", n);
  fflush(stdout);
  _exit(0);
}
