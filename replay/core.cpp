#include "h.h"
#include <strings.h>
// ------------------------------------------------------------------ inputs
string show(const string& s)
{
  string r = "\"";
  for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += char(c); } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); r += b; } else r += char(c); }
  return r + "\"";
}
static const vector<string> WORDS = {"a", "b", "foo", "bar", "foo bar", "ab", "A", "B", "Foo", "x", "1", "12", "\xc3\xa4", "\xff", "-", ".", "\"", "\\", "'", "&amp;"};
static const vector<string> GAPS = {"", " ", "  ", "\t", "\n", "\r\n", "\f", "\v", " \n "};
string rnd_value() { string s; int n = R.below(4); if (R.coin(6)) s += pick(GAPS); for (int i = 0; i < n; ++i) { s += pick(WORDS); if (R.coin()) s += pick(GAPS); } return s; }
static string enc(const string& s) { string r; for (char c : s) { if (c == '"') r += "&quot;"; else if (c == '<') r += "&lt;"; else r += c; } return r; }
static const vector<string> TAGS = {"div", "p", "a", "span", "b", "ul", "li", "x-y", "X-Y", "x-yz", "fieldset", "section", "blink", "i"};
static const vector<string> ANAMES = {"class", "id", "href", "data-x", "title", "Class"};
static void gen(string& o, int depth, int& left)
{
  int n = R.below(5) + (depth == 0);
  for (int i = 0; i < n && left > 0; ++i) {
    --left;
    int k = R.below(20);
    if (k < 5) o += enc(rnd_value());
    else if (k == 5) o += "<!--" + pick(vector<string>{"c", " x y ", "-"}) + "-->";
    else if (k == 6) o += pick(vector<string>{"<br>", "<img src=\"a\">", "<hr/>", "<input value=\"foo\">", "<wbr>"});
    else if (k == 7) o += "<svg xlink:href=\"a\" xml:lang=\"b\" xmlns=\"http://www.w3.org/2000/svg\" xmlns:xlink=\"http://www.w3.org/1999/xlink\"><my-g/><g xlink:title=\"q\">" + enc(rnd_value()) + "</g></svg>";
    else if (k == 8) o += pick(vector<string>{"<template><p>t</p></template>", "<script>a < b</script>", "<style>x</style>", "<textarea> q </textarea>", "<pre>\n x\n</pre>"});
    else {
      string t = R.coin(5) ? string(gumbo_normalized_tagname(GumboTag(R.below(int(GUMBO_TAG_UNKNOWN))))) : pick(TAGS);
      if (t == "plaintext" || t == "frameset" || t == "noframes") t = "div";
      o += "<" + t;
      int na = R.below(3);
      vector<string> seen;
      for (int j = 0; j < na; ++j) { string a = pick(ANAMES); bool d = false; for (auto& s : seen) if (!strcasecmp(s.c_str(), a.c_str())) d = true; if (d) continue; seen.push_back(a); o += " " + a; if (!R.coin(6)) o += "=\"" + enc(rnd_value()) + "\""; }
      o += ">";
      if (depth < 5) gen(o, depth + 1, left);
      o += "</" + t + ">";
    }
  }
}
string rnd_html() { string o; if (R.coin(3)) o += pick(vector<string>{"<!DOCTYPE html>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD XHTML 1.0 Strict//EN\" \"http://x/y.dtd\">", "<!--top-->"}); int left = 3 + R.below(30); if (R.coin(3)) o += "<body class=\"foo\">"; gen(o, 0, left); return o; }
static void walk(NP n, vector<NP>& v)
{
  v.push_back(n);
  const GumboVector * c = nullptr;
  if (n->type == GUMBO_NODE_ELEMENT || n->type == GUMBO_NODE_TEMPLATE) c = &n->v.element.children;
  if (n->type == GUMBO_NODE_DOCUMENT) c = &n->v.document.children;
  if (c) for (unsigned i = 0; i < c->length; ++i) walk(static_cast<NP>(c->data[i]), v);
}
Doc::Doc(const string& s) : html(s), h(html.c_str(), html.size()) { if (h.root()) { NP r = h.root(); while (r->parent) r = r->parent; walk(r, nodes); } }

// ------------------------------------------------------------------ documents
bool el(NP n) { return n && n->type == GUMBO_NODE_ELEMENT; }
NP ref_next(NP n)
{
  if (!n || !el(n->parent)) return nullptr;
  const GumboVector& c = n->parent->v.element.children;
  for (unsigned i = 0; i + 1 < c.length; ++i) if (c.data[i] == n) return static_cast<NP>(c.data[i + 1]);
  return nullptr;
}
static string orig_name(NP n)
{
  string s(n->v.element.original_tag.data ? n->v.element.original_tag.data : "", n->v.element.original_tag.data ? n->v.element.original_tag.length : 0);
  if (s.empty() || s[0] != '<') return "";
  size_t b = s.size() > 1 && s[1] == '/' ? 2 : 1, e = b;
  while (e < s.size() && !strchr(" \t\n\f\r/>", s[e])) ++e;
  return s.substr(b, e - b);
}
string ref_tagname(NP n) { return n->v.element.tag == GUMBO_TAG_UNKNOWN ? orig_name(n) : string(gumbo_normalized_tagname(n->v.element.tag)); }
OS ref_attr(NP n, const string& name, bool * present)
{
  *present = false;
  if (!el(n)) return {};
  for (unsigned i = 0; i < n->v.element.attributes.length; ++i) {
    auto a = static_cast<const GumboAttribute *>(n->v.element.attributes.data[i]);
    if (a->name && !strcasecmp(a->name, name.c_str())) { *present = true; if (a->value) return string(a->value); return {}; }
  }
  return {};
}
string ref_collapse(const string& s)
{
  vector<string> runs(1);
  for (char c : s) { if (c == ' ' || c == '\t' || c == '\n' || c == '\f' || c == '\r') { if (!runs.back().empty()) runs.emplace_back(); } else runs.back() += c; }
  string r;
  for (auto& x : runs) if (!x.empty()) { if (!r.empty()) r += ' '; r += x; }
  return r;
}
static bool is_inline(NP n)
{
  static const vector<string> I = {"a", "abbr", "acronym", "b", "bdo", "big", "cite", "code", "del", "dfn", "em", "fieldset", "font", "i", "img", "ins", "kbd", "label", "legend", "map", "object", "q", "s", "samp", "small", "span", "strike", "strong", "sub", "sup", "tt", "u", "var"};
  string t = n->v.element.tag == GUMBO_TAG_UNKNOWN ? "" : gumbo_normalized_tagname(n->v.element.tag);
  return std::find(I.begin(), I.end(), t) != I.end();
}
string ref_strip(NP n, bool wrap)
{
  if (!n) return "";
  if (n->type == GUMBO_NODE_TEXT || n->type == GUMBO_NODE_WHITESPACE) return n->v.text.text;
  if (!el(n)) return "";
  string r;
  for (unsigned i = 0; i < n->v.element.children.length; ++i) {
    NP c = static_cast<NP>(n->v.element.children.data[i]);
    bool w = wrap && el(c) && !is_inline(c);
    r += (w ? "\n" : "") + ref_strip(c, wrap) + (w ? "\n" : "");
  }
  return r;
}
string ref_text(NP n) { return ref_collapse(ref_strip(n, true)); }
static string quoted(const char * s) { string r = "\""; for (; *s; ++s) { if (*s == '"' || *s == '\\') r += '\\'; r += *s; } return r + "\""; }
static string ser(NP n)
{
  static const vector<string> V = {"area", "base", "br", "col", "embed", "hr", "img", "input", "keygen", "link", "meta", "param", "source", "track", "wbr"};
  switch (n->type) {
    case GUMBO_NODE_TEXT: case GUMBO_NODE_WHITESPACE: return n->v.text.text;
    case GUMBO_NODE_COMMENT: return "<!--" + string(n->v.text.text) + "-->";
    case GUMBO_NODE_ELEMENT: case GUMBO_NODE_TEMPLATE: {
      string t = ref_tagname(n), r = "<" + t;
      for (unsigned i = 0; i < n->v.element.attributes.length; ++i) {
        auto a = static_cast<const GumboAttribute *>(n->v.element.attributes.data[i]);
        if (!a->name) continue;
        r += " "; r += a->attr_namespace == GUMBO_ATTR_NAMESPACE_XLINK ? "xlink:" : a->attr_namespace == GUMBO_ATTR_NAMESPACE_XML ? "xml:" : a->attr_namespace == GUMBO_ATTR_NAMESPACE_XMLNS ? "xmlns:" : "";
        r += a->name; if (a->value) r += "=" + quoted(a->value);
      }
      if (n->v.element.tag != GUMBO_TAG_UNKNOWN && std::find(V.begin(), V.end(), t) != V.end()) return r + "/>";
      r += ">";
      for (unsigned i = 0; i < n->v.element.children.length; ++i) r += ser(static_cast<NP>(n->v.element.children.data[i]));
      return r + "</" + t + ">";
    }
    case GUMBO_NODE_DOCUMENT: { if (!n->v.document.has_doctype) return ""; string r = "<!DOCTYPE"; for (auto p : {n->v.document.name, n->v.document.public_identifier, n->v.document.system_identifier}) if (p) r += string(" ") + p; return r + ">\n"; }
    default: return "";
  }
}
string ref_inner(NP n) { string r; if (el(n)) for (unsigned i = 0; i < n->v.element.children.length; ++i) r += ser(static_cast<NP>(n->v.element.children.data[i])); return r; }

// ------------------------------------------------------------------ value tests
static const vector<string> RX = {"a", "^b", "foo|bar", "(a)(b)?", "o+", "^$", "\\s", "[a-c]+", "^foo bar$", "x?", "."};
bool STest::eval(const OS& v) const
{
  if (kind == 6) return !sub->eval(v);
  if (kind == 7) return !v;                         // negation of nothing: absence
  if (!v) return false;
  const string& s = *v;
  switch (kind) {
    case 0: return s == lit;
    case 1: return s.size() >= lit.size() && s.substr(0, lit.size()) == lit;
    case 2: return s.size() >= lit.size() && s.substr(s.size() - lit.size()) == lit;
    case 3: return s.find(lit) != string::npos;
    case 4: {
      if (words.empty()) return false;
      for (auto& w : words) {
        bool ok = false;
        for (size_t i = 0; !w.empty() && i + w.size() <= s.size(); ++i)
          if (s.compare(i, w.size(), w) == 0 && (i == 0 || s[i - 1] == ' ') && (i + w.size() == s.size() || s[i + w.size()] == ' ')) ok = true;
        if (!ok) return false;
      }
      return true;
    }
    case 5: return boost::regex_search(s, rx);
  }
  return false;
}
unique_ptr<hext::ValueTest> STest::make() const
{
  switch (kind) {
    case 0: return std::make_unique<hext::EqualsTest>(lit);
    case 1: return std::make_unique<hext::BeginsWithTest>(lit);
    case 2: return std::make_unique<hext::EndsWithTest>(lit);
    case 3: return std::make_unique<hext::ContainsTest>(lit);
    case 4: if (!lit.empty()) return std::make_unique<hext::ContainsWordsTest>(lit); return std::make_unique<hext::ContainsWordsTest>(words);
    case 5: return std::make_unique<hext::RegexTest>(rx);
    case 6: return std::make_unique<hext::NegateTest>(sub->make());
    default: return std::make_unique<hext::NegateTest>(nullptr);
  }
}
string STest::str() const
{
  static const char * N[] = {"Equals", "BeginsWith", "EndsWith", "Contains", "ContainsWords", "Regex", "Negate", "NegateNull"};
  string r = N[kind];
  if (kind == 5) return r + "(/" + rxs + "/)";
  if (kind == 6) return r + "(" + sub->str() + ")";
  if (kind == 4) { r += lit.empty() ? "[" : "(" + show(lit) + ")["; for (auto& w : words) r += show(w) + ","; return r + "]"; }
  return r + "(" + show(lit) + ")";
}
STest rnd_test(int depth)
{
  STest t;
  t.kind = R.below(depth > 0 ? 8 : 6);
  if (t.kind == 7 && !R.coin(3)) t.kind = 0;
  t.lit = R.coin(8) ? "" : R.coin(3) ? rnd_value() : pick(WORDS);
  if (t.kind == 4) {
    string l;
    int n = 1 + R.below(3);
    for (int i = 0; i < n; ++i) { if (i) l += R.coin(4) ? "  " : " "; l += pick(vector<string>{"foo", "bar", "a", "b", "x"}); }
    if (R.coin(5)) l = " " + l;
    std::istringstream is(l); string w; while (is >> w) t.words.push_back(w);
    t.lit = R.coin() ? l : "";
    if (R.coin(12)) { t.words.clear(); t.lit = ""; }
  }
  if (t.kind == 5) { t.rxs = pick(RX); t.rx = R.coin(3) ? boost::regex(t.rxs, boost::regex::perl | boost::regex::icase) : boost::regex(t.rxs); }
  if (t.kind == 6) t.sub = std::make_shared<STest>(rnd_test(depth - 1));
  return t;
}
// ------------------------------------------------------------------ pipes
static string trimmed(string s, const string& set) { size_t b = 0, e = s.size(); while (b < e && set.find(s[b]) != string::npos) ++b; while (e > b && set.find(s[e - 1]) != string::npos) --e; return s.substr(b, e - b); }
string SPipe::eval(const string& s) const
{
  switch (kind) {
    case 0: return s + a;
    case 1: return a + s;
    case 2: case 3: { string r = s; for (char& c : r) { if (kind == 2 && c >= 'A' && c <= 'Z') c = char(c + 32); if (kind == 3 && c >= 'a' && c <= 'z') c = char(c - 32); } return r; }
    case 4: return ref_collapse(s);
    case 5: { boost::smatch m; string t = s; if (!boost::regex_search(t, m, rx)) return ""; return m.size() > 1 ? string(m[1].first, m[1].second) : string(m[0].first, m[0].second); }
    case 6: return boost::regex_replace(s, rx, b);
    default: return trimmed(s, a);
  }
}
unique_ptr<hext::StringPipe> SPipe::make() const
{
  switch (kind) {
    case 0: return std::make_unique<hext::AppendPipe>(a);
    case 1: return std::make_unique<hext::PrependPipe>(a);
    case 2: return std::make_unique<hext::CasePipe>(hext::CasePipe::ToLower);
    case 3: return std::make_unique<hext::CasePipe>(hext::CasePipe::ToUpper);
    case 4: return std::make_unique<hext::CollapseWsPipe>();
    case 5: return std::make_unique<hext::RegexPipe>(rx);
    case 6: return std::make_unique<hext::RegexReplacePipe>(rx, b);
    default: return std::make_unique<hext::TrimPipe>(a);
  }
}
string SPipe::str() const { static const char * N[] = {"append", "prepend", "tolower", "toupper", "collapsews", "filter", "replace", "trim"}; return string(N[kind]) + "(" + show(kind == 5 || kind == 6 ? rx.str() : a) + (kind == 6 ? "," + show(b) : "") + ")"; }
SPipe rnd_pipe()
{
  SPipe p; p.kind = R.below(8);
  p.a = R.coin(5) ? rnd_value() : pick(WORDS); p.b = pick(vector<string>{"", "z", "$1", "$&$&", "zz"});
  if (p.kind == 7) p.a = pick(vector<string>{" ", "a", "ab", " \n", "fo", ""});
  if (p.kind == 5 || p.kind == 6) p.rx = boost::regex(pick(vector<string>{"a", "(a)(b)?", "o+", "f(o)", "(x)?b", "(foo) (bar)", "[a-c]", "(z)|a"}));
  return p;
}
string eval_pipes(const vector<SPipe>& p, string s) { for (auto& x : p) s = x.eval(s); return s; }
unique_ptr<hext::StringPipe> make_pipes(const vector<SPipe>& p)
{
  unique_ptr<hext::StringPipe> r;
  for (auto& x : p) { if (!r) r = x.make(); else r->append(x.make()); }
  return r;
}
// ------------------------------------------------------------------ conditions
hext::CaptureFunction fn_of(int k)
{
  switch (k) { case 0: return hext::TextBuiltin; case 1: return hext::InnerHtmlBuiltin; case 2: return hext::StripTagsBuiltin; }
  return [](NP n) { return string(n ? (n->type == GUMBO_NODE_ELEMENT ? "el" : "no") : "null"); };
}
string fn_eval(int k, NP n)
{
  switch (k) { case 0: return ref_text(n); case 1: return ref_inner(n); case 2: return ref_strip(n, false); }
  return n ? (n->type == GUMBO_NODE_ELEMENT ? "el" : "no") : "null";
}
static bool same_tag(NP a, NP b) { return a->v.element.tag == b->v.element.tag; }
bool SMatch::eval(NP n) const
{
  switch (kind) {
    case 0: return el(n) && int(n->v.element.attributes.length) == a;
    case 1: { if (!el(n)) return false; bool has; OS v = ref_attr(n, name, &has); if (!test) return has; if (has && !v) return false; return test->eval(v); }
    case 2: { if (!el(n)) return false; int c = 0; for (unsigned i = 0; i < n->v.element.children.length; ++i) c += el(static_cast<NP>(n->v.element.children.data[i])); return c == a; }
    case 3: return n->type == GUMBO_NODE_ELEMENT ? a & 1 : a & 2;
    case 4: return test && test->eval(string(fn_eval(fn, n).c_str()));
    case 5: for (auto& s : subs) if (s.eval(n)) return false; return true;
    case 6: {
      if (!el(n)) return false;
      long long pos = 0;
      bool first = opt & hext::NthChildMatch::First, oftype = opt & hext::NthChildMatch::OfType;
      if (el(n->parent)) {
        const GumboVector& c = n->parent->v.element.children;
        unsigned me = 0; for (unsigned i = 0; i < c.length; ++i) if (c.data[i] == n) me = i;
        for (unsigned i = 0; i < c.length; ++i) { NP x = static_cast<NP>(c.data[i]); if (el(x) && (!oftype || same_tag(x, n)) && (first ? i <= me : i >= me)) ++pos; }
      }
      long long d = pos - b;
      return a == 0 ? d == 0 : d % a == 0 && d / a >= 0;
    }
    case 7: {
      if (!el(n) || !el(n->parent)) return false;
      const GumboVector& c = n->parent->v.element.children;
      for (unsigned i = 0; i < c.length; ++i) { NP x = static_cast<NP>(c.data[i]); if (el(x) && x != n && (!(opt & hext::OnlyChildMatch::OfType) || same_tag(x, n))) return false; }
      return true;
    }
    default: return boost::regex_search(el(n) ? ref_tagname(n) : string(), rx);
  }
}
unique_ptr<hext::Match> SMatch::make() const
{
  switch (kind) {
    case 0: return std::make_unique<hext::AttributeCountMatch>(unsigned(a));
    case 1: return std::make_unique<hext::AttributeMatch>(name, test ? test->make() : nullptr);
    case 2: return std::make_unique<hext::ChildCountMatch>(unsigned(a));
    case 3: { int m = a; return std::make_unique<hext::FunctionMatch>([m](NP n) { return bool(n->type == GUMBO_NODE_ELEMENT ? m & 1 : m & 2); }); }
    case 4: return std::make_unique<hext::FunctionValueMatch>(fn_of(fn), test ? test->make() : nullptr);
    case 5: { if (subs.size() == 1 && (a & 1)) return std::make_unique<hext::NegateMatch>(subs[0].make());
              if (a & 2) { auto m = std::make_unique<hext::NegateMatch>(); for (auto& s : subs) m->append_match(s.make()); return m; }
              vector<unique_ptr<hext::Match>> v; for (auto& s : subs) v.push_back(s.make()); return std::make_unique<hext::NegateMatch>(std::move(v)); }
    case 6: return (a & 1) ? std::make_unique<hext::NthChildMatch>(a, b, hext::NthChildMatch::Option(opt)) : std::make_unique<hext::NthChildMatch>(pair<int, int>(a, b), hext::NthChildMatch::Option(opt));
    case 7: return std::make_unique<hext::OnlyChildMatch>(hext::OnlyChildMatch::Option(opt));
    default: return std::make_unique<hext::TypeRegexMatch>(rx);
  }
}
string SMatch::str() const
{
  static const char * N[] = {"attribute-count", "attribute", "child-count", "function", "function-value", "not", "nth-child", "only-child", "type-matches"};
  string r = N[kind];
  r += "(";
  if (kind == 0 || kind == 2 || kind == 3) r += std::to_string(a);
  if (kind == 1) r += name + (test ? "," + test->str() : "");
  if (kind == 4) r += "fn" + std::to_string(fn) + (test ? "," + test->str() : ",null");
  if (kind == 5) for (auto& s : subs) r += s.str() + " ";
  if (kind == 6) r += std::to_string(a) + "n+" + std::to_string(b) + " options " + std::to_string(opt);
  if (kind == 7) r += "options " + std::to_string(opt);
  if (kind == 8) r += rxs;
  return r + ")";
}
SMatch rnd_match(int depth)
{
  SMatch m; m.kind = R.below(9);
  if (m.kind == 5 && depth <= 0) m.kind = 1;
  m.a = R.below(4); m.fn = R.below(4);
  if (m.kind == 1) { m.name = pick(vector<string>{"class", "id", "href", "data-x", "title", "CLASS", "nope", "src"}); if (!R.coin(3)) m.test = rnd_test(); }
  if (m.kind == 4 && !R.coin(10)) m.test = rnd_test();
  if (m.kind == 5) { int n = R.below(4); for (int i = 0; i < n; ++i) m.subs.push_back(rnd_match(depth - 1)); }
  if (m.kind == 6) {
    static const vector<int> E = {0, 1, 2, 3, -1, -2, -3, 5, 2147483647, -2147483647, INT32_MIN, INT32_MIN + 1, 7};
    m.a = pick(E); m.b = pick(E);
    if (R.coin()) { m.a = R.below(7) - 3; m.b = R.below(9) - 3; }
    m.opt = pick(vector<int>{2, 4, 10, 12});
  }
  if (m.kind == 7) m.opt = pick(vector<int>{2, 4});
  if (m.kind == 8) { m.rxs = pick(vector<string>{"^d", "p", "^x-y$", "X", "^$", "span|b", "[a-z]-"}); m.rx = boost::regex(m.rxs); }
  return m;
}
// ------------------------------------------------------------------ captures
optional<pair<string, string>> SCap::eval(NP n) const
{
  if (kind == 0) { bool has; OS v = ref_attr(n, attr, &has); if (!v) return {}; return pair<string, string>(name, eval_pipes(pipes, *v)); }
  return pair<string, string>(name, eval_pipes(pipes, fn_eval(fn, n)));
}
unique_ptr<hext::Capture> SCap::make() const
{
  if (kind == 0) return std::make_unique<hext::AttributeCapture>(attr, name, make_pipes(pipes));
  return std::make_unique<hext::FunctionCapture>(fn_of(fn), name, make_pipes(pipes));
}
string SCap::str() const { string r = kind == 0 ? "attr " + attr : "fn" + std::to_string(fn); for (auto& p : pipes) r += "|" + p.str(); return r + "->" + name; }
SCap rnd_cap()
{
  SCap c; c.kind = R.below(2); c.attr = pick(vector<string>{"class", "id", "href", "nope", "CLASS"}); c.name = pick(vector<string>{"n", "m", "k", "a b", ""}); c.fn = R.below(4);
  int n = R.below(4); for (int i = 0; i < n; ++i) c.pipes.push_back(rnd_pipe());
  return c;
}
// ------------------------------------------------------------------ rules
bool SRule::accepts(NP n) const
{
  if (!n) return false;
  if (!any) {
    if (!el(n)) return false;
    GumboTag t = gumbo_tag_enum(tag.c_str());
    if (n->v.element.tag != t) return false;
    if (t == GUMBO_TAG_UNKNOWN) { string o = orig_name(n); if (o.empty() || o.size() != tag.size() || strncasecmp(o.c_str(), tag.c_str(), o.size())) return false; }
  }
  for (auto& m : ms) if (!m.eval(n)) return false;
  return true;
}
hext::Rule make_one(const SRule& s)
{
  hext::Rule r = s.any ? hext::Rule(hext::HtmlTag::ANY, s.opt, s.greedy) : hext::Rule(s.tag, s.opt, s.greedy);
  for (auto& m : s.ms) r.append_match(m.make());
  for (auto& c : s.cs) r.append_capture(c.make());
  for (auto& k : s.kids) r.append_child(make_one(k));
  for (auto& n : s.nested) r.append_nested(make_seq(n));
  return r;
}
hext::Rule make_seq(const vector<SRule>& s) { hext::Rule r = make_one(s[0]); for (size_t i = 1; i < s.size(); ++i) r.append_next(make_one(s[i])); return r; }
string SRule::str(int ind) const
{
  string p(size_t(ind) * 2, ' '), r = p + "<" + (opt ? "?" : "") + (greedy ? "+" : "") + (any ? "*" : tag);
  for (auto& m : ms) r += " " + m.str();
  for (auto& c : cs) r += " {" + c.str() + "}";
  r += ">\n" + str_seq(kids, ind + 1);
  for (auto& n : nested) r += p + " nested{\n" + str_seq(n, ind + 1) + p + " }\n";
  return r;
}
string str_seq(const vector<SRule>& s, int ind) { string r; for (auto& x : s) r += x.str(ind); return r; }
vector<SRule> rnd_seq(int depth, bool caps)
{
  vector<SRule> v;
  int n = 1 + R.below(depth == 2 ? 4 : 3);
  for (int i = 0; i < n; ++i) {
    SRule r;
    r.any = R.coin(4);
    r.tag = pick(vector<string>{"div", "p", "a", "span", "b", "ul", "li", "x-y", "X-y", "img", "svg", "g"});
    r.opt = R.coin(3); r.greedy = R.coin(3);
    if (R.coin(4)) r.ms.push_back(rnd_match(1));
    if (R.coin(12)) r.ms.push_back(rnd_match(1));
    if (caps) { int c = R.below(3); for (int j = 0; j < c; ++j) { r.cs.push_back(rnd_cap()); if (r.cs.back().pipes.size() > 1) r.cs.back().pipes.resize(1); } }
    if (depth > 0 && R.coin(3)) r.kids = rnd_seq(depth - 1, caps);
    if (depth > 0 && R.coin(4)) { int k = 1 + R.below(2); for (int j = 0; j < k; ++j) r.nested.push_back(rnd_seq(depth - 1, caps)); }
    v.push_back(std::move(r));
  }
  return v;
}
// ------------------------------------------------------------------ the documented search
namespace {
typedef vector<SP> Ps;
struct Ref {
  long cost = 0;
  typedef const vector<SRule>& Q;
  static int mand(Q q, int b, int e) { for (; b < e; ++b) if (!q[size_t(b)].opt) return b; return e; }
  bool accept(const SRule& r, NP n, Ps& out)
  {
    if (!n || !r.accepts(n)) return false;
    if (r.kids.empty() && r.nested.empty()) return true;
    if (!el(n) || n->v.element.children.length == 0) return false;
    NP first = static_cast<NP>(n->v.element.children.data[0]);
    Ps sub;
    if (!r.kids.empty()) {
      bool ok = mand(r.kids, 0, int(r.kids.size())) == int(r.kids.size());
      for (NP x = first; x;) { Ps g; x = group(r.kids, x, g); if (!g.empty()) ok = true; sub.insert(sub.end(), g.begin(), g.end()); }
      if (!ok) return false;
    }
    for (auto& q : r.nested) {
      vector<Ps> gs; list(q, first, gs);
      if (gs.empty() && mand(q, 0, int(q.size())) != int(q.size())) return false;
      for (auto& g : gs) sub.insert(sub.end(), g.begin(), g.end());
    }
    out.insert(out.end(), sub.begin(), sub.end());
    return true;
  }
  // first sibling in [b, e) accepted by r, e if there is none
  NP first_match(const SRule& r, NP b, NP e, Ps& out) { for (; b && b != e; b = ref_next(b)) if (accept(r, b, out)) return b; return e; }
  NP gap(Q q, int rb, int re, NP nb, NP ne, NP last, Ps& out)
  {
    while (rb < re) {
      NP m = first_match(q[size_t(rb)], nb, ne, out);
      last = m;
      if (nb && m && m != ne) { out.emplace_back(&q[size_t(rb)], m); nb = ref_next(m); if (!q[size_t(rb)].greedy) ++rb; }
      else ++rb;
    }
    return last;
  }
  // one group from node on; where to continue
  NP group(Q q, NP node, Ps& out)
  {
    const int N = int(q.size());
    int r = 0; Ps sub;
    auto fed = [&](int i) { return i < N && q[size_t(i)].greedy && !sub.empty() && sub.back().first == &q[size_t(i)]; };
    while (r < N && node) {
      const SRule& x = q[size_t(r)];
      if (x.opt || fed(r)) {
        int stop = mand(q, r + 1, N); bool wraps = stop == N;
        if (wraps) { int w = mand(q, 0, r); if (w == r) { Ps g; NP l = gap(q, r, N, node, nullptr, nullptr, g); sub.insert(sub.end(), g.begin(), g.end()); out = sub; return ref_next(l); } stop = w; }
        Ps so; NP s = first_match(q[size_t(stop)], node, nullptr, so);
        if (wraps) { Ps g; gap(q, r, N, node, s, s, g); sub.insert(sub.end(), g.begin(), g.end()); out = sub; return s; }
        if (!s) return nullptr;
        sub.insert(sub.end(), so.begin(), so.end());
        gap(q, r, stop, node, s, s, sub);
        sub.emplace_back(&q[size_t(stop)], s);
        r = stop + 1; node = ref_next(s);
      } else {
        NP m = first_match(x, node, nullptr, sub);
        if (!m) return nullptr;
        sub.emplace_back(&x, m);
        node = ref_next(m);
        if (!x.greedy) ++r;
      }
    }
    if (fed(r)) ++r;
    while (r < N && q[size_t(r)].opt) ++r;
    if (r < N) return nullptr;
    out = sub;
    return node;
  }
  void list(Q q, NP node, vector<Ps>& out)
  {
    ++cost;
    for (NP x = node; x;) { Ps g; x = group(q, x, g); if (!g.empty()) out.push_back(g); }
    for (NP x = node; x; x = ref_next(x)) if (el(x) && x->v.element.children.length) list(q, static_cast<NP>(x->v.element.children.data[0]), out);
  }
};
}
Found ref_search(const vector<SRule>& s, NP n) { Ref r; Found f; r.list(s, n, f.groups); f.cost = r.cost; return f; }
vector<std::multimap<string, string>> ref_records(const Found& f)
{
  vector<std::multimap<string, string>> v;
  for (auto& g : f.groups) {
    vector<pair<string, string>> all;
    for (auto& p : g) for (auto& c : p.first->cs) if (auto x = c.eval(p.second)) all.push_back(*x);
    std::stable_sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.first < b.first; });
    std::multimap<string, string> m; for (auto& x : all) m.emplace_hint(m.end(), x);
    if (!m.empty()) v.push_back(m);
  }
  return v;
}
