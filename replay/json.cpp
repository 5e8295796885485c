// PrintJson against an independent reading of its output.
#include "h.h"
#include "htmlext/Json.h"

namespace {
struct V { char kind = 0; string s; vector<V> items; vector<pair<string, V>> members;
  bool operator==(const V& o) const { return kind == o.kind && s == o.s && items == o.items && members == o.members; } };
struct Bad { string why; };
struct P {
  const string& t; size_t i = 0;
  void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) ++i; }
  char at() { if (i >= t.size()) throw Bad{"the text ends inside a value"}; return t[i]; }
  void eat(char c) { if (at() != c) throw Bad{string("expected '") + c + "' at byte " + std::to_string(i)}; ++i; }
  unsigned hex4() { unsigned v = 0; for (int k = 0; k < 4; ++k) { char c = at(); ++i; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) throw Bad{"bad \\u escape"}; v = v * 16 + unsigned(d); } return v; }
  string str() {
    string r; eat('"');
    for (;;) {
      char c = at(); ++i;
      if (c == '"') return r;
      if (static_cast<unsigned char>(c) < 0x20) throw Bad{"control character inside a string"};
      if (c != '\\') { r += c; continue; }
      c = at(); ++i;
      switch (c) {
        case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
        case '"': case '\\': case '/': r += c; break;
        case 'u': { unsigned u = hex4();
          if (u >= 0xd800 && u < 0xdc00) { eat('\\'); eat('u'); u = 0x10000 + ((u - 0xd800) << 10) + (hex4() - 0xdc00); }
          if (u < 0x80) r += char(u); else if (u < 0x800) { r += char(0xc0 | u >> 6); r += char(0x80 | (u & 63)); }
          else if (u < 0x10000) { r += char(0xe0 | u >> 12); r += char(0x80 | (u >> 6 & 63)); r += char(0x80 | (u & 63)); }
          else { r += char(0xf0 | u >> 18); r += char(0x80 | (u >> 12 & 63)); r += char(0x80 | (u >> 6 & 63)); r += char(0x80 | (u & 63)); }
          break; }
        default: throw Bad{"unknown escape"};
      }
    }
  }
  V val() {
    ws(); V v; v.kind = at();
    if (v.kind == '"') { v.s = str(); return v; }
    if (v.kind == '[') { eat('['); ws(); if (at() == ']') { ++i; return v; } for (;;) { v.items.push_back(val()); ws(); if (at() == ',') { ++i; continue; } eat(']'); return v; } }
    if (v.kind == '{') { eat('{'); ws(); if (at() == '}') { ++i; return v; }
      for (;;) { ws(); string n = str(); ws(); eat(':'); v.members.emplace_back(n, val()); ws(); if (at() == ',') { ++i; continue; } eat('}'); break; }
      std::stable_sort(v.members.begin(), v.members.end(), [](auto& a, auto& b) { return a.first < b.first; }); return v; }
    throw Bad{string("unexpected '") + v.kind + "' at byte " + std::to_string(i)};
  }
};
string rnd_word(bool name)
{
  static const vector<string> names = {"a", "b", "a b", "", "A", "link", "\"", "b\n"};
  if (name && !R.coin(4)) return pick(names);
  static const vector<string> parts = {"x", "<b>", "\"", "\\", "/", "\n", "\t", "\x01", "\x1f", "\x7f", "\xc3\xa4", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "'", "{", "[", ",", string(1, '\0'), "abc", "\b\f\r"};
  string r; for (int n = R.below(R.coin(40) ? 300 : 6); n > 0; --n) r += pick(parts);
  return r;
}
}

void t_json()
{
  hext::Result res; string in;
  for (int n = R.below(5); n > 0; --n) {
    std::multimap<string, string> m; in += "  record:";
    int k = R.coin(20) ? R.below(40) : R.below(7);
    for (; k > 0; --k) { string a = rnd_word(true), b = rnd_word(false); m.emplace(a, b); in += " " + show(a) + "=" + show(b); }
    in += "\n"; res.push_back(m);
  }
  int opt = R.below(4);
  string what = "PrintJson, options " + string(opt & 2 ? "array " : "") + (opt & 1 ? "pretty" : "") + "\n" + in;
  note(what);
  V want; want.kind = '[';
  for (auto& m : res) {
    V o; o.kind = '{';
    for (auto it = m.begin(); it != m.end();) {
      auto e = m.upper_bound(it->first); string n = it->first; vector<V> vs;
      for (; it != e; ++it) { V s; s.kind = '"'; s.s = it->second; vs.push_back(s); }
      V v; if (vs.size() == 1) v = vs[0]; else { v.kind = '['; v.items = vs; }
      o.members.emplace_back(n, v);
    }
    want.items.push_back(o);
  }
  string pre = R.coin(3) ? "earlier\n" : "";
  std::ostringstream out; out << pre;
  htmlext::PrintJson(res, static_cast<htmlext::JsonOption>(opt), out);
  string got = out.str(); string all = got;
  auto bad = [&](const string& why) { fail(what + "output:\n" + show(all) + "\n" + why); };
  if (got.compare(0, pre.size(), pre)) bad("what had been written before is lost");
  got.erase(0, pre.size());
  bool env = opt & 2, pretty = opt & 1;
  if (got.empty() && res.empty()) return;
  if (got.empty() || got.back() != '\n') bad("the output does not end with a line break");
  if (!pretty && size_t(std::count(got.begin(), got.end(), '\n')) != (env ? (res.empty() ? 0 : 1) : res.size())) bad("not one line per " + string(env ? "result" : "record"));
  try {
    P p{got}; V v; v.kind = '[';
    if (env) { v = p.val(); p.ws(); if (p.i != got.size()) bad("more than one value"); }
    else for (p.ws(); p.i < got.size(); p.ws()) { size_t s = p.i; if (s && got[s - 1] != '\n') bad("a record does not start on a line of its own"); v.items.push_back(p.val()); }
    if (!(v == want)) bad("the values read back are not the records' (one object per record, in order; each name once; a string, or the array of all values in order)");
  } catch (const Bad& b) { bad("not JSON: " + b.why); }
}
