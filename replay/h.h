// Replay/search harness: random inputs for the real code, judged by independent oracles.
// It decides nothing by itself: it turns failed proof obligations into concrete failing inputs.
#pragma once
#include "hext/Hext.h"
#include "hext/Version.h"
#include "NodeUtil.h"
#include "StringUtil.h"
#include <gumbo.h>
#include <boost/regex.hpp>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <utility>
#include <vector>
#include <algorithm>
using std::string; using std::vector; using std::pair; using std::optional; using std::unique_ptr;
typedef const GumboNode * NP;
typedef optional<string> OS;

struct Rng { uint64_t s; uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1DULL; }
  int below(int n) { return n <= 0 ? 0 : int((next() >> 33) % uint64_t(n)); } bool coin(int n = 2) { return below(n) == 0; } };
extern Rng R;
void note(const string& s);                       // what is about to run (survives a crash or hang)
[[noreturn]] void fail(const string& s);          // prints the failing input and stops
string show(const string& s);                     // quoted, escaped
template<class T> const T& pick(const vector<T>& v) { return v[R.below(int(v.size()))]; }

string rnd_value();                               // attribute/text-like content without NUL
string rnd_html();
struct Doc { string html; hext::Html h; vector<NP> nodes; Doc(const string& s); NP root() const { return h.root(); } };

// ---- descriptions with their documented meaning
struct STest { int kind = 0; string lit; vector<string> words; boost::regex rx; string rxs; std::shared_ptr<STest> sub; bool eval(const OS& v) const; unique_ptr<hext::ValueTest> make() const; string str() const; };
STest rnd_test(int depth = 2);
struct SPipe { int kind = 0; string a, b; boost::regex rx; string eval(const string& s) const; unique_ptr<hext::StringPipe> make() const; string str() const; };
SPipe rnd_pipe();
string eval_pipes(const vector<SPipe>& p, string s);
unique_ptr<hext::StringPipe> make_pipes(const vector<SPipe>& p);
struct SMatch { int kind = 0; int a = 0, b = 0, opt = 0; string name; int fn = 0; optional<STest> test; vector<SMatch> subs; boost::regex rx; string rxs; bool eval(NP n) const; unique_ptr<hext::Match> make() const; string str() const; };
SMatch rnd_match(int depth = 2);
struct SCap { int kind = 0; string attr, name; int fn = 0; vector<SPipe> pipes; optional<pair<string, string>> eval(NP n) const; unique_ptr<hext::Capture> make() const; string str() const; };
SCap rnd_cap();
struct SRule { bool any = true; string tag; bool opt = false, greedy = false; vector<SMatch> ms; vector<SCap> cs; vector<SRule> kids; vector<vector<SRule>> nested; bool accepts(NP n) const; string str(int ind = 0) const; };
hext::Rule make_seq(const vector<SRule>& s);
hext::Rule make_one(const SRule& s);
string str_seq(const vector<SRule>& s, int ind = 0);
vector<SRule> rnd_seq(int depth, bool caps = true);
hext::CaptureFunction fn_of(int k);
string fn_eval(int k, NP n);

// ---- the documented search
typedef pair<const SRule *, NP> SP;
struct Found { vector<vector<SP>> groups; long cost = 0; };
Found ref_search(const vector<SRule>& s, NP n);
vector<std::multimap<string, string>> ref_records(const Found& f);

// ---- documents
bool el(NP n);
NP ref_next(NP n);
string ref_tagname(NP n);
OS ref_attr(NP n, const string& name, bool * present);
string ref_text(NP n), ref_strip(NP n, bool wrap), ref_inner(NP n), ref_collapse(const string& s);
