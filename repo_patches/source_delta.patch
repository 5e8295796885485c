From 73b03b263e98fe89a67f4e48123b9ef7ee438c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 01/10] fix: ContainsWord skipped overlapping occurrences of
 words that contain spaces

---
 libhext/src/StringUtil.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libhext/src/StringUtil.cpp b/libhext/src/StringUtil.cpp
index d9bcc3a..fa2d96e 100644
--- a/libhext/src/StringUtil.cpp
+++ b/libhext/src/StringUtil.cpp
@@ -164,7 +164,9 @@ bool ContainsWord(std::string_view subject, std::string_view word) noexcept
     if( start_is_bound && end_is_bound )
       return true;
 
-    begin = end;
+    // continue behind the start of this occurrence: occurrences of a word that
+    // contains spaces may overlap
+    ++begin;
   }
 
   return false;
-- 
2.43.0


From 0e8cb4d7858df16aa8d0ce66a34eb4ec5efe060e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 02/10] fix: moving an Html freed the parsed document twice

---
 libhext/include/hext/Html.h |  4 ++--
 libhext/src/Html.cpp        | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/libhext/include/hext/Html.h b/libhext/include/hext/Html.h
index bbee510..c71e201 100644
--- a/libhext/include/hext/Html.h
+++ b/libhext/include/hext/Html.h
@@ -64,8 +64,8 @@ public:
   Html(const char * buffer, std::size_t size) noexcept;
 
   ~Html() noexcept;
-  Html(Html&&) noexcept = default;
-  Html& operator=(Html&&) noexcept = default;
+  Html(Html&& other) noexcept;
+  Html& operator=(Html&& other) noexcept;
 
   /// Returns a non-owning pointer to the root node of the HTML document.
   ///
diff --git a/libhext/src/Html.cpp b/libhext/src/Html.cpp
index 553ce7c..2b85321 100644
--- a/libhext/src/Html.cpp
+++ b/libhext/src/Html.cpp
@@ -15,6 +15,7 @@
 #include "hext/Html.h"
 
 #include <cstring>
+#include <utility>
 
 
 namespace hext {
@@ -36,6 +37,17 @@ Html::Html(const char * buffer) noexcept
 {
 }
 
+Html::Html(Html&& other) noexcept
+: g_outp_(std::exchange(other.g_outp_, nullptr))
+{
+}
+
+Html& Html::operator=(Html&& other) noexcept
+{
+  std::swap(this->g_outp_, other.g_outp_);
+  return *this;
+}
+
 Html::~Html() noexcept
 {
   if( this->g_outp_ )
-- 
2.43.0


From 31f1f9e23e41bf7261ee165d45a1205ae5250889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 03/10] fix: assigning a capture without a pipe dereferenced a
 null pointer

---
 libhext/src/AttributeCapture.cpp | 2 +-
 libhext/src/FunctionCapture.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libhext/src/AttributeCapture.cpp b/libhext/src/AttributeCapture.cpp
index 8631433..c772099 100644
--- a/libhext/src/AttributeCapture.cpp
+++ b/libhext/src/AttributeCapture.cpp
@@ -43,7 +43,7 @@ AttributeCapture& AttributeCapture::operator=(const AttributeCapture& other)
   {
     this->attr_name_ = other.attr_name_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
diff --git a/libhext/src/FunctionCapture.cpp b/libhext/src/FunctionCapture.cpp
index a3b0d0b..dd60108 100644
--- a/libhext/src/FunctionCapture.cpp
+++ b/libhext/src/FunctionCapture.cpp
@@ -43,7 +43,7 @@ FunctionCapture& FunctionCapture::operator=(const FunctionCapture& other)
   {
     this->func_ = other.func_;
     this->name_ = other.name_;
-    this->pipe_ = other.pipe_->clone();
+    this->pipe_ = other.pipe_ ? other.pipe_->clone() : nullptr;
   }
 
   return *this;
-- 
2.43.0


From 5dab05d30b80c368a03f859fae561a5cd0d38f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 04/10] fix: signed overflow in NthChildMatch for extreme steps
 and shifts

---
 libhext/src/NthChildMatch.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libhext/src/NthChildMatch.cpp b/libhext/src/NthChildMatch.cpp
index 6c266e8..c1213a1 100644
--- a/libhext/src/NthChildMatch.cpp
+++ b/libhext/src/NthChildMatch.cpp
@@ -67,7 +67,8 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
 
     // If step is positive, and the node is positioned after or equal to the
     // shift it must be a multiple of step, or it doesn't match.
-    return ( node_pos - this->shift_ ) % this->step_ == 0;
+    return ( static_cast<long long>(node_pos) - this->shift_ )
+             % this->step_ == 0;
   }
   else
   {
@@ -76,7 +77,8 @@ bool NthChildMatch::matches(const GumboNode * node) const noexcept
     if( node_pos > this->shift_ )
       return false;
 
-    return ( this->shift_ - node_pos ) % ( -1 * this->step_ ) == 0;
+    return ( static_cast<long long>(this->shift_) - node_pos )
+             % this->step_ == 0;
   }
 }
 
-- 
2.43.0


From c6feca46d2a28c29e1cd1f8c4371c5ea1b156d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 05/10] fix: NextNode dereferenced the null parent of a root
 node

---
 libhext/src/NodeUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhext/src/NodeUtil.cpp b/libhext/src/NodeUtil.cpp
index 5328b8e..717fd66 100644
--- a/libhext/src/NodeUtil.cpp
+++ b/libhext/src/NodeUtil.cpp
@@ -304,7 +304,7 @@ bool TagWrapsText(GumboTag tag) noexcept
 
 const GumboNode * NextNode(const GumboNode * node) noexcept
 {
-  if( !node || node->parent->type != GUMBO_NODE_ELEMENT )
+  if( !node || !node->parent || node->parent->type != GUMBO_NODE_ELEMENT )
     return nullptr;
 
   const GumboNode * parent = node->parent;
-- 
2.43.0


From 167a4457ce09983bbdd361945d389434a54a8457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:58 +0000
Subject: [PATCH 06/10] fix: CharName passed negative values to std::isprint

---
 libhext/src/StringUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libhext/src/StringUtil.cpp b/libhext/src/StringUtil.cpp
index fa2d96e..bffb13d 100644
--- a/libhext/src/StringUtil.cpp
+++ b/libhext/src/StringUtil.cpp
@@ -100,7 +100,7 @@ std::string CharName(char c)
   }
 
   int ci = c;
-  if( std::isprint(ci) )
+  if( std::isprint(static_cast<unsigned char>(c)) )
     return std::string(1, c);
   else
     return std::string("[ascii: ") + std::to_string(ci) + "]";
-- 
2.43.0


From 9dfef0764dd3a2ab2dd0fcef5a1a69d0b558c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 07/10] fix: numbers out of range in hext escaped as
 std::out_of_range instead of SyntaxError

---
 libhext/ragel/Parser.cpp.rl   | 15 ++++++++++++++
 libhext/ragel/hext-machine.rl |  8 ++++----
 libhext/src/Parser.cpp        | 37 ++++++++++++++++++++++++-----------
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/libhext/ragel/Parser.cpp.rl b/libhext/ragel/Parser.cpp.rl
index b0c7523..4d6f546 100644
--- a/libhext/ragel/Parser.cpp.rl
+++ b/libhext/ragel/Parser.cpp.rl
@@ -48,6 +48,8 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -121,6 +123,19 @@ Rule Parser::parse()
     );
   };
 
+  // Convenience lambda to convert a completed token to an integer. Used within
+  // the hext machine definition.
+  auto tk_int = [this, &tok]() -> int {
+    try
+    {
+      return std::stoi(tok);
+    }
+    catch( const std::out_of_range& )
+    {
+      this->throw_error_message("Number out of range");
+    }
+  };
+
 #ifndef _MSC_VER
   // Hide warnings generated by ragel code.
 #pragma GCC diagnostic push
diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index 9b9502f..f588e5e 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -70,13 +70,13 @@ nth_pattern = (
 
   ( ( ( '-'? [0-9]+ )
       >{ tk_start(); }
-      %{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+      %{ tk_stop(); pv.nth = {0, tk_int()}; }
     )
     ( 'n'
       %{ pv.nth = {pv.nth.second, 0}; }
       ( ( ('+'|'-') [0-9]+ )
         >{ tk_start(); }
-        %{ tk_stop(); pv.nth.second = std::stoi(tok); }
+        %{ tk_stop(); pv.nth.second = tk_int(); }
       )?
     )?
   )
@@ -120,14 +120,14 @@ trait = ':' (
   ( 'child-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<ChildCountMatch>(tk_int()); } )
     ')' )
   |
 
   ( 'attribute-count('
     ( [0-9]+
       >{ tk_start(); }
-      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); } )
+      %{ tk_stop(); pv.set_trait<AttributeCountMatch>(tk_int()); } )
     ')' )
   |
 
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index b299e10..3d8c3e4 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -51,6 +51,8 @@
 
 #include <vector>
 #include <sstream>
+#include <stdexcept>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -64,7 +66,7 @@ namespace hext {
 namespace ragel {
   /// Embed the ragel state machine.
   
-#line 67 "Parser.cpp.tmp"
+#line 66 "Parser.cpp.tmp"
 static const char _hext_actions[] = {
 	0, 1, 2, 1, 3, 1, 4, 1, 
 	5, 1, 6, 1, 7, 1, 8, 1, 
@@ -1758,7 +1760,7 @@ static const int hext_error = 0;
 static const int hext_en_main = 816;
 
 
-#line 67 "Parser.cpp.rl"
+#line 69 "Parser.cpp.rl"
 
 } // namespace ragel
 
@@ -1816,6 +1818,19 @@ Rule Parser::parse()
     );
   };
 
+  // Convenience lambda to convert a completed token to an integer. Used within
+  // the hext machine definition.
+  auto tk_int = [this, &tok]() -> int {
+    try
+    {
+      return std::stoi(tok);
+    }
+    catch( const std::out_of_range& )
+    {
+      this->throw_error_message("Number out of range");
+    }
+  };
+
 #ifndef _MSC_VER
   // Hide warnings generated by ragel code.
 #pragma GCC diagnostic push
@@ -1830,12 +1845,12 @@ Rule Parser::parse()
 #endif
 #endif
   
-#line 1833 "Parser.cpp.tmp"
+#line 1841 "Parser.cpp.tmp"
 	{
 	cs = hext_start;
 	}
 
-#line 1838 "Parser.cpp.tmp"
+#line 1844 "Parser.cpp.tmp"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -1971,7 +1986,7 @@ _match:
 	break;
 	case 15:
 #line 73 "hext-machine.rl"
-	{ tk_stop(); pv.nth = {0, std::stoi(tok)}; }
+	{ tk_stop(); pv.nth = {0, tk_int()}; }
 	break;
 	case 16:
 #line 76 "hext-machine.rl"
@@ -1983,7 +1998,7 @@ _match:
 	break;
 	case 18:
 #line 79 "hext-machine.rl"
-	{ tk_stop(); pv.nth.second = std::stoi(tok); }
+	{ tk_stop(); pv.nth.second = tk_int(); }
 	break;
 	case 19:
 #line 88 "hext-machine.rl"
@@ -2043,7 +2058,7 @@ _match:
 	break;
 	case 31:
 #line 123 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<ChildCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<ChildCountMatch>(tk_int()); }
 	break;
 	case 32:
 #line 129 "hext-machine.rl"
@@ -2051,7 +2066,7 @@ _match:
 	break;
 	case 33:
 #line 130 "hext-machine.rl"
-	{ tk_stop(); pv.set_trait<AttributeCountMatch>(std::stoi(tok)); }
+	{ tk_stop(); pv.set_trait<AttributeCountMatch>(tk_int()); }
 	break;
 	case 34:
 #line 135 "hext-machine.rl"
@@ -2283,7 +2298,7 @@ _match:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2286 "Parser.cpp.tmp"
+#line 2202 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2315,7 +2330,7 @@ _again:
 #line 360 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2318 "Parser.cpp.tmp"
+#line 2229 "Parser.cpp.tmp"
 		}
 	}
 	}
@@ -2323,7 +2338,7 @@ _again:
 	_out: {}
 	}
 
-#line 142 "Parser.cpp.rl"
+#line 157 "Parser.cpp.rl"
 
 #ifndef _MSC_VER
 #pragma GCC diagnostic pop
-- 
2.43.0


From 9e49b2ab20cec36b323e7d6b08d79c35c8c012fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:23 +0000
Subject: [PATCH 08/10] fix: regex options leaked into later regexes of the
 same pattern or rule

---
 libhext/ragel/hext-machine.rl |   2 +
 libhext/src/Parser.cpp        | 136 +++++++++++++++++-----------------
 2 files changed, 71 insertions(+), 67 deletions(-)

diff --git a/libhext/ragel/hext-machine.rl b/libhext/ragel/hext-machine.rl
index f588e5e..48dea3b 100644
--- a/libhext/ragel/hext-machine.rl
+++ b/libhext/ragel/hext-machine.rl
@@ -101,6 +101,8 @@ regex = (
 )*
 %{ try {
      pv.regex = boost::regex(tok, pv.regex_flag);
+     // Options apply to a single regex only
+     pv.regex_flag = boost::regex::perl;
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
diff --git a/libhext/src/Parser.cpp b/libhext/src/Parser.cpp
index 3d8c3e4..ed1d53a 100644
--- a/libhext/src/Parser.cpp
+++ b/libhext/src/Parser.cpp
@@ -2036,6 +2036,8 @@ _match:
 #line 102 "hext-machine.rl"
 	{ try {
      pv.regex = boost::regex(tok, pv.regex_flag);
+     // Options apply to a single regex only
+     pv.regex_flag = boost::regex::perl;
    }
    catch( const boost::regex_error& e ) {
      // Mark whole regex as error, including slashes and flags
@@ -2045,179 +2047,179 @@ _match:
 }
 	break;
 	case 28:
-#line 112 "hext-machine.rl"
+#line 114 "hext-machine.rl"
 	{ assert(pv.regex); pv.set_test<RegexTest>(*pv.regex); }
 	break;
 	case 29:
-#line 117 "hext-machine.rl"
+#line 119 "hext-machine.rl"
 	{ pv.set_trait<ChildCountMatch>(0); }
 	break;
 	case 30:
-#line 122 "hext-machine.rl"
+#line 124 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 31:
-#line 123 "hext-machine.rl"
+#line 125 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<ChildCountMatch>(tk_int()); }
 	break;
 	case 32:
-#line 129 "hext-machine.rl"
+#line 131 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 33:
-#line 130 "hext-machine.rl"
+#line 132 "hext-machine.rl"
 	{ tk_stop(); pv.set_trait<AttributeCountMatch>(tk_int()); }
 	break;
 	case 34:
-#line 135 "hext-machine.rl"
+#line 137 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth); }
 	break;
 	case 35:
-#line 139 "hext-machine.rl"
+#line 141 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last); }
 	break;
 	case 36:
-#line 143 "hext-machine.rl"
+#line 145 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 37:
-#line 147 "hext-machine.rl"
+#line 149 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1); }
 	break;
 	case 38:
-#line 151 "hext-machine.rl"
+#line 153 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::First|NthChildMatch::OfType); }
 	break;
 	case 39:
-#line 155 "hext-machine.rl"
+#line 157 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last); }
 	break;
 	case 40:
-#line 159 "hext-machine.rl"
+#line 161 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(0, 1, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 41:
-#line 163 "hext-machine.rl"
+#line 165 "hext-machine.rl"
 	{ pv.set_trait<NthChildMatch>(pv.nth, NthChildMatch::Last|NthChildMatch::OfType); }
 	break;
 	case 42:
-#line 166 "hext-machine.rl"
+#line 168 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(); }
 	break;
 	case 43:
-#line 169 "hext-machine.rl"
+#line 171 "hext-machine.rl"
 	{ pv.set_trait<OnlyChildMatch>(OnlyChildMatch::OfType); }
 	break;
 	case 44:
-#line 173 "hext-machine.rl"
+#line 175 "hext-machine.rl"
 	{ pv.set_trait<TypeRegexMatch>(*pv.regex); }
 	break;
 	case 45:
-#line 177 "hext-machine.rl"
+#line 179 "hext-machine.rl"
 	{ pv.negate = std::make_unique<NegateMatch>(); }
 	break;
 	case 46:
-#line 180 "hext-machine.rl"
+#line 182 "hext-machine.rl"
 	{
        assert(pv.negate);
        pv.negate->append_match(std::move(pv.trait));
      }
 	break;
 	case 47:
-#line 191 "hext-machine.rl"
+#line 193 "hext-machine.rl"
 	{ pv.builtin = TextBuiltin; }
 	break;
 	case 48:
-#line 193 "hext-machine.rl"
+#line 195 "hext-machine.rl"
 	{ pv.builtin = InnerHtmlBuiltin; }
 	break;
 	case 49:
-#line 195 "hext-machine.rl"
+#line 197 "hext-machine.rl"
 	{ pv.builtin = StripTagsBuiltin; }
 	break;
 	case 50:
-#line 203 "hext-machine.rl"
+#line 205 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(); }
 	break;
 	case 51:
-#line 205 "hext-machine.rl"
+#line 207 "hext-machine.rl"
 	{ pv.add_pipe<TrimPipe>(pv.literal_value); }
 	break;
 	case 52:
-#line 207 "hext-machine.rl"
+#line 209 "hext-machine.rl"
 	{ pv.add_pipe<CollapseWsPipe>(); }
 	break;
 	case 53:
-#line 209 "hext-machine.rl"
+#line 211 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(); }
 	break;
 	case 54:
-#line 211 "hext-machine.rl"
+#line 213 "hext-machine.rl"
 	{ pv.add_pipe<CasePipe>(CasePipe::ToUpper); }
 	break;
 	case 55:
-#line 213 "hext-machine.rl"
+#line 215 "hext-machine.rl"
 	{ pv.add_pipe<PrependPipe>(pv.literal_value); }
 	break;
 	case 56:
-#line 215 "hext-machine.rl"
+#line 217 "hext-machine.rl"
 	{ pv.add_pipe<AppendPipe>(pv.literal_value); }
 	break;
 	case 57:
-#line 217 "hext-machine.rl"
+#line 219 "hext-machine.rl"
 	{ pv.add_pipe<RegexPipe>(*pv.regex); }
 	break;
 	case 58:
-#line 220 "hext-machine.rl"
+#line 222 "hext-machine.rl"
 	{ pv.add_pipe<RegexReplacePipe>(*pv.regex, pv.literal_value); }
 	break;
 	case 59:
-#line 226 "hext-machine.rl"
+#line 228 "hext-machine.rl"
 	{ pv.cap_var = pv.literal_value; }
 	break;
 	case 60:
-#line 228 "hext-machine.rl"
+#line 230 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 61:
-#line 229 "hext-machine.rl"
+#line 231 "hext-machine.rl"
 	{ tk_stop(); pv.cap_var = tok; }
 	break;
 	case 62:
-#line 236 "hext-machine.rl"
+#line 238 "hext-machine.rl"
 	{ pv.set_test<ContainsWordsTest>(pv.literal_value); }
 	break;
 	case 63:
-#line 239 "hext-machine.rl"
+#line 241 "hext-machine.rl"
 	{ pv.set_test<EqualsTest>(pv.literal_value); }
 	break;
 	case 64:
-#line 242 "hext-machine.rl"
+#line 244 "hext-machine.rl"
 	{ pv.set_test<BeginsWithTest>(pv.literal_value); }
 	break;
 	case 65:
-#line 245 "hext-machine.rl"
+#line 247 "hext-machine.rl"
 	{ pv.set_test<ContainsTest>(pv.literal_value); }
 	break;
 	case 66:
-#line 248 "hext-machine.rl"
+#line 250 "hext-machine.rl"
 	{ pv.set_test<EndsWithTest>(pv.literal_value); }
 	break;
 	case 67:
-#line 256 "hext-machine.rl"
+#line 258 "hext-machine.rl"
 	{ cur_rule().append_capture<FunctionCapture>(
              pv.builtin, pv.cap_var, std::move(pv.pipe)); }
 	break;
 	case 68:
-#line 261 "hext-machine.rl"
+#line 263 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 69:
-#line 265 "hext-machine.rl"
+#line 267 "hext-machine.rl"
 	{ cur_rule().append_match<FunctionValueMatch>(pv.builtin, std::move(pv.test)); }
 	break;
 	case 70:
-#line 269 "hext-machine.rl"
+#line 271 "hext-machine.rl"
 	{ cur_rule().append_capture<AttributeCapture>(
              pv.attr_name, pv.cap_var, std::move(pv.pipe));
          if( !pv.optional )
@@ -2225,80 +2227,80 @@ _match:
        }
 	break;
 	case 71:
-#line 277 "hext-machine.rl"
+#line 279 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 72:
-#line 281 "hext-machine.rl"
+#line 283 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 73:
-#line 285 "hext-machine.rl"
+#line 287 "hext-machine.rl"
 	{ pv.test = nullptr; }
 	break;
 	case 74:
-#line 288 "hext-machine.rl"
+#line 290 "hext-machine.rl"
 	{ cur_rule().append_match<AttributeMatch>(pv.attr_name, std::move(pv.test)); }
 	break;
 	case 75:
-#line 289 "hext-machine.rl"
+#line 291 "hext-machine.rl"
 	{ pv.reset(); }
 	break;
 	case 76:
-#line 299 "hext-machine.rl"
+#line 301 "hext-machine.rl"
 	{ push_rule(); }
 	break;
 	case 77:
-#line 304 "hext-machine.rl"
+#line 306 "hext-machine.rl"
 	{ cur_rule().set_optional(true); }
 	break;
 	case 78:
-#line 308 "hext-machine.rl"
+#line 310 "hext-machine.rl"
 	{ cur_rule().set_greedy(true); }
 	break;
 	case 79:
-#line 312 "hext-machine.rl"
+#line 314 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 80:
-#line 313 "hext-machine.rl"
+#line 315 "hext-machine.rl"
 	{ tk_stop(); set_open_tag_or_throw(tok); }
 	break;
 	case 81:
-#line 316 "hext-machine.rl"
+#line 318 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.negate)); }
 	break;
 	case 82:
-#line 319 "hext-machine.rl"
+#line 321 "hext-machine.rl"
 	{ cur_rule().append_match(std::move(pv.trait)); }
 	break;
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 84:
-#line 334 "hext-machine.rl"
+#line 336 "hext-machine.rl"
 	{ tk_start(); }
 	break;
 	case 85:
-#line 335 "hext-machine.rl"
+#line 337 "hext-machine.rl"
 	{ tk_stop();
                             validate_close_tag_or_throw(tok);
                             pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2202 "Parser.cpp.tmp"
+#line 2204 "Parser.cpp.tmp"
 		}
 	}
 
@@ -2315,22 +2317,22 @@ _again:
 	while ( __nacts-- > 0 ) {
 		switch ( *__acts++ ) {
 	case 83:
-#line 327 "hext-machine.rl"
+#line 329 "hext-machine.rl"
 	{ pop_rule(); }
 	break;
 	case 86:
-#line 352 "hext-machine.rl"
+#line 354 "hext-machine.rl"
 	{ push_nested(); }
 	break;
 	case 87:
-#line 356 "hext-machine.rl"
+#line 358 "hext-machine.rl"
 	{ pop_nested(); }
 	break;
 	case 88:
-#line 360 "hext-machine.rl"
+#line 362 "hext-machine.rl"
 	{ this->throw_unexpected(); }
 	break;
-#line 2229 "Parser.cpp.tmp"
+#line 2231 "Parser.cpp.tmp"
 		}
 	}
 	}
-- 
2.43.0


From c5b6c5061477bf0f84d8ef8b683fcf4e8e54f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:34 +0000
Subject: [PATCH 09/10] fix: JSON output truncated names and values at NUL
 characters

---
 htmlext/htmlext/Json.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/htmlext/htmlext/Json.cpp b/htmlext/htmlext/Json.cpp
index ab3c672..1acdad0 100644
--- a/htmlext/htmlext/Json.cpp
+++ b/htmlext/htmlext/Json.cpp
@@ -34,8 +34,14 @@ void PrintJson(const hext::Result result, JsonOption opt, std::ostream& out)
 
     for(const auto& p : group)
     {
-      rapidjson::Value name(p.first.c_str(), alloc);
-      rapidjson::Value value(p.second.c_str(), alloc);
+      rapidjson::Value name(
+          p.first.data(),
+          static_cast<rapidjson::SizeType>(p.first.size()),
+          alloc);
+      rapidjson::Value value(
+          p.second.data(),
+          static_cast<rapidjson::SizeType>(p.second.size()),
+          alloc);
       // If the key is already taken, transform the value into an array
       if( obj.HasMember(name) )
       {
-- 
2.43.0


From 0cf5d1c9a6bc3f6d551f8478687c49ba80765388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:47 +0000
Subject: [PATCH 10/10] fix: report an error when an input file cannot be read

ReadFileOrThrow checked the state of the ifstream, but an error while reading
is only noted by the stream that is written to. A directory given as hext or
HTML input was treated as an empty file and htmlext exited with success.
---
 htmlext/htmlext/File.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/htmlext/htmlext/File.cpp b/htmlext/htmlext/File.cpp
index e014da2..f3e1eb0 100644
--- a/htmlext/htmlext/File.cpp
+++ b/htmlext/htmlext/File.cpp
@@ -80,6 +80,11 @@ std::string ReadFileOrThrow(const std::string& path)
   std::stringstream buffer;
   buffer << file.rdbuf();
 
+  // buffer fails if nothing was read or if reading stopped at an error. Trying
+  // to read on tells an error, e.g. of a directory, from the end of the file.
+  if( buffer.fail() )
+    file.peek();
+
   if( file.fail() )
     throw FileError(
       "cannot read '" + path + "': " + StrError(errno)
-- 
2.43.0

