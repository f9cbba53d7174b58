From 4028a9925a21fb7122f93702b2d9f157a8882618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:38 +0000
Subject: [PATCH 01/51] fix: consume the end tag of nil values

The nil builder returned before reading </nil>, so the parent took that
tag for one of its own and left its element too early.  A struct with a
nil member followed by another one, or an array with two nils, could not
be parsed.
---
 libiqxmlrpc/value_parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 49159a6..31de46e 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -170,8 +170,9 @@ ValueBuilder::do_visit_element(const std::string& tagname)
     break;
 
   case NIL:
+    // do not exit yet: </nil> belongs to this builder
     retval.reset(new Nil());
-    break;
+    return;
 
   default:
     // wait for text within <i4>...</i4>, etc...
-- 
2.43.0


From f69853ce6ef864d59477d6cc73f885bc85e6ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:04:38 +0000
Subject: [PATCH 02/51] fix: keep the end tag of empty names visible to
 builders

Reading an empty <name/> or <methodName/> swallowed its end tag, so the
builder stayed one level too deep and went on into its parent's elements.
---
 libiqxmlrpc/parser2.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index afdd7f1..77502b6 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -206,6 +206,11 @@ public:
         std::string err = "text is expected at " + get_context();
         throw XML_RPC_violation(err);
       }
+      if (curr.element_end) {
+        // empty element: the builder has to see its end tag
+        pushed_back = true;
+        return std::string();
+      }
     }
     return to_string(xmlTextReaderValue(reader));
   }
-- 
2.43.0


From c1223b3447342fa952ccc0119a90a54c03857649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:06:38 +0000
Subject: [PATCH 03/51] fix: keep blank strings and text split by comments or
 CDATA

Whitespace-only text was dropped even inside <string>, whitespace-only
member and method names were refused, CDATA sections were ignored, and of
text interrupted by a comment only the last piece survived.  Join all
pieces of character data up to the next tag, and deliver blank text where
it is data.
---
 libiqxmlrpc/parser2.cc      | 56 ++++++++++++++++++++++++++-----------
 libiqxmlrpc/parser2.h       |  8 ++++++
 libiqxmlrpc/value_parser.cc |  7 +++++
 libiqxmlrpc/value_parser.h  |  3 ++
 4 files changed, 58 insertions(+), 16 deletions(-)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 77502b6..af48e9e 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -123,6 +123,7 @@ public:
     bool element_end;
     bool is_empty;
     bool is_text;
+    bool is_blank;
 
     ParseStep():
       done(false),
@@ -135,7 +136,9 @@ public:
       element_begin(type == XML_READER_TYPE_ELEMENT),
       element_end(type == XML_READER_TYPE_END_ELEMENT),
       is_empty(element_begin && xmlTextReaderIsEmptyElement(reader)),
-      is_text(type == XML_READER_TYPE_TEXT)
+      is_text(type == XML_READER_TYPE_TEXT || type == XML_READER_TYPE_CDATA),
+      is_blank(type == XML_READER_TYPE_WHITESPACE ||
+        type == XML_READER_TYPE_SIGNIFICANT_WHITESPACE)
     {
     }
   };
@@ -196,23 +199,40 @@ public:
     return rv;
   }
 
+  // Joins the pieces of character data up to the next tag: text may be split
+  // by comments and CDATA sections.
+  std::string
+  read_text(bool& blank)
+  {
+    std::string rv;
+    blank = true;
+
+    for (; !curr.done && !curr.element_begin && !curr.element_end; read()) {
+      if (curr.is_text || curr.is_blank)
+        rv += to_string(xmlTextReaderValue(reader));
+
+      if (curr.is_text)
+        blank = false;
+    }
+
+    pushed_back = true;
+    return rv;
+  }
+
+  // Reads character data of the element that has just begun
   std::string
   read_data()
   {
-    if (!curr.is_text && !curr.element_end)
-    {
-      read();
-      if (!curr.is_text && !curr.element_end) {
-        std::string err = "text is expected at " + get_context();
-        throw XML_RPC_violation(err);
-      }
-      if (curr.element_end) {
-        // empty element: the builder has to see its end tag
-        pushed_back = true;
-        return std::string();
-      }
+    bool blank;
+    read();
+    std::string rv = read_text(blank);
+
+    if (curr.element_begin) {
+      std::string err = "text is expected at " + get_context();
+      throw XML_RPC_violation(err);
     }
-    return to_string(xmlTextReaderValue(reader));
+
+    return rv;
   }
 
   std::string
@@ -248,8 +268,12 @@ Parser::parse(BuilderBase& builder)
 
       builder.visit_element_end(impl_->tag_name());
 
-    } else if (p.is_text && builder.expects_text()) {
-      builder.visit_text(get_data());
+    } else if ((p.is_text || p.is_blank) && builder.expects_text()) {
+      bool blank;
+      std::string text = impl_->read_text(blank);
+
+      if (!blank || builder.expects_blank())
+        builder.visit_text(text);
     }
 
     if (builder.wants_exit())
diff --git a/libiqxmlrpc/parser2.h b/libiqxmlrpc/parser2.h
index 8974274..6e322dd 100644
--- a/libiqxmlrpc/parser2.h
+++ b/libiqxmlrpc/parser2.h
@@ -16,6 +16,7 @@ class Parser;
 class BuilderBase {
 public:
   BuilderBase(Parser&, bool expect_text = false);
+  virtual ~BuilderBase() {}
 
   void
   visit_element(const std::string& tag);
@@ -32,6 +33,13 @@ public:
     return expect_text_;
   }
 
+  //! Whether text consisting of whitespace only is data here
+  virtual bool
+  expects_blank() const
+  {
+    return false;
+  }
+
   int
   depth() const
   {
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 31de46e..edb0ce1 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -157,6 +157,13 @@ ValueBuilder::ValueBuilder(Parser& parser):
   state_.set_transitions(trans);
 }
 
+bool
+ValueBuilder::expects_blank() const
+{
+  // only an explicit <string> keeps blank text
+  return state_.get_state() == STRING && !retval.get();
+}
+
 void
 ValueBuilder::do_visit_element(const std::string& tagname)
 {
diff --git a/libiqxmlrpc/value_parser.h b/libiqxmlrpc/value_parser.h
index 5eee11c..461ddc5 100644
--- a/libiqxmlrpc/value_parser.h
+++ b/libiqxmlrpc/value_parser.h
@@ -27,6 +27,9 @@ class ValueBuilder: public ValueBuilderBase {
 public:
   ValueBuilder(Parser& parser);
 
+  virtual bool
+  expects_blank() const;
+
 private:
   virtual void
   do_visit_element(const std::string&);
-- 
2.43.0


From 47a416122cfadd82f1b21b9b2cd6cad1dafe0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:21 +0000
Subject: [PATCH 04/51] fix: do not leak the default 64-bit integer

Parsing an empty <i8/> released the default value and then copied it.
---
 libiqxmlrpc/value_parser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index edb0ce1..9d9bde6 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -214,7 +214,7 @@ ValueBuilder::do_visit_element_end(const std::string&)
 
   case INT64:
     if (default_int64.get()) {
-      retval.reset(new Int64(default_int64.release()->value()));
+      retval.reset(default_int64.release());
       break;
     }
     throw XML_RPC_violation(parser_.context());
-- 
2.43.0


From 176ec1acadddb6a06d720ef5b67cb267324dc7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:35 +0000
Subject: [PATCH 05/51] fix: do not leak a struct member when the document
 turns out malformed

The value of a member was held by a raw pointer until the end of the member
was seen, so an error in between lost it.
---
 libiqxmlrpc/value_parser.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 9d9bde6..f53ca84 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -19,8 +19,7 @@ class StructBuilder: public ValueBuilderBase {
 public:
   StructBuilder(Parser& parser):
     ValueBuilderBase(parser),
-    state_(parser, NONE),
-    value_(0)
+    state_(parser, NONE)
   {
     static const StateMachine::StateTransition trans[] = {
       { NONE, MEMBER, "member" },
@@ -49,8 +48,9 @@ private:
       break;
 
     case VALUE_READ:
-      value_ = sub_build<Value_type*, ValueBuilder>();
-      value_ = value_ ? value_ : new String("");
+      value_.reset(sub_build<Value_type*, ValueBuilder>());
+      if (!value_.get())
+        value_.reset(new String(""));
       break;
 
     case MEMBER:
@@ -69,7 +69,7 @@ private:
         throw XML_RPC_violation(parser_.context());
       }
 
-      Value_ptr v(new Value(value_));
+      Value_ptr v(new Value(value_.release()));
       proxy_->insert(name_, v);
       state_.set_state(NONE);
     }
@@ -77,7 +77,7 @@ private:
 
   StateMachine state_;
   std::string name_;
-  Value_type* value_;
+  std::auto_ptr<Value_type> value_;
   Struct* proxy_;
 };
 
-- 
2.43.0


From ad22f842f31a2253bb303c0f115f74edf1a93461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:35 +0000
Subject: [PATCH 06/51] fix: refuse text next to a typed value

In <value><i4>1</i4>2</value> the trailing text silently replaced the value
of a parameter or result.
---
 libiqxmlrpc/value_parser.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index f53ca84..fec4354 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -233,6 +233,10 @@ ValueBuilder::do_visit_text(const std::string& text)
 {
   using boost::lexical_cast;
 
+  // text after the typed element must not replace its value
+  if (retval.get())
+    throw XML_RPC_violation(parser_.context());
+
   switch (state_.get_state()) {
   case VALUE:
     want_exit();
-- 
2.43.0


From ff9984e22b6894fb9f48d52a30acb6767d79b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:15:35 +0000
Subject: [PATCH 07/51] fix: limit the nesting depth of parsed documents

Values are built recursively, so a document of a few hundred kilobytes with
tens of thousands of nested arrays overflowed the stack.
---
 libiqxmlrpc/parser2.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index af48e9e..7237c80 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -167,6 +167,10 @@ public:
     }
 
     if (code > 0) {
+      // builders recurse into nested values
+      if (depth() > max_depth)
+        throw Parse_error("document is nested too deeply");
+
       curr = ParseStep(node_type(), reader);
     }
 
@@ -242,6 +246,8 @@ public:
     return to_string(xmlGetNodePath(n));
   }
 
+  static const int max_depth = 4096;
+
   const std::string buf;
   xmlTextReaderPtr reader;
   ParseStep curr;
-- 
2.43.0


From 0c4bd90d9514dd49bfd4cf959578de3c51a37b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:27 +0000
Subject: [PATCH 08/51] fix: refuse base64 with a character after the padding
 sign

A group like "AB=!" was decoded without looking at its last character.
---
 libiqxmlrpc/value_type.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index b35fb36..4a060a2 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -447,7 +447,7 @@ inline void Binary_data::decode_four( const std::string& four )
   char c3 = four[2];
   char c4 = four[3];
 
-  if( c1 == '=' || c2 == '=' )
+  if( c1 == '=' || c2 == '=' || (c3 == '=' && c4 != '=') )
     throw Malformed_base64();
 
   try {
-- 
2.43.0


From df28ae7d1e582510da8d7eac026546e8b368dcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:27 +0000
Subject: [PATCH 09/51] fix: check every character of a dateTime.iso8601

The last character was not looked at, digits and colons were accepted in each
other's places, and the unused fields of the result were left uninitialised.
---
 libiqxmlrpc/value_type.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 4a060a2..0c5a7d6 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -525,13 +525,20 @@ Date_time::Date_time( bool use_lt )
 
 Date_time::Date_time( const std::string& s )
 {
-  if( s.length() != 17 || s[8] != 'T' )
-    throw Malformed_iso8601();
+  static const char shape[] = "ddddddddTdd:dd:dd";
 
-  char alpha[] = "0123456789T:";
-  if( s.substr(0, 16).find_first_not_of(alpha) != std::string::npos )
+  if( s.length() != sizeof(shape) - 1 )
     throw Malformed_iso8601();
 
+  for( size_t i = 0; i < s.length(); ++i )
+  {
+    bool ok = shape[i] == 'd' ? s[i] >= '0' && s[i] <= '9' : s[i] == shape[i];
+    if( !ok )
+      throw Malformed_iso8601();
+  }
+
+  memset( &tm_, 0, sizeof(tm_) );
+
   tm_.tm_year = atoi( s.substr(0, 4).c_str() ) - 1900;
   tm_.tm_mon  = atoi( s.substr(4, 2).c_str() ) - 1;
   tm_.tm_mday = atoi( s.substr(6, 2).c_str() );
-- 
2.43.0


From 795f31c20bb274e78c24f7a12bb63d4106a79291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:23 +0000
Subject: [PATCH 10/51] fix: refuse elements outside the element they belong to

The builders followed the order of start tags only.  A param inside a param,
a param after its params, a value inside an array but outside its data, or a
value inside a value of an array was accepted as one more value.
---
 libiqxmlrpc/request_parser.cc  | 15 +++++++++++++--
 libiqxmlrpc/request_parser.h   |  3 +++
 libiqxmlrpc/response_parser.cc | 12 ++++++++++++
 libiqxmlrpc/response_parser.h  |  3 +++
 libiqxmlrpc/value_parser.cc    | 13 +++++++++++--
 5 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/request_parser.cc b/libiqxmlrpc/request_parser.cc
index 4968b9d..295ee0b 100644
--- a/libiqxmlrpc/request_parser.cc
+++ b/libiqxmlrpc/request_parser.cc
@@ -15,7 +15,8 @@ enum RequestBuilderState {
   METHOD_NAME,
   PARAMS,
   PARAM,
-  VALUE
+  VALUE,
+  PARAMS_END
 };
 
 RequestBuilder::RequestBuilder(Parser& parser):
@@ -28,7 +29,6 @@ RequestBuilder::RequestBuilder(Parser& parser):
     { METHOD_NAME, PARAMS, "params" },
     { PARAMS, PARAM, "param" },
     { PARAM, VALUE, "value" },
-    { VALUE, PARAM, "param" },
     { 0, 0, 0 }
   };
   state_.set_transitions(trans);
@@ -48,6 +48,17 @@ RequestBuilder::do_visit_element(const std::string& tagname)
   }
 }
 
+void
+RequestBuilder::do_visit_element_end(const std::string& tagname)
+{
+  // the next parameter may begin only after the previous one has ended
+  if (tagname == "param" && state_.get_state() == VALUE)
+    state_.set_state(PARAMS);
+
+  if (tagname == "params")
+    state_.set_state(PARAMS_END);
+}
+
 Request*
 RequestBuilder::get()
 {
diff --git a/libiqxmlrpc/request_parser.h b/libiqxmlrpc/request_parser.h
index b07f9bb..6b84ba9 100644
--- a/libiqxmlrpc/request_parser.h
+++ b/libiqxmlrpc/request_parser.h
@@ -21,6 +21,9 @@ private:
   virtual void
   do_visit_element(const std::string&);
 
+  virtual void
+  do_visit_element_end(const std::string&);
+
   StateMachine state_;
   boost::optional<std::string> method_name_;
   Param_list params_;
diff --git a/libiqxmlrpc/response_parser.cc b/libiqxmlrpc/response_parser.cc
index a2a963f..69d5cec 100644
--- a/libiqxmlrpc/response_parser.cc
+++ b/libiqxmlrpc/response_parser.cc
@@ -48,6 +48,18 @@ ResponseBuilder::do_visit_element(const std::string& tagname)
   }
 }
 
+void
+ResponseBuilder::do_visit_element_end(const std::string&)
+{
+  switch (state_.get_state()) {
+  case OK_RESPONSE:
+  case OK_PARAM:
+  case FAULT_RESPONSE:
+    // ended without a value
+    throw XML_RPC_violation(parser_.context());
+  }
+}
+
 void
 ResponseBuilder::parse_ok()
 {
diff --git a/libiqxmlrpc/response_parser.h b/libiqxmlrpc/response_parser.h
index 0370ccc..83c2587 100644
--- a/libiqxmlrpc/response_parser.h
+++ b/libiqxmlrpc/response_parser.h
@@ -22,6 +22,9 @@ private:
   virtual void
   do_visit_element(const std::string&);
 
+  virtual void
+  do_visit_element_end(const std::string&);
+
   void
   parse_ok();
 
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index fec4354..66c77e5 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -91,7 +91,6 @@ public:
     static const StateMachine::StateTransition trans[] = {
       { NONE, DATA, "data" },
       { DATA, VALUES, "value" },
-      { VALUES, VALUES, "value" },
       { 0, 0, 0 }
     };
     state_.set_transitions(trans);
@@ -102,7 +101,8 @@ private:
   enum State {
     NONE,
     DATA,
-    VALUES
+    VALUES,
+    DATA_END
   };
 
   virtual void
@@ -116,6 +116,15 @@ private:
     }
   }
 
+  virtual void
+  do_visit_element_end(const std::string& tagname)
+  {
+    if (tagname == "value")
+      state_.set_state(DATA);
+    else if (tagname == "data")
+      state_.set_state(DATA_END);
+  }
+
   StateMachine state_;
   Array* proxy_;
 };
-- 
2.43.0


From 9e27ea932abfda03444a23d19a9390235a791551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:33 +0000
Subject: [PATCH 11/51] fix: free the value erased from a struct

---
 libiqxmlrpc/value_type.cc | 12 ++++++++++++
 libiqxmlrpc/value_type.h  |  2 +-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/value_type.cc b/libiqxmlrpc/value_type.cc
index 0c5a7d6..020a20e 100644
--- a/libiqxmlrpc/value_type.cc
+++ b/libiqxmlrpc/value_type.cc
@@ -318,6 +318,18 @@ void Struct::insert( const std::string& f, const Value& val )
 }
 
 
+void Struct::erase( const std::string& key )
+{
+  iterator i = values.find(key);
+
+  if( i == values.end() )
+    return;
+
+  delete i->second;
+  values.erase(i);
+}
+
+
 // ----------------------------------------------------------------------------
 const char Binary_data::base64_alpha[64] = {
   'A', 'B', 'C', 'D', 'E', 'F', 'G', 'H', 'I', 'J', 'K', 'L', 'M',
diff --git a/libiqxmlrpc/value_type.h b/libiqxmlrpc/value_type.h
index e6650be..9e2f5fb 100644
--- a/libiqxmlrpc/value_type.h
+++ b/libiqxmlrpc/value_type.h
@@ -249,7 +249,7 @@ public:
   const_iterator find( const std::string& key ) const { return values.find(key); }
   iterator find( const std::string& key ) { return values.find(key); }
 
-  void erase( const std::string& key ) { values.erase(key); }
+  void erase( const std::string& key );
 };
 
 #ifdef _MSC_VER
-- 
2.43.0


From f174a188f860b088b004a65a025781194b6422e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:09 +0000
Subject: [PATCH 12/51] fix: end an HTTP header at the first empty line

In a message with LF line ends whose content holds a CRLF CRLF sequence, the
header was taken to reach into the content if both arrived in one piece.
---
 libiqxmlrpc/http.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 88dc6ad..ec463b3 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -435,9 +435,11 @@ bool Packet_reader::read_header( const std::string& s )
 
   header_cache += s;
   iterator_range<std::string::iterator> i = find_first(header_cache, "\r\n\r\n");
+  iterator_range<std::string::iterator> j = find_first(header_cache, "\n\n");
 
-  if( i.begin() == i.end() )
-    i = boost::find_first(header_cache, "\n\n");
+  // whichever ends the header first: the other one may occur in the content
+  if( i.begin() == i.end() || (j.begin() != j.end() && j.begin() < i.begin()) )
+    i = j;
 
   if( i.begin() == i.end() )
     return false;
-- 
2.43.0


From a49e0399474a8c14467fb5190bc5180e72161175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:09 +0000
Subject: [PATCH 13/51] fix: answer Expect: 100-continue for every request of a
 connection

The reader remembered for good that the interim response had been sent, so
the second such request on a kept-alive connection waited for ever.
---
 libiqxmlrpc/http.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index ec463b3..98c0d1a 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -412,6 +412,7 @@ void Packet_reader::clear()
   header_cache.erase();
   constructed = false;
   total_sz = 0;
+  continue_sent_ = false;
 }
 
 void Packet_reader::check_sz( size_t sz )
-- 
2.43.0


From 7a9603484471a4752bac870ea23175887ff25d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:09 +0000
Subject: [PATCH 14/51] fix: refuse a too large declared length as soon as the
 header is read

The declared content length was compared with the limit only when more bytes
arrived, so a client that waited after its header got no answer, or even an
interim 100 response.
---
 libiqxmlrpc/http.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 98c0d1a..cc6cdf0 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -465,8 +465,10 @@ Packet* Packet_reader::read_packet( const std::string& s, bool hdr_only )
     if( s.empty() )
       throw http::Malformed_packet();
 
-    if (read_header(s))
+    if (read_header(s)) {
       header = new Header_type(ver_level_, header_cache);
+      check_sz(0);
+    }
   }
   else
     content_cache += s;
-- 
2.43.0


From 9c77dd73c5cd124b83e03ab44da119c3706b2b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:14 +0000
Subject: [PATCH 15/51] fix: keep the other event registered when one is
 unregistered

Unregistering a handler from one kind of event removed it from the reactor
altogether. The HTTP server connection relied on that for a complete request,
so it now says so.
---
 libiqxmlrpc/http_server.cc | 2 +-
 libiqxmlrpc/reactor_impl.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 7353515..755eea1 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -91,7 +91,7 @@ void Http_server_connection::handle_input( bool& terminate )
     if( !packet )
       return;
 
-    reactor->unregister_handler( this, Reactor_base::INPUT );
+    reactor->unregister_handler( this );
     server->schedule_execute( packet, this );
   }
   catch( const http::Error_response& e )
diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index fd2e4de..1eafbf0 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -133,7 +133,7 @@ void Reactor<Lock>::unregister_handler( Event_handler* eh, Event_mask mask )
 
   if( i != end() )
   {
-    int newmask = (i->mask &= !mask);
+    int newmask = (i->mask &= ~mask);
 
     if( !newmask )
     {
-- 
2.43.0


From 2e7b081269b2375c2ae60d161975a05c023c7c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:14 +0000
Subject: [PATCH 16/51] fix: skip events of handlers unregistered meanwhile

A handler may unregister another one that is ready in the same round. The
reactor then called through a null pointer.
---
 libiqxmlrpc/reactor_impl.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 1eafbf0..ad3d1d8 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -210,7 +210,10 @@ void Reactor<Lock>::invoke_event_handler( Reactor_base::HandlerState& hs )
   bool terminate = false;
 
   Event_handler* handler = find_handler(hs.fd);
-  assert(handler);
+
+  // another handler could have unregistered this one
+  if( !handler )
+    return;
 
   if( handler->catch_in_reactor() )
     invoke_servers_handler( handler, hs, terminate );
-- 
2.43.0


From 002a1c58d6d3a079ad59799bfd834cb6b393e600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:48 +0000
Subject: [PATCH 17/51] fix: do not race on the handler table and the exit flag

The serving loop looked at the size of the reactor's handler table without its
lock while pool threads registered handlers, and the exit flag was a plain bool
written by other threads.
---
 libiqxmlrpc/reactor_impl.h | 4 ++++
 libiqxmlrpc/server.cc      | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index ad3d1d8..302f3a6 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -283,12 +283,16 @@ bool Reactor<Lock>::handle_system_events(Reactor_base::Timeout ms)
 template <class Lock>
 bool Reactor<Lock>::handle_events(Reactor_base::Timeout ms)
 {
+  scoped_lock lk(lock);
+
   if (handlers.empty())
     return false;
 
   if (handlers.size() - num_stoppers <= 0)
     throw No_handlers();
 
+  lk.unlock();
+
   handle_user_events();
   return handle_system_events(ms);
 }
diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 180eb55..fe272f8 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -3,6 +3,7 @@
 
 #include <boost/optional.hpp>
 #include <boost/scoped_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <memory>
 
 #include "server.h"
@@ -29,7 +30,7 @@ public:
   std::auto_ptr<iqnet::Acceptor>              acceptor;
   iqnet::Firewall_base* firewall;
 
-  bool exit_flag;
+  util::LockedBool<boost::mutex> exit_flag;
   std::ostream* log;
   size_t max_req_sz;
   http::Verification_level ver_level;
-- 
2.43.0


From 8cc8d10843ae126b8ca5f4e6e8cc64bb687106da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:40:48 +0000
Subject: [PATCH 18/51] fix: ignore what follows a refused HTTP request

Bytes arriving after a refusal were parsed again, replaced the error response
being sent and could even execute a method. An end of stream dropped the error
response.
---
 libiqxmlrpc/http_server.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http_server.cc b/libiqxmlrpc/http_server.cc
index 755eea1..33c7574 100644
--- a/libiqxmlrpc/http_server.cc
+++ b/libiqxmlrpc/http_server.cc
@@ -17,6 +17,7 @@ class Http_server_connection:
   public Server_connection
 {
   iqnet::Reactor_base* reactor;
+  bool refused;
 
 public:
   Http_server_connection( const iqnet::Socket& );
@@ -58,7 +59,9 @@ Http_server::Http_server(const iqnet::Inet_addr& bind_addr, Executor_factory_bas
 
 Http_server_connection::Http_server_connection( const iqnet::Socket& s ):
   Connection( s ),
-  Server_connection( s.get_peer_addr() )
+  Server_connection( s.get_peer_addr() ),
+  reactor(0),
+  refused(false)
 {
 }
 
@@ -81,6 +84,14 @@ void Http_server_connection::handle_input( bool& terminate )
   try {
     size_t n = recv( read_buf(), read_buf_sz() );
 
+    if( refused )
+    {
+      // Skip the rest of refused request until error response is sent
+      if( !n )
+        reactor->unregister_handler( this, Reactor_base::INPUT );
+      return;
+    }
+
     if( !n )
     {
       terminate = true;
@@ -98,6 +109,7 @@ void Http_server_connection::handle_input( bool& terminate )
   {
     // Close connection after sending HTTP error response
     keep_alive = false;
+    refused = true;
     schedule_response( new http::Packet(e) );
   }
 }
-- 
2.43.0


From 4d62a26c838e6d1d1c687edb31313a48f25080b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:19 +0000
Subject: [PATCH 19/51] fix: close connections refused by the firewall

Their descriptors stayed open for ever. A peer that had gone before the refusal
text was sent made the serving loop end with an exception.
---
 libiqxmlrpc/acceptor.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 535abaa..745e50b 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -57,13 +57,20 @@ void Acceptor::accept()
   {
     std::string msg = firewall->message();
 
-    if (!msg.empty())
+    try {
+      if (!msg.empty())
+      {
+        new_sock.send_shutdown(msg.c_str(), msg.size());
+      } else {
+        new_sock.shutdown();
+      }
+    }
+    catch( const network_error& )
     {
-      new_sock.send_shutdown(msg.c_str(), msg.size());
-    } else {
-      new_sock.shutdown();
+      // the peer has gone already
     }
 
+    new_sock.close();
     return;
   }
 
-- 
2.43.0


From 192603aca5859a921eac00aff8e5109339fe16b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:19 +0000
Subject: [PATCH 20/51] fix: survive connections that cannot be accepted

A failing accept() ended the serving loop, so a client could take the server
down by using up its descriptors.
---
 libiqxmlrpc/acceptor.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index 745e50b..d7fb6e3 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -39,7 +39,14 @@ void Acceptor::set_firewall( iqnet::Firewall_base* fw )
 
 void Acceptor::handle_input( bool& )
 {
-  accept();
+  try {
+    accept();
+  }
+  catch( const network_error& )
+  {
+    // A single connection could not be accepted (it is aborted
+    // or there is no free descriptor). It must not stop the server.
+  }
 }
 
 
-- 
2.43.0


From 12ffa5ecb85b46f60e6e857c92c2eb555eeb3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:19 +0000
Subject: [PATCH 21/51] fix: close the sockets of the reactor interrupter

Every server leaked its listening and its connecting descriptor.
---
 libiqxmlrpc/reactor_interrupter.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/reactor_interrupter.cc b/libiqxmlrpc/reactor_interrupter.cc
index 7dcaee8..ab6c7d2 100644
--- a/libiqxmlrpc/reactor_interrupter.cc
+++ b/libiqxmlrpc/reactor_interrupter.cc
@@ -42,7 +42,7 @@ private:
 class Reactor_interrupter::Impl: boost::noncopyable {
 public:
   Impl(Reactor_base* reactor);
-  ~Impl() {}
+  ~Impl();
 
   void make_interrupt();
 
@@ -62,10 +62,16 @@ Reactor_interrupter::Impl::Impl(Reactor_base* reactor)
   Inet_addr srv_addr(srv.get_addr());
   client_.connect( Inet_addr("127.0.0.1", srv_addr.get_port()) );
   Socket srv_conn(srv.accept());
+  srv.close();
 
   server_.reset(new Interrupter_connection(reactor, srv_conn));
 }
 
+Reactor_interrupter::Impl::~Impl()
+{
+  client_.close();
+}
+
 void Reactor_interrupter::Impl::make_interrupt()
 {
   boost::mutex::scoped_lock lk(lock_);
-- 
2.43.0


From 7bdd369db6cb8a041537991039f191caaeb0a644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:19 +0000
Subject: [PATCH 22/51] fix: close the socket when connecting fails at once

---
 libiqxmlrpc/connector.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/connector.cc b/libiqxmlrpc/connector.cc
index 83d6626..ce1e766 100644
--- a/libiqxmlrpc/connector.cc
+++ b/libiqxmlrpc/connector.cc
@@ -53,7 +53,16 @@ Connector_base::connect(int timeout)
 {
   Reactor<Null_lock> reactor;
   Connect_processor connector(reactor);
-  bool done = connector.sock.connect( peer_addr );
+  bool done = false;
+
+  try {
+    done = connector.sock.connect( peer_addr );
+  }
+  catch( const network_error& )
+  {
+    connector.sock.close();
+    throw;
+  }
 
   if (done)
     return create_connection( connector.sock );
-- 
2.43.0


From ebf789f1acc0c5d3a2f7f0e4af4c2e8ac332569f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:19 +0000
Subject: [PATCH 23/51] fix: do not read again after a full buffer

The sockets are non-blocking, so when the response came in a piece of exactly
the buffer's size the next recv() failed and the call with it.
---
 libiqxmlrpc/http_client.cc  | 10 ++++------
 libiqxmlrpc/https_client.cc | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index e7122ef..bddcfd3 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -54,13 +54,11 @@ void Http_client_connection::handle_output( bool& )
 
 void Http_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
 
-    resp_packet = read_response( std::string(read_buf(), sz) );
-  }
+  resp_packet = read_response( std::string(read_buf(), sz) );
 
   if( resp_packet )
     reactor->unregister_handler( this );
diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index e7e860e..7815d21 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -96,13 +96,11 @@ void Https_proxy_client_connection::handle_output( bool& )
 
 void Https_proxy_client_connection::handle_input( bool& )
 {
-  for( size_t sz = read_buf_sz(); (sz == read_buf_sz()) && !resp_packet ; )
-  {
-    if( !(sz = recv( read_buf(), read_buf_sz() )) )
-      throw iqnet::network_error( "Connection closed by peer.", false );
+  size_t sz = recv( read_buf(), read_buf_sz() );
+  if( !sz )
+    throw iqnet::network_error( "Connection closed by peer.", false );
 
-    resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
-  }
+  resp_packet.reset( read_response(std::string(read_buf(), sz), true) );
 
   if( resp_packet )
   {
-- 
2.43.0


From e99d88226c9e2881009c691d803326f2c28a4487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:19 +0000
Subject: [PATCH 24/51] fix: drop the cached connection after a failed call

With keep-alive the answer to a call that had timed out was returned by the next
call, and a client never recovered from a closed connection.
---
 libiqxmlrpc/client.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index a2ffe2b..9139783 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -137,7 +137,15 @@ Response Client_base::execute(
   Auto_conn conn( *impl_.get(), *this );
   conn->set_options(impl_->opts);
 
-  return conn->process_session( req, xheaders );
+  try {
+    return conn->process_session( req, xheaders );
+  }
+  catch( ... )
+  {
+    // The response to the failed call may still arrive
+    impl_->conn_cache.reset();
+    throw;
+  }
 }
 
 } // namespace iqxmlrpc
-- 
2.43.0


From a28a6edbfbb327a8214f580859151ea4866df9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:58 +0000
Subject: [PATCH 25/51] fix: use a new proxy for the next call

A connection kept alive from before set_proxy() went on being used.
---
 libiqxmlrpc/client.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index 9139783..5efb0b2 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -98,6 +98,7 @@ Client_base::~Client_base()
 void Client_base::set_proxy( const iqnet::Inet_addr& addr )
 {
   do_set_proxy( addr );
+  impl_->conn_cache.reset();
 }
 
 void Client_base::set_timeout( int seconds )
-- 
2.43.0


From 88fcc0f370831f348cf19f607fe19535dc3a482e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:58 +0000
Subject: [PATCH 26/51] fix: let pool threads notice the pool's destruction

A thread that was not waiting yet when the pool got destroyed missed the
notification and was waited for endlessly. Taking the two locks in different
orders could also deadlock. Requests queued before the destruction are run.
---
 libiqxmlrpc/executor.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/libiqxmlrpc/executor.cc b/libiqxmlrpc/executor.cc
index 8a218b1..facdf88 100644
--- a/libiqxmlrpc/executor.cc
+++ b/libiqxmlrpc/executor.cc
@@ -97,15 +97,12 @@ void Pool_executor_factory::Pool_thread::operator ()()
   {
     scoped_lock lk(pool->req_queue_lock);
 
-    if (pool->req_queue.empty())
+    while (pool->req_queue.empty())
     {
-      pool->req_queue_cond.wait(lk);
-
       if (pool->is_being_destructed())
         return;
 
-      if (pool->req_queue.empty())
-        continue;
+      pool->req_queue_cond.wait(lk);
     }
 
     Pool_executor* executor = pool->req_queue.front();
@@ -170,8 +167,10 @@ void Pool_executor_factory::register_executor( Pool_executor* executor )
 
 void Pool_executor_factory::destruction_started()
 {
-  scoped_lock lk(destructor_lock);
-  in_destructor = true;
+  {
+    scoped_lock lk(destructor_lock);
+    in_destructor = true;
+  }
 
   scoped_lock lk_(req_queue_lock);
   req_queue_cond.notify_all();
-- 
2.43.0


From 26f01b5a60ffee09d1c25a41f1d35b21d7a59499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:58 +0000
Subject: [PATCH 27/51] fix: free the factory of a method registered again

---
 libiqxmlrpc/dispatcher_manager.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/dispatcher_manager.cc b/libiqxmlrpc/dispatcher_manager.cc
index 1794be5..21fd7ea 100644
--- a/libiqxmlrpc/dispatcher_manager.cc
+++ b/libiqxmlrpc/dispatcher_manager.cc
@@ -41,7 +41,12 @@ Default_method_dispatcher::~Default_method_dispatcher()
 void Default_method_dispatcher::register_method
   ( const std::string& name, Method_factory_base* fb )
 {
-  fs[name] = fb;
+  Method_factory_base*& f = fs[name];
+
+  if( f != fb )
+    delete f;
+
+  f = fb;
 }
 
 Method* Default_method_dispatcher::do_create_method(const std::string& name)
-- 
2.43.0


From 147e28c9e21bc5c8a636312c5f78793d75d3badb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:59 +0000
Subject: [PATCH 28/51] fix: do not take a name that failed to resolve for
 0.0.0.0

After a failed lookup the empty address was kept, so the next attempt connected
to the local host.
---
 libiqxmlrpc/inet_addr.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/inet_addr.cc b/libiqxmlrpc/inet_addr.cc
index 21d52bc..d5a6105 100644
--- a/libiqxmlrpc/inet_addr.cc
+++ b/libiqxmlrpc/inet_addr.cc
@@ -92,9 +92,9 @@ Inet_addr::Impl::Impl( const SystemSockAddrIn& s ):
 void
 Inet_addr::Impl::init_sockaddr() const
 {
-  sa = SystemSockAddrIn();
   struct hostent* hent = 0;
   IQXMLRPC_GETHOSTBYNAME(host.c_str());
+  sa = SystemSockAddrIn();
   sa->sin_family = PF_INET;
   sa->sin_port = htons(port);
   memcpy( (char*)&(sa->sin_addr), (char*)hent->h_addr, hent->h_length );
-- 
2.43.0


From e2ee6572bc537dbd3d4355881c909ecaa56c2749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:23 +0000
Subject: [PATCH 29/51] fix: close the connections that are open when a server
 is destroyed

They were leaked and their clients were left waiting.
---
 libiqxmlrpc/server.cc      | 16 ++++++++++++++++
 libiqxmlrpc/server.h       |  6 ++++++
 libiqxmlrpc/server_conn.cc |  9 +++++++++
 libiqxmlrpc/server_conn.h  |  5 +----
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index fe272f8..41bbc87 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -5,6 +5,7 @@
 #include <boost/scoped_ptr.hpp>
 #include <boost/thread/mutex.hpp>
 #include <memory>
+#include <set>
 
 #include "server.h"
 #include "auth_plugin.h"
@@ -39,6 +40,8 @@ public:
   std::auto_ptr<Interceptor> interceptors;
   const Auth_Plugin_base*    auth_plugin;
 
+  std::set<Server_connection*> connections;
+
   Impl(
     const iqnet::Inet_addr& addr,
     iqnet::Accepted_conn_factory* cf,
@@ -71,9 +74,22 @@ Server::Server(
 
 Server::~Server()
 {
+  while( !impl->connections.empty() )
+    delete *impl->connections.begin();
+
   delete impl;
 }
 
+void Server::add_connection( Server_connection* conn )
+{
+  impl->connections.insert( conn );
+}
+
+void Server::forget_connection( Server_connection* conn )
+{
+  impl->connections.erase( conn );
+}
+
 void Server::register_method(const std::string& name, Method_factory_base* f)
 {
   impl->disp_manager.register_method(name, f);
diff --git a/libiqxmlrpc/server.h b/libiqxmlrpc/server.h
index 059bc50..d0ad2f0 100644
--- a/libiqxmlrpc/server.h
+++ b/libiqxmlrpc/server.h
@@ -92,6 +92,12 @@ public:
 
   void log_err_msg( const std::string& );
 
+  //! \name Bookkeeping of open connections
+  /*! \{ */
+  void add_connection( Server_connection* );
+  void forget_connection( Server_connection* );
+  /*! \} */
+
 protected:
   iqnet::Accepted_conn_factory* get_conn_factory();
 
diff --git a/libiqxmlrpc/server_conn.cc b/libiqxmlrpc/server_conn.cc
index 83dd8ad..2b3c82d 100644
--- a/libiqxmlrpc/server_conn.cc
+++ b/libiqxmlrpc/server_conn.cc
@@ -19,6 +19,15 @@ Server_connection::Server_connection( const iqnet::Inet_addr& a ):
 
 Server_connection::~Server_connection()
 {
+  if( server )
+    server->forget_connection( this );
+}
+
+
+void Server_connection::set_server( Server* s )
+{
+  server = s;
+  server->add_connection( this );
 }
 
 
diff --git a/libiqxmlrpc/server_conn.h b/libiqxmlrpc/server_conn.h
index 48eade6..156d5cc 100644
--- a/libiqxmlrpc/server_conn.h
+++ b/libiqxmlrpc/server_conn.h
@@ -38,10 +38,7 @@ public:
 
   const iqnet::Inet_addr& get_peer_addr() const { return peer_addr; }
 
-  void set_server( Server* s )
-  {
-    server = s;
-  }
+  void set_server( Server* );
 
   void schedule_response( http::Packet* );
 
-- 
2.43.0


From 8140e54d9033a623f6a166ebd785176d693bfa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:23 +0000
Subject: [PATCH 30/51] fix: do not build an SSL error message from a null
 pointer

ERR_reason_error_string() has no text for need_read and need_write any more, so
every HTTPS connection ended the process.
---
 libiqxmlrpc/ssl_lib.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 2348a38..afed45c 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -260,9 +260,21 @@ Ctx::prepare_verify(SSL* ssl, bool server)
 }
 
 // ----------------------------------------------------------------------------
+namespace {
+
+// There is no reason string for codes unknown to OpenSSL
+std::string
+reason_string(unsigned long err)
+{
+  const char* s = ERR_reason_error_string(err);
+  return s ? s : "unknown error";
+}
+
+} // anonymous namespace
+
 exception::exception() throw():
   ssl_err( ERR_get_error() ),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
@@ -270,7 +282,7 @@ exception::exception() throw():
 
 exception::exception( unsigned long err ) throw():
   ssl_err(err),
-  msg( ERR_reason_error_string(ssl_err) )
+  msg( reason_string(ssl_err) )
 {
   msg.insert(0, "SSL: ");
 }
-- 
2.43.0


From 6e968bf4040ddda5af4dfee16bed51794d87495a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:40 +0000
Subject: [PATCH 31/51] fix: start every SSL operation with an empty error
 queue

An error left in the thread's queue by one connection was taken for an error of
the next one, so a broken handshake closed other clients' connections.
---
 libiqxmlrpc/ssl_connection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 8eb4624..7b1e0cc 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -44,6 +44,7 @@ void ssl::Connection::post_connect()
 void ssl::Connection::ssl_accept()
 {
   ssl_ctx->prepare_verify(ssl, true);
+  ERR_clear_error();
   int ret = SSL_accept( ssl );
 
   if( ret != 1 )
@@ -54,6 +55,7 @@ void ssl::Connection::ssl_accept()
 void ssl::Connection::ssl_connect()
 {
   ssl_ctx->prepare_verify(ssl, false);
+  ERR_clear_error();
   int ret = SSL_connect( ssl );
 
   if( ret != 1 )
@@ -66,6 +68,7 @@ void ssl::Connection::shutdown()
   if( shutdown_recved() && shutdown_sent() )
     return;
 
+  ERR_clear_error();
   int ret = SSL_shutdown( ssl );
   switch( ret )
   {
@@ -85,6 +88,7 @@ void ssl::Connection::shutdown()
 
 size_t ssl::Connection::send( const char* data, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_write( ssl, data, static_cast<int>(len) );
 
   if( static_cast<size_t>(ret) != len )
@@ -96,6 +100,7 @@ size_t ssl::Connection::send( const char* data, size_t len )
 
 size_t ssl::Connection::recv( char* buf, size_t len )
 {
+  ERR_clear_error();
   int ret = SSL_read( ssl, buf, static_cast<int>(len) );
 
   if( ret <= 0 )
-- 
2.43.0


From 3a069d41b06fac6a564ada20467787f0b2222384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:40 +0000
Subject: [PATCH 32/51] fix: do not die of SIGPIPE when an HTTPS peer has gone

Plain connections already send without raising the signal.
---
 libiqxmlrpc/ssl_lib.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index afed45c..0715de7 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -18,6 +18,7 @@
 
 #ifndef WIN32
 #include <pthread.h>
+#include <signal.h>
 #endif
 
 #include <sstream>
@@ -97,6 +98,11 @@ init_library()
 #ifndef _WIN32
   if (!CRYPTO_get_id_callback())
     CRYPTO_set_id_callback(&openssl_id_function);
+
+  // OpenSSL writes to sockets without MSG_NOSIGNAL
+  struct sigaction sa;
+  if (sigaction(SIGPIPE, 0, &sa) == 0 && !(sa.sa_flags & SA_SIGINFO) && sa.sa_handler == SIG_DFL)
+    signal(SIGPIPE, SIG_IGN);
 #endif
 
   iqxmlrpc_ssl_data_idx = SSL_get_ex_new_index(0, (void*)"iqxmlrpc verifier", NULL, NULL, NULL);
-- 
2.43.0


From c905746f69d343a15d1dcf7636952b30defcd715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:40 +0000
Subject: [PATCH 33/51] fix: write every byte of a certificate fingerprint in
 two digits

Bytes below 16 lost their leading zero, so fingerprints of different
certificates could be equal and did not match what other tools print.
---
 libiqxmlrpc/ssl_lib.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index 0715de7..d7b2d9f 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -21,6 +21,7 @@
 #include <signal.h>
 #endif
 
+#include <iomanip>
 #include <sstream>
 #include "ssl_lib.h"
 #include "net_except.h"
@@ -177,7 +178,7 @@ ConnectionVerifier::cert_finger_sha256(X509_STORE_CTX* ctx) const
 
   std::ostringstream ss;
   for(int i = 0; i < 32; i++)
-     ss << std::hex << int(md[i]);
+     ss << std::hex << std::setw(2) << std::setfill('0') << int(md[i]);
 
   return ss.str();
 }
-- 
2.43.0


From 1bc38c1a75be4c8dc4e5173bcd9b0c124c6e01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:40 +0000
Subject: [PATCH 34/51] fix: free the SSL_CTX of a destroyed context

---
 libiqxmlrpc/ssl_lib.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libiqxmlrpc/ssl_lib.cc b/libiqxmlrpc/ssl_lib.cc
index d7b2d9f..99eefe7 100644
--- a/libiqxmlrpc/ssl_lib.cc
+++ b/libiqxmlrpc/ssl_lib.cc
@@ -194,11 +194,17 @@ struct Ctx::Impl {
   bool require_client_cert;
 
   Impl():
+    ctx(0),
     server_verifier(0),
     client_verifier(0),
     require_client_cert(false)
   {
   }
+
+  ~Impl()
+  {
+    SSL_CTX_free(ctx);
+  }
 };
 
 Ctx::Ctx( const std::string& cert_path, const std::string& key_path, bool client ):
-- 
2.43.0


From 2b1e6ed9c66ffca024cdf66345be74f3adc9d7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:43:41 +0000
Subject: [PATCH 35/51] fix: make calls through an HTTPS proxy work

The connection inside of the tunnel had no options, so a call crashed. Its socket
was closed twice and was gone for the next call of a kept-alive client.
---
 libiqxmlrpc/https_client.cc | 20 ++++++++++++++++----
 libiqxmlrpc/https_client.h  |  4 ++++
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index 7815d21..d067465 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -51,14 +51,26 @@ Https_proxy_client_connection::Https_proxy_client_connection(
   sock.set_non_blocking( nb );
 }
 
+Https_proxy_client_connection::~Https_proxy_client_connection()
+{
+}
+
 http::Packet* Https_proxy_client_connection::do_process_session( const std::string& s )
 {
-  setup_tunnel();
+  if( !https_conn )
+  {
+    setup_tunnel();
+
+    // Now the socket belongs to the connection inside of the tunnel
+    Socket tunnel( sock );
+    sock = Socket( -1, tunnel.get_peer_addr() );
 
-  Https_client_connection https_conn(sock, non_blocking);
-  https_conn.post_connect();
+    https_conn.reset( new Https_client_connection(tunnel, non_blocking) );
+    https_conn->post_connect();
+  }
 
-  return https_conn.do_process_session(s);
+  https_conn->set_options( opts() );
+  return https_conn->do_process_session(s);
 }
 
 void Https_proxy_client_connection::setup_tunnel()
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index 2295bf2..e9cc7e0 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -15,6 +15,8 @@
 namespace iqxmlrpc
 {
 
+class Https_client_connection;
+
 //! XML-RPC \b HTTPS PROXY client connection.
 //! DO NOT USE IT IN YOUR CODE.
 class LIBIQXMLRPC_API Https_proxy_client_connection:
@@ -23,6 +25,7 @@ class LIBIQXMLRPC_API Https_proxy_client_connection:
 {
 public:
   Https_proxy_client_connection( const iqnet::Socket&, bool non_block_flag );
+  ~Https_proxy_client_connection();
 
   void handle_input( bool& );
   void handle_output( bool& );
@@ -34,6 +37,7 @@ protected:
 
   boost::scoped_ptr<iqnet::Reactor_base> reactor;
   boost::scoped_ptr<http::Packet> resp_packet;
+  boost::scoped_ptr<Https_client_connection> https_conn;
   bool non_blocking;
   std::string out_str;
 };
-- 
2.43.0


From 70f7ded06113b708f6f6764f5d792a32943e36dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:23:03 +0000
Subject: [PATCH 36/51] fix: close an HTTPS connection whose shutdown is
 complete

When the closing alert could not be sent because the peer was gone, the
connection was neither registered with the reactor nor deleted, and its
socket was never closed.
---
 libiqxmlrpc/ssl_connection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/ssl_connection.cc b/libiqxmlrpc/ssl_connection.cc
index 7b1e0cc..ca72557 100644
--- a/libiqxmlrpc/ssl_connection.cc
+++ b/libiqxmlrpc/ssl_connection.cc
@@ -205,7 +205,7 @@ void ssl::Reaction_connection::switch_state( bool& terminate )
   catch( const ssl::connection_close& )
   {
 //    std::cout << "connection_close " << e.is_clean() << std::endl;
-    reg_shutdown();
+    terminate = reg_shutdown();
   }
 }
 
-- 
2.43.0


From 065bd69d031838489a58c1bb405e1497d0dfcfdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:15:29 +0000
Subject: [PATCH 37/51] fix: do not reuse a connection the server is going to
 close

---
 libiqxmlrpc/client.cc      | 8 +++++++-
 libiqxmlrpc/client_conn.cc | 5 ++++-
 libiqxmlrpc/client_conn.h  | 4 ++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/client.cc b/libiqxmlrpc/client.cc
index 5efb0b2..a4e22d4 100644
--- a/libiqxmlrpc/client.cc
+++ b/libiqxmlrpc/client.cc
@@ -139,7 +139,13 @@ Response Client_base::execute(
   conn->set_options(impl_->opts);
 
   try {
-    return conn->process_session( req, xheaders );
+    Response resp( conn->process_session( req, xheaders ) );
+
+    // Do not use the connection that server is going to close
+    if( !conn->server_keeps_alive() )
+      impl_->conn_cache.reset();
+
+    return resp;
   }
   catch( ... )
   {
diff --git a/libiqxmlrpc/client_conn.cc b/libiqxmlrpc/client_conn.cc
index e3b93ed..23a0033 100644
--- a/libiqxmlrpc/client_conn.cc
+++ b/libiqxmlrpc/client_conn.cc
@@ -8,7 +8,8 @@
 namespace iqxmlrpc {
 
 Client_connection::Client_connection():
-  read_buf_(65536, '\0')
+  read_buf_(65536, '\0'),
+  server_keeps_alive_(false)
 {
 }
 
@@ -43,6 +44,8 @@ Response Client_connection::process_session( const Request& req, const XHeaders&
   const Response_header* res_h =
     static_cast<const Response_header*>(res_p->header());
 
+  server_keeps_alive_ = res_h->conn_keep_alive();
+
   if( res_h->code() != 200 )
     throw Error_response( res_h->phrase(), res_h->code() );
 
diff --git a/libiqxmlrpc/client_conn.h b/libiqxmlrpc/client_conn.h
index bf84fbe..e698f00 100644
--- a/libiqxmlrpc/client_conn.h
+++ b/libiqxmlrpc/client_conn.h
@@ -24,6 +24,9 @@ public:
 
   Response process_session(const Request&, const XHeaders& xheaders = XHeaders());
 
+  //! Does the server keep connection open after the last response?
+  bool server_keeps_alive() const { return server_keeps_alive_; }
+
 protected:
   http::Packet* read_response( const std::string&, bool read_hdr_only = false );
   virtual http::Packet* do_process_session( const std::string& ) = 0;
@@ -39,6 +42,7 @@ private:
   http::Packet_reader preader;
   const Client_options* options;
   std::vector<char> read_buf_;
+  bool server_keeps_alive_;
 };
 
 //! Exception which be thrown by client when timeout occured.
-- 
2.43.0


From 1ce5b0f398a6a2038942a2abb7a1368c13c9abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:18 +0000
Subject: [PATCH 38/51] fix: close the listening socket when the address is not
 available

---
 libiqxmlrpc/acceptor.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/acceptor.cc b/libiqxmlrpc/acceptor.cc
index d7fb6e3..86f6793 100644
--- a/libiqxmlrpc/acceptor.cc
+++ b/libiqxmlrpc/acceptor.cc
@@ -17,8 +17,16 @@ Acceptor::Acceptor( const iqnet::Inet_addr& bind_addr, Accepted_conn_factory* fa
   reactor(reactor_),
   firewall(0)
 {
-  sock.bind( bind_addr );
-  listen();
+  try {
+    sock.bind( bind_addr );
+    listen();
+  }
+  catch( ... )
+  {
+    sock.close();
+    throw;
+  }
+
   reactor->register_handler( this, Reactor_base::INPUT );
 }
 
-- 
2.43.0


From d38c349e430cbfbf1f177ff7349cbadfdac3d3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:49 +0000
Subject: [PATCH 39/51] fix: report the whole reason phrase of an error
 response

---
 libiqxmlrpc/http.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index cc6cdf0..914dbe6 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -349,8 +349,11 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
     code_ = 0;
   }
 
-  if (resp_line.size() > 2)
-    phrase_ = resp_line[2];
+  // The phrase is the rest of the line
+  const std::string& line = get_head_line();
+  size_t pos = line.find(resp_line[1], resp_line[0].length());
+  phrase_ = line.substr(pos + resp_line[1].length());
+  boost::trim(phrase_);
 }
 
 Response_header::Response_header( int c, const std::string& p ):
-- 
2.43.0


From 93d570fd44b50cb09754e53d8f7fb456bd86112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:49 +0000
Subject: [PATCH 40/51] fix: report a connection closed by the HTTPS server as
 such, not as a timeout

---
 libiqxmlrpc/https_client.cc | 6 ++++++
 libiqxmlrpc/https_client.h  | 1 +
 2 files changed, 7 insertions(+)

diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index d067465..f7831e6 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -187,6 +187,12 @@ void Https_client_connection::recv_succeed( bool&, size_t, size_t sz )
   }
 }
 
+
+void Https_client_connection::finish()
+{
+  throw iqnet::network_error( "Connection closed by peer.", false );
+}
+
 } // namespace iqxmlrpc
 
 // vim:ts=2:sw=2:et
diff --git a/libiqxmlrpc/https_client.h b/libiqxmlrpc/https_client.h
index e9cc7e0..4b11e21 100644
--- a/libiqxmlrpc/https_client.h
+++ b/libiqxmlrpc/https_client.h
@@ -66,6 +66,7 @@ public:
   void connect_succeed();
   void send_succeed( bool& );
   void recv_succeed( bool&, size_t req_len, size_t real_len  );
+  void finish();
 
 protected:
   friend class Https_proxy_client_connection;
-- 
2.43.0


From cc9b18b9542f6f2e09d7cad21567607e15e8eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:49 +0000
Subject: [PATCH 41/51] fix: let serving threads write to the error log one at
 a time

---
 libiqxmlrpc/server.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 41bbc87..87a2554 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -33,6 +33,7 @@ public:
 
   util::LockedBool<boost::mutex> exit_flag;
   std::ostream* log;
+  boost::mutex log_lock;
   size_t max_req_sz;
   http::Verification_level ver_level;
 
@@ -159,6 +160,8 @@ void Server::set_auth_plugin( const Auth_Plugin_base& ap )
 
 void Server::log_err_msg( const std::string& msg )
 {
+  boost::mutex::scoped_lock lk( impl->log_lock );
+
   if( impl->log )
     *impl->log << msg << std::endl;
 }
-- 
2.43.0


From 6e444d80588dc6ebeca2e83399bf46bbdc565613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:12:49 +0000
Subject: [PATCH 42/51] fix: refuse to serialise text with a NUL instead of
 cutting it off

---
 libiqxmlrpc/server.cc      | 3 ++-
 libiqxmlrpc/xml_builder.cc | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/server.cc b/libiqxmlrpc/server.cc
index 87a2554..2ea474f 100644
--- a/libiqxmlrpc/server.cc
+++ b/libiqxmlrpc/server.cc
@@ -257,8 +257,9 @@ void Server::schedule_execute( http::Packet* pkt, Server_connection* conn )
 void Server::schedule_response(
   const Response& resp, Server_connection* conn, Executor* exec )
 {
-  std::auto_ptr<Executor> executor_to_delete(exec);
+  // On failure the executor remains with the caller
   std::string resp_str = dump_response(resp);
+  std::auto_ptr<Executor> executor_to_delete(exec);
   http::Packet *packet = new http::Packet(new http::Response_header(), resp_str);
   conn->schedule_response( packet );
 }
diff --git a/libiqxmlrpc/xml_builder.cc b/libiqxmlrpc/xml_builder.cc
index 7389673..f4ab2d4 100644
--- a/libiqxmlrpc/xml_builder.cc
+++ b/libiqxmlrpc/xml_builder.cc
@@ -63,6 +63,9 @@ XmlBuilder::~XmlBuilder()
 void
 XmlBuilder::add_textdata(const std::string& data)
 {
+  if (data.find('\0') != std::string::npos)
+    throw XmlBuild_error("text contains a NUL character");
+
   const xmlChar* xdata = reinterpret_cast<const xmlChar*>(data.c_str());
   throwBuildError(xmlTextWriterWriteString(writer, xdata), -1);
 }
-- 
2.43.0


From bf38a1f027827c735ed6065a2a6eb6b101c14af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:15 +0000
Subject: [PATCH 43/51] fix: write and read numbers of XML-RPC values the same
 way in every locale

boost::lexical_cast prints doubles with the decimal point of the C locale
and integers with the digit grouping of the global C++ locale, so that
a program that selects, say, de_DE sent <double>1,5</double> and
<i4>1.234</i4> and could not read <double>1.5</double>.
---
 libiqxmlrpc/util.h            | 29 +++++++++++++++++++++++++++++
 libiqxmlrpc/value_parser.cc   | 26 +++++++++++++++++++++-----
 libiqxmlrpc/value_type_xml.cc |  9 ++++-----
 3 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/libiqxmlrpc/util.h b/libiqxmlrpc/util.h
index 31a7fb6..bf74ebf 100644
--- a/libiqxmlrpc/util.h
+++ b/libiqxmlrpc/util.h
@@ -6,10 +6,14 @@
 
 #include "lock.h"
 
+#include <boost/lexical_cast.hpp>
 #include <boost/utility.hpp>
 
 #include <functional>
+#include <locale>
 #include <memory>
+#include <sstream>
+#include <string>
 
 namespace iqxmlrpc {
 namespace util {
@@ -64,6 +68,31 @@ public:
   }
 };
 
+//! Text of a number, the same in every locale.
+template <class T>
+std::string number_to_text(T val)
+{
+  std::ostringstream ss;
+  ss.imbue(std::locale::classic());
+  ss.precision(17);
+  ss << val;
+  return ss.str();
+}
+
+//! Number denoted by a text, the same in every locale.
+template <class T>
+T text_to_number(const std::string& text)
+{
+  std::istringstream ss(text);
+  ss.imbue(std::locale::classic());
+  T val;
+
+  if (!(ss >> std::noskipws >> val) || ss.peek() != std::istringstream::traits_type::eof())
+    throw boost::bad_lexical_cast(typeid(std::string), typeid(T));
+
+  return val;
+}
+
 //! Provides serialized access to some bool value
 template <class Lock>
 class LockedBool: boost::noncopyable {
diff --git a/libiqxmlrpc/value_parser.cc b/libiqxmlrpc/value_parser.cc
index 66c77e5..4eb47f8 100644
--- a/libiqxmlrpc/value_parser.cc
+++ b/libiqxmlrpc/value_parser.cc
@@ -4,6 +4,7 @@
 #include <stdexcept>
 #include <boost/lexical_cast.hpp>
 #include "except.h"
+#include "util.h"
 #include "value_parser.h"
 
 namespace iqxmlrpc {
@@ -237,10 +238,25 @@ ValueBuilder::do_visit_element_end(const std::string&)
   }
 }
 
+namespace {
+
+double
+parse_double(const std::string& text)
+{
+  // infinity and NaN, which streams do not read
+  size_t pos = text.find_first_not_of("+-");
+  if (pos != std::string::npos && std::string("iInN").find(text[pos]) != std::string::npos)
+    return boost::lexical_cast<double>(text);
+
+  return util::text_to_number<double>(text);
+}
+
+} // nameless namespace
+
 void
 ValueBuilder::do_visit_text(const std::string& text)
 {
-  using boost::lexical_cast;
+  using util::text_to_number;
 
   // text after the typed element must not replace its value
   if (retval.get())
@@ -254,19 +270,19 @@ ValueBuilder::do_visit_text(const std::string& text)
     break;
 
   case INT:
-    retval.reset(new Int(lexical_cast<int>(text)));
+    retval.reset(new Int(text_to_number<int>(text)));
     break;
 
   case INT64:
-    retval.reset(new Int64(lexical_cast<int64_t>(text)));
+    retval.reset(new Int64(text_to_number<int64_t>(text)));
     break;
 
   case BOOL:
-    retval.reset(new Bool(lexical_cast<int>(text) != 0));
+    retval.reset(new Bool(text_to_number<int>(text) != 0));
     break;
 
   case DOUBLE:
-    retval.reset(new Double(lexical_cast<double>(text)));
+    retval.reset(new Double(parse_double(text)));
     break;
 
   case BINARY:
diff --git a/libiqxmlrpc/value_type_xml.cc b/libiqxmlrpc/value_type_xml.cc
index 541e293..ceacfeb 100644
--- a/libiqxmlrpc/value_type_xml.cc
+++ b/libiqxmlrpc/value_type_xml.cc
@@ -1,8 +1,7 @@
 //  Libiqxmlrpc - an object-oriented XML-RPC solution.
 //  Copyright (C) 2011 Anton Dedov
 
-#include <boost/lexical_cast.hpp>
-
+#include "util.h"
 #include "value.h"
 #include "value_type_xml.h"
 #include "xml_builder.h"
@@ -31,17 +30,17 @@ void Value_type_to_xml::do_visit_nil()
 
 void Value_type_to_xml::do_visit_int(int val)
 {
-  add_textnode("i4", boost::lexical_cast<std::string>(val));
+  add_textnode("i4", util::number_to_text(val));
 }
 
 void Value_type_to_xml::do_visit_int64(int64_t val)
 {
-  add_textnode("i8", boost::lexical_cast<std::string>(val));
+  add_textnode("i8", util::number_to_text(val));
 }
 
 void Value_type_to_xml::do_visit_double(double val)
 {
-  add_textnode("double", boost::lexical_cast<std::string>(val));
+  add_textnode("double", util::number_to_text(val));
 }
 
 void Value_type_to_xml::do_visit_bool(bool val)
-- 
2.43.0


From 0dded4dc475130d17f2629d4f48cad92494c8db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:15 +0000
Subject: [PATCH 44/51] fix: write numbers in HTTP headers the same way in
 every locale

Content-Length and the port in Host, in the URL for a proxy and in CONNECT
were written with the digit grouping of the global C++ locale.
---
 libiqxmlrpc/http.cc         | 9 ++++-----
 libiqxmlrpc/http_client.cc  | 3 ++-
 libiqxmlrpc/https_client.cc | 5 ++---
 3 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 914dbe6..3a7273d 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -5,6 +5,7 @@
 
 #include "http_errors.h"
 #include "method.h"
+#include "util.h"
 #include "version.h"
 
 #include <boost/algorithm/string.hpp>
@@ -169,7 +170,7 @@ void Header::set_option(const std::string& name, const std::string& value)
 
 void Header::set_option(const std::string& name, size_t value)
 {
-  set_option(name, boost::lexical_cast<std::string>(value));
+  set_option(name, util::number_to_text(value));
 }
 
 bool Header::option_exists(const std::string& name) const
@@ -258,9 +259,7 @@ Request_header::Request_header(
 ):
   uri_(req_uri)
 {
-  std::ostringstream host_opt;
-  host_opt << vhost << ":" << port;
-  set_option(names::host, host_opt.str());
+  set_option(names::host, vhost + ":" + util::number_to_text(port));
   set_option(names::user_agent, PACKAGE " " VERSION);
 }
 
@@ -381,7 +380,7 @@ std::string Response_header::current_date() const
 std::string Response_header::dump_head() const
 {
   std::ostringstream ss;
-  ss << "HTTP/1.1 " << code() <<  " " << phrase() << names::crlf;
+  ss << "HTTP/1.1 " << util::number_to_text(code()) <<  " " << phrase() << names::crlf;
   return ss.str();
 }
 
diff --git a/libiqxmlrpc/http_client.cc b/libiqxmlrpc/http_client.cc
index bddcfd3..0880c43 100644
--- a/libiqxmlrpc/http_client.cc
+++ b/libiqxmlrpc/http_client.cc
@@ -5,6 +5,7 @@
 
 #include "client_opts.h"
 #include "reactor_impl.h"
+#include "util.h"
 
 #include <sstream>
 
@@ -71,7 +72,7 @@ void Http_client_connection::handle_input( bool& )
 std::string Http_proxy_client_connection::decorate_uri() const
 {
   std::ostringstream ss;
-  ss << "http://" << opts().vhost() << ':' << opts().addr().get_port();
+  ss << "http://" << opts().vhost() << ':' << util::number_to_text(opts().addr().get_port());
 
   if (!opts().uri().empty() && opts().uri()[0] != '/')
     ss << '/';
diff --git a/libiqxmlrpc/https_client.cc b/libiqxmlrpc/https_client.cc
index f7831e6..da6324e 100644
--- a/libiqxmlrpc/https_client.cc
+++ b/libiqxmlrpc/https_client.cc
@@ -5,8 +5,7 @@
 
 #include "client_opts.h"
 #include "reactor_impl.h"
-
-#include <boost/lexical_cast.hpp>
+#include "util.h"
 
 using namespace iqnet;
 
@@ -27,7 +26,7 @@ private:
     return
       "CONNECT "
       + addr_.get_host_name() + ":"
-      + boost::lexical_cast<std::string>(addr_.get_port())
+      + util::number_to_text(addr_.get_port())
       + " HTTP/1.0\r\n";
   }
 
-- 
2.43.0


From 7a6759d43fe826cacd36d57e1c3d3f8932039554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:15 +0000
Subject: [PATCH 45/51] fix: fold the case of HTTP header names the same way in
 every locale

In a Turkish locale the capital I has no lower case i, so that headers
like AUTHORIZATION or X-ID were not recognised.
---
 libiqxmlrpc/http.cc     | 8 ++++----
 libiqxmlrpc/xheaders.cc | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 3a7273d..0e4bcdf 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -55,7 +55,7 @@ void unsigned_number(const std::string& val)
 void content_type(const std::string& val)
 {
   std::string cont_type(val);
-  boost::to_lower(cont_type);
+  boost::to_lower(cont_type, std::locale::classic());
 
   if (!boost::find_first(cont_type, "text/xml"))
     throw Unsupported_content_type(cont_type);
@@ -64,7 +64,7 @@ void content_type(const std::string& val)
 void expect_continue(const std::string& val)
 {
   std::string exp(val);
-  boost::to_lower(exp);
+  boost::to_lower(exp, std::locale::classic());
 
   if (!boost::starts_with(exp, "100-continue"))
     throw Expectation_failed();
@@ -117,7 +117,7 @@ void Header::parse(const std::string& s)
 
     boost::trim(opt_name);
     boost::trim(opt_value);
-    boost::to_lower(opt_name);
+    boost::to_lower(opt_name, std::locale::classic());
     set_option_checked(opt_name, opt_value);
   }
 }
@@ -307,7 +307,7 @@ void Request_header::get_authinfo(std::string& user, std::string& pw) const
   if (v.size() != 2)
     throw Unauthorized();
 
-  boost::to_lower(v[0]);
+  boost::to_lower(v[0], std::locale::classic());
   if (v[0] != "basic")
     throw Unauthorized();
 
diff --git a/libiqxmlrpc/xheaders.cc b/libiqxmlrpc/xheaders.cc
index c26a1d9..9b21679 100644
--- a/libiqxmlrpc/xheaders.cc
+++ b/libiqxmlrpc/xheaders.cc
@@ -9,7 +9,7 @@ XHeaders& XHeaders::operator=(const std::map<std::string, std::string>& v) {
   for (XHeaders::const_iterator it = v.begin(); it != v.end(); ++it) {
     if (validate(it->first)) {
       std::string key(it->first);
-      boost::to_lower(key);
+      boost::to_lower(key, std::locale::classic());
       xheaders_[key] = it->second;
     }
   }
@@ -23,7 +23,7 @@ std::string& XHeaders::operator[] (const std::string& v) {
     throw Error_xheader("The header doesn't starts with `X-`");
   }
   std::string key(v);
-  boost::to_lower(key);
+  boost::to_lower(key, std::locale::classic());
   return xheaders_[key];
 }
 
@@ -33,7 +33,7 @@ size_t XHeaders::size() const {
 
 XHeaders::const_iterator XHeaders::find (const std::string& k) const {
   std::string key(k);
-  boost::to_lower(key);
+  boost::to_lower(key, std::locale::classic());
   return xheaders_.find(key);
 }
 
-- 
2.43.0


From 2ec63a17d4bc39be526fa250f95de771dee3ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:42:41 +0000
Subject: [PATCH 46/51] fix: wait on when a signal interrupts poll()

'continue' left the do-while(false) loop, so that a handled signal looked
like a round of events: a client took an unfinished connect for a finished
one, and a timeout started anew with every signal.
---
 libiqxmlrpc/reactor_poll_impl.cc | 33 +++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/libiqxmlrpc/reactor_poll_impl.cc b/libiqxmlrpc/reactor_poll_impl.cc
index 13bedc4..07e8cfc 100644
--- a/libiqxmlrpc/reactor_poll_impl.cc
+++ b/libiqxmlrpc/reactor_poll_impl.cc
@@ -6,8 +6,11 @@
 #ifdef HAVE_POLL
 #include "reactor_poll_impl.h"
 
+#include <algorithm>
 #include <deque>
+#include <errno.h>
 #include <sys/poll.h>
+#include <time.h>
 #include <vector>
 
 using namespace iqnet;
@@ -42,23 +45,31 @@ void Reactor_poll_impl::reset(const HandlerStateList& in)
   }
 }
 
-bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
+static long long now_ms()
 {
-  do {
-    int code = ::poll( &impl->pfd[0], impl->pfd.size(), to_ms );
+  struct timespec ts;
+  clock_gettime( CLOCK_MONOTONIC, &ts );
+  return ts.tv_sec * 1000LL + ts.tv_nsec / 1000000;
+}
 
-    if( code < 0 )
-    {
-      if (errno == EINTR)
-        continue;
+bool Reactor_poll_impl::poll(HandlerStateList& out, Reactor_base::Timeout to_ms)
+{
+  const long long deadline = to_ms > 0 ? now_ms() + to_ms : 0;
+  int left = to_ms;
+  int code;
 
+  while( (code = ::poll( &impl->pfd[0], impl->pfd.size(), left )) < 0 )
+  {
+    if (errno != EINTR)
       throw network_error( "poll()" );
-    }
 
-    if( !code )
-      return false;
+    // a signal neither counts as an event nor prolongs the timeout
+    if (to_ms > 0)
+      left = static_cast<int>( std::max(deadline - now_ms(), 0LL) );
+  }
 
-  } while (false);
+  if( !code )
+    return false;
 
   for( unsigned i = 0; i < impl->pfd.size(); i++ )
   {
-- 
2.43.0


From 485bda79f5cecc3f50c7422768b1839520931781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:02 +0000
Subject: [PATCH 47/51] fix: stop reading a document at its first fatal error

libxml2 carries on after an error in order to report further ones, and
copies the whole of a comment with each double hyphen it finds there.
A 400 KB comment of hyphens kept the parser busy for most of a minute.
---
 libiqxmlrpc/parser2.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/libiqxmlrpc/parser2.cc b/libiqxmlrpc/parser2.cc
index 7237c80..2b0b36d 100644
--- a/libiqxmlrpc/parser2.cc
+++ b/libiqxmlrpc/parser2.cc
@@ -25,6 +25,19 @@ to_string(xmlChar* s)
   return std::string();
 }
 
+// Nothing is read after the first error that makes a document malformed:
+// libxml2 goes on otherwise, and reports each double hyphen of a comment
+// together with the whole of the comment.
+extern "C" void
+stop_at_error(void*, xmlErrorPtr err)
+{
+  xmlGenericError(xmlGenericErrorContext, "Entity: line %d: parser error : %s",
+    err->line, err->message ? err->message : "\n");
+
+  if (err->level == XML_ERR_FATAL && err->ctxt)
+    xmlStopParser(static_cast<xmlParserCtxtPtr>(err->ctxt));
+}
+
 } // nameless namespace
 
 struct LibxmlInitializer {
@@ -109,6 +122,7 @@ public:
 #define XML_PARSE_HUGE 0
 #endif
     reader = xmlReaderForMemory(buf2, sz, 0, 0, XML_PARSE_NONET | XML_PARSE_HUGE);
+    xmlTextReaderSetStructuredErrorHandler(reader, stop_at_error, 0);
     xmlTextReaderSetParserProp(reader, XML_PARSER_SUBST_ENTITIES, 0); // No XXE
   }
 
-- 
2.43.0


From 94ccd579e3e58303291878336a8e36087023c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:01:42 +0000
Subject: [PATCH 48/51] fix: do not wait for system events when faked ones were
 delivered

A faked event (data left in the TLS layer) was delivered at the beginning of a
round that then went on to wait for system events. Events faked by callbacks
waited for the next one, and a client could report a timeout though the response
had been read.
---
 libiqxmlrpc/reactor_impl.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/libiqxmlrpc/reactor_impl.h b/libiqxmlrpc/reactor_impl.h
index 302f3a6..5cbeffd 100644
--- a/libiqxmlrpc/reactor_impl.h
+++ b/libiqxmlrpc/reactor_impl.h
@@ -62,7 +62,7 @@ private:
   Event_handler* find_handler(Socket::Handler);
   hs_iterator find_handler_state(Event_handler*);
 
-  void handle_user_events();
+  bool handle_user_events();
   bool handle_system_events( Timeout );
 
   void invoke_clients_handler( Event_handler*, HandlerState&, bool& terminate );
@@ -228,7 +228,7 @@ void Reactor<Lock>::invoke_event_handler( Reactor_base::HandlerState& hs )
 }
 
 template <class Lock>
-void Reactor<Lock>::handle_user_events()
+bool Reactor<Lock>::handle_user_events()
 {
   HandlerStateList called_by_user;
   scoped_lock lk(lock);
@@ -244,12 +244,16 @@ void Reactor<Lock>::handle_user_events()
 
   lk.unlock();
 
+  bool called = !called_by_user.empty();
+
   while( !called_by_user.empty() )
   {
     HandlerState hs(called_by_user.front());
     called_by_user.pop_front();
     invoke_event_handler(hs);
   }
+
+  return called;
 }
 
 template <class Lock>
@@ -293,8 +297,9 @@ bool Reactor<Lock>::handle_events(Reactor_base::Timeout ms)
 
   lk.unlock();
 
-  handle_user_events();
-  return handle_system_events(ms);
+  // Do not wait for system events if there were events already
+  bool called = handle_user_events();
+  return handle_system_events(called ? 0 : ms) || called;
 }
 
 } // namespace iqnet
-- 
2.43.0


From c54f3207d45163500555b11123839176a9ec6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:12:02 +0000
Subject: [PATCH 49/51] fix: do not overflow on timeouts of more than 24 days

---
 libiqxmlrpc/client_opts.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/client_opts.h b/libiqxmlrpc/client_opts.h
index 6380dda..6197fd1 100644
--- a/libiqxmlrpc/client_opts.h
+++ b/libiqxmlrpc/client_opts.h
@@ -4,6 +4,8 @@
 #ifndef _iqxmlrpc_client_opts_h_
 #define _iqxmlrpc_client_opts_h_
 
+#include <limits.h>
+#include <algorithm>
 #include <string>
 #include "inet_addr.h"
 #include "xheaders.h"
@@ -40,7 +42,8 @@ public:
 
   void set_timeout( int seconds )
   {
-    if( (timeout_ = seconds) > 0 )
+    // timeouts are counted in milliseconds elsewhere
+    if( (timeout_ = std::min(seconds, INT_MAX / 1000)) > 0 )
       non_blocking_flag_ = true;
   }
 
-- 
2.43.0


From 18d04c46e5bcbea3ac08c7f467c4ab685c1784b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:14:24 +0000
Subject: [PATCH 50/51] fix: refuse a parameter without a value

---
 libiqxmlrpc/request_parser.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libiqxmlrpc/request_parser.cc b/libiqxmlrpc/request_parser.cc
index 295ee0b..1b52f34 100644
--- a/libiqxmlrpc/request_parser.cc
+++ b/libiqxmlrpc/request_parser.cc
@@ -52,8 +52,12 @@ void
 RequestBuilder::do_visit_element_end(const std::string& tagname)
 {
   // the next parameter may begin only after the previous one has ended
-  if (tagname == "param" && state_.get_state() == VALUE)
+  if (tagname == "param") {
+    if (state_.get_state() != VALUE)
+      throw XML_RPC_violation(parser_.context());
+
     state_.set_state(PARAMS);
+  }
 
   if (tagname == "params")
     state_.set_state(PARAMS_END);
-- 
2.43.0


From 00665d82635e1abcb436c2f3502155bb99659c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:59:31 +0000
Subject: [PATCH 51/51] fix: read the status code of a response independently
 of the locale

In a C++ locale with digit grouping a status such as 2,0,0 was read as 200;
elsewhere it is no number.
---
 libiqxmlrpc/http.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libiqxmlrpc/http.cc b/libiqxmlrpc/http.cc
index 0e4bcdf..29cc8ec 100644
--- a/libiqxmlrpc/http.cc
+++ b/libiqxmlrpc/http.cc
@@ -343,7 +343,7 @@ Response_header::Response_header(Verification_level lev, const std::string& to_p
   }
 
   try {
-    code_ = boost::lexical_cast<int>(resp_line[1]);
+    code_ = util::text_to_number<int>(resp_line[1]);
   } catch (const boost::bad_lexical_cast&) {
     code_ = 0;
   }
-- 
2.43.0

