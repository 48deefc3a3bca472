From d671ea9c9ae42932c58d1d6a8f96a4c6531d5437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:12 +0000
Subject: [PATCH 01/56] fix: keep scoped attributes of a logger which is
 reassigned under an active scope

---
 src/root.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 7468c7c..4487f3c 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -67,6 +67,18 @@ struct root_logger_t::sync_t {
         source = std::move(value);
 #endif
     }
+
+    /// Takes over the scoped attributes attached by the current thread to the other logger.
+    ///
+    /// Attributes that are already attached to this logger must survive, because their guards are
+    /// still alive, that's why nothing happens when there is nothing to take.
+    auto acquire(sync_t& other) noexcept -> void {
+        if (auto watcher = other.manager.get()) {
+            other.manager.reset(nullptr);
+            manager.reset(watcher);
+            watcher->rebind(manager);
+        }
+    }
 };
 
 struct root_logger_t::inner_t {
@@ -109,11 +121,7 @@ root_logger_t::root_logger_t(root_logger_t&& other) noexcept :
     sync(new sync_t),
     inner(other.sync->load(other.inner))
 {
-    sync->manager.reset(other.sync->manager.get());
-
-    if (sync->manager.get()) {
-        sync->manager.get()->rebind(sync->manager);
-    }
+    sync->acquire(*other.sync);
 }
 
 root_logger_t::~root_logger_t() {}
@@ -127,11 +135,7 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
     const auto inner = other.sync->load(other.inner);
     sync->store(this->inner, std::move(inner));
 
-    sync->manager.reset(other.sync->manager.get());
-
-    if (sync->manager.get()) {
-        sync->manager.get()->rebind(sync->manager);
-    }
+    sync->acquire(*other.sync);
 
     return *this;
 }
-- 
2.43.0


From bf1f43c9224ae2210128ddf0926bfcee71ae31f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:40 +0000
Subject: [PATCH 02/56] fix: don't lose concurrent reassignment of a logger
 while replacing its filter

---
 src/root.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 4487f3c..a53a2b8 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -142,13 +142,13 @@ root_logger_t::operator=(root_logger_t&& other) noexcept -> root_logger_t& {
 
 auto
 root_logger_t::filter(filter_t fn) -> void {
-    auto inner = sync->load(this->inner);
+    // The state is shared, there is no need to store it back. Moreover doing so may revert another
+    // logger that has been assigned meanwhile.
+    const auto inner = sync->load(this->inner);
 
     inner->apply([&](inner_t& inner) {
         inner.filter = std::move(fn);
     });
-
-    sync->store(this->inner, std::move(inner));
 }
 
 namespace {
-- 
2.43.0


From 48c9fd8d0b92564e676b376075f03f0a57142221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:29 +0000
Subject: [PATCH 03/56] fix: define the declared inequality operator of
 attribute views

---
 src/attribute.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/attribute.cpp b/src/attribute.cpp
index 4e17d41..56207b3 100644
--- a/src/attribute.cpp
+++ b/src/attribute.cpp
@@ -253,6 +253,10 @@ auto view_t::operator==(const view_t& other) const -> bool {
     return inner().value == other.inner().value;
 }
 
+auto view_t::operator!=(const view_t& other) const -> bool {
+    return !(*this == other);
+}
+
 auto view_t::apply(visitor_t& visitor) const -> void {
     boost::apply_visitor(from<view_t>{visitor}, inner().value);
 }
-- 
2.43.0


From aebf716b7e05242f31dfa8a6d712c9f253b4a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:38 +0000
Subject: [PATCH 04/56] fix: construct records in free cells of the
 asynchronous sink's queue

---
 src/sink/asynchronous.p.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index de9f014..2320937 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -3,6 +3,7 @@
 #include <cmath>
 #include <condition_variable>
 #include <mutex>
+#include <new>
 
 namespace blackhole {
 inline namespace v1 {
@@ -103,7 +104,8 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
         // }
 
         const auto enqueued = queue.enqueue_with([&](value_type& value) {
-            value = {recordbuf_t(record), message.to_string()};
+            // A free cell is raw memory, there is no object to assign to.
+            new (&value) value_type{recordbuf_t(record), message.to_string()};
         });
 
         if (enqueued) {
-- 
2.43.0


From 7bea91dc06ee19220367e8e62dfc2685b7e0e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 05/56] fix: don't lose events enqueued right before the
 asynchronous sink stops

---
 src/sink/asynchronous.p.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 2320937..19e76e8 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -125,11 +125,13 @@ auto asynchronous_t::emit(const record_t& record, const string_view& message) ->
 auto asynchronous_t::run() -> void {
     while (true) {
         value_type result;
+        // Everything enqueued before the stop must be seen by the dequeue which follows this load.
+        const auto stop = stopped.load();
         const auto dequeued = queue.dequeue_with([&](value_type& value) {
             result = std::move(value);
         });
 
-        if (stopped && !dequeued) {
+        if (stop && !dequeued) {
             return;
         }
 
-- 
2.43.0


From 017b4d4d3d47910c81f925d5e43e9e3e1000c0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 06/56] fix: don't terminate the application when an
 asynchronous sink's target throws

---
 src/sink/asynchronous.p.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sink/asynchronous.p.cpp b/src/sink/asynchronous.p.cpp
index 19e76e8..b590e7d 100644
--- a/src/sink/asynchronous.p.cpp
+++ b/src/sink/asynchronous.p.cpp
@@ -140,7 +140,7 @@ auto asynchronous_t::run() -> void {
                 wrapped->emit(result.record.into_view(), result.message);
                 overflow_policy->wakeup();
             } catch (...) {
-                throw;
+                // Hidden from the application, as documented.
                 // TODO: exception_policy->process();
             }
         } else {
-- 
2.43.0


From 1f6b9d6fbbf3a89fa5b00b218c193489d1a6fa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 07/56] fix: honour the overflow policy of the asynchronous
 sink builder

---
 src/sink/asynchronous.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index d60d060..9883ae2 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -39,7 +39,7 @@ auto builder<sink::asynchronous_t>::wait() & -> builder& {
 }
 
 auto builder<sink::asynchronous_t>::drop() && -> builder&& {
-    return std::move(wait());
+    return std::move(drop());
 }
 
 auto builder<sink::asynchronous_t>::drop() & -> builder& {
@@ -52,7 +52,8 @@ auto builder<sink::asynchronous_t>::wait() && -> builder&& {
 }
 
 auto builder<sink::asynchronous_t>::build() && -> std::unique_ptr<sink_t> {
-    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor);
+    return blackhole::make_unique<sink::asynchronous_t>(std::move(d->wrapped), d->factor,
+        std::move(d->overflow_policy));
 }
 
 auto factory<sink::asynchronous_t>::type() const noexcept -> const char* {
-- 
2.43.0


From d96760e5e90feaa385d0330327034e10ce70af69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 08/56] fix: default the options of a configured asynchronous
 sink

---
 src/sink/asynchronous.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sink/asynchronous.cpp b/src/sink/asynchronous.cpp
index 9883ae2..d347c1a 100644
--- a/src/sink/asynchronous.cpp
+++ b/src/sink/asynchronous.cpp
@@ -71,8 +71,9 @@ auto factory<sink::asynchronous_t>::from(const config::node_t& config) const ->
 
     auto factory = registry.sink(type.get());
 
-    auto factor = config["factor"].to_uint64().get();
-    auto overflow = sink::overflow_policy_factory_t().create(config["overflow"].to_string().get());
+    auto factor = config["factor"].to_uint64().get_value_or(10);
+    auto overflow = sink::overflow_policy_factory_t()
+        .create(config["overflow"].to_string().get_value_or("wait"));
 
     // It's safe to unwrap here, because we've already checked that there is "sink" child and it's
     // an object.
-- 
2.43.0


From 0cacced467773921259040cc74dc63e094c0c63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:00 +0000
Subject: [PATCH 09/56] fix: don't read past the end of empty or unterminated
 strings while formatting

---
 src/formatter/string.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 1f54687..dc207a7 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -55,6 +55,12 @@ typedef fmt::StringRef string_ref;
 
 namespace {
 
+/// Views are neither required to be terminated nor to have a valid pointer when empty, while
+/// cppformat treats strings with zero size as null-terminated ones.
+auto to_ref(const string_view& value) noexcept -> string_ref {
+    return value.size() == 0 ? string_ref("", 0) : string_ref(value.data(), value.size());
+}
+
 struct spec;
 struct unspec;
 
@@ -82,7 +88,7 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        writer.write(spec, to_ref(value));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
@@ -122,7 +128,7 @@ public:
 
     auto operator()(const ph::attribute<name>& value) -> void {
         // TODO: Surround with braces depending on a spec type.
-        wr.write(value.format, string_ref(attribute.first.data(), attribute.first.size()));
+        wr.write(value.format, to_ref(attribute.first));
     }
 
     auto operator()(const ph::attribute<value>& value) -> void {
@@ -181,8 +187,7 @@ public:
     }
 
     auto operator()(const ph::message_t& token) const -> void {
-        const auto& value = record.formatted();
-        writer.write(token.spec, string_ref(value.data(), value.size()));
+        writer.write(token.spec, to_ref(record.formatted()));
     }
 
     auto operator()(const ph::process<id>& token) const -> void {
@@ -190,7 +195,7 @@ public:
     }
 
     auto operator()(const ph::process<name>& token) const -> void {
-        writer.write(token.spec, procname().data());
+        writer.write(token.spec, to_ref(procname()));
     }
 
     auto operator()(const ph::thread<id>& token) const -> void {
-- 
2.43.0


From 23016857a8676c4eb21b97c345949bc774711bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:07 +0000
Subject: [PATCH 10/56] fix: print negative severities not covered by the
 mapping as they are

---
 src/formatter/string.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index dc207a7..df6b80b 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -390,9 +390,9 @@ auto factory<string_t>::from(const config::node_t& config) const -> std::unique_
             sevmap.emplace_back(config.to_string());
         });
 
-        auto fn = [=](std::size_t severity, const std::string& spec, writer_t& writer) {
-            if (severity < sevmap.size()) {
-                writer.write(spec, sevmap[severity]);
+        auto fn = [=](int severity, const std::string& spec, writer_t& writer) {
+            if (severity >= 0 && static_cast<std::size_t>(severity) < sevmap.size()) {
+                writer.write(spec, sevmap[static_cast<std::size_t>(severity)]);
             } else {
                 writer.write(spec, severity);
             }
-- 
2.43.0


From d4660db3bc9ae975ef09d8c0f9d7a5e0c78d7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 11/56] fix: fill the padding of left-aligned floating-point
 values

---
 include/blackhole/extensions/format.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index 45fac32..ac1b568 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -2456,7 +2456,10 @@ void BasicWriter<Char>::write_double(
   unsigned width_for_sprintf = width;
   if (spec.flag(HASH_FLAG))
     *format_ptr++ = '#';
-  if (spec.align() == ALIGN_CENTER) {
+  // Neither centering nor padding at the right with something except spaces are supported by sprintf.
+  const bool padding = spec.align() == ALIGN_CENTER ||
+      (spec.align() == ALIGN_LEFT && spec.fill() != ' ');
+  if (padding) {
     width_for_sprintf = 0;
   } else {
     if (spec.align() == ALIGN_LEFT)
@@ -2500,12 +2503,15 @@ void BasicWriter<Char>::write_double(
         }
         ++n;
       }
-      if (spec.align() == ALIGN_CENTER &&
-          spec.width() > static_cast<unsigned>(n)) {
+      if (padding && spec.width() > static_cast<unsigned>(n)) {
         width = spec.width();
         CharPtr p = grow_buffer(width);
-        std::copy(p, p + n, p + (width - n) / 2);
-        fill_padding(p, spec.width(), n, fill);
+        if (spec.align() == ALIGN_LEFT) {
+          std::fill_n(p + n, width - n, fill);
+        } else {
+          std::copy(p, p + n, p + (width - n) / 2);
+          fill_padding(p, spec.width(), n, fill);
+        }
         return;
       }
       if (spec.fill() != ' ' || sign) {
-- 
2.43.0


From 320a0e637a9602d2ffe2079109f8f06d3959535e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:48 +0000
Subject: [PATCH 12/56] fix: don't lose centered floating-point values when the
 buffer is reallocated

---
 include/blackhole/extensions/format.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index ac1b568..b1b61b4 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -2461,6 +2461,8 @@ void BasicWriter<Char>::write_double(
       (spec.align() == ALIGN_LEFT && spec.fill() != ' ');
   if (padding) {
     width_for_sprintf = 0;
+    // Otherwise the number is lost when the buffer is reallocated while being extended.
+    buffer_.reserve(buffer_.size() + spec.width());
   } else {
     if (spec.align() == ALIGN_LEFT)
       *format_ptr++ = '-';
-- 
2.43.0


From effd8ff870d6eb797eeaec063fed707313bfe574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:06 +0000
Subject: [PATCH 13/56] fix: accept the separator before the pattern in
 leftover placeholders

---
 src/formatter/string/grammar.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string/grammar.cpp b/src/formatter/string/grammar.cpp
index e5ff7da..8a4a16f 100644
--- a/src/formatter/string/grammar.cpp
+++ b/src/formatter/string/grammar.cpp
@@ -45,6 +45,7 @@ struct grammar_t : public boost::spirit::qi::grammar<std::string::iterator, gram
     boost::spirit::qi::rule<iterator_type, grammar_result_t()> grammar;
     boost::spirit::qi::rule<iterator_type, std::string()> pattern;
     boost::spirit::qi::rule<iterator_type, std::string()> separator;
+    boost::spirit::qi::rule<iterator_type> ahead;
     boost::spirit::qi::rule<iterator_type, std::string()> spec;
     boost::spirit::qi::rule<iterator_type, char()> align;
     boost::spirit::qi::rule<iterator_type, std::string()> width;
@@ -125,8 +126,10 @@ grammar_t::grammar_t() :
           '}'
         | ':' >> -(pattern ^ separator) >> spec >> '}'
     ) > qi::eoi;
-    pattern    %= qi::lit('{') >> (*(qi::char_ - (qi::lit(":p}") >> !qi::lit('}'))) >> ":p}") % '}';
+    // The separator may precede the pattern, which must not swallow it in this case.
+    pattern    %= !ahead >> qi::lit('{') >> (*(qi::char_ - (qi::lit(":p}") >> !qi::lit('}'))) >> ":p}") % '}';
     separator  %= qi::lit('{') >> (*(qi::char_ - (qi::lit(":s}") >> !qi::lit('}'))) >> ":s}") % '}';
+    ahead       = qi::lit('{') >> *(qi::char_ - qi::char_("{}") - ":s}") >> ":s}" >> !qi::lit('}');
     spec       %= -align >> -width >> type;
     align      %= qi::char_("<^>");
     width      %= +qi::digit;
-- 
2.43.0


From df7aa54ed13875675bf7e29265a2c43aba2650b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 14/56] fix: don't truncate configuration strings and keys at
 embedded null characters

---
 src/config/json.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/config/json.hpp b/src/config/json.hpp
index 2d8904c..0323c66 100644
--- a/src/config/json.hpp
+++ b/src/config/json.hpp
@@ -134,7 +134,7 @@ public:
 
     auto to_string() const -> std::string {
         if (is_string()) {
-            return value.GetString();
+            return to_string(value);
         }
 
         type_mismatch("string");
@@ -156,7 +156,8 @@ public:
         }
 
         for (auto it = value.MemberBegin(); it != value.MemberEnd(); ++it) {
-            fn(it->name.GetString(), json_t(it->value, advance(it->name.GetString())));
+            const auto name = to_string(it->name);
+            fn(name, json_t(it->value, advance(name)));
         }
     }
 
@@ -169,14 +170,25 @@ public:
     }
 
     auto operator[](const std::string& key) const -> option_t {
-        if (value.IsObject() && value.HasMember(key.c_str())) {
-            return make_option<json_t>(value[key.c_str()], advance(key));
+        if (value.IsObject()) {
+            const rapidjson::Value name(rapidjson::StringRef(key.data(),
+                static_cast<rapidjson::SizeType>(key.size())));
+            const auto it = value.FindMember(name);
+
+            if (it != value.MemberEnd()) {
+                return make_option<json_t>(it->value, advance(key));
+            }
         }
 
         return {};
     }
 
 private:
+    /// Strings may contain null characters.
+    static auto to_string(const rapidjson::Value& value) -> std::string {
+        return {value.GetString(), value.GetStringLength()};
+    }
+
     auto advance(const std::size_t& idx) const -> std::string {
         return cursor + "/" + boost::lexical_cast<std::string>(idx);
     }
-- 
2.43.0


From 63f89ed483a755aa878025dbb89f1c8239d732ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:00 +0000
Subject: [PATCH 15/56] fix: refuse patterns with unterminated placeholder
 specifications

---
 src/formatter/string/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/string/parser.cpp b/src/formatter/string/parser.cpp
index 9985a29..1e27261 100644
--- a/src/formatter/string/parser.cpp
+++ b/src/formatter/string/parser.cpp
@@ -208,7 +208,7 @@ parser_t::parse_spec() -> std::string {
         ++pos;
     }
 
-    return spec;
+    throw_<illformed_t>();
 }
 
 auto
-- 
2.43.0


From 8b8dedf0f819618a621d99ef39bc7917ce14254c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:22 +0000
Subject: [PATCH 16/56] fix: refuse patterns which end with an opening brace

---
 src/formatter/string/parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/formatter/string/parser.cpp b/src/formatter/string/parser.cpp
index 1e27261..38de2b4 100644
--- a/src/formatter/string/parser.cpp
+++ b/src/formatter/string/parser.cpp
@@ -167,6 +167,11 @@ parser_t::next() -> boost::optional<token_t> {
     }
 
     if (pos == std::end(pattern)) {
+        if (state == state_t::placeholder) {
+            // There is nothing after the opening brace.
+            throw_<illformed_t>();
+        }
+
         return boost::none;
     }
 
-- 
2.43.0


From a6916b46cc31c3f7ece968c11b7e9cfac8660283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 17/56] fix: don't leave the time zone of UTC timestamps
 uninitialized

---
 src/util/time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index a41f6d9..3756160 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -66,6 +66,8 @@ static auto gmtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
     tp->tm_yday = yday;
     tp->tm_wday = static_cast<int>(wday);
     tp->tm_isdst = 0;
+    tp->tm_gmtoff = 0;
+    tp->tm_zone = "GMT";
 
     return tp;
 }
-- 
2.43.0


From 959998c73b31999fe6831cdb3487db33f57dc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 18/56] fix: respect daylight saving time in local timestamps

---
 src/util/time.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/util/time.hpp b/src/util/time.hpp
index 3756160..85a91e7 100644
--- a/src/util/time.hpp
+++ b/src/util/time.hpp
@@ -85,12 +85,9 @@ static const tzinit_t tz;
 #pragma clang diagnostic pop
 
 static auto localtime(const time_t* t, struct tm* tp) noexcept -> struct tm* {
-    time_t time = *t - timezone;
-    gmtime_r(&time, tp);
-    tp->tm_gmtoff = timezone;
-    tp->tm_zone = *tzname;
-
-    return tp;
+    // Neither the current offset nor the zone can be obtained without looking at the rules of the
+    // time zone, because of daylight savings and other historical changes.
+    return ::localtime_r(t, tp);
 }
 
 } // namespace v1
-- 
2.43.0


From 845e03c7d6354ecc3384e89f0e8fefa40d4f6765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:50 +0000
Subject: [PATCH 19/56] fix: print seconds since the epoch independently of the
 local time zone

---
 src/datetime/generator.linux.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 4186ac1..c591624 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -31,7 +31,10 @@ struct visitor_t : public boost::static_visitor<> {
     }
 
     auto operator()(epoch_t) -> void {
-        stream.write("{}", std::mktime(&tm));
+        // The given time is either UTC or local one, depending on its offset.
+        const auto offset = tm.tm_gmtoff;
+        std::tm copy = tm;
+        stream.write("{}", ::timegm(&copy) - offset);
     }
 
     auto operator()(usecond_t) -> void {
-- 
2.43.0


From 3664070f319a70de0008f3613cb32adbf221f972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:57 +0000
Subject: [PATCH 20/56] fix: don't treat a letter after an escaped percent sign
 as a timestamp placeholder

---
 src/datetime/generator.linux.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index c591624..5bc93e0 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -49,7 +49,12 @@ generator_t::generator_t(std::string pattern) {
 
     auto pos = std::begin(pattern);
     while (pos != std::end(pattern)) {
-        if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
+        if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%%")) {
+            // An escaped percent sign can be followed by any character.
+            literal.append("%%");
+            ++pos;
+            ++pos;
+        } else if (boost::starts_with(boost::make_iterator_range(pos, std::end(pattern)), "%f")) {
             tokens.emplace_back(literal_t{std::move(literal)});
             tokens.emplace_back(usecond_t{});
             literal.clear();
-- 
2.43.0


From 55af947b0479826ed591dcc7a3b058071d7116bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:04 +0000
Subject: [PATCH 21/56] fix: don't drop long pieces of timestamps

---
 src/datetime/generator.linux.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/datetime/generator.linux.cpp b/src/datetime/generator.linux.cpp
index 5bc93e0..95f6219 100644
--- a/src/datetime/generator.linux.cpp
+++ b/src/datetime/generator.linux.cpp
@@ -27,6 +27,21 @@ struct visitor_t : public boost::static_visitor<> {
 
     auto operator()(const literal_t& value) -> void {
         std::size_t ret = std::strftime(buffer, sizeof(buffer), value.value.c_str(), &tm);
+
+        if (ret == 0 && !value.value.empty()) {
+            // Either the result is empty or it doesn't fit. Make it never be empty to distinguish.
+            const auto format = std::string(value.value.c_str()) + " ";
+            std::vector<char> large(sizeof(buffer));
+
+            do {
+                large.resize(2 * large.size());
+                ret = std::strftime(large.data(), large.size(), format.c_str(), &tm);
+            } while (ret == 0 && large.size() < 1024 * sizeof(buffer));
+
+            stream << fmt::StringRef(large.data(), ret == 0 ? 0 : ret - 1);
+            return;
+        }
+
         stream << fmt::StringRef(buffer, ret);
     }
 
-- 
2.43.0


From 7f73b068c693bcbd7ab6e90a54e4cd48d66e502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:53 +0000
Subject: [PATCH 22/56] fix: don't print garbage instead of empty timestamps

---
 src/formatter/string.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index df6b80b..47ac93a 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -254,7 +254,7 @@ public:
 
         fmt::MemoryWriter buffer;
         token.generator(buffer, tm, static_cast<std::uint64_t>(usec));
-        writer.write(token.spec, string_ref(buffer.data(), buffer.size()));
+        writer.write(token.spec, to_ref(string_view(buffer.data(), buffer.size())));
     }
 
     auto operator()(const ph::generic<required>& token) const -> void {
-- 
2.43.0


From 75f0cfdb43d215048ed8f1518da7fd9a6012da96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:23 +0000
Subject: [PATCH 23/56] fix: write non-finite numbers as null instead of
 truncating the JSON tree

---
 src/formatter/json.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 4d7e260..8c527b3 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -1,6 +1,7 @@
 #include "blackhole/formatter/json.hpp"
 
 #include <array>
+#include <cmath>
 #include <set>
 #include <unordered_map>
 
@@ -44,17 +45,25 @@ struct visitor_t {
         node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
     }
 
-    // For `bool`, `std::int64_t`, `std::uint64_t` and `double` types.
+    // For `bool`, `std::int64_t` and `std::uint64_t` types.
     template<typename T>
     auto operator()(T value) -> void {
         static_assert(
             std::is_same<T, bool>::value ||
             std::is_same<T, std::int64_t>::value ||
-            std::is_same<T, std::uint64_t>::value ||
-            std::is_same<T, double>::value, "type mismatch");
+            std::is_same<T, std::uint64_t>::value, "type mismatch");
         node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
     }
 
+    auto operator()(double value) -> void {
+        if (std::isfinite(value)) {
+            node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+        } else {
+            // Neither infinities nor NaN can be represented in JSON.
+            (*this)(nullptr);
+        }
+    }
+
     auto operator()(const string_view& value) -> void {
         node.AddMember(rapidjson::StringRef(name.data(), name.size()),
             rapidjson::StringRef(value.data(), value.size()), allocator);
-- 
2.43.0


From efe5481e4e56df3b27e3bb40ec96933ac1c074b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:32 +0000
Subject: [PATCH 24/56] fix: accept empty and unterminated strings in the JSON
 formatter

---
 src/formatter/json.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 8c527b3..efe834b 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -33,6 +33,12 @@ inline namespace v1 {
 namespace formatter {
 namespace {
 
+/// Views are neither required to be terminated nor to have a valid pointer when empty, while
+/// RapidJSON requires the latter one.
+auto to_ref(const string_view& value) -> rapidjson::Value::StringRefType {
+    return rapidjson::StringRef(value.size() == 0 ? "" : value.data(), value.size());
+}
+
 struct visitor_t {
     typedef void result_type;
 
@@ -42,7 +48,7 @@ struct visitor_t {
     const string_view& name;
 
     auto operator()(std::nullptr_t) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), rapidjson::kNullType, allocator);
+        node.AddMember(to_ref(name), rapidjson::kNullType, allocator);
     }
 
     // For `bool`, `std::int64_t` and `std::uint64_t` types.
@@ -52,12 +58,12 @@ struct visitor_t {
             std::is_same<T, bool>::value ||
             std::is_same<T, std::int64_t>::value ||
             std::is_same<T, std::uint64_t>::value, "type mismatch");
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+        node.AddMember(to_ref(name), value, allocator);
     }
 
     auto operator()(double value) -> void {
         if (std::isfinite(value)) {
-            node.AddMember(rapidjson::StringRef(name.data(), name.size()), value, allocator);
+            node.AddMember(to_ref(name), value, allocator);
         } else {
             // Neither infinities nor NaN can be represented in JSON.
             (*this)(nullptr);
@@ -65,13 +71,13 @@ struct visitor_t {
     }
 
     auto operator()(const string_view& value) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
-            rapidjson::StringRef(value.data(), value.size()), allocator);
+        node.AddMember(to_ref(name),
+            to_ref(value), allocator);
     }
 
     // For temporary buffers, rapidjson will copy the data.
     auto operator()(const char* data, std::size_t size) -> void {
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(to_ref(name),
             rapidjson::Value(data, static_cast<unsigned int>(size), allocator), allocator);
     }
 
@@ -79,7 +85,7 @@ struct visitor_t {
         writer_t wr;
         value(wr);
 
-        node.AddMember(rapidjson::StringRef(name.data(), name.size()),
+        node.AddMember(to_ref(name),
             wr.result().to_string(), allocator);
     }
 };
@@ -105,7 +111,8 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        // Cppformat treats strings with zero size as null-terminated ones.
+        writer.write(spec, value.size() == 0 ? fmt::StringRef("", 0) : fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
@@ -328,7 +335,7 @@ private:
         const auto it = inner.formatting.find(std::string(name.data(), name.size()));
         if (it != std::end(inner.formatting)) {
             writer_t wr;
-            wr.write(it->second, fmt::StringRef(data, size));
+            wr.write(it->second, size == 0 ? fmt::StringRef("", 0) : fmt::StringRef(data, size));
             visitor(wr.inner.data(), wr.inner.size());
         } else {
             visitor(data, size);
-- 
2.43.0


From 5315bb638552cc6023ef4d862ac2e004e9e44766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:02 +0000
Subject: [PATCH 25/56] fix: refuse invalid routes of the JSON formatter while
 constructing it

---
 src/formatter/json.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index efe834b..e7a1f72 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -3,6 +3,7 @@
 #include <array>
 #include <cmath>
 #include <set>
+#include <stdexcept>
 #include <unordered_map>
 
 #include <boost/optional/optional.hpp>
@@ -180,7 +181,7 @@ public:
     std::vector<std::string> severity;
 
     inner_t(json_t::properties_t properties) :
-        rest(properties.routing.unspecified),
+        rest(pointer(properties.routing.unspecified)),
         mapping(std::move(properties.mapping)),
         formatting(std::move(properties.formatting)),
         unique(properties.unique),
@@ -190,11 +191,21 @@ public:
     {
         for (const auto& route : properties.routing.specified) {
             for (const auto& name : route.second) {
-                routing.insert({name, rapidjson::Pointer(route.first)});
+                routing.insert({name, pointer(route.first)});
             }
         }
     }
 
+    static auto pointer(const std::string& route) -> rapidjson::Pointer {
+        rapidjson::Pointer pointer(route);
+
+        if (!pointer.IsValid()) {
+            throw std::invalid_argument("\"" + route + "\" is not a valid JSON pointer");
+        }
+
+        return pointer;
+    }
+
     template<typename Document>
     auto get(const string_view& name, Document& root) -> rapidjson::Value& {
         // TODO: Here we can avoid a temporary string construction by using multi indexed
-- 
2.43.0


From 767091f02cef42ac6380d37b31ef1fdedcb9fabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:46 +0000
Subject: [PATCH 26/56] fix: don't crash when an attribute is named like a
 route of the JSON formatter

---
 src/formatter/json.cpp | 70 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 66 insertions(+), 4 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index e7a1f72..eed7738 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -211,12 +211,74 @@ public:
         // TODO: Here we can avoid a temporary string construction by using multi indexed
         // containers.
         const auto it = routing.find(name.to_string());
+        const auto& route = it == routing.end() ? rest : it->second;
 
-        if (it == routing.end()) {
-            return rest.GetWithDefault(root, rapidjson::kObjectType);
-        } else {
-            return it->second.GetWithDefault(root, rapidjson::kObjectType);
+        if (occupied(route, root)) {
+            return duplicate(route, root);
+        }
+
+        auto& node = route.Create(root);
+        if (!node.IsObject()) {
+            node.SetObject();
+        }
+
+        return node;
+    }
+
+    /// Checks whether an attribute's value prevents from creating an object at the given route.
+    template<typename Document>
+    static auto occupied(const rapidjson::Pointer& route, Document& root) -> bool {
+        const rapidjson::Value* node = &root;
+
+        for (auto token = route.GetTokens(); token != route.GetTokens() + route.GetTokenCount(); ++token) {
+            if (node->IsObject()) {
+                const auto it = node->FindMember(rapidjson::Value(to_ref({token->name, token->length})));
+                if (it == node->MemberEnd()) {
+                    return false;
+                }
+                node = &it->value;
+                if (node->IsNull()) {
+                    return true;
+                }
+            } else if (node->IsArray()) {
+                if (token->index >= node->Size()) {
+                    return token->index == rapidjson::kPointerInvalidIndex;
+                }
+                node = &(*node)[token->index];
+            } else {
+                // Elements of arrays which are still not assigned.
+                return !node->IsNull();
+            }
         }
+
+        return !node->IsObject() && !node->IsNull();
+    }
+
+    /// Finds or creates an object at the given route ignoring other members with the same names.
+    template<typename Document>
+    static auto duplicate(const rapidjson::Pointer& route, Document& root) -> rapidjson::Value& {
+        rapidjson::Value* node = &root;
+
+        for (auto token = route.GetTokens(); token != route.GetTokens() + route.GetTokenCount(); ++token) {
+            const string_view name(token->name, token->length);
+            rapidjson::Value* next = nullptr;
+
+            for (auto it = node->MemberBegin(); it != node->MemberEnd(); ++it) {
+                if (it->value.IsObject() && name == string_view(it->name.GetString(), it->name.GetStringLength())) {
+                    next = &it->value;
+                    break;
+                }
+            }
+
+            if (next == nullptr) {
+                node->AddMember(to_ref(name), rapidjson::Value(rapidjson::kObjectType), root.GetAllocator());
+                next = &(node->MemberEnd() - 1)->value;
+            }
+
+            node = next;
+        }
+
+        return *node;
     }
 
     template<typename Document>
-- 
2.43.0


From 9412857e1b85cd3690efc81ad56095b7261e15e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:17 +0000
Subject: [PATCH 27/56] fix: keep names unique in JSON trees when it is
 requested

---
 src/formatter/json.cpp | 62 ++++++++++++++++++++++++++++--------------
 1 file changed, 41 insertions(+), 21 deletions(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index eed7738..1945bdb 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -2,7 +2,6 @@
 
 #include <array>
 #include <cmath>
-#include <set>
 #include <stdexcept>
 #include <unordered_map>
 
@@ -206,13 +205,16 @@ public:
         return pointer;
     }
 
-    template<typename Document>
-    auto get(const string_view& name, Document& root) -> rapidjson::Value& {
+    auto route(const string_view& name) const -> const rapidjson::Pointer& {
         // TODO: Here we can avoid a temporary string construction by using multi indexed
         // containers.
         const auto it = routing.find(name.to_string());
-        const auto& route = it == routing.end() ? rest : it->second;
 
+        return it == routing.end() ? rest : it->second;
+    }
+
+    template<typename Document>
+    auto get(const rapidjson::Pointer& route, Document& root) -> rapidjson::Value& {
         if (occupied(route, root)) {
             return duplicate(route, root);
         }
@@ -362,20 +364,6 @@ public:
     }
 
     auto attributes() -> void {
-        if (inner.unique) {
-            // TODO: Small buffer optimization is possible here (see stack allocator with arena).
-            std::set<string_view> set;
-
-            for (const auto& attributes : record.attributes()) {
-                for (const auto& attribute : attributes.get()) {
-                    if (set.insert(attribute.first).second) {
-                        apply(attribute.first, attribute.second);
-                    }
-                }
-            }
-            return;
-        }
-
         // TODO: Make flattened range
         // TODO: Make uniqued range.
         for (const auto& attributes : record.attributes()) {
@@ -386,10 +374,32 @@ public:
     }
 
 private:
+    /// Returns an object the given attribute should be added to or null if it would break uniqueness
+    /// of names.
+    auto acquire(const string_view& name, const string_view& renamed) -> rapidjson::Value* {
+        const auto& route = inner.route(name);
+
+        if (inner.unique && inner.occupied(route, root)) {
+            return nullptr;
+        }
+
+        auto& node = inner.get(route, root);
+        if (inner.unique && node.HasMember(rapidjson::Value(to_ref(renamed)))) {
+            return nullptr;
+        }
+
+        return &node;
+    }
+
     template<typename T>
     auto apply(const string_view& name, const T& value) -> void {
         const auto renamed = inner.renamed(name);
-        visitor_t visitor{inner.get(name, root), root.GetAllocator(), renamed};
+        auto node = acquire(name, renamed);
+        if (node == nullptr) {
+            return;
+        }
+
+        visitor_t visitor{*node, root.GetAllocator(), renamed};
 
         const auto it = inner.formatting.find(std::string(name.data(), name.size()));
         if (it != std::end(inner.formatting)) {
@@ -403,7 +413,12 @@ private:
 
     auto apply(const string_view& name, const char* data, std::size_t size) -> void {
         const auto renamed = inner.renamed(name);
-        visitor_t visitor{inner.get(name, root), root.GetAllocator(), renamed};
+        auto node = acquire(name, renamed);
+        if (node == nullptr) {
+            return;
+        }
+
+        visitor_t visitor{*node, root.GetAllocator(), renamed};
 
         const auto it = inner.formatting.find(std::string(name.data(), name.size()));
         if (it != std::end(inner.formatting)) {
@@ -417,7 +432,12 @@ private:
 
     auto apply(const string_view& name, const attribute::view_t& value) -> void {
         const auto renamed = inner.renamed(name);
-        visitor_t visitor{inner.get(name, root), root.GetAllocator(), renamed};
+        auto node = acquire(name, renamed);
+        if (node == nullptr) {
+            return;
+        }
+
+        visitor_t visitor{*node, root.GetAllocator(), renamed};
 
         const auto it = inner.formatting.find(std::string(name.data(), name.size()));
         if (it != std::end(inner.formatting)) {
-- 
2.43.0


From 3c10cdf33eae76e63ca3774caf1a498ff49e0f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:29 +0000
Subject: [PATCH 28/56] fix: don't read past the end of unterminated strings in
 the TSKV formatter

---
 src/formatter/tskv.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 8c572e9..3d640d4 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -44,7 +44,8 @@ public:
     }
 
     auto operator()(const string_view& value) const -> void {
-        writer.write(spec, value.data());
+        // Cppformat treats strings with zero size as null-terminated ones.
+        writer.write(spec, value.size() == 0 ? fmt::StringRef("", 0) : fmt::StringRef(value.data(), value.size()));
     }
 
     auto operator()(const attribute::view_t::function_type& value) const -> void {
-- 
2.43.0


From 4c6d36575c681bec2559107bfa291939cce6bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:39 +0000
Subject: [PATCH 29/56] fix: respect renaming and removal of the thread id in
 the TSKV formatter

---
 src/formatter/tskv.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 3d640d4..3190e8e 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -96,13 +96,16 @@ public:
     }
 
     auto add_tid() -> void {
-        wr.write("\ttid={:#x}",
+        writer_t wr;
+        wr.write("{:#x}",
 #ifdef __linux__
             record.tid()
 #elif __APPLE__
             reinterpret_cast<unsigned long>(record.tid())
 #endif
         );
+
+        add("tid", wr.result());
     }
 
     auto add_message() -> void {
-- 
2.43.0


From 61163d62613780e331cec3b0506ee9eaeb325c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:09 +0000
Subject: [PATCH 30/56] fix: escape values of constants in the TSKV formatter

---
 src/formatter/tskv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index 3190e8e..e7b448e 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -124,7 +124,7 @@ public:
 
     auto add_constants() -> void {
         for (const auto& kv : data.attributes) {
-            add(kv.first, kv.second);
+            add(kv.first, string_view(kv.second));
         }
     }
 
-- 
2.43.0


From 16d994a3d72f06f17c0409973ad723a3c88f0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:19 +0000
Subject: [PATCH 31/56] fix: escape control characters in keys in the TSKV
 formatter

---
 src/formatter/tskv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/formatter/tskv.cpp b/src/formatter/tskv.cpp
index e7b448e..09925ce 100644
--- a/src/formatter/tskv.cpp
+++ b/src/formatter/tskv.cpp
@@ -188,7 +188,7 @@ private:
                 wr.inner << "\\=";
                 break;
             default:
-                wr.inner << *it;
+                write_escaped_val(string_view(it, 1));
             };
         }
     }
-- 
2.43.0


From fcf3651b879f5738e4a5b4eff37ad2bd8c663400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:14 +0000
Subject: [PATCH 32/56] fix: continue writing to files after a failed write

A failed write leaves the stream in an erroneous state, which makes every later event fail too even
though the reason (for example no space left) is gone.
---
 src/sink/file.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 8c4cf66..ad0717b 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -153,7 +153,15 @@ auto file_t::emit(const record_t& record, const string_view& formatted) -> void
     const auto filename = this->filename(record);
 
     std::lock_guard<std::mutex> lock(mutex);
-    backend(filename).write(formatted);
+    auto& backend = this->backend(filename);
+
+    try {
+        backend.write(formatted);
+    } catch (...) {
+        // The stream remains broken after the first failure, so it needs to be opened again.
+        data.backends.erase(filename);
+        throw;
+    }
 }
 
 }  // namespace sink
-- 
2.43.0


From 88078c62c0159045572921f4b8684d595cb27c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:08 +0000
Subject: [PATCH 33/56] fix: report why a file can't be opened

The code of an ios failure is not a system one, its value always means "operation not permitted".
---
 src/sink/file.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index ad0717b..0130c49 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -89,11 +89,9 @@ auto ofstream_factory_t::create(const std::string& filename, std::ios_base::open
 
     try {
         stream->open(filename, mode);
-    } catch (const std::system_error& err) {
+    } catch (...) {
         // Transform unspecified ios category into the system one to be able to obtain readable
         // error message instead completely weird description.
-        throw std::system_error(err.code().value(), std::system_category());
-    } catch (...) {
         throw std::system_error(errno, std::system_category());
     }
 
-- 
2.43.0


From d3164147ceae2bc2396e71bc17f7fb80e26a4910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:55 +0000
Subject: [PATCH 34/56] fix: refuse data sizes which don't fit instead of
 wrapping them

---
 src/sink/file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 0130c49..41befa1 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -76,6 +76,10 @@ auto parse_dunit(const std::string& encoded) -> std::uint64_t {
         throw std::invalid_argument("unknown data unit - " + unit);
     }
 
+    if (base > std::numeric_limits<std::uint64_t>::max() / it->second) {
+        throw std::invalid_argument("data size is too large - " + encoded);
+    }
+
     return base * it->second;
 }
 
-- 
2.43.0


From 27ebe273e7d6e3492aa32e1b22a39eed2aa81d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:25 +0000
Subject: [PATCH 35/56] fix: refuse out of range ports instead of truncating
 them

---
 src/sink/socket/tcp.cpp | 5 +++++
 src/sink/socket/udp.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/sink/socket/tcp.cpp b/src/sink/socket/tcp.cpp
index 4cd246b..31dd48c 100644
--- a/src/sink/socket/tcp.cpp
+++ b/src/sink/socket/tcp.cpp
@@ -1,3 +1,4 @@
+#include <limits>
 #include <mutex>
 
 #include <boost/asio/write.hpp>
@@ -154,6 +155,10 @@ auto factory<tcp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<tcp_t>(host, static_cast<std::uint16_t>(port));
 }
 
diff --git a/src/sink/socket/udp.cpp b/src/sink/socket/udp.cpp
index f819b48..97bf278 100644
--- a/src/sink/socket/udp.cpp
+++ b/src/sink/socket/udp.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
 
@@ -55,6 +57,10 @@ auto factory<udp_t>::from(const config::node_t& config) const -> std::unique_ptr
         throw std::invalid_argument(R"(parameter "port" is required)");
     });
 
+    if (port > std::numeric_limits<std::uint16_t>::max()) {
+        throw std::invalid_argument(R"(parameter "port" is out of range)");
+    }
+
     return blackhole::make_unique<udp_t>(host, static_cast<std::uint16_t>(port));
 }
 
-- 
2.43.0


From 65b57692150e5a0387242dfc77fe6ef6bb5d38a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:08 +0000
Subject: [PATCH 36/56] fix: don't close the system log right after
 constructing a configured sink

---
 src/sink/syslog.cpp | 7 ++++---
 src/sink/syslog.hpp | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sink/syslog.cpp b/src/sink/syslog.cpp
index 6bd4941..2ce4b12 100644
--- a/src/sink/syslog.cpp
+++ b/src/sink/syslog.cpp
@@ -67,7 +67,8 @@ auto factory<sink::syslog_t>::type() const noexcept -> const char* {
 
 auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::unique_ptr<sink_t> {
     (void)registry;
-    sink::syslog_t syslog;
+    // Constructed in place, because moving leaves the system log closed and with a dangling identity.
+    std::unique_ptr<sink::syslog_t> syslog(new sink::syslog_t);
 
     if (auto mapping = config["priorities"]) {
         std::vector<int> priorities;
@@ -75,10 +76,10 @@ auto factory<sink::syslog_t>::from(const config::node_t& config) const -> std::u
             priorities.emplace_back(config.to_sint64());
         });
 
-        syslog.priorities(std::move(priorities));
+        syslog->priorities(std::move(priorities));
     }
 
-    return std::unique_ptr<sink_t>(new sink::syslog_t(std::move(syslog)));
+    return std::move(syslog);
 }
 
 }  // namespace v1
diff --git a/src/sink/syslog.hpp b/src/sink/syslog.hpp
index 0484549..be9608b 100644
--- a/src/sink/syslog.hpp
+++ b/src/sink/syslog.hpp
@@ -20,11 +20,11 @@ class syslog_t : public sink_t {
 public:
     syslog_t();
     syslog_t(const syslog_t& other) = delete;
-    syslog_t(syslog_t&& other) = default;
+    syslog_t(syslog_t&& other) = delete;
     ~syslog_t();
 
     auto operator=(const syslog_t& other) -> syslog_t& = delete;
-    auto operator=(syslog_t&& other) -> syslog_t& = default;
+    auto operator=(syslog_t&& other) -> syslog_t& = delete;
 
     auto option() const noexcept -> int;
     auto facility() const noexcept -> int;
-- 
2.43.0


From 19ddcf3ab9e70f87eef13a3bf0d6f6de9f5e7e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:53 +0000
Subject: [PATCH 37/56] fix: print terminal colors independently of the integer
 format of the stream

---
 src/termcolor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/termcolor.cpp b/src/termcolor.cpp
index 0ccb0e3..92d5136 100644
--- a/src/termcolor.cpp
+++ b/src/termcolor.cpp
@@ -1,4 +1,5 @@
 #include <ostream>
+#include <string>
 
 #include "blackhole/termcolor.hpp"
 
@@ -79,7 +80,8 @@ auto termcolor_t::colored() const noexcept -> bool {
 }
 
 auto operator<<(std::ostream& stream, const termcolor_t& color) -> std::ostream& {
-    return stream << "\033[" << color.code << "m";
+    // Not as an integer, because its representation depends on the flags of the stream.
+    return stream << "\033[" + std::to_string(color.code) + "m";
 }
 
 }  // namespace v1
-- 
2.43.0


From b8e92688162a355540dc062963a30c59a2e096e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:18 +0000
Subject: [PATCH 38/56] fix: don't overflow the stack while reading deeply
 nested JSON configurations

---
 src/config/json.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config/json.cpp b/src/config/json.cpp
index ac7dee5..6fdd283 100644
--- a/src/config/json.cpp
+++ b/src/config/json.cpp
@@ -38,7 +38,8 @@ auto factory<json_t>::config() const noexcept -> const node_t& {
 
 auto factory<json_t>::initialize(std::istream& stream) -> void {
     rapidjson::IStreamWrapper wrapper(stream);
-    doc.ParseStream<rapidjson::kParseCommentsFlag | rapidjson::kParseTrailingCommasFlag>(wrapper);
+    doc.ParseStream<rapidjson::kParseCommentsFlag | rapidjson::kParseTrailingCommasFlag |
+        rapidjson::kParseIterativeFlag>(wrapper);
 
     if (doc.HasParseError()) {
         throw std::invalid_argument("parse error at offset " +
-- 
2.43.0


From 58b6c11193bbf8b084e7172cddbd629601abd50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:30 +0000
Subject: [PATCH 39/56] fix: refuse JSON configurations with null characters
 instead of dropping the rest

---
 src/config/json.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/config/json.cpp b/src/config/json.cpp
index 6fdd283..0057351 100644
--- a/src/config/json.cpp
+++ b/src/config/json.cpp
@@ -46,6 +46,12 @@ auto factory<json_t>::initialize(std::istream& stream) -> void {
             boost::lexical_cast<std::string>(doc.GetErrorOffset()) +
             ": " + rapidjson::GetParseError_En(doc.GetParseError()));
     }
+
+    // The parser takes a null character for the end of the stream.
+    if (stream.peek() != std::istream::traits_type::eof()) {
+        throw std::invalid_argument("parse error at offset " +
+            boost::lexical_cast<std::string>(wrapper.Tell()) + ": unexpected null character");
+    }
 }
 
 }  // namespace config
-- 
2.43.0


From cb65e94a61d20a39c9cfe317db0c6a04639ed6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:31 +0000
Subject: [PATCH 40/56] fix: refuse string formatter configurations without a
 pattern

---
 src/formatter/string.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/formatter/string.cpp b/src/formatter/string.cpp
index 47ac93a..d3eb097 100644
--- a/src/formatter/string.cpp
+++ b/src/formatter/string.cpp
@@ -382,7 +382,13 @@ auto factory<string_t>::type() const noexcept -> const char* {
 }
 
 auto factory<string_t>::from(const config::node_t& config) const -> std::unique_ptr<formatter_t> {
-    auto pattern = config["pattern"].to_string().get();
+    auto value = config["pattern"].to_string();
+
+    if (!value) {
+        throw std::invalid_argument("field 'pattern' is required");
+    }
+
+    auto pattern = std::move(*value);
 
     if (auto mapping = config["sevmap"]) {
         std::vector<std::string> sevmap;
-- 
2.43.0


From 646cfc35b224942d7681724e5fbd1472da05e244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:37 +0000
Subject: [PATCH 41/56] fix: refuse to build loggers which are not configured

---
 src/registry.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index ac2ac9f..ce6ef46 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -65,8 +65,13 @@ auto builder_t::build(const std::string& name) -> root_logger_t {
 
     std::vector<std::unique_ptr<handler_t>> handlers;
 
-    // TODO: Check `config.contains(name)`.
-    config[name].each([&](const config::node_t& config) {
+    const auto logger = config[name];
+
+    if (!logger) {
+        throw std::out_of_range(fmt::format(R"(logger with name "{}" is not configured)", name));
+    }
+
+    logger.each([&](const config::node_t& config) {
         handlers.emplace_back(handler(config));
     });
 
-- 
2.43.0


From 52b5ea6245d13a2769601494bdbe9c69e61963a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:14 +0000
Subject: [PATCH 42/56] fix: don't read past the end of unterminated patterns
 in the facade

---
 include/blackhole/extensions/facade.hpp     | 2 +-
 include/blackhole/extensions/facade.inl.hpp | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/blackhole/extensions/facade.hpp b/include/blackhole/extensions/facade.hpp
index 52c3ba9..2d33510 100644
--- a/include/blackhole/extensions/facade.hpp
+++ b/include/blackhole/extensions/facade.hpp
@@ -142,7 +142,7 @@ logger_facade<Logger>::select(int severity, const string_view& pattern, const Ar
     typename std::enable_if<!detail::with_attributes<Args...>::value>::type
 {
     fmt::MemoryWriter wr;
-    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+    const auto fn = std::bind(&detail::gcc::write_all<Args...>, std::ref(wr), std::cref(pattern), std::cref(args)...);
 
     attribute_pack pack;
     inner().log(severity, {pattern, std::cref(fn)}, pack);
diff --git a/include/blackhole/extensions/facade.inl.hpp b/include/blackhole/extensions/facade.inl.hpp
index 25aff16..ca91c89 100644
--- a/include/blackhole/extensions/facade.inl.hpp
+++ b/include/blackhole/extensions/facade.inl.hpp
@@ -17,8 +17,11 @@ namespace gcc {
 
 /// Workaround for GCC versions up to 4.9, which fails to expand variadic pack inside lambdas.
 template<class... Args>
-inline auto write_all(fmt::MemoryWriter& wr, const char* pattern, const Args&... args) -> string_view {
-    wr.write(pattern, args...);
+inline auto write_all(fmt::MemoryWriter& wr, const string_view& pattern, const Args&... args) -> string_view {
+    // The pattern isn't required to be terminated, unlike what the formatter accepts.
+    fmt::MemoryWriter terminated;
+    terminated << fmt::StringRef(pattern.data(), pattern.size());
+    wr.write(terminated.c_str(), args...);
     return {wr.data(), wr.size()};
 }
 
@@ -87,7 +90,7 @@ struct select_t {
         const attribute_list& attributes) -> void
     {
         fmt::MemoryWriter wr;
-        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), pattern.data(), std::cref(args)...);
+        const auto fn = std::bind(&gcc::write_all<Args...>, std::ref(wr), std::cref(pattern), std::cref(args)...);
 
         attribute_pack pack{attributes};
         log.log(severity, {pattern, std::cref(fn)}, pack);
-- 
2.43.0


From 916f4c58b042d32046793a0fa532e8566fbcc65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:56 +0000
Subject: [PATCH 43/56] fix: keep the kernel thread id of events passed to
 asynchronous sinks

---
 src/record.cpp    | 4 +++-
 src/recordbuf.hpp | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/record.cpp b/src/record.cpp
index 79ae526..c318765 100644
--- a/src/record.cpp
+++ b/src/record.cpp
@@ -28,6 +28,7 @@ record_t::record_t(severity_t severity,
     inner.severity = severity;
     inner.timestamp = time_point();
 
+    inner.lwp = 0;
     inner.tid = ::pthread_self();
 
     inner.attributes = attributes;
@@ -55,7 +56,8 @@ auto record_t::pid() const noexcept -> std::uint64_t {
 
 auto record_t::lwp() const noexcept -> std::uint64_t {
 #if defined(__linux__)
-    return ::syscall(SYS_gettid);
+    // Stored only for records which may leave the thread they were made on.
+    return inner().lwp != 0 ? inner().lwp : ::syscall(SYS_gettid);
 #else
     return 0;
 #endif
diff --git a/src/recordbuf.hpp b/src/recordbuf.hpp
index bd238e6..84c2565 100644
--- a/src/recordbuf.hpp
+++ b/src/recordbuf.hpp
@@ -133,6 +133,7 @@ public:
         inner.formatted = formatted.view;
         inner.severity = record.severity();
         inner.timestamp = record.timestamp();
+        inner.lwp = record.lwp();
         inner.tid = record.tid();
         inner.attributes = pack;
     }
-- 
2.43.0


From 2f544293e216a113feb8ee393b550990288102a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:00 +0000
Subject: [PATCH 44/56] fix: order string views as their character traits
 prescribe

---
 include/blackhole/stdext/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blackhole/stdext/string_view.hpp b/include/blackhole/stdext/string_view.hpp
index 6ae2c1c..5f6afab 100644
--- a/include/blackhole/stdext/string_view.hpp
+++ b/include/blackhole/stdext/string_view.hpp
@@ -166,7 +166,7 @@ constexpr auto operator<(basic_string_view<Char, Traits> lhs, basic_string_view<
     bool
 {
     return std::lexicographical_compare(lhs.data(), lhs.data() + lhs.size(),
-        rhs.data(), rhs.data() + rhs.size());
+        rhs.data(), rhs.data() + rhs.size(), &Traits::lt);
 }
 
 template<class Char, class Traits>
-- 
2.43.0


From c5617160b4ca0eb26b56fd888d3ba8e645949d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:35 +0000
Subject: [PATCH 45/56] fix: make hashes of string views computable

---
 include/blackhole/stdext/string_view.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/blackhole/stdext/string_view.hpp b/include/blackhole/stdext/string_view.hpp
index 5f6afab..71e3701 100644
--- a/include/blackhole/stdext/string_view.hpp
+++ b/include/blackhole/stdext/string_view.hpp
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <algorithm>
+#include <functional>
 #include <iosfwd>
 #include <limits>
 #include <stdexcept>
@@ -188,7 +190,6 @@ using stdext::string_view;
 
 namespace std {
 
-/// Shamelessly stolen from <string>
 template<typename Char, typename Traits>
 struct hash<blackhole::stdext::basic_string_view<Char, Traits>> {
     auto operator()(const blackhole::stdext::basic_string_view<Char, Traits>& val) const noexcept ->
@@ -199,7 +200,12 @@ template<typename Char, typename Traits>
 auto hash<blackhole::stdext::basic_string_view<Char, Traits>>::operator()(
     const blackhole::stdext::basic_string_view<Char, Traits>& val) const noexcept -> std::size_t
 {
-    return __do_string_hash(val.data(), val.data() + val.size());
+    std::size_t result = 0;
+    for (std::size_t id = 0; id < val.size(); ++id) {
+        result = 31 * result + std::hash<Char>()(val.data()[id]);
+    }
+
+    return result;
 }
 
 }  // namespace std
-- 
2.43.0


From 63752a0a77f4085dcab85b0015fd4032b2886e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:58 +0000
Subject: [PATCH 46/56] fix: refuse widths and precisions which are too big
 instead of wrapping them

---
 src/format.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/format.cpp b/src/format.cpp
index 575e4b7..7581282 100644
--- a/src/format.cpp
+++ b/src/format.cpp
@@ -272,13 +272,12 @@ int parse_nonnegative_int(const Char *&s) {
   assert('0' <= *s && *s <= '9');
   unsigned value = 0;
   do {
-    unsigned new_value = value * 10 + (*s++ - '0');
-    // Check if value wrapped around.
-    if (new_value < value) {
+    // Check if value would wrap around.
+    if (value > INT_MAX / 10) {
       value = UINT_MAX;
       break;
     }
-    value = new_value;
+    value = value * 10 + (*s++ - '0');
   } while ('0' <= *s && *s <= '9');
   if (value > INT_MAX)
     FMT_THROW(fmt::FormatError("number is too big"));
-- 
2.43.0


From d9b10bb6ae278927c576909f3e22ce171c4ec95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:01:22 +0000
Subject: [PATCH 47/56] fix: align non-finite values as other numbers

---
 include/blackhole/extensions/format.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/blackhole/extensions/format.hpp b/include/blackhole/extensions/format.hpp
index b1b61b4..47e7bb6 100644
--- a/include/blackhole/extensions/format.hpp
+++ b/include/blackhole/extensions/format.hpp
@@ -2409,6 +2409,14 @@ void BasicWriter<Char>::write_double(
     sign = spec.flag(PLUS_FLAG) ? '+' : ' ';
   }
 
+  // Neither NaN nor infinity can be padded with zeros, but they are aligned as other numbers are.
+  FormatSpec text_spec = spec;
+  if (spec.align() == ALIGN_DEFAULT || spec.align() == ALIGN_NUMERIC) {
+    text_spec.align_ = ALIGN_RIGHT;
+    if (spec.fill() == '0')
+      text_spec.fill_ = ' ';
+  }
+
   if (internal::isnotanumber(value)) {
     // Format NaN ourselves because sprintf's output is not consistent
     // across platforms.
@@ -2418,7 +2426,7 @@ void BasicWriter<Char>::write_double(
       --nan_size;
       ++nan;
     }
-    CharPtr out = write_str(nan, nan_size, spec);
+    CharPtr out = write_str(nan, nan_size, text_spec);
     if (sign)
       *out = sign;
     return;
@@ -2433,7 +2441,7 @@ void BasicWriter<Char>::write_double(
       --inf_size;
       ++inf;
     }
-    CharPtr out = write_str(inf, inf_size, spec);
+    CharPtr out = write_str(inf, inf_size, text_spec);
     if (sign)
       *out = sign;
     return;
-- 
2.43.0


From 644b3380ef70e8396c7a79cd0488e32a65618dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:36 +0000
Subject: [PATCH 48/56] fix: don't miss rotation of a file while it is being
 opened

---
 src/sink/file.cpp             | 11 ++++++++++-
 src/sink/file/rotate/stat.hpp | 10 ++++------
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/sink/file.cpp b/src/sink/file.cpp
index 41befa1..6cca92f 100644
--- a/src/sink/file.cpp
+++ b/src/sink/file.cpp
@@ -143,8 +143,17 @@ auto file_t::backend(const std::string& filename) -> file::backend_t& {
 }
 
 auto file_t::create_backend(const std::string& filename) -> file::backend_t& {
-    auto stream = stream_factory->create(filename, std::ios_base::app | std::ios_base::out);
+    // The file is looked at before it is opened, because otherwise the file which has replaced it in
+    // between would be taken for the opened one forever.
     auto rotate = rotate_factory->create(filename);
+    auto stream = stream_factory->create(filename, std::ios_base::app | std::ios_base::out);
+
+    if (rotate->should_rotate()) {
+        // The file either has just been created or rotated while opening.
+        rotate = rotate_factory->create(filename);
+        stream = stream_factory->create(filename, std::ios_base::app | std::ios_base::out);
+    }
+
     auto flusher = flusher_factory->create();
     auto backend = file::backend_t(std::move(stream), std::move(rotate), std::move(flusher));
 
diff --git a/src/sink/file/rotate/stat.hpp b/src/sink/file/rotate/stat.hpp
index e605551..69a7b85 100644
--- a/src/sink/file/rotate/stat.hpp
+++ b/src/sink/file/rotate/stat.hpp
@@ -3,7 +3,6 @@
 #include <sys/stat.h>
 
 #include <string>
-#include <system_error>
 
 #include "../rotate.hpp"
 
@@ -23,12 +22,11 @@ public:
         inode(0)
     {
         struct stat buf = {};
-        auto rc = ::stat(this->filename.c_str(), &buf);
-        if (rc == -1) {
-            throw std::system_error(errno, std::system_category());
-        }
 
-        inode = std::int64_t(buf.st_ino);
+        // There may be no such file yet.
+        if (::stat(this->filename.c_str(), &buf) == 0) {
+            inode = std::int64_t(buf.st_ino);
+        }
     }
 
     auto should_rotate() -> bool override {
-- 
2.43.0


From 0bb2a2716a5dda59de7649a6788715073f12c5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 49/56] fix: keep scoped attributes of both loggers when one is
 assigned over another

---
 include/blackhole/scope/watcher.hpp | 11 +++++++++++
 src/root.cpp                        |  4 ++--
 src/scope/watcher.cpp               | 30 ++++++++++++++++++++++++++++-
 3 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/include/blackhole/scope/watcher.hpp b/include/blackhole/scope/watcher.hpp
index 6a577e9..4635219 100644
--- a/include/blackhole/scope/watcher.hpp
+++ b/include/blackhole/scope/watcher.hpp
@@ -1,5 +1,8 @@
 #pragma once
 
+#include <cstdint>
+#include <functional>
+
 #include "blackhole/attributes.hpp"
 
 namespace blackhole {
@@ -30,6 +33,7 @@ class manager_t;
 class watcher_t {
     std::reference_wrapper<manager_t> manager;
     watcher_t* prev;
+    std::uint64_t number;
 
 public:
     /// Constructs a scoped attributes watch which will be associated with the specified logger.
@@ -58,6 +62,13 @@ public:
     /// Usually called in the middle of the logger's move operation.
     auto rebind(manager_t& manager) -> void;
 
+    /// Merges the scoped attributes with other ones attached by the same thread, keeping the order
+    /// they were attached in.
+    ///
+    /// \param other scoped attributes watcher, may be nullptr.
+    /// \return the latest attached watcher.
+    auto merge(watcher_t* other) -> watcher_t*;
+
     /// Returns an immutable reference to the internal attribute list.
     virtual auto attributes() const -> const attribute_list& = 0;
 };
diff --git a/src/root.cpp b/src/root.cpp
index a53a2b8..88759d2 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -71,12 +71,12 @@ struct root_logger_t::sync_t {
     /// Takes over the scoped attributes attached by the current thread to the other logger.
     ///
     /// Attributes that are already attached to this logger must survive, because their guards are
-    /// still alive, that's why nothing happens when there is nothing to take.
+    /// still alive.
     auto acquire(sync_t& other) noexcept -> void {
         if (auto watcher = other.manager.get()) {
             other.manager.reset(nullptr);
-            manager.reset(watcher);
             watcher->rebind(manager);
+            manager.reset(watcher->merge(manager.get()));
         }
     }
 };
diff --git a/src/scope/watcher.cpp b/src/scope/watcher.cpp
index f55f002..2ed1c86 100644
--- a/src/scope/watcher.cpp
+++ b/src/scope/watcher.cpp
@@ -10,9 +10,20 @@ namespace blackhole {
 inline namespace v1 {
 namespace scope {
 
+namespace {
+
+/// Returns the number of the next watcher of the current thread.
+auto generate() noexcept -> std::uint64_t {
+    static thread_local std::uint64_t counter = 0;
+    return counter++;
+}
+
+}  // namespace
+
 watcher_t::watcher_t(logger_t& logger) :
     manager(logger.manager()),
-    prev(manager.get().get())
+    prev(manager.get().get()),
+    number(generate())
 {
     manager.get().reset(this);
 }
@@ -38,6 +49,23 @@ auto watcher_t::rebind(manager_t& manager) -> void {
     }
 }
 
+auto watcher_t::merge(watcher_t* other) -> watcher_t* {
+    auto current = this;
+    watcher_t* result = nullptr;
+    auto next = &result;
+
+    while (current && other) {
+        auto& latest = current->number > other->number ? current : other;
+        *next = latest;
+        next = &latest->prev;
+        latest = latest->prev;
+    }
+
+    *next = current ? current : other;
+
+    return result;
+}
+
 }  // namespace scope
 }  // namespace v1
 }  // namespace blackhole
-- 
2.43.0


From 10276a89c2fcb1a5225a731ce771d3f30fca6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:54 +0000
Subject: [PATCH 50/56] fix: notice rotation to a file of another file system

---
 src/sink/file/rotate/stat.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sink/file/rotate/stat.hpp b/src/sink/file/rotate/stat.hpp
index 69a7b85..ff55a66 100644
--- a/src/sink/file/rotate/stat.hpp
+++ b/src/sink/file/rotate/stat.hpp
@@ -14,17 +14,20 @@ namespace rotate {
 
 class stat_rotate_t : public rotate_t {
     std::string filename;
+    std::int64_t device;
     std::int64_t inode;
 
 public:
     explicit stat_rotate_t(std::string filename) :
         filename(std::move(filename)),
+        device(0),
         inode(0)
     {
         struct stat buf = {};
 
         // There may be no such file yet.
         if (::stat(this->filename.c_str(), &buf) == 0) {
+            device = std::int64_t(buf.st_dev);
             inode = std::int64_t(buf.st_ino);
         }
     }
@@ -33,6 +36,11 @@ public:
         struct stat buf = {};
         auto rc = ::stat(filename.c_str(), &buf);
 
+        // Numbers of inodes are unique within their file system only.
+        if (rc == 0 && std::int64_t(buf.st_dev) != device) {
+            return true;
+        }
+
         return !(rc == 0 && std::int64_t(buf.st_ino) == inode);
     }
 };
-- 
2.43.0


From 9b332ef1e3bae2a8e212050686240be0f6ae6e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:38 +0000
Subject: [PATCH 51/56] fix: developer handler shares the lock of the console
 sinks

---
 src/handler/dev.cpp  | 9 ++-------
 src/sink/console.cpp | 2 +-
 src/sink/console.hpp | 4 ++++
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/handler/dev.cpp b/src/handler/dev.cpp
index 31214a9..dbfe91a 100644
--- a/src/handler/dev.cpp
+++ b/src/handler/dev.cpp
@@ -15,6 +15,7 @@
 #include "../attribute.hpp"
 #include "../datetime.hpp"
 #include "../memory.hpp"
+#include "../sink/console.hpp"
 #include "../util/deleter.hpp"
 
 namespace blackhole {
@@ -22,15 +23,9 @@ inline namespace v1 {
 namespace experimental {
 namespace handler {
 
-#pragma clang diagnostic push
-#pragma clang diagnostic ignored "-Wglobal-constructors"
-#pragma clang diagnostic ignored "-Wexit-time-destructors"
-
 // Both standard output and error access mutex. Messages written with Blackhole will be
 // synchronized, otherwise an intermixing can occur.
-static std::mutex mutex;
-
-#pragma clang diagnostic pop
+using sink::mutex;
 
 namespace {
 
diff --git a/src/sink/console.cpp b/src/sink/console.cpp
index 86a2ec3..38d3a6f 100644
--- a/src/sink/console.cpp
+++ b/src/sink/console.cpp
@@ -31,7 +31,7 @@ namespace sink {
 
 // Both standard output and error access mutex. Messages written with Blackhole will be
 // synchronized, otherwise an intermixing can occur.
-static std::mutex mutex;
+std::mutex mutex;
 
 #pragma clang diagnostic pop
 
diff --git a/src/sink/console.hpp b/src/sink/console.hpp
index 83a95e1..24b9fa7 100644
--- a/src/sink/console.hpp
+++ b/src/sink/console.hpp
@@ -2,6 +2,7 @@
 
 #include <functional>
 #include <iosfwd>
+#include <mutex>
 
 #include "blackhole/sink.hpp"
 #include "blackhole/sink/console.hpp"
@@ -10,6 +11,9 @@ namespace blackhole {
 inline namespace v1 {
 namespace sink {
 
+/// Guards both standard output and error.
+extern std::mutex mutex;
+
 class console_t : public sink_t {
     std::ostream& stream_;
     std::unique_ptr<filter_t> filter;
-- 
2.43.0


From 6e8d498b5455a2a6b063f46e05b682001324caea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:59 +0000
Subject: [PATCH 52/56] fix: connect to the configured port in every global
 locale

---
 src/sink/socket/tcp.cpp | 4 ++--
 src/sink/socket/udp.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sink/socket/tcp.cpp b/src/sink/socket/tcp.cpp
index 31dd48c..b17b4d2 100644
--- a/src/sink/socket/tcp.cpp
+++ b/src/sink/socket/tcp.cpp
@@ -1,8 +1,8 @@
 #include <limits>
 #include <mutex>
+#include <string>
 
 #include <boost/asio/write.hpp>
-#include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
 
 #include "blackhole/config/node.hpp"
@@ -79,7 +79,7 @@ auto connect(boost::asio::io_service& ev, typename Protocol::socket& socket,
 
     try {
         typename Protocol::resolver resolver(ev);
-        typename Protocol::resolver::query query(host, boost::lexical_cast<std::string>(port),
+        typename Protocol::resolver::query query(host, std::to_string(port),
             Protocol::resolver::query::flags::numeric_service);
         endpoint = resolver.resolve(query);
     } catch (const boost::system::system_error& err) {
diff --git a/src/sink/socket/udp.cpp b/src/sink/socket/udp.cpp
index 97bf278..d2df5bb 100644
--- a/src/sink/socket/udp.cpp
+++ b/src/sink/socket/udp.cpp
@@ -1,6 +1,6 @@
 #include <limits>
+#include <string>
 
-#include <boost/lexical_cast.hpp>
 #include <boost/optional/optional.hpp>
 
 #include "blackhole/config/node.hpp"
@@ -21,7 +21,7 @@ udp_t::udp_t(const std::string& host, std::uint16_t port) :
     socket(io_service)
 {
     boost::asio::ip::udp::resolver resolver(io_service);
-    boost::asio::ip::udp::resolver::query query(host, boost::lexical_cast<std::string>(port),
+    boost::asio::ip::udp::resolver::query query(host, std::to_string(port),
         boost::asio::ip::udp::resolver::query::flags::numeric_service);
     endpoint_ = *resolver.resolve(query);
 
-- 
2.43.0


From 1707cc7bf1984c96f23774f48b845592d1769e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:14 +0000
Subject: [PATCH 53/56] fix: don't parse default values of placeholders by the
 global locale

---
 src/formatter/string/grammar.cpp | 33 ++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/formatter/string/grammar.cpp b/src/formatter/string/grammar.cpp
index 8a4a16f..2ead4c3 100644
--- a/src/formatter/string/grammar.cpp
+++ b/src/formatter/string/grammar.cpp
@@ -1,3 +1,6 @@
+#include <cmath>
+#include <sstream>
+
 #include <boost/lexical_cast.hpp>
 #include <boost/fusion/container/vector.hpp>
 #include <boost/fusion/container/generation/vector_tie.hpp>
@@ -189,21 +192,39 @@ auto parse_pattern(std::string pattern) -> std::vector<ph::leftover_t::token_t>
     return parse<pattern_grammar_t>(std::move(pattern));
 }
 
+/// Converts the whole text into a number in the classic locale, whatever the global one is.
+template<typename T>
+auto convert(const std::string& text, T& value) -> bool {
+    std::istringstream stream(text);
+    stream.imbue(std::locale::classic());
+    return stream >> std::noskipws >> value && stream.peek() == std::istringstream::traits_type::eof();
+}
+
 auto parse_optional(const std::string& name, const std::string& pattern) -> ph::generic<optional> {
     ph::generic<optional> token(name);
 
     const auto result = parse<optional_grammar_t>(pattern);
     token.spec = "{:" + result.spec + "}";
 
-    try {
-        token.otherwise = boost::lexical_cast<std::int64_t>(result.extension.otherwise.get());
+    const auto& text = boost::get<std::string>(result.extension.otherwise.get());
+
+    std::int64_t integer;
+    if (convert(text, integer)) {
+        token.otherwise = integer;
         return token;
-    } catch (const boost::bad_lexical_cast&) {}
+    }
 
-    try {
-        token.otherwise = boost::lexical_cast<double>(result.extension.otherwise.get());
+    double floating;
+    if (convert(text, floating)) {
+        token.otherwise = floating;
         return token;
-    } catch (const boost::bad_lexical_cast&) {}
+    }
+
+    // Streams don't extract these ones.
+    if (boost::conversion::try_lexical_convert(text, floating) && !std::isfinite(floating)) {
+        token.otherwise = floating;
+        return token;
+    }
 
     token.otherwise = result.extension.otherwise.get();
     return token;
-- 
2.43.0


From cf9b1e18dc008ee8e10415eedd30b013e18a5d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:20 +0000
Subject: [PATCH 54/56] fix: don't repeat objects of routes with null
 characters in their names

---
 src/formatter/json.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/formatter/json.cpp b/src/formatter/json.cpp
index 1945bdb..61b6f9c 100644
--- a/src/formatter/json.cpp
+++ b/src/formatter/json.cpp
@@ -1,5 +1,6 @@
 #include "blackhole/formatter/json.hpp"
 
+#include <algorithm>
 #include <array>
 #include <cmath>
 #include <stdexcept>
@@ -215,7 +216,7 @@ public:
 
     template<typename Document>
     auto get(const rapidjson::Pointer& route, Document& root) -> rapidjson::Value& {
-        if (occupied(route, root)) {
+        if (occupied(route, root) || embedded(route)) {
             return duplicate(route, root);
         }
 
@@ -227,6 +228,15 @@ public:
         return node;
     }
 
+    /// Checks for null characters in the names, which pointers look for members only up to.
+    static auto embedded(const rapidjson::Pointer& route) -> bool {
+        const auto tokens = route.GetTokens();
+
+        return std::any_of(tokens, tokens + route.GetTokenCount(), [](const rapidjson::Pointer::Token& token) {
+            return std::find(token.name, token.name + token.length, '\0') != token.name + token.length;
+        });
+    }
+
     /// Checks whether an attribute's value prevents from creating an object at the given route.
     template<typename Document>
     static auto occupied(const rapidjson::Pointer& route, Document& root) -> bool {
-- 
2.43.0


From fd4da54f752e176d3a9371c301bb112b59a81ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:31 +0000
Subject: [PATCH 55/56] fix: don't destroy replaced filters and handlers under
 locks of the logger

---
 src/root.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/root.cpp b/src/root.cpp
index 88759d2..0918a49 100644
--- a/src/root.cpp
+++ b/src/root.cpp
@@ -63,8 +63,9 @@ struct root_logger_t::sync_t {
 #ifdef __APPLE__
         std::atomic_store_explicit(&source, std::move(value), std::memory_order_release);
 #else
+        // What is replaced must be destroyed without the lock, it may be anything of the user's.
         std::lock_guard<mutex_type> lock(mutex);
-        source = std::move(value);
+        source.swap(value);
 #endif
     }
 
@@ -146,8 +147,9 @@ root_logger_t::filter(filter_t fn) -> void {
     // logger that has been assigned meanwhile.
     const auto inner = sync->load(this->inner);
 
+    // The previous filter is destroyed after the lock is released.
     inner->apply([&](inner_t& inner) {
-        inner.filter = std::move(fn);
+        inner.filter.swap(fn);
     });
 }
 
-- 
2.43.0


From 5bb3eb25eabfc898854456f266a7e0aec25e6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:38 +0000
Subject: [PATCH 56/56] fix: end the line of an event the developer handler
 fails to print

---
 src/handler/dev.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/handler/dev.cpp b/src/handler/dev.cpp
index dbfe91a..1738ee1 100644
--- a/src/handler/dev.cpp
+++ b/src/handler/dev.cpp
@@ -180,8 +180,14 @@ public:
         auto& stream = std::cout;
 
         std::lock_guard<std::mutex> lock(mutex);
-        for (const auto& token : tokens) {
-            token(stream, record);
+        try {
+            for (const auto& token : tokens) {
+                token(stream, record);
+            }
+        } catch (...) {
+            // The next event has to start on a line of its own.
+            stream << std::endl;
+            throw;
         }
 
         stream << std::endl;
-- 
2.43.0

