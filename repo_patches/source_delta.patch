From 73d56705e05d3384f8fe3132ceac5338c7f041ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 01/13] fix: look up repeated choice alternatives by their
 position among the distinct result types

---
 include/k3/tok3n/detail/filter.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/filter.h b/include/k3/tok3n/detail/filter.h
index e4368af..1fa8c61 100644
--- a/include/k3/tok3n/detail/filter.h
+++ b/include/k3/tok3n/detail/filter.h
@@ -4,6 +4,7 @@
 
 #pragma once
 #include <type_traits>
+#include <utility>
 
 namespace k3::tok3n::detail {
 
@@ -87,7 +88,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, std::index_sequence_for<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
@@ -107,7 +108,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, std::index_sequence_for<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
-- 
2.43.0


From ae634b52ed471f9b35b35790e9fe4c7a1d4c2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 02/13] fix: converting a failed result never produces a value

---
 include/k3/tok3n/detail/result.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 863c4b2..2708018 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -32,11 +32,19 @@ public:
 
 	template <class T2>
 	constexpr result(const result<T2, U>& other)
-		: _result(other._result), _remaining(other._remaining) {}
+		: _remaining(other._remaining)
+	{
+		if (other._result.has_value())
+			_result.emplace(*other._result);
+	}
 
 	template <class T2>
 	constexpr result(result<T2, U>&& other)
-		: _result(std::move(other)._result), _remaining(other._remaining) {}
+		: _remaining(other._remaining)
+	{
+		if (other._result.has_value())
+			_result.emplace(*std::move(other)._result);
+	}
 
 	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }
 	constexpr bool has_value() const noexcept         { return _result.has_value(); }
-- 
2.43.0


From baccc9355d7657e1f9214313ba69b68c74f90644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:23 +0000
Subject: [PATCH 03/13] fix: initialise the success flag of a
 default-constructed void result

---
 include/k3/tok3n/detail/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 2708018..3249a49 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -91,7 +91,7 @@ public:
 	constexpr input_span<U> remaining() const noexcept { return _remaining; }
 
 private:
-	bool _successful;
+	bool _successful = false;
 	input_span<U> _remaining;
 };
 
-- 
2.43.0


From c7211c92adc636187c47da06ca5fa5ea3301c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:10 +0000
Subject: [PATCH 04/13] fix: run filters and callbacks of result-less parsers
 inside sequences and choices

---
 include/k3/tok3n/detail/helpers.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index 075f7ab..c0e06a1 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -152,16 +152,30 @@ struct compound_executor
 		: input(input_)
 	{}
 
-	template <parser P, std::size_t I = static_cast<std::size_t>(-1)>
+	template <parser P>
+	constexpr bool execute()
+	{
+		return execute_lookahead<P>();
+	}
+
+	template <parser P, std::size_t I>
 	constexpr bool execute()
 	{
 		if constexpr (I == static_cast<std::size_t>(-1))
-			return execute_lookahead<P>();
+			return execute_void<P>();
 		else
 			return execute_element<P, I>();
 	}
 
 private:
+	template <parser P>
+	constexpr bool execute_void()
+	{
+		auto res = P::parse(input);
+		input = res.remaining();
+		return res.has_value();
+	}
+
 	template <parser P>
 	constexpr bool execute_lookahead()
 	{
-- 
2.43.0


From 7d5e4845b0146211b55b04877880cd02e4d0c488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 05/13] fix: scale by a power of ten for a number's exponent in
 the algebraic example

---
 examples/algebraic/evaluate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/algebraic/evaluate.h b/examples/algebraic/evaluate.h
index 25c16da..3862db9 100644
--- a/examples/algebraic/evaluate.h
+++ b/examples/algebraic/evaluate.h
@@ -135,5 +135,5 @@ double evaluate(const number::result_type& val)
 	if (std::from_chars(val.exponent->data(), val.exponent->data() + val.exponent->size(), exp).ec != std::errc{})
 		throw;
 
-	return std::pow(value, exp);
+	return value * std::pow(10.0, exp);
 }
-- 
2.43.0


From e596d7a65d980d8a19a3ec6d687d3c513510752e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:29 +0000
Subject: [PATCH 06/13] fix: throw a real exception for an out-of-range
 exponent in the algebraic example

---
 examples/algebraic/evaluate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/examples/algebraic/evaluate.h b/examples/algebraic/evaluate.h
index 3862db9..614baa2 100644
--- a/examples/algebraic/evaluate.h
+++ b/examples/algebraic/evaluate.h
@@ -6,6 +6,7 @@
 #include "parser.h"
 #include <cmath>
 #include <charconv>
+#include <stdexcept>
 #include <string>
 
 double evaluate(const expr::result_type& val);
@@ -133,7 +134,7 @@ double evaluate(const number::result_type& val)
 
 	int exp;
 	if (std::from_chars(val.exponent->data(), val.exponent->data() + val.exponent->size(), exp).ec != std::errc{})
-		throw;
+		throw std::out_of_range("Exponent out of range");
 
 	return value * std::pow(10.0, exp);
 }
-- 
2.43.0


From d72a2eaa4f475198de0b7c32ee0b0ec78dbbe924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 07/13] fix: indent deeply nested expressions without reading
 past the tab buffer in the algebraic example

---
 examples/algebraic/print.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/algebraic/print.h b/examples/algebraic/print.h
index 6e8f7bb..62df1a7 100644
--- a/examples/algebraic/print.h
+++ b/examples/algebraic/print.h
@@ -5,11 +5,11 @@
 #pragma once
 #include "parser.h"
 #include <iostream>
+#include <string>
 
-std::string_view get_tabs(std::size_t tabs)
+std::string get_tabs(std::size_t tabs)
 {
-	static const std::string all_tabs(1024, '\t');
-	return { all_tabs.data(), tabs };
+	return std::string(tabs, '\t');
 }
 
 void print(std::string_view val, std::size_t tabs)
-- 
2.43.0


From 058c73b8eea4baa32c54ddee8be670177af830fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:12 +0000
Subject: [PATCH 08/13] fix: declare the result types of the combinators so
 that recursive rules compile with clang

parse and lookahead had deduced return types; clang instantiates constexpr
functions as soon as they are named, so a rule that refers to itself reached a
combinator whose return type was still being deduced, and was rejected.
---
 include/k3/tok3n/detail/parsers/choice.h       | 4 ++--
 include/k3/tok3n/detail/parsers/complete.h     | 4 ++--
 include/k3/tok3n/detail/parsers/delimit.h      | 4 ++--
 include/k3/tok3n/detail/parsers/exactly.h      | 4 ++--
 include/k3/tok3n/detail/parsers/filter.h       | 4 ++--
 include/k3/tok3n/detail/parsers/ignore.h       | 4 ++--
 include/k3/tok3n/detail/parsers/join.h         | 4 ++--
 include/k3/tok3n/detail/parsers/map.h          | 4 ++--
 include/k3/tok3n/detail/parsers/maybe.h        | 4 ++--
 include/k3/tok3n/detail/parsers/named.h        | 4 ++--
 include/k3/tok3n/detail/parsers/one_or_more.h  | 4 ++--
 include/k3/tok3n/detail/parsers/sequence.h     | 4 ++--
 include/k3/tok3n/detail/parsers/zero_or_more.h | 4 ++--
 13 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/include/k3/tok3n/detail/parsers/choice.h b/include/k3/tok3n/detail/parsers/choice.h
index 6e60c85..be27611 100644
--- a/include/k3/tok3n/detail/parsers/choice.h
+++ b/include/k3/tok3n/detail/parsers/choice.h
@@ -27,7 +27,7 @@ public:
 	static constexpr parser_family family = choice_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -50,7 +50,7 @@ public:
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/complete.h b/include/k3/tok3n/detail/parsers/complete.h
index 10bc074..3304f7f 100644
--- a/include/k3/tok3n/detail/parsers/complete.h
+++ b/include/k3/tok3n/detail/parsers/complete.h
@@ -19,7 +19,7 @@ struct complete_parser
 	static constexpr parser_family family = complete_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -32,7 +32,7 @@ struct complete_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/delimit.h b/include/k3/tok3n/detail/parsers/delimit.h
index 1c63481..44fd47b 100644
--- a/include/k3/tok3n/detail/parsers/delimit.h
+++ b/include/k3/tok3n/detail/parsers/delimit.h
@@ -34,7 +34,7 @@ struct delimit_parser
 	static constexpr parser_family family = delimit_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -79,7 +79,7 @@ struct delimit_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/exactly.h b/include/k3/tok3n/detail/parsers/exactly.h
index 1403450..3ff262a 100644
--- a/include/k3/tok3n/detail/parsers/exactly.h
+++ b/include/k3/tok3n/detail/parsers/exactly.h
@@ -26,7 +26,7 @@ struct exactly_parser
 	static constexpr parser_family family = exactly_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -48,7 +48,7 @@ struct exactly_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/filter.h b/include/k3/tok3n/detail/parsers/filter.h
index 4aab922..4925a6b 100644
--- a/include/k3/tok3n/detail/parsers/filter.h
+++ b/include/k3/tok3n/detail/parsers/filter.h
@@ -27,7 +27,7 @@ struct filter_parser
 	static constexpr parser_family family = filter_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -55,7 +55,7 @@ struct filter_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/ignore.h b/include/k3/tok3n/detail/parsers/ignore.h
index 8904552..fbad875 100644
--- a/include/k3/tok3n/detail/parsers/ignore.h
+++ b/include/k3/tok3n/detail/parsers/ignore.h
@@ -19,13 +19,13 @@ struct ignore_parser
 	static constexpr parser_family family = ignore_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/join.h b/include/k3/tok3n/detail/parsers/join.h
index a8c7476..e25b07f 100644
--- a/include/k3/tok3n/detail/parsers/join.h
+++ b/include/k3/tok3n/detail/parsers/join.h
@@ -128,7 +128,7 @@ struct join_parser
 	static constexpr parser_family family = join_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -145,7 +145,7 @@ struct join_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/map.h b/include/k3/tok3n/detail/parsers/map.h
index a5f4f10..75c15df 100644
--- a/include/k3/tok3n/detail/parsers/map.h
+++ b/include/k3/tok3n/detail/parsers/map.h
@@ -25,7 +25,7 @@ struct map_parser
 	static constexpr parser_family family = map_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -60,7 +60,7 @@ struct map_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/maybe.h b/include/k3/tok3n/detail/parsers/maybe.h
index d312f7b..85854d4 100644
--- a/include/k3/tok3n/detail/parsers/maybe.h
+++ b/include/k3/tok3n/detail/parsers/maybe.h
@@ -25,7 +25,7 @@ struct maybe_parser
 	static constexpr parser_family family = maybe_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -40,7 +40,7 @@ struct maybe_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/named.h b/include/k3/tok3n/detail/parsers/named.h
index 4f259e3..e083f16 100644
--- a/include/k3/tok3n/detail/parsers/named.h
+++ b/include/k3/tok3n/detail/parsers/named.h
@@ -19,13 +19,13 @@ struct named_parser
 	static constexpr parser_family family = named_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		return P::parse(std::forward<R>(r));
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		return P::lookahead(std::forward<R>(r));
 	}
diff --git a/include/k3/tok3n/detail/parsers/one_or_more.h b/include/k3/tok3n/detail/parsers/one_or_more.h
index e3f3a62..54dd5d7 100644
--- a/include/k3/tok3n/detail/parsers/one_or_more.h
+++ b/include/k3/tok3n/detail/parsers/one_or_more.h
@@ -25,7 +25,7 @@ struct one_or_more_parser
 	static constexpr parser_family family = one_or_more_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -50,7 +50,7 @@ struct one_or_more_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/sequence.h b/include/k3/tok3n/detail/parsers/sequence.h
index 7e05b97..df3c410 100644
--- a/include/k3/tok3n/detail/parsers/sequence.h
+++ b/include/k3/tok3n/detail/parsers/sequence.h
@@ -27,7 +27,7 @@ public:
 	static constexpr parser_family family = sequence_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -51,7 +51,7 @@ public:
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
diff --git a/include/k3/tok3n/detail/parsers/zero_or_more.h b/include/k3/tok3n/detail/parsers/zero_or_more.h
index c865dbd..517c6b6 100644
--- a/include/k3/tok3n/detail/parsers/zero_or_more.h
+++ b/include/k3/tok3n/detail/parsers/zero_or_more.h
@@ -25,7 +25,7 @@ struct zero_or_more_parser
 	static constexpr parser_family family = zero_or_more_family;
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto parse(R&& r)
+	static constexpr result<result_for<input_value_t<R>>, input_value_t<R>> parse(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
@@ -45,7 +45,7 @@ struct zero_or_more_parser
 	}
 
 	template <input_constructible_for<value_type> R>
-	static constexpr auto lookahead(R&& r)
+	static constexpr result<void, input_value_t<R>> lookahead(R&& r)
 	{
 		input_span input{ std::forward<R>(r) };
 		using V = input_value_t<R>;
-- 
2.43.0


From 82bc24da84aaad94d5979dae5a620e1e06c6c068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:29 +0000
Subject: [PATCH 09/13] fix: read character arrays by their size, not up to
 their first null

The pointer constructor of span was preferred to the array one, so that a
literal was cut at an embedded null, and an array without a terminator was
read past its end.
---
 include/k3/tok3n/detail/span.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index 7a1e351..1ec1b98 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -77,7 +77,9 @@ public:
 		: _value(value)
 	{}
 	
-	constexpr span(const T* data)
+	// A template, otherwise it would be preferred to the array constructor, and read arrays up to their first null
+	template <std::same_as<const T*> P>
+	constexpr span(P data)
 		: _value(std::basic_string_view<T>(data))
 	{}
 
-- 
2.43.0


From b54f7ba6c636fe348272bc339d7f38e448bce12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 10/13] Revert "fix: indent deeply nested expressions without
 reading past the tab buffer in the algebraic example"

This reverts commit d72a2eaa4f475198de0b7c32ee0b0ec78dbbe924.
---
 examples/algebraic/print.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/examples/algebraic/print.h b/examples/algebraic/print.h
index 62df1a7..6e8f7bb 100644
--- a/examples/algebraic/print.h
+++ b/examples/algebraic/print.h
@@ -5,11 +5,11 @@
 #pragma once
 #include "parser.h"
 #include <iostream>
-#include <string>
 
-std::string get_tabs(std::size_t tabs)
+std::string_view get_tabs(std::size_t tabs)
 {
-	return std::string(tabs, '\t');
+	static const std::string all_tabs(1024, '\t');
+	return { all_tabs.data(), tabs };
 }
 
 void print(std::string_view val, std::size_t tabs)
-- 
2.43.0


From 9640b0d484c9f46bfe52d2b611434843480b34a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 11/13] Revert "fix: throw a real exception for an out-of-range
 exponent in the algebraic example"

This reverts commit e596d7a65d980d8a19a3ec6d687d3c513510752e.
---
 examples/algebraic/evaluate.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/examples/algebraic/evaluate.h b/examples/algebraic/evaluate.h
index 614baa2..3862db9 100644
--- a/examples/algebraic/evaluate.h
+++ b/examples/algebraic/evaluate.h
@@ -6,7 +6,6 @@
 #include "parser.h"
 #include <cmath>
 #include <charconv>
-#include <stdexcept>
 #include <string>
 
 double evaluate(const expr::result_type& val);
@@ -134,7 +133,7 @@ double evaluate(const number::result_type& val)
 
 	int exp;
 	if (std::from_chars(val.exponent->data(), val.exponent->data() + val.exponent->size(), exp).ec != std::errc{})
-		throw std::out_of_range("Exponent out of range");
+		throw;
 
 	return value * std::pow(10.0, exp);
 }
-- 
2.43.0


From e6efaf3859ea8f19de8be5ceb494193f07f7c55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:52 +0000
Subject: [PATCH 12/13] Revert "fix: scale by a power of ten for a number's
 exponent in the algebraic example"

This reverts commit 7d5e4845b0146211b55b04877880cd02e4d0c488.
---
 examples/algebraic/evaluate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/examples/algebraic/evaluate.h b/examples/algebraic/evaluate.h
index 3862db9..25c16da 100644
--- a/examples/algebraic/evaluate.h
+++ b/examples/algebraic/evaluate.h
@@ -135,5 +135,5 @@ double evaluate(const number::result_type& val)
 	if (std::from_chars(val.exponent->data(), val.exponent->data() + val.exponent->size(), exp).ec != std::errc{})
 		throw;
 
-	return value * std::pow(10.0, exp);
+	return std::pow(value, exp);
 }
-- 
2.43.0


From d985379741c3eb046768c13579987653c84b728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 13/13] fix: an exception from a default constructor inside an
 array of values ended the process

---
 include/k3/tok3n/detail/helpers.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index c0e06a1..8682604 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -11,7 +11,10 @@ namespace k3::tok3n::detail {
 template <class T>
 struct empty_if_void
 {
-    T value{};
+    T value;
+
+    // User-provided, because compilers take aggregates of arrays for nothrow whatever their elements do
+    constexpr empty_if_void() : value{} {}
 };
 template <>
 struct empty_if_void<void> {};
-- 
2.43.0

