// Rendering of parse results relative to the start of the input: positions, not contents, so that
// a value that merely looks right but refers to other memory is told apart.
#pragma once
#include "hand.hpp"

namespace h {

template <class T> concept spanlike = requires(const T& t) { t.data(); t.size(); t.empty(); t.subspan(0); typename T::value_type; };

template <class T, class V> std::string canon(const T& t, const V* base);

template <class T> struct is_tuple : std::false_type {};
template <class... Ts> struct is_tuple<std::tuple<Ts...>> : std::true_type {};
template <class T> struct is_variant : std::false_type {};
template <class... Ts> struct is_variant<std::variant<Ts...>> : std::true_type {};
template <class T> struct is_optional : std::false_type {};
template <class T> struct is_optional<std::optional<T>> : std::true_type {};
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};

template <class T, class V>
std::string canon(const T& t, const V* base)
{
	if constexpr (is_tuple<T>::value)
		return std::apply([&](const auto&... x) { std::string s = "("; ((s += canon(x, base) + " "), ...); return s + ")"; }, t);
	else if constexpr (is_variant<T>::value)
		return "#" + std::to_string(t.index()) + std::visit([&](const auto& x) { return canon(x, base); }, t);
	else if constexpr (is_optional<T>::value) return t ? "?" + canon(*t, base) : std::string("?-");
	else if constexpr (is_pair<T>::value) return "<" + canon(t.first, base) + "," + canon(t.second, base) + ">";
	else if constexpr (spanlike<T>)
	{
		if (base == nullptr) return "+" + std::to_string(t.size());
		return "[" + std::to_string(reinterpret_cast<const V*>(t.data()) - base) + "+" + std::to_string(t.size()) + "]";
	}
	else if constexpr (std::is_same_v<T, std::string> || std::is_same_v<T, std::string_view>) return "'" + std::string(t) + "'";
	else if constexpr (requires { t.begin(); t.end(); })
	{
		std::string s = "{";
		for (const auto& x : t) s += canon(x, base) + " ";
		return s + "}";
	}
	else if constexpr (std::is_arithmetic_v<T>) return std::to_string(t);
	else if constexpr (requires { t.show(); }) return t.show();
	else return "_";
}

// everything a caller can see of one parse and one lookahead
template <class P, class R, class V>
std::string observe(P, R&& r, const V* base)
{
	auto lk = P::lookahead(r);
	auto ps = P::parse(r);
	std::string s = ps.has_value() ? "ok " : "fail ";
	if constexpr (!std::is_void_v<typename decltype(ps)::value_type>) { if (ps.has_value()) s += canon(*ps, base); }
	auto rm = ps.remaining(), lrm = lk.remaining();
	auto off = [&](auto x) { return base == nullptr ? std::string("?") : std::to_string(x.data() - base); };
	s += " rem " + off(rm) + "+" + std::to_string(rm.size()) + " | " + (lk.has_value() ? "ok" : "fail") + " rem " + off(lrm) + "+" + std::to_string(lrm.size());
	return s;
}

} // namespace h
