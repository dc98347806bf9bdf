// simvnx: stand-in for the (absent) uint256_t submodule, same public API surface as used by mmx-node.
#ifndef SIMVNX_UINT128_T_H
#define SIMVNX_UINT128_T_H
#include <cstdint>
#include <string>
#include <ostream>
#include <stdexcept>
#include <type_traits>
#include <algorithm>
#include <vector>

class uint256_t;

class uint128_t {
public:
	typedef unsigned __int128 raw_t;
	raw_t v = 0;

	uint128_t() = default;
	uint128_t(const uint128_t&) = default;
	uint128_t& operator=(const uint128_t&) = default;
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint128_t(const T& x) : v(raw_t(x)) {}
	template<typename S, typename T, typename = typename std::enable_if<std::is_integral<S>::value && std::is_integral<T>::value>::type>
	uint128_t(const S& hi, const T& lo) : v((raw_t(uint64_t(hi)) << 64) | uint64_t(lo)) {}
	explicit uint128_t(const std::string& s, uint8_t base) { init(s.c_str(), s.size(), base); }
	explicit uint128_t(const char* s, uint8_t base) { init(s, std::char_traits<char>::length(s), base); }
	static uint128_t from_raw(raw_t x) { uint128_t r; r.v = x; return r; }

	void init(const char* s, size_t n, uint8_t base);

	uint64_t lower() const { return uint64_t(v); }
	uint64_t upper() const { return uint64_t(v >> 64); }
	uint8_t bits() const { if(upper()) return 128 - __builtin_clzll(upper()); if(lower()) return 64 - __builtin_clzll(lower()); return 0; }
	std::string str(uint8_t base = 10, unsigned int len = 0) const;

	operator bool() const { return v != 0; }
	operator uint8_t() const { return uint8_t(v); }
	operator uint16_t() const { return uint16_t(v); }
	operator uint32_t() const { return uint32_t(v); }
	operator uint64_t() const { return uint64_t(v); }

#define SV_OP(op) \
	friend uint128_t operator op(const uint128_t& a, const uint128_t& b) { return from_raw(a.v op b.v); } \
	uint128_t& operator op##=(const uint128_t& b) { v = v op b.v; return *this; } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> friend uint128_t operator op(const uint128_t& a, const T& b) { return from_raw(a.v op uint128_t(b).v); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> friend uint128_t operator op(const T& a, const uint128_t& b) { return from_raw(uint128_t(a).v op b.v); }
	SV_OP(+) SV_OP(-) SV_OP(*) SV_OP(&) SV_OP(|) SV_OP(^)
#undef SV_OP
	static raw_t chk(raw_t d) { if(d == 0) throw std::domain_error("Error: division or modulus by 0"); return d; }
#define SV_OP(op) \
	friend uint128_t operator op(const uint128_t& a, const uint128_t& b) { return from_raw(a.v op chk(b.v)); } \
	uint128_t& operator op##=(const uint128_t& b) { v = v op chk(b.v); return *this; } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> friend uint128_t operator op(const uint128_t& a, const T& b) { return from_raw(a.v op chk(uint128_t(b).v)); } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> friend uint128_t operator op(const T& a, const uint128_t& b) { return from_raw(uint128_t(a).v op chk(b.v)); }
	SV_OP(/) SV_OP(%)
#undef SV_OP
#define SV_CMP(op) \
	friend bool operator op(const uint128_t& a, const uint128_t& b) { return a.v op b.v; } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> friend bool operator op(const uint128_t& a, const T& b) { return a.v op uint128_t(b).v; } \
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> friend bool operator op(const T& a, const uint128_t& b) { return uint128_t(a).v op b.v; }
	SV_CMP(==) SV_CMP(!=) SV_CMP(<) SV_CMP(>) SV_CMP(<=) SV_CMP(>=)
#undef SV_CMP
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> friend uint128_t operator<<(const uint128_t& a, const T& s) { return from_raw(uint64_t(s) >= 128 ? 0 : a.v << uint64_t(s)); }
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> friend uint128_t operator>>(const uint128_t& a, const T& s) { return from_raw(uint64_t(s) >= 128 ? 0 : a.v >> uint64_t(s)); }
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> uint128_t& operator<<=(const T& s) { v = uint64_t(s) >= 128 ? 0 : v << uint64_t(s); return *this; }
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> uint128_t& operator>>=(const T& s) { v = uint64_t(s) >= 128 ? 0 : v >> uint64_t(s); return *this; }
	uint128_t operator~() const { return from_raw(~v); }
	bool operator!() const { return v == 0; }
	uint128_t operator-() const { return from_raw(-v); }
	uint128_t operator+() const { return *this; }
	uint128_t& operator++() { ++v; return *this; }
	uint128_t& operator--() { --v; return *this; }
	uint128_t operator++(int) { auto t = *this; ++v; return t; }
	uint128_t operator--(int) { auto t = *this; --v; return t; }
};

static const uint128_t uint128_0 = uint128_t(0);
static const uint128_t uint128_1 = uint128_t(1);
static const uint128_t uint128_64 = uint128_t(64);
static const uint128_t uint128_128 = uint128_t(128);

inline void uint128_t::init(const char* s, size_t n, uint8_t base) {
	v = 0;
	for(size_t i = 0; i < n; ++i) {
		char c = s[i]; unsigned d;
		if(c >= '0' && c <= '9') d = c - '0';
		else if(c >= 'a' && c <= 'z') d = c - 'a' + 10;
		else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10;
		else break;
		if(d >= base) break;
		v = v * base + d;
	}
}
inline std::string uint128_t::str(uint8_t base, unsigned int len) const {
	if(base < 2 || base > 36) throw std::invalid_argument("Base must be in the range [2, 36]");
	std::string out; raw_t x = v;
	if(!x) out = "0";
	while(x) { out += "0123456789abcdefghijklmnopqrstuvwxyz"[unsigned(x % base)]; x /= base; }
	while(out.size() < len) out += '0';
	std::reverse(out.begin(), out.end());
	return out;
}
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> T& operator+=(T& a, const uint128_t& b) { a = T(uint128_t(a) + b); return a; }
template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> T& operator-=(T& a, const uint128_t& b) { a = T(uint128_t(a) - b); return a; }
inline std::ostream& operator<<(std::ostream& o, const uint128_t& x) {
	return o << x.str(o.flags() & o.hex ? 16 : (o.flags() & o.oct ? 8 : 10));
}
#include <uint256_t.h>
#endif
