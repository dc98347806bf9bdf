// simvnx: stand-in for the (absent) uint256_t submodule.
#ifndef SIMVNX_UINT256_T_H
#define SIMVNX_UINT256_T_H
#include <uint128_t.h>

namespace simvnx { void spin_hint(); }

class uint256_t {
public:
	uint64_t w[4] = {};		// little endian limbs

	uint256_t() = default;
	uint256_t(const uint256_t&) = default;
	uint256_t& operator=(const uint256_t&) = default;
	template<typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type>
	uint256_t(const T& x) {
		w[0] = uint64_t(x);
		if(std::is_signed<T>::value && x < T(0)) { w[1] = w[2] = w[3] = ~uint64_t(0); }
	}
	uint256_t(const uint128_t& x) { w[0] = x.lower(); w[1] = x.upper(); }
	uint256_t(const uint128_t& hi, const uint128_t& lo) { w[0] = lo.lower(); w[1] = lo.upper(); w[2] = hi.lower(); w[3] = hi.upper(); }
	explicit uint256_t(const std::string& s, uint8_t base) { init(s.c_str(), s.size(), base); }
	explicit uint256_t(const char* s, uint8_t base) { init(s, std::char_traits<char>::length(s), base); }

	void init(const char* s, size_t n, uint8_t base) {
		for(size_t i = 0; i < n; ++i) {
			char c = s[i]; unsigned d;
			if(c >= '0' && c <= '9') d = c - '0';
			else if(c >= 'a' && c <= 'z') d = c - 'a' + 10;
			else if(c >= 'A' && c <= 'Z') d = c - 'A' + 10;
			else break;
			if(d >= base) break;
			*this = *this * uint256_t(base) + uint256_t(d);
		}
	}
	uint128_t lower() const { return uint128_t(w[1], w[0]); }
	uint128_t upper() const { return uint128_t(w[3], w[2]); }
	uint16_t bits() const { for(int i = 3; i >= 0; --i) if(w[i]) return i * 64 + 64 - __builtin_clzll(w[i]); return 0; }
	std::string str(uint8_t base = 10, unsigned int len = 0) const {
		if(base < 2 || base > 36) throw std::invalid_argument("Base must be in the range [2, 36]");
		std::string out; uint256_t x = *this;
		if(x.is0()) out = "0";
		while(!x.is0()) { unsigned r = x.div_small(base); out += "0123456789abcdefghijklmnopqrstuvwxyz"[r]; }
		while(out.size() < len) out += '0';
		std::reverse(out.begin(), out.end());
		return out;
	}
	bool is0() const { return !(w[0] | w[1] | w[2] | w[3]); }
	unsigned div_small(unsigned d) {
		unsigned __int128 r = 0;
		for(int i = 3; i >= 0; --i) { r = (r << 64) | w[i]; w[i] = uint64_t(r / d); r %= d; }
		return unsigned(r);
	}
	operator bool() const { return !is0(); }
	operator uint8_t() const { return uint8_t(w[0]); }
	operator uint16_t() const { return uint16_t(w[0]); }
	operator uint32_t() const { return uint32_t(w[0]); }
	operator uint64_t() const { return w[0]; }
	operator uint128_t() const { return lower(); }

	static int cmp(const uint256_t& a, const uint256_t& b) {
		for(int i = 3; i >= 0; --i) if(a.w[i] != b.w[i]) return a.w[i] < b.w[i] ? -1 : 1;
		return 0;
	}
	static uint256_t add(const uint256_t& a, const uint256_t& b) {
		uint256_t r; unsigned __int128 c = 0;
		for(int i = 0; i < 4; ++i) { c += (unsigned __int128)a.w[i] + b.w[i]; r.w[i] = uint64_t(c); c >>= 64; }
		return r;
	}
	static uint256_t sub(const uint256_t& a, const uint256_t& b) {
		uint256_t r; uint64_t bo = 0;
		for(int i = 0; i < 4; ++i) {
			unsigned __int128 d = (unsigned __int128)a.w[i] - b.w[i] - bo;
			r.w[i] = uint64_t(d); bo = (d >> 64) ? 1 : 0;
		}
		return r;
	}
	static uint256_t mul(const uint256_t& a, const uint256_t& b) {
		uint256_t r;
		for(int i = 0; i < 4; ++i) {
			unsigned __int128 c = 0;
			for(int j = 0; i + j < 4; ++j) {
				c += (unsigned __int128)a.w[i] * b.w[j] + r.w[i + j];
				r.w[i + j] = uint64_t(c); c >>= 64;
			}
		}
		return r;
	}
	static void divmod(const uint256_t& a, const uint256_t& b, uint256_t& q, uint256_t& r) {
		if(b.is0()) throw std::domain_error("Error: division or modulus by 0");
		q = uint256_t(); r = uint256_t();
		if(cmp(a, b) < 0) { r = a; return; }
		if(!(a.w[1] | a.w[2] | a.w[3])) { q.w[0] = a.w[0] / b.w[0]; r.w[0] = a.w[0] % b.w[0]; return; }
		if(!(b.w[1] | b.w[2] | b.w[3])) {
			unsigned __int128 rem = 0;
			for(int i = 3; i >= 0; --i) { rem = (rem << 64) | a.w[i]; q.w[i] = uint64_t(rem / b.w[0]); rem %= b.w[0]; }
			r.w[0] = uint64_t(rem); return;
		}
		const int n = a.bits();
		for(int i = n - 1; i >= 0; --i) {
			r = shl(r, 1); r.w[0] |= (a.w[i / 64] >> (i % 64)) & 1;
			if(cmp(r, b) >= 0) { r = sub(r, b); q.w[i / 64] |= uint64_t(1) << (i % 64); }
		}
	}
	static uint256_t div(const uint256_t& a, const uint256_t& b) { uint256_t q, r; divmod(a, b, q, r); return q; }
	static uint256_t mod(const uint256_t& a, const uint256_t& b) { uint256_t q, r; divmod(a, b, q, r); return r; }
	static uint256_t shl(const uint256_t& a, uint64_t s) {
		uint256_t r; if(s >= 256) return r;
		const int k = s / 64, m = s % 64;
		for(int i = 3; i >= k; --i) { r.w[i] = a.w[i - k] << m; if(m && i - k - 1 >= 0) r.w[i] |= a.w[i - k - 1] >> (64 - m); }
		return r;
	}
	static uint256_t shr(const uint256_t& a, uint64_t s) {
		uint256_t r; if(s >= 256) return r;
		const int k = s / 64, m = s % 64;
		for(int i = 0; i + k < 4; ++i) { r.w[i] = a.w[i + k] >> m; if(m && i + k + 1 < 4) r.w[i] |= a.w[i + k + 1] << (64 - m); }
		return r;
	}
	static uint256_t band(const uint256_t& a, const uint256_t& b) { uint256_t r; for(int i = 0; i < 4; ++i) r.w[i] = a.w[i] & b.w[i]; return r; }
	static uint256_t bor(const uint256_t& a, const uint256_t& b) { uint256_t r; for(int i = 0; i < 4; ++i) r.w[i] = a.w[i] | b.w[i]; return r; }
	static uint256_t bxor(const uint256_t& a, const uint256_t& b) { uint256_t r; for(int i = 0; i < 4; ++i) r.w[i] = a.w[i] ^ b.w[i]; return r; }

#define SV_I template<typename T, typename = typename std::enable_if<std::is_integral<T>::value || std::is_base_of<uint128_t, T>::value>::type>
#define SV_OP(op, f) \
	friend uint256_t operator op(const uint256_t& a, const uint256_t& b) { return f(a, b); } \
	uint256_t& operator op##=(const uint256_t& b) { *this = f(*this, b); return *this; } \
	SV_I friend uint256_t operator op(const uint256_t& a, const T& b) { return f(a, uint256_t(b)); } \
	SV_I friend uint256_t operator op(const T& a, const uint256_t& b) { return f(uint256_t(a), b); }
	SV_OP(+, add) SV_OP(-, sub) SV_OP(*, mul) SV_OP(/, div) SV_OP(%, mod) SV_OP(&, band) SV_OP(|, bor) SV_OP(^, bxor)
#undef SV_OP
#define SV_CMP(op) \
	friend bool operator op(const uint256_t& a, const uint256_t& b) { return cmp(a, b) op 0; } \
	SV_I friend bool operator op(const uint256_t& a, const T& b) { return cmp(a, uint256_t(b)) op 0; } \
	SV_I friend bool operator op(const T& a, const uint256_t& b) { return cmp(uint256_t(a), b) op 0; }
	SV_CMP(==) SV_CMP(!=) SV_CMP(<) SV_CMP(>) SV_CMP(<=) SV_CMP(>=)
#undef SV_CMP
	static uint64_t sh(const uint256_t& s) { return (s.w[1] | s.w[2] | s.w[3] || s.w[0] > 256) ? 256 : s.w[0]; }
	friend uint256_t operator<<(const uint256_t& a, const uint256_t& s) { return shl(a, sh(s)); }
	friend uint256_t operator>>(const uint256_t& a, const uint256_t& s) { return shr(a, sh(s)); }
	SV_I friend uint256_t operator<<(const uint256_t& a, const T& s) { return shl(a, sh(uint256_t(s))); }
	SV_I friend uint256_t operator>>(const uint256_t& a, const T& s) { return shr(a, sh(uint256_t(s))); }
	SV_I uint256_t& operator<<=(const T& s) { *this = shl(*this, sh(uint256_t(s))); return *this; }
	SV_I uint256_t& operator>>=(const T& s) { *this = shr(*this, sh(uint256_t(s))); return *this; }
#undef SV_I
	uint256_t operator~() const { uint256_t r; for(int i = 0; i < 4; ++i) r.w[i] = ~w[i]; return r; }
	bool operator!() const { return is0(); }
	uint256_t operator-() const { return sub(uint256_t(), *this); }
	uint256_t operator+() const { return *this; }
	uint256_t& operator++() { *this = add(*this, uint256_t(1)); return *this; }
	uint256_t& operator--() { *this = sub(*this, uint256_t(1)); return *this; }
	uint256_t operator++(int) { auto t = *this; ++*this; simvnx::spin_hint(); return t; }
	uint256_t operator--(int) { auto t = *this; --*this; return t; }
};

static const uint256_t uint256_0 = uint256_t(0);
static const uint256_t uint256_1 = uint256_t(1);
static const uint256_t uint256_max = ~uint256_t(0);

inline std::ostream& operator<<(std::ostream& o, const uint256_t& x) {
	return o << x.str(o.flags() & o.hex ? 16 : (o.flags() & o.oct ? 8 : 10));
}
#endif
