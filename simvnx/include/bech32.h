#ifndef SIMVNX_BECH32_H
#define SIMVNX_BECH32_H
// BIP-350 bech32m codec (replacement for the absent lib/libbech32 submodule)
#include <cstdint>
#include <stdexcept>
#include <string>
#include <vector>
namespace bech32 {
enum Encoding { Invalid, Bech32, Bech32m };
struct HrpAndDp { Encoding encoding = Invalid; std::string hrp; std::vector<unsigned char> dp; };
namespace detail {
inline const char* charset() { return "qpzry9x8gf2tvdw0s3jn54khce6mua7l"; }
inline uint32_t polymod(const std::vector<unsigned char>& v) {
	static const uint32_t g[5] = {0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3};
	uint32_t c = 1;
	for(auto x : v) { const uint32_t t = c >> 25; c = ((c & 0x1ffffff) << 5) ^ x; for(int i = 0; i < 5; ++i) if((t >> i) & 1) c ^= g[i]; }
	return c;
}
inline std::vector<unsigned char> expand(const std::string& hrp) {
	std::vector<unsigned char> v;
	for(unsigned char c : hrp) v.push_back(c >> 5);
	v.push_back(0);
	for(unsigned char c : hrp) v.push_back(c & 31);
	return v;
}
}
inline std::string encode(const std::string& hrp, const std::vector<unsigned char>& dp) {
	auto v = detail::expand(hrp);
	v.insert(v.end(), dp.begin(), dp.end());
	v.insert(v.end(), 6, 0);
	const auto mod = detail::polymod(v) ^ 0x2bc830a3;
	std::string out = hrp + "1";
	for(auto x : dp) out += detail::charset()[x & 31];
	for(int i = 0; i < 6; ++i) out += detail::charset()[(mod >> (5 * (5 - i))) & 31];
	return out;
}
inline HrpAndDp decode(const std::string& s) {
	HrpAndDp out;
	bool lo = false, up = false;
	for(char c : s) { if(c >= 'a' && c <= 'z') lo = true; if(c >= 'A' && c <= 'Z') up = true; if(c < 33 || c > 126) throw std::runtime_error("bech32: bad character"); }
	if(lo && up) throw std::runtime_error("bech32: mixed case");
	if(s.size() > 90) throw std::runtime_error("bech32: too long");
	std::string t = s;
	for(auto& c : t) if(c >= 'A' && c <= 'Z') c += 32;
	const auto p = t.rfind('1');
	if(p == std::string::npos || p == 0 || p + 7 > t.size()) throw std::runtime_error("bech32: bad separator");
	out.hrp = t.substr(0, p);
	const std::string cs = detail::charset();
	for(size_t i = p + 1; i < t.size(); ++i) { const auto k = cs.find(t[i]); if(k == std::string::npos) throw std::runtime_error("bech32: bad character"); out.dp.push_back(k); }
	auto v = detail::expand(out.hrp);
	v.insert(v.end(), out.dp.begin(), out.dp.end());
	const auto m = detail::polymod(v);
	out.encoding = m == 1 ? Bech32 : m == 0x2bc830a3 ? Bech32m : Invalid;
	if(out.encoding == Invalid) { out.hrp.clear(); out.dp.clear(); return out; }
	out.dp.resize(out.dp.size() - 6);
	return out;
}
}
#endif
