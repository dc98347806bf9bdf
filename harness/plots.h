// Small real plots: full tables of mmx::pos for a low k, computed once per process with the repository's own code.
#ifndef HARNESS_PLOTS_H
#define HARNESS_PLOTS_H
#include <mmx/pos/verify.h>
#include <mmx/pos/config.h>
#include <mmx/utils.h>
#include <mmx/skey_t.hpp>
#include <mmx/pubkey_t.hpp>
#include <mmx/secp256k1.hpp>
#include <mmx/ChainParams.hxx>
#include <mmx/ProofOfSpaceOG.hxx>
#include <mmx/ProofOfSpaceNFT.hxx>
#include <simvnx/sim.h>
#include <unordered_map>
#include <cstring>
#include <sys/resource.h>

// The two memory-hard hash steps of proof verification are pure functions; memoising them (keyed on their complete input)
// makes verification ~20 times cheaper. They still execute the repository's code for every new input.
#define GEN_SYM _ZN3mmx3pos13gen_mem_arrayEPjPKhj
#define CALC_SYM _ZN3mmx3pos13calc_mem_hashEPjPhi
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
extern "C" {
void CAT(__real_, GEN_SYM)(uint32_t* mem, const uint8_t* key, uint32_t n);
void CAT(__real_, CALC_SYM)(uint32_t* mem, uint8_t* hash, int iters);
}
namespace plots {
struct memo_t { uint32_t n; std::vector<uint32_t> mem; };
inline std::unordered_map<uint64_t, memo_t> gen_memo;
inline std::unordered_map<uint64_t, std::array<uint8_t, 128>> calc_memo;
inline bool memo_fill = false;
inline uint64_t mix(const void* p, size_t n, uint64_t h) {
	const uint64_t* w = (const uint64_t*)p;
	uint64_t a = h ^ 0x9e3779b97f4a7c15ull, b = ~h;
	for(size_t i = 0; i < n / 8; i += 2) {
		a = (a ^ w[i]) * 0xff51afd7ed558ccdull; a ^= a >> 32;
		b = (b ^ (i + 1 < n / 8 ? w[i + 1] : 0)) * 0xc4ceb9fe1a85ec53ull; b ^= b >> 29;
	}
	return (a * 0x9fb21c651e98df25ull) ^ b ^ (b << 17);
}
}
extern "C" inline __attribute__((used)) void CAT(__wrap_, GEN_SYM)(uint32_t* mem, const uint8_t* key, uint32_t n) {
	const uint64_t h = plots::mix(key, 64, n);
	auto it = plots::gen_memo.find(h);
	if(it != plots::gen_memo.end() && it->second.n == n) { memcpy(mem, it->second.mem.data(), n * 4); return; }
	CAT(__real_, GEN_SYM)(mem, key, n);
	if(plots::memo_fill) plots::gen_memo[h] = plots::memo_t{n, std::vector<uint32_t>(mem, mem + n)};
}
extern "C" inline __attribute__((used)) void CAT(__wrap_, CALC_SYM)(uint32_t* mem, uint8_t* hash, int iters) {
	const uint64_t h = plots::mix(mem, 4096, iters);
	auto it = plots::calc_memo.find(h);
	if(it != plots::calc_memo.end()) { memcpy(hash, it->second.data(), 128); return; }
	CAT(__real_, CALC_SYM)(mem, hash, iters);
	if(plots::memo_fill) { std::array<uint8_t, 128> r; memcpy(r.data(), hash, 128); plots::calc_memo[h] = r; }
}

// verification of one proof, a pure function: results (and refusals) are remembered per complete input
mmx::hash_t real_pos_verify(const std::vector<uint32_t>&, const mmx::hash_t&, const mmx::hash_t&, int, int, int, bool)
	__asm__("__real__ZN3mmx3pos6verifyERKSt6vectorIjSaIjEERKNS_6hash_tES8_iiib");
mmx::hash_t wrap_pos_verify(const std::vector<uint32_t>&, const mmx::hash_t&, const mmx::hash_t&, int, int, int, bool)
	__asm__("__wrap__ZN3mmx3pos6verifyERKSt6vectorIjSaIjEERKNS_6hash_tES8_iiib");
__attribute__((used)) mmx::hash_t wrap_pos_verify(const std::vector<uint32_t>& X, const mmx::hash_t& c, const mmx::hash_t& id, int f, int g, int k, bool h) {
	struct res_t { bool ok; mmx::hash_t hash; std::string error; };
	static std::map<std::pair<uint64_t, uint64_t>, res_t> memo;
	const int v[4] = {f, g, k, h};
	uint64_t a = sim::hash64(X.data(), X.size() * 4), b = sim::hash64(c.data(), 32);
	b = sim::hash64(id.data(), 32, b); b = sim::hash64(v, sizeof(v), b);
	auto it = memo.find({a, b});
	if(it == memo.end()) {
		res_t r;
		try { r.hash = real_pos_verify(X, c, id, f, g, k, h); r.ok = true; } catch(const std::exception& ex) { r.ok = false; r.error = ex.what(); }
		it = memo.emplace(std::make_pair(a, b), r).first;
	}
	if(!it->second.ok) throw std::logic_error(it->second.error);
	return it->second.hash;
}
namespace plots {
struct Plot {
	int ksize = 0;
	mmx::hash_t seed, id;
	mmx::skey_t skey;
	mmx::pubkey_t key;
	bool is_nft = false;
	mmx::addr_t contract;
	std::map<uint32_t, std::vector<std::vector<uint32_t>>> proofs;	// [Y => X values]
	size_t count = 0;
};
inline std::vector<Plot> all;

inline mmx::skey_t farmer_skey(int i) { return mmx::skey_t(mmx::hash_t("sim farmer " + std::to_string(i))); }

// seeds chosen such that the tables neither die out nor explode (data independent of anything the checks look at)
inline void generate(int ksize, const std::vector<std::pair<int, int>>& farmer_seed, const mmx::addr_t* nft = nullptr) {
	memo_fill = true;
	for(const auto& fs : farmer_seed) {
		Plot p;
		p.ksize = ksize;
		p.skey = farmer_skey(fs.first);
		p.key = mmx::pubkey_t(p.skey);
		p.seed = mmx::hash_t("sim plot " + std::to_string(fs.second));
		const uint8_t ks = ksize;
		if(nft) {
			p.is_nft = true; p.contract = *nft;
			p.id = mmx::hash_t(std::string("MMX/PLOTID/NFT") + mmx::bytes_t<1>(&ks, 1) + p.seed + p.key + *nft);
		} else {
			p.id = mmx::hash_t(std::string("MMX/PLOTID/OG") + mmx::bytes_t<1>(&ks, 1) + p.seed + p.key);
		}
		std::vector<uint32_t> X, xs;
		for(uint32_t i = 0; i < (1u << ksize); ++i) X.push_back(i);
		try {
			const auto res = mmx::pos::compute(X, &xs, p.id, ksize, 0);
			for(size_t i = 0; i < res.size() && (i + 1) * 256 <= xs.size(); ++i) {
				p.proofs[res[i].first].emplace_back(xs.begin() + i * 256, xs.begin() + (i + 1) * 256);
			}
			p.count = res.size();
		} catch(const std::exception& ex) { fprintf(stderr, "plot %d/%d: %s\n", fs.first, fs.second, ex.what()); }
		all.push_back(std::move(p));
	}
	memo_fill = false;
}

// all proofs of one plot for a challenge (what a harvester finds)
inline std::vector<std::shared_ptr<mmx::ProofOfSpaceOG>> lookup(const Plot& p, std::shared_ptr<const mmx::ChainParams> params,
		const mmx::hash_t& challenge, uint64_t diff, bool hard_fork, bool check_threshold = true) {
	std::vector<std::shared_ptr<mmx::ProofOfSpaceOG>> out;
	if(!mmx::check_plot_filter(params, challenge, p.id)) return out;
	const auto pc = mmx::get_plot_challenge(challenge, p.id);
	const uint32_t kmask = (uint64_t(1) << p.ksize) - 1;
	const uint32_t Y0 = mmx::bytes_t<4>(pc.data(), 4).to_uint<uint32_t>() & kmask;
	for(auto it = p.proofs.lower_bound(Y0); it != p.proofs.end() && it->first < uint64_t(Y0) + (1 << params->plot_filter); ++it) {
		for(const auto& xs : it->second) {
			try {
				const auto q = mmx::pos::verify(xs, pc, p.id, params->plot_filter, params->post_filter, p.ksize, hard_fork);
				if(check_threshold && !mmx::check_proof_threshold(params, p.ksize, q, diff, hard_fork)) continue;
			} catch(const std::exception&) { continue; }
			auto proof = mmx::ProofOfSpaceOG::create();
			proof->ksize = p.ksize; proof->seed = p.seed; proof->plot_id = p.id; proof->proof_xs = xs;
			proof->challenge = challenge; proof->difficulty = diff; proof->farmer_key = p.key;
			proof->score = mmx::get_proof_score(proof->calc_proof_hash());
			out.push_back(proof);
		}
	}
	return out;
}
}
#endif
