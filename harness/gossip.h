// Several real Routers over the simulated network. The node behind each one is a stub that verifies what is genuine after some time,
// originates messages and serves blocks. Raw peers speak the wire protocol directly: they watch, send forgeries and duplicates, and lie.
#ifndef HARNESS_GOSSIP_H
#define HARNESS_GOSSIP_H
#include "world.h"
#include <mmx/Router.h>
#include <mmx/RouterAsyncClient.hxx>
#include <mmx/Request.hxx>
#include <mmx/Return.hxx>
#include <mmx/ReceiveNote.hxx>
#include <mmx/VDF_Point.hxx>
#include <mmx/Transaction.hxx>
#include <mmx/solution/PubKey.hxx>
#include <mmx/ProofOfSpaceOG.hxx>
#include <mmx/Router_get_id.hxx>
#include <mmx/Router_get_info.hxx>
#include <mmx/Router_sign_msg.hxx>
#include <mmx/Router_get_peers.hxx>
#include <mmx/Router_get_id_return.hxx>
#include <mmx/Router_get_info_return.hxx>
#include <mmx/Router_sign_msg_return.hxx>
#include <mmx/Router_get_peers_return.hxx>
#include <mmx/Node_get_height.hxx>
#include <mmx/Node_get_height_return.hxx>
#include <mmx/Node_get_synced_height.hxx>
#include <mmx/Node_get_synced_height_return.hxx>
#include <mmx/Node_get_block.hxx>
#include <mmx/Node_get_block_return.hxx>
#include <mmx/Node_get_block_at.hxx>
#include <mmx/Node_get_block_at_return.hxx>
#include <mmx/Node_get_block_hash.hxx>
#include <mmx/Node_get_block_hash_return.hxx>
#include <mmx/Node_get_block_hash_ex.hxx>
#include <mmx/Node_get_block_hash_ex_return.hxx>
#include <mmx/Node_get_header.hxx>
#include <mmx/Node_get_header_return.hxx>
#include <mmx/Node_get_header_at.hxx>
#include <mmx/Node_get_header_at_return.hxx>
#include <mmx/Node_get_tx_ids_at.hxx>
#include <mmx/Node_get_tx_ids_at_return.hxx>
#include <mmx/Node_start_sync.hxx>
#include <mmx/Node_start_sync_return.hxx>

namespace vnx { extern std::function<void(uint64_t)> sim_on_unknown_return; }
namespace gs {
using namespace mmx;
using world::W; using world::pick; using world::params;
inline std::string S(const hash_t& h) { return h.to_string().substr(0, 12); }
inline uint32_t R(uint32_t n) { return sim::draw(sim::S_MISC, n); }
inline bool flip(double p) { return sim::flip(sim::S_MISC, p); }

// ------------------------------------------------------------------ messages
struct Raw;
struct Obj {
	std::shared_ptr<const vnx::Value> v;
	hash_t hash;
	int kind = 0;					// 0 tx, 1 vote, 2 proof, 3 vdf, 4 block, 5 vdf point
	bool good = true;				// the nodes will find it valid
	int origin = -1;				// machine, -1 = raw peer
	const void* sole = nullptr;		// only this connection ever sent it to anybody
};
static const char* kinds[] = {"transaction", "vote", "proof", "proof of time", "block", "vdf point"};
struct Box;
struct Global {
	std::map<hash_t, Obj> made;
	std::vector<std::shared_ptr<const Block>> chain;						// by height
	std::map<hash_t, std::shared_ptr<const Block>> blocks;					// by hash, all that any node has
	std::vector<Box*> boxes;
	uint64_t salt = 0;
	std::vector<std::shared_ptr<const Block>> fork;							// another valid chain, known to some peers only
	uint32_t tip = 0, vdf_height = 0;
	bool quiet = false; int64_t quiet_since = 0;
	int64_t links_changed = 0;
	uint32_t error_rate = 0, slow = 0, silent = 0;
	uint64_t verify_ms = 0;
	double pending_limit = 0;
};
inline Global* G;
inline hash_t rnd(const char* s = "x") { return hash_t(std::string(s) + std::to_string(++G->salt)); }

inline std::shared_ptr<Transaction> make_tx() {
	auto t = Transaction::create();
	t->note = tx_note_e();
	const int from = W(world::NUM_USERS);
	txin_t i; i.address = world::users[from].addr; i.amount = 1000; i.solution = 0; t->inputs.push_back(i);
	txout_t o; o.address = world::users[W(world::NUM_USERS)].addr; o.amount = 1000; t->outputs.push_back(o);
	t->network = params->network; t->version = 0; t->nonce = ++G->salt; t->expires = -1;
	t->sender = world::users[from].addr; t->fee_ratio = 1024; t->max_fee_amount = 2000000;
	t->id = t->calc_hash();
	auto q = solution::PubKey::create(); q->pubkey = world::users[from].pk; q->signature = signature_t::sign(world::users[from].sk, t->id); t->solutions.push_back(q);
	t->static_cost = t->calc_cost(params); t->content_hash = t->calc_hash(true);
	return t;
}
inline std::shared_ptr<ValidatorVote> make_vote() {
	auto v = ValidatorVote::create();
	auto& f = world::farmers[W(world::NUM_FARMERS)];
	v->hash = rnd("voted"); v->farmer_key = f.pk; v->farmer_sig = signature_t::sign(f.sk, hash_t("MMX/validator/vote/" + v->hash + v->farmer_key));
	v->content_hash = v->calc_content_hash();
	return v;
}
inline std::shared_ptr<ProofOfSpaceOG> make_pos(int f) {
	auto p = ProofOfSpaceOG::create();
	p->ksize = 10; p->seed = rnd("seed"); p->farmer_key = world::farmers[f].pk; p->challenge = rnd("challenge"); p->difficulty = 1; p->score = W(1000);
	p->proof_xs = {uint32_t(W(1000)), uint32_t(W(1000))};
	return p;
}
inline std::shared_ptr<ProofResponse> make_proof(uint32_t h) {
	auto v = ProofResponse::create();
	const int f = W(4);
	v->vdf_height = h; v->proof = make_pos(f); v->harvester = "local name"; v->farmer_addr = vnx::Hash64(7, 9);
	v->hash = v->calc_hash(); v->farmer_sig = signature_t::sign(world::farmers[f].sk, v->hash); v->content_hash = v->calc_content_hash();
	return v;
}
inline std::shared_ptr<ProofOfTime> make_vdf(uint32_t h, int t) {
	auto p = ProofOfTime::create();
	p->vdf_height = h; p->start = h * 100; p->num_iters = 100; p->segment_size = 1; p->input = rnd("in"); p->prev = rnd("prev");
	p->reward_addr = world::timelords[t].addr; p->timelord_key = world::timelords[t].pk;
	const int n = 1 + W(40);
	for(int i = 0; i < n; ++i) p->segments.push_back(rnd("seg"));
	p->hash = p->calc_hash(); p->timelord_sig = signature_t::sign(world::timelords[t].sk, p->hash); p->content_hash = p->calc_content_hash();
	return p;
}
inline void sign(std::shared_ptr<Block> b, int f) {
	b->finalize(params); b->hash = b->calc_hash(params);
	b->farmer_sig = signature_t::sign(world::farmers[f].sk, b->hash); b->content_hash = b->calc_content_hash();
}
inline std::shared_ptr<Block> make_block(uint32_t h, uint32_t vdf_h, int f, const hash_t& prev) {
	auto b = Block::create();
	b->height = h; b->vdf_height = vdf_h; b->prev = prev; b->nonce = ++G->salt; b->vdf_count = 1; b->vdf_reward_addr = {world::timelords[0].addr};
	b->proof = {make_pos(f)}; b->time_stamp = int64_t(h) * 8000; b->proof_hash = b->proof[0]->calc_proof_hash();
	const int n = W(3);
	for(int i = 0; i < n; ++i) { auto t = make_tx(); exec_result_t r; r.total_cost = t->static_cost; r.total_fee = 1; t->exec_result = r; t->content_hash = t->calc_hash(true); b->tx_list.push_back(t); }
	sign(b, f);
	return b;
}
inline hash_t hash_of(std::shared_ptr<const vnx::Value> v, int* kind = nullptr) {
	int k = -1; hash_t h;
	if(auto x = std::dynamic_pointer_cast<const Transaction>(v)) { k = 0; h = x->content_hash; }
	else if(auto x = std::dynamic_pointer_cast<const ValidatorVote>(v)) { k = 1; h = x->content_hash; }
	else if(auto x = std::dynamic_pointer_cast<const ProofResponse>(v)) { k = 2; h = x->content_hash; }
	else if(auto x = std::dynamic_pointer_cast<const ProofOfTime>(v)) { k = 3; h = x->content_hash; }
	else if(auto x = std::dynamic_pointer_cast<const Block>(v)) { k = 4; h = x->content_hash; }
	else if(auto x = std::dynamic_pointer_cast<const VDF_Point>(v)) { k = 5; h = x->content_hash; }
	if(kind) *kind = k;
	return h;
}
// recomputed here, independent of what the router checked
inline bool consistent(std::shared_ptr<const vnx::Value> v) {
	if(auto x = std::dynamic_pointer_cast<const Transaction>(v)) return x->id == x->calc_hash() && x->content_hash == x->calc_hash(true) && !x->exec_result;
	if(auto x = std::dynamic_pointer_cast<const ValidatorVote>(v)) return x->content_hash == x->calc_content_hash() && x->farmer_sig.verify(x->farmer_key, hash_t("MMX/validator/vote/" + x->hash + x->farmer_key));
	if(auto x = std::dynamic_pointer_cast<const ProofResponse>(v)) return x->proof && x->hash == x->calc_hash() && x->content_hash == x->calc_content_hash();
	if(auto x = std::dynamic_pointer_cast<const ProofOfTime>(v)) return x->hash == x->calc_hash() && x->content_hash == x->calc_content_hash() && x->timelord_sig.verify(x->timelord_key, x->hash);
	if(auto x = std::dynamic_pointer_cast<const Block>(v)) return x->hash == x->calc_hash(params) && x->content_hash == x->calc_content_hash() && x->tx_hash == x->calc_tx_hash() && x->farmer_sig && x->proof.size() && x->farmer_sig->verify(x->proof[0]->farmer_key, x->hash);
	if(auto x = std::dynamic_pointer_cast<const VDF_Point>(v)) return x->content_hash == x->calc_hash();
	return false;
}
inline Obj& make(int kind, int origin) {
	Obj o; o.kind = kind; o.origin = origin;
	const uint32_t vh = G->vdf_height + 1;
	switch(kind) {
		case 0: o.v = make_tx(); break;
		case 1: o.v = make_vote(); break;
		case 2: o.v = make_proof(vh); break;
		case 3: o.v = make_vdf(vh, W(3)); break;
		case 4: o.v = make_block(G->tip + 1, vh, W(4), rnd("parent")); break;
		default: { auto p = VDF_Point::create(); p->vdf_height = vh; p->start = vh * 100; p->num_iters = 100; p->input = rnd("in"); p->output = rnd("out"); p->prev = rnd("prev"); p->reward_addr = world::timelords[0].addr; p->content_hash = p->calc_hash(); o.v = p; }
	}
	o.hash = hash_of(o.v);
	return G->made[o.hash] = o;
}

// ------------------------------------------------------------------ one machine
struct StubNode;
struct Call { int kind = 0; uint32_t height = 0; hash_t hash; std::string from; bool done = false, got = false; int64_t start = 0; std::set<const void*> liars; };
struct Boot {									// what happened since the router started
	std::map<hash_t, int> published;			// handed to the node
	std::set<hash_t> verified;					// handed out by the node
	std::map<pubkey_t, uint32_t> vdf_credit, vdf_used;
	std::map<std::pair<uint32_t, pubkey_t>, uint32_t> farm_credit, farm_used;
	std::set<hash_t> unverified_seen;
	uint32_t resync = 0;
};
struct Box {
	int index = 0; sim::Machine* m = nullptr; std::string ip;
	std::set<std::string> fixed, masters;
	uint32_t height = 0;						// of its chain
	bool synced = true, up = false;
	std::shared_ptr<Boot> b;
	StubNode* node = nullptr; Router* router = nullptr;
	std::vector<std::shared_ptr<Call>> calls;
	int min_sync_peers = 1, num_out = 8, write_queue = 0, max_conn = -1;
	void boot();
	std::shared_ptr<const Block> at(uint32_t h) const { return h <= height && h < G->chain.size() ? G->chain[h] : nullptr; }
};
struct StubNode : vnx::Module {
	Box& box; std::shared_ptr<Boot> b;
	std::shared_ptr<RouterAsyncClient> router;
	StubNode(Box& x) : vnx::Module("Node"), box(x), b(x.b) {}
	void init() override {
		for(auto t : {"network.vdfs", "network.votes", "network.proof", "network.blocks", "network.transactions", "network.vdf_points"}) subscribe(std::string(t), 1000000000);
		vnx::open_pipe(vnx_name, this, 1000000000);
		router = std::make_shared<RouterAsyncClient>("Router");
		add_async_client(router);
	}
	std::string where() const { return "router " + std::to_string(box.index); }
	void verified(const Obj& o, bool own) {
		b->verified.insert(o.hash);
		sim::trace_quiet("%s %s %s %s", where().c_str(), own ? "originates" : "verified", kinds[o.kind], S(o.hash).c_str());
		if(auto x = std::dynamic_pointer_cast<const ProofOfTime>(o.v)) b->vdf_credit[x->timelord_key]++;
		if(auto x = std::dynamic_pointer_cast<const ProofResponse>(o.v)) b->farm_credit[{x->vdf_height, x->proof->farmer_key}]++;
		switch(o.kind) {
			case 0: publish(o.v, std::string(own ? "node.transactions" : "node.verified_transactions")); break;
			case 1: publish(o.v, std::string("node.verified_votes")); break;
			case 2: {
				auto c = vnx::clone(std::dynamic_pointer_cast<const ProofResponse>(o.v));
				if(own) c->farmer_addr = vnx_get_id(); else { c->farmer_addr = vnx::Hash64(); c->harvester.clear(); }
				publish(std::shared_ptr<const vnx::Value>(c), std::string("node.verified_proof")); break;
			}
			case 3: if(own) publish(o.v, std::string("timelord.proof")); publish(o.v, std::string("node.verified_vdfs")); break;
			case 4: publish(o.v, std::string("node.verified_blocks")); break;
			case 5: publish(o.v, std::string("node.vdf_points")); break;
		}
	}
	void handle(std::shared_ptr<const vnx::Value> v) override {
		int kind; const auto h = hash_of(v, &kind);
		static const char* topics[] = {"network.transactions", "network.votes", "network.proof", "network.vdfs", "network.blocks", "network.vdf_points"};
		if(kind < 0 || vnx_sample->topic.get_name() != topics[kind]) sim::violation("message on the wrong topic", where() + " " + vnx_sample->topic.get_name() + " carries " + v->get_type_name());
		const std::string what = where() + ": " + kinds[kind] + " " + S(h);
		sim::trace("%s", what.c_str());
		sim::count("messages_delivered"); sim::count("nontrivial");
		sim::state(sim::hash64(h.data(), 32));
		if(!consistent(v)) sim::violation("inconsistent message handed to the node", what);
		auto it = G->made.find(h);
		if(it == G->made.end()) sim::violation("message that nobody sent handed to the node", what);
		if(b->published[h]++) sim::violation("message handed to the node more than once", what);
		if(b->verified.count(h)) sim::violation("message handed back to the node that sent it", what);
		const Obj& o = it->second;
		if(kind == 5 && (o.origin < 0 || !box.masters.count(G->boxes[o.origin]->ip))) sim::violation("vdf point accepted from a peer that is not a master node", what);
		if(kind == 2) { auto p = std::dynamic_pointer_cast<const ProofResponse>(v); if(o.origin >= 0 && (p->harvester.size() || !(p->farmer_addr == vnx::Hash64()))) sim::violation("local information leaked to the network", what + " carries harvester '" + p->harvester + "'"); }
		if(!o.good || kind == 5) return;
		if(G->verify_ms && !G->quiet) set_timeout_millis(1 + R(G->verify_ms), [this, o]() { if(b->verified.insert(o.hash).second) verified(o, false); });
		else verified(o, false);
	}
	std::shared_ptr<vnx::Value> answer(std::shared_ptr<const vnx::Value> method) {
		if(!G->quiet && R(100) < G->error_rate) { sim::count("node_request_failed"); auto e = vnx::InternalError::create(); e->what = "disk error"; return e; }
		if(auto q = std::dynamic_pointer_cast<const Node_get_height>(method)) { auto r = Node_get_height_return::create(); r->_ret_0 = box.height; return r; }
		if(auto q = std::dynamic_pointer_cast<const Node_get_synced_height>(method)) { auto r = Node_get_synced_height_return::create(); if(box.synced) r->_ret_0 = box.height; return r; }
		if(auto q = std::dynamic_pointer_cast<const Node_get_block>(method)) {
			auto r = Node_get_block_return::create();
			auto it = G->blocks.find(q->hash); if(it != G->blocks.end() && box.at(it->second->height) == it->second) r->_ret_0 = it->second;
			return r;
		}
		if(auto q = std::dynamic_pointer_cast<const Node_get_block_at>(method)) { auto r = Node_get_block_at_return::create(); r->_ret_0 = box.at(q->height); return r; }
		if(auto q = std::dynamic_pointer_cast<const Node_get_block_hash>(method)) { auto r = Node_get_block_hash_return::create(); if(auto x = box.at(q->height)) r->_ret_0 = x->hash; return r; }
		if(auto q = std::dynamic_pointer_cast<const Node_get_block_hash_ex>(method)) { auto r = Node_get_block_hash_ex_return::create(); if(auto x = box.at(q->height)) r->_ret_0 = std::make_pair(x->hash, x->content_hash); return r; }
		if(auto q = std::dynamic_pointer_cast<const Node_get_header>(method)) { auto r = Node_get_header_return::create(); auto it = G->blocks.find(q->hash); if(it != G->blocks.end()) r->_ret_0 = it->second->get_header(); return r; }
		if(auto q = std::dynamic_pointer_cast<const Node_get_header_at>(method)) { auto r = Node_get_header_at_return::create(); if(auto x = box.at(q->height)) r->_ret_0 = x->get_header(); return r; }
		if(auto q = std::dynamic_pointer_cast<const Node_get_tx_ids_at>(method)) { auto r = Node_get_tx_ids_at_return::create(); return r; }
		if(auto q = std::dynamic_pointer_cast<const Node_start_sync>(method)) { b->resync++; return Node_start_sync_return::create(); }
		throw std::logic_error("stub node: " + method->get_type_name());
	}
	std::shared_ptr<vnx::Value> vnx_call_switch(std::shared_ptr<const vnx::Value> method, const vnx::request_id_t& id) override {
		if(!G->quiet && R(100) < G->slow) {
			sim::count("node_slow");
			set_timeout_millis(1 + R(R(5) ? 3000 : 20000), [this, method, id]() { vnx_async_return(id, answer(method)); });
			return nullptr;
		}
		return answer(method);
	}
	// ---------------------------------------------------------------- requests of this node to the network
	void check_block(const Call& c, std::shared_ptr<const Block> x, const std::string& what) {
		if(!x->is_valid(params) || !consistent(x)) sim::violation("inconsistent block returned", what);
		if(c.kind == 1 && x->hash != c.hash) sim::violation("wrong block returned", what + " returned block " + S(x->hash) + " at height " + std::to_string(x->height));
		if(c.kind != 1 && x->height != c.height) sim::violation("block of another height returned", what + " returned block " + S(x->hash) + " of height " + std::to_string(x->height));
	}
	std::string name(const Call& c) const {
		return where() + " " + (c.kind == 0 ? "get_blocks_at(" + std::to_string(c.height) + ")" : c.kind == 1 ? "fetch_block(" + S(c.hash) + (c.from.size() ? ", " + c.from : "") + ")" : "fetch_block_at(" + std::to_string(c.height) + ", " + c.from + ")");
	}
	bool complete_set() const;		// whether enough honest peers are connected and synced right now
	void done(std::shared_ptr<Call> c, std::vector<std::shared_ptr<const Block>> res, const std::string* error) {
		const auto what = name(*c);
		if(c->done) sim::violation("request answered more than once", what);
		c->done = true;
		sim::count("requests_answered"); sim::count("nontrivial");
		sim::trace("%s: %zu blocks%s", what.c_str(), res.size(), error ? " failed" : "");
		if(error) { sim::count("requests_failed"); return; }
		std::shared_ptr<const Block> main = c->kind == 1 ? (G->blocks.count(c->hash) ? G->blocks[c->hash] : nullptr) : c->height < G->chain.size() ? G->chain[c->height] : nullptr;
		bool got = false;
		std::set<hash_t> uniq;
		for(auto& x : res) if(x) { check_block(*c, x, what); got |= main && x->content_hash == main->content_hash; if(!uniq.insert(x->content_hash).second) sim::violation("same block returned twice", what); }
		if(c->kind == 0 && c->height && c->height <= G->tip - 2 && c->liars.size() < size_t(box.min_sync_peers) && !got)
			sim::violation("block at height is missing from the answer", what + " returned " + std::to_string(res.size()) + " blocks but not " + S(main->hash) + ", which every honest peer has; " + std::to_string(c->liars.size()) + " lying connections, min_sync_peers = " + std::to_string(box.min_sync_peers));
		c->got = got;
		if(got) sim::count("requests_got_the_block");
	}
	void request(std::shared_ptr<Call> c) {
		c->start = sim::now_us();
		auto ex = [this, c](const vnx::exception& e) { const std::string s = e.what(); done(c, {}, &s); };
		sim::trace("%s", name(*c).c_str());
		if(c->kind == 0) router->get_blocks_at(c->height, [this, c](const std::vector<std::shared_ptr<const Block>>& r) { done(c, r, nullptr); }, ex);
		else if(c->kind == 1) { vnx::optional<std::string> a; if(c->from.size()) a = c->from; router->fetch_block(c->hash, a, [this, c](std::shared_ptr<const Block> r) { done(c, {r}, nullptr); }, ex); }
		else router->fetch_block_at(c->height, c->from, [this, c](std::shared_ptr<const Block> r) { done(c, {r}, nullptr); }, ex);
	}
};
inline void Box::boot() {
	if(!m->process) vnx::init_process(m);
	up = false;
	b = std::make_shared<Boot>();
	calls.clear();
	sim::spawn(m, "boot", [this]() {
		vnx::write_config("chain.params", params->to_object());
		node = new StubNode(*this);
		(new vnx::Handle<StubNode>(node))->start();
		router = new Router("Router");
		router->fixed_peers = fixed; router->master_nodes = masters; router->min_sync_peers = min_sync_peers; router->num_peers_out = num_out; router->max_connections = max_conn;
		router->port = params->port; router->storage_path = ""; router->open_port = false;
		if(write_queue) router->max_write_queue = write_queue;
		if(G->pending_limit > 0) router->max_pending_cost = G->pending_limit;
		(new vnx::Handle<Router>(router))->start();
		up = true;
	});
}

// ------------------------------------------------------------------ raw peers
struct Raw {
	std::shared_ptr<net::RawPeer> c;
	Box* to = nullptr; std::shared_ptr<Boot> b;
	std::string ip; world::User id;
	bool liar = false, closed = false, synced = true, impostor = false, claims = false;
	int64_t unsynced_since = 0;
	int style = 0;
	int64_t since = 0, must_close = 0, closed_at = 0;
	std::map<hash_t, int> got; std::set<hash_t> sent;
	std::map<uint32_t, std::string> asked;
	uint32_t next = 1 << 20;
};
struct Crowd {
	std::vector<std::shared_ptr<Raw>> all;
	void connect(Box* to, bool liar) {
		auto r = std::make_shared<Raw>();
		r->to = to; r->b = to->b; r->ip = "6.6.6." + std::to_string(1 + R(250)); r->id = world::make_user("raw " + r->ip); r->liar = liar; r->style = liar ? 1 + W(10) : 0;
		r->impostor = !liar && W(8) == 0;
		r->since = sim::now_us();
		r->synced = liar || W(2);
		r->c = net::connect_raw(r->ip, to->m, params->port);
		auto* p = r.get();
		r->c->on_connect = [p]() { p->b = p->to->b; };
			r->c->on_disconnect = [p]() { p->closed = true; p->closed_at = sim::now_us(); };
		r->c->on_msg = [this, p](std::shared_ptr<const vnx::Value> v) { on_msg(*p, v); };
		for(auto& c : to->calls) if(!c->done && liar) c->liars.insert(p);
		all.push_back(r);
		sim::trace("raw peer %s%s connects to router %d", r->ip.c_str(), liar ? " (liar)" : "", to->index);
	}
	static std::string name(const Raw& r) { return "raw peer " + r.ip + " at router " + std::to_string(r.to->index); }
	void reply(Raw& r, uint32_t id, std::shared_ptr<vnx::Value> v) { auto x = Return::create(); x->id = id; x->result = v; r.c->send(x); }
	void send(Raw& r, const Obj& o0) {
		auto& o = G->made[o0.hash];
		if(r.sent.empty() && r.got.empty() && 0) return;
		if(!o.sole && o.origin < 0) o.sole = &r; else if(o.sole != &r) o.sole = (const void*)1;
		if(r.got.count(o.hash)) o.sole = (const void*)1;
		r.sent.insert(o.hash);
		if(auto x = std::dynamic_pointer_cast<const ProofResponse>(o.v)) { auto c = vnx::clone(x); c->harvester.clear(); c->farmer_addr = vnx::Hash64(); r.c->send(c); }
		else r.c->send(o.v);
	}
	static Router* victim(const Raw& r) { auto* b = G->boxes[std::hash<std::string>()(r.ip) % G->boxes.size()]; return b->up && b->m->alive ? b->router : nullptr; }
	void on_msg(Raw& r, std::shared_ptr<const vnx::Value> v) {
		int kind; const auto h = hash_of(v, &kind);
		if(kind >= 0) {
			const auto what = name(r) + ": " + kinds[kind] + " " + S(h);
			sim::count("raw_messages_received");
			if(!consistent(v)) sim::violation("inconsistent message sent to a peer", what);
			auto it = G->made.find(h);
			if(it == G->made.end()) sim::violation("message that nobody sent reached a peer", what);
			auto& o = it->second;
			if(r.got[h]++) sim::violation("message sent twice on one connection", what);
			if(o.sole == &r) sim::violation("message sent back to where it came from", what);
			if(!r.b->verified.count(h) && r.b->unverified_seen.insert(h).second) {
				bool ok = false;
				if(auto x = std::dynamic_pointer_cast<const ProofOfTime>(v)) ok = ++r.b->vdf_used[x->timelord_key] <= r.b->vdf_credit[x->timelord_key];
				if(auto x = std::dynamic_pointer_cast<const Block>(v)) { const auto k = std::make_pair(x->vdf_height, x->proof[0]->farmer_key); ok = ++r.b->farm_used[k] <= r.b->farm_credit[k]; }
				if(!ok) sim::violation("message relayed without being verified", what);
				sim::count("relayed_on_credit");
			}
			return;
		}
		if(auto q = std::dynamic_pointer_cast<const Return>(v)) {
			auto it = r.asked.find(q->id);
			if(it == r.asked.end()) sim::violation("answer without a request", name(r) + " got an answer to request " + std::to_string(q->id) + " it did not make or that was answered before");
			if(!q->result) sim::violation("empty answer", name(r) + " " + it->second);
			const auto t = q->result->get_type_name();
			if(t != it->second + ".return" && t.compare(0, 4, "mmx.") == 0) sim::violation("answer of the wrong kind", name(r) + " asked " + it->second + " and got " + t);
			if(auto x = std::dynamic_pointer_cast<const Node_get_block_return>(q->result)) if(x->_ret_0 && !consistent(x->_ret_0)) sim::violation("inconsistent block served", name(r));
			r.asked.erase(it);
			sim::count("raw_requests_answered");
			return;
		}
		auto q = std::dynamic_pointer_cast<const Request>(v);
		if(!q || !q->method) return;
		auto m = q->method;
		const auto id = q->id;
		const int st = r.style;
		if(st == 9 && R(3)) return;					// silent
		if(std::dynamic_pointer_cast<const Router_get_id>(m)) { auto x = Router_get_id_return::create(); x->_ret_0 = r.id.addr; reply(r, id, x); }
		else if(std::dynamic_pointer_cast<const Router_get_info>(m)) { auto x = Router_get_info_return::create(); r.claims = r.impostor && victim(r); x->_ret_0.id = r.claims ? victim(r)->get_id() : r.id.addr; x->_ret_0.version = 103; x->_ret_0.type = node_type_e::FULL_NODE; reply(r, id, x); }
		else if(auto s = std::dynamic_pointer_cast<const Router_sign_msg>(m)) { auto x = Router_sign_msg_return::create();
			x->_ret_0 = std::make_pair(r.id.pk, signature_t::sign(r.id.sk, s->msg));
			if(r.impostor) {						// claims to be somebody else
				if(r.claims) { if(victim(r) && R(2)) x->_ret_0.first = victim(r)->node_key; } else x->_ret_0.second = signature_t::sign(r.id.sk, rnd("other"));
				r.must_close = sim::now_us(); sim::count("impostors");
				sim::trace("%s answers sign_msg with a wrong %s", name(r).c_str(), r.claims ? "identity" : "signature");
			}
			reply(r, id, x);
		}
		else if(std::dynamic_pointer_cast<const Router_get_peers>(m)) { auto x = Router_get_peers_return::create(); x->_ret_0 = {G->boxes[R(G->boxes.size())]->ip, "not an address", "6.6.6.6"}; reply(r, id, x); }
		else if(std::dynamic_pointer_cast<const Node_get_height>(m)) { auto x = Node_get_height_return::create(); x->_ret_0 = G->tip; reply(r, id, x); }
		else if(std::dynamic_pointer_cast<const Node_get_synced_height>(m)) { auto x = Node_get_synced_height_return::create(); if(r.synced) { x->_ret_0 = G->tip; r.unsynced_since = 0; } else if(!r.unsynced_since) r.unsynced_since = sim::now_us(); reply(r, id, x); }
		else if(auto s = std::dynamic_pointer_cast<const Node_get_block_hash>(m)) { auto x = Node_get_block_hash_return::create(); if(s->height < G->chain.size()) x->_ret_0 = G->chain[s->height]->hash; reply(r, id, x); }
		else if(auto s = std::dynamic_pointer_cast<const Node_get_block_hash_ex>(m)) {
			auto x = Node_get_block_hash_ex_return::create();
			if(G->quiet && r.unsynced_since && r.unsynced_since > G->quiet_since && sim::now_us() - r.unsynced_since > 15000000) sim::violation("peer that is not synced is asked for blocks", name(r) + " said " + std::to_string((sim::now_us() - r.unsynced_since) / 1000000) + " s ago that it is not synced");
			auto blk = s->height < G->chain.size() ? G->chain[s->height] : nullptr;
			if(st == 10 && s->height < G->fork.size()) { blk = G->fork[s->height]; sim::count("fork_answers"); }
			if(st == 1) blk = nullptr;
			if(st == 2) blk = G->chain[1 + R(G->chain.size() - 1)];
			if(blk) x->_ret_0 = std::make_pair(blk->hash, st == 3 ? rnd("lie") : blk->content_hash);
			if(st == 4) x->_ret_0 = std::make_pair(rnd("lie"), blk ? blk->content_hash : rnd("lie"));
			if(!r.liar || st) reply(r, id, x);
			if(st == 5 || st == 6) for(int i = -3; i <= 3; ++i) if(i) {	// answers to what others were asked
				auto y = Node_get_block_hash_ex_return::create();
				auto z = Node_get_block_return::create();
				if(st == 5) reply(r, id + i, y); else reply(r, id + i, z);
				sim::count("forged_answers");
			}
		}
		else if(auto s = std::dynamic_pointer_cast<const Node_get_block>(m)) {
			auto x = Node_get_block_return::create();
			auto it = G->blocks.find(s->hash);
			if(it != G->blocks.end()) x->_ret_0 = it->second;
			if(st == 2 || st == 4) x->_ret_0 = G->chain[1 + R(G->chain.size() - 1)];
			if(st == 7) { auto e = vnx::InternalError::create(); e->what = "no"; reply(r, id, e); sim::count("liar_error"); return; }
			if(st == 8 && x->_ret_0) {
				auto y = vnx::clone(*x->_ret_0); const int how = R(4);
				if(how == 0) y->tx_list.push_back(make_tx()); else if(how == 1) y->height++; else if(how == 2) y->nonce++; else y->content_hash = rnd("lie");
				x->_ret_0 = y; sim::count("liar_corrupt_block");
			}
			if(st == 1) x->_ret_0 = nullptr;
			reply(r, id, x);
		} else { auto e = vnx::NoSuchMethod::create(); reply(r, id, e); }
	}
	void ask(Raw& r) {
		auto q = Request::create(); q->id = ++r.next;
		const uint32_t h = R(G->tip + 3);
		const hash_t bh = G->chain[R(G->chain.size())]->hash;
		switch(R(12)) {
			case 0: q->method = Router_get_id::create(); break;
			case 1: q->method = Router_get_info::create(); break;
			case 2: { auto m = Router_sign_msg::create(); m->msg = rnd(); q->method = m; break; }
			case 3: { auto m = Router_get_peers::create(); m->max_count = R(20); q->method = m; break; }
			case 4: q->method = Node_get_height::create(); break;
			case 5: q->method = Node_get_synced_height::create(); break;
			case 6: { auto m = Node_get_block::create(); m->hash = R(4) ? bh : rnd(); q->method = m; break; }
			case 7: { auto m = Node_get_block_at::create(); m->height = h; q->method = m; break; }
			case 8: { auto m = Node_get_block_hash::create(); m->height = h; q->method = m; break; }
			case 9: { auto m = Node_get_block_hash_ex::create(); m->height = h; q->method = m; break; }
			case 10: { auto m = Node_get_header_at::create(); m->height = h; q->method = m; break; }
			default: { auto m = Node_get_header::create(); m->hash = bh; q->method = m; break; }
		}
		r.asked[q->id] = q->method->get_type_name();
		r.c->send(q);
	}
	void act(Raw& r) {
		if(!r.c->connected || r.closed || r.must_close) return;
		switch(R(10)) {
			case 0: case 1: case 2: ask(r); break;
			case 3: case 4: {					// the first to know something good
				auto& o = make(W(5), -1);
				send(r, o); sim::count("raw_good_message");
				if(W(3) == 0) { send(r, o); if(all.size()) { auto& r2 = *all[W(all.size())]; if(r2.c->connected && !r2.closed && !r2.must_close) send(r2, o); } }
				break;
			}
			case 5: case 6: {					// well formed, but no node will accept it
				auto& o = make(W(6), -1);
				if(o.kind == 3 && W(2)) { G->made.erase(o.hash); Obj p; p.kind = 3; p.v = make_vdf(G->vdf_height + 1, 5 + W(3)); p.hash = hash_of(p.v); G->made[p.hash] = p; p.good = false; G->made[p.hash].good = false; send(r, G->made[p.hash]); break; }
				o.good = false;
				send(r, o); sim::count("raw_bad_message");
				break;
			}
			case 7: if(G->made.size()) {		// repeat something
				auto& from = *all[W(all.size())];		// something a peer has seen
				std::set<hash_t> seen = from.sent; for(auto& e : from.got) seen.insert(e.first);
				if(seen.empty()) break;
				auto it = seen.begin(); std::advance(it, W(seen.size()));
				if(!G->made.count(*it)) break;
				send(r, G->made[*it]); sim::count("raw_repeated_message");
				break;
			}
			case 8: {							// malformed: not to be passed on, and the sender goes
				if(W(3)) break;
				auto o = make(W(5), -1);
				G->made.erase(o.hash);
				auto v = o.v;
				const int how = W(3);
				if(o.kind == 0) { auto x = vnx::clone(std::dynamic_pointer_cast<const Transaction>(v)); if(how == 0) x->nonce++; else if(how == 1) { exec_result_t e; x->exec_result = e; x->content_hash = x->calc_hash(true); } else x->content_hash = rnd(); v = x; }
				if(o.kind == 1) { auto x = vnx::clone(std::dynamic_pointer_cast<const ValidatorVote>(v)); if(how == 0) x->hash = rnd(); else { x->hash = rnd(); x->content_hash = x->calc_content_hash(); } v = x; }
				if(o.kind == 2) { auto x = vnx::clone(std::dynamic_pointer_cast<const ProofResponse>(v)); if(how == 0) x->vdf_height++; else if(how == 1) x->content_hash = rnd(); else x->proof = nullptr; v = x; }
				if(o.kind == 3) { auto x = vnx::clone(std::dynamic_pointer_cast<const ProofOfTime>(v)); if(how == 0) x->segments.push_back(rnd()); else if(how == 1) { x->timelord_key = world::timelords[6].pk; x->hash = x->calc_hash(); x->content_hash = x->calc_content_hash(); } else x->vdf_height++; v = x; }
				if(o.kind == 4) { auto x = vnx::clone(std::dynamic_pointer_cast<const Block>(v)); if(how == 0) x->tx_list.push_back(make_tx()); else if(how == 1) { x->nonce++; x->hash = x->calc_hash(params); x->content_hash = x->calc_content_hash(); } else x->vdf_count++; v = x; }
				r.must_close = sim::now_us();
				r.c->send(v); sim::count("raw_malformed_message");
				sim::trace("%s sends malformed %s (%d)", name(r).c_str(), kinds[o.kind], how);
				break;
			}
			case 9: { if(!r.liar && W(4) == 0) r.synced = !r.synced; auto n = ReceiveNote::create(); n->time = sim::now_us(); if(G->made.size() && W(2)) { auto it = G->made.begin(); std::advance(it, W(G->made.size())); n->hash = it->first; } else n->hash = rnd(); r.c->send(n); break; }
		}
	}
};

inline std::string job_state(Box& b, uint32_t height) {
	for(auto& e : b.router->sync_jobs) if(e.second->height == height) { auto& j = *e.second; return "; job: " + std::to_string(j.got_hash.size()) + " hashes, " + std::to_string(j.failed.size()) + " failed, " + std::to_string(j.succeeded.size()) + " succeeded, " + std::to_string(j.pending.size()) + " pending, " + std::to_string(j.blocks.size()) + " blocks, " + std::to_string(j.num_fetch) + " fetches"; }
	return "";
}
static void run(bool requests) {
	world::enter();
	params = world::draw_params();
	Global g; G = &g;
	auto& pol = sim::policy;
	pol.preempt = pick({0.02, 0.2, 0.0}); pol.pick_random = pick({0.2, 0.5}); pol.step_us = 1; pol.max_steps = 40000000;
	pol.stall = pick({0.0, 1e-4, 1e-3}); pol.stall_us = pick({200000, 2000000});
	auto& np = net::policy;
	const bool faults = W(5);
	np.latency_us = pick({5000, 50000, 500}); np.jitter_us = pick({20000, 300000, 1});
	np.bandwidth = pick({10000000, 100000, 20000});
	if(faults) { np.stall = pick({0.0, 1e-3, 1e-2}); np.reset = pick({0.0, 1e-4, 1e-3}); np.connect_fail = pick({0.0, 0.1}); }
	g.error_rate = requests ? pick({0, 5, 30}) : pick({0, 3}); g.slow = pick({0, 5, 20}); g.verify_ms = pick({0, 200, 3000});
	// the chain
	g.tip = 30 + W(20); g.vdf_height = g.tip;
	hash_t prev = hash_t("genesis");
	for(uint32_t h = 0; h <= g.tip; ++h) { auto b = make_block(h, h, W(4), prev); prev = b->hash; g.chain.push_back(b); g.blocks[b->hash] = b; }
	{
		const uint32_t at = W(g.tip);
		for(uint32_t h = 0; h <= g.tip; ++h) if(h <= at) g.fork.push_back(g.chain[h]); else { auto b = make_block(h, h, W(4), g.fork.back()->hash); g.fork.push_back(b); g.blocks[b->hash] = b; }
		if(W(3) == 0) { auto t = make_tx(); g.pending_limit = 2.5 * to_value(t->static_cost, params) / to_value(params->max_block_size, params); }
	}
	const int n = 2 + W(requests ? 4 : 5);
	std::vector<Box> boxes(n);
	for(int i = 0; i < n; ++i) {
		auto& b = boxes[i];
		b.index = i; b.ip = "5.1.1." + std::to_string(i + 1); b.m = sim::add_machine("r" + std::to_string(i));
		net::set_address(b.m, b.ip);
		vnx::init_process(b.m);
		b.height = g.tip - W(3);
		b.min_sync_peers = 1 + W(std::min(n - 1, 3)); b.num_out = std::max(b.min_sync_peers, int(pick({8, 2, 3})));
		b.write_queue = pick({0, 3000, 20000});
		g.boxes.push_back(&b);
	}
	auto link = [&](int a, int b) { boxes[a].fixed.insert(boxes[b].ip); if(W(3) == 0) boxes[b].fixed.insert(boxes[a].ip); };
	for(int i = 1; i < n; ++i) link(i, W(i));
	for(int i = 0; i < n; ++i) for(int j = 0; j < i; ++j) if(W(requests ? 2 : 3) == 0) link(i, j);
	for(auto& b : boxes) for(auto& x : boxes) if(&b != &x && W(8) == 0) b.masters.insert(x.ip);
	vnx::sim_on_unknown_return = [&](uint64_t id) { sim::violation("request answered more than once", "second answer to internal request " + std::to_string(id) + " on machine " + sim::machine()->name); };
	for(auto& b : boxes) b.boot();
	Crowd crowd;
	sim::sleep_us(pick({100000, 3000000, 15000000}));
	const int max_liars = requests ? pick({0, 1, 2, 3}) : 0;
	const int max_raw = 1 + W(3);
	const uint32_t crash_rate = faults ? pick({0, 0, 4}) : 0, reset_rate = faults ? pick({0, 10}) : 0, part_rate = faults ? pick({0, 8}) : 0;
	int crashes = 0;
	auto on = [&](Box& b, std::function<void(StubNode*)> fn) { if(!b.up || !b.m->alive) return; auto* nd = b.node; nd->vnx_post([nd, fn]() { fn(nd); }); };
	auto new_call = [&](Box& b) {
		auto c = std::make_shared<Call>();
		const int k = W(6);
		c->kind = k < 4 ? 0 : k == 4 ? 1 : 2;
		c->height = 1 + W(g.tip + 1);
		c->hash = W(6) ? g.chain[W(g.chain.size())]->hash : rnd("no such block");
		if(c->kind == 2 || (c->kind == 1 && W(3) == 0)) c->from = W(8) ? boxes[W(n)].ip : "5.9.9.9";
		for(auto& r : crowd.all) if(r->liar && r->to == &b && (!r->closed || sim::now_us() - r->closed_at < 10000000)) c->liars.insert(r.get());
		if(!b.up || !b.m->alive) return;
		b.calls.push_back(c);
		on(b, [c](StubNode* nd) { nd->request(c); });
	};
	const int ticks = 150;
	const int msg_rate = requests ? 10 : pick({30, 60, 100});
	const int req_rate = requests ? pick({40, 100}) : 5;
	for(int t = 0; t < ticks; ++t) {
		sim::sleep_us(pick({100000, 400000, 1000000}));
		if(t % 20 == 0) g.vdf_height++;
		if(W(100) < uint32_t(msg_rate)) { const int i = W(n); const int k = W(100) < 3 ? 5 : W(5); const int burst = W(10) ? 1 : 1 + W(20); for(int j = 0; j < burst; ++j) { const Obj o = make(k, i); on(boxes[i], [o](StubNode* nd) { nd->verified(o, true); }); } sim::count("messages_originated", burst); }
		if(W(100) < uint32_t(req_rate)) { auto& b = boxes[W(n)]; const int burst = W(6) ? 1 : 1 + W(15); for(int j = 0; j < burst; ++j) new_call(b); }
		int open = 0, liars = 0;
		for(auto& r : crowd.all) if(!r->closed) { open++; liars += r->liar; }
		if(open < max_raw && W(10) == 0) crowd.connect(&boxes[W(n)], false);
		if(liars < max_liars && W(5) == 0) crowd.connect(&boxes[W(n)], true);
		for(auto& r : crowd.all) if(!r->closed && W(2)) crowd.act(*r);
		if(W(40) == 0 && crowd.all.size()) { auto& r = *crowd.all[W(crowd.all.size())]; if(!r.closed) r.c->close(); }
		if(W(100) < reset_rate) { net::reset_link(boxes[W(n)].m->id, boxes[W(n)].m->id); sim::count("net_reset"); }
		if(W(100) < part_rate) { if(W(2)) { const int a = W(n), b = W(n); if(a != b) { net::partition(boxes[a].m->id, boxes[b].m->id, true); sim::count("partitions"); } } else net::heal_all(); }
		if(W(100) < 3) { auto& b = boxes[W(n)]; b.synced = !b.synced; }
		if(W(100) < crash_rate && crashes < 4) {
			auto& b = boxes[W(n)];
			sim::crash(b.m); crashes++; sim::count("crashes");
			sim::sleep_us(W(2000000));
			sim::restart(b.m);
			b.boot();
			sim::sleep_us(100000);
		}
	}
	// faults stop
	net::heal_all();
	np = net::Policy(); pol.stall = 0;
	g.quiet = true; g.quiet_since = sim::now_us();
	for(auto& b : boxes) b.synced = true;
	sim::trace("quiet");
	sim::sleep_us(100000000);
	for(auto& b : boxes) for(auto& c : b.calls) if(!c->done) {
		// only as long as enough peers are there
		size_t good = b.router->synced_peers.size();
		if(c->kind == 0 && good < size_t(b.min_sync_peers)) continue;
		sim::violation("request not answered", "100 s after faults stopped " + b.node->name(*c) + " of " + std::to_string((sim::now_us() - c->start) / 1000000) + " s ago has no answer; " + std::to_string(good) + " synced peers, min_sync_peers = " + std::to_string(b.min_sync_peers) + ", " + std::to_string(c->liars.size()) + " lying connections" + job_state(b, c->height));
	}
	for(auto& r : crowd.all) if(!r->closed && r->c->connected) {
		if(r->must_close) sim::violation("sender of a malformed message is still connected", Crowd::name(*r) + " sent it " + std::to_string((sim::now_us() - r->must_close) / 1000000) + " s ago");
		if(r->asked.size()) sim::violation("request of a peer not answered", Crowd::name(*r) + " " + r->asked.begin()->second);
	}
	auto links = [&]() { std::set<std::pair<int, uint64_t>> s; for(auto& b : boxes) for(auto& e : b.router->peer_map) s.insert({b.index, e.first}); return s; };
	for(auto& b : boxes) for(auto& f : b.fixed) {
		auto connected = [&]() {
			for(auto& e : b.router->peer_map) if(e.second->address == f) return true;
			for(auto& e : boxes[std::stoi(f.substr(6)) - 1].router->peer_map) if(e.second->address == b.ip) return true;
			return false;
		};
		if(!sim::wait_until(connected, 30000000, 100000)) sim::violation("fixed peer is not connected", "router " + std::to_string(b.index) + " has no connection to " + f + " 130 s after faults stopped");
	}
	// every new message reaches every node once
	for(int t = 0; t < 10; ++t) {
		const auto before = links();
		const int i = W(n), k = t < 5 ? t : W(5);
		if(k == 3) g.vdf_height++;
		const Obj o = make(k, i);
		on(boxes[i], [o](StubNode* nd) { nd->verified(o, true); });
		auto everywhere = [&]() { for(auto& b : boxes) if(b.index != i && !b.b->published.count(o.hash)) return false; return true; };
		const bool ok = sim::wait_until(everywhere, 10000000ll * n, 100000);
		if(!ok && links() == before) { std::string miss; for(auto& b : boxes) if(b.index != i && !b.b->published.count(o.hash)) miss += " " + std::to_string(b.index); sim::violation("message does not reach every node", std::string(kinds[k]) + " " + S(o.hash) + " from router " + std::to_string(i) + " did not reach" + miss + " of " + std::to_string(n) + " within " + std::to_string(10 * n) + " s"); }
		if(ok) sim::count("reached_everywhere"); else sim::count("links_changed_meanwhile");
		sim::sleep_us(1000000);
	}
	if(requests) for(int t = 0; t < 10; ++t) {
		auto& b = boxes[W(n)];
		const auto before = links();
		const size_t peers = b.router->synced_peers.size();
		new_call(b);
		sim::sleep_us(100000);
		auto c = b.calls.back();
		const bool ok = sim::wait_until([&]() { return c->done; }, 60000000, 100000);
		if(!ok && b.router->synced_peers.size() >= size_t(b.min_sync_peers)) sim::violation("request not answered", "without faults " + b.node->name(*c) + " has no answer after 60 s; " + std::to_string(b.router->synced_peers.size()) + " synced peers, min_sync_peers = " + std::to_string(b.min_sync_peers) + ", " + std::to_string(c->liars.size()) + " lying connections");
		if(c->done && !c->got && c->kind == 1 && c->from.empty() && c->liars.empty() && peers && links() == before && G->blocks.count(c->hash) && G->blocks[c->hash] == G->chain[G->blocks[c->hash]->height] && G->blocks[c->hash]->height <= G->tip - 2)
			sim::violation("block that every peer has was not found", "without faults " + b.node->name(*c) + " returned nothing; " + std::to_string(peers) + " synced peers, all honest");
	}
	sim::finish();
}
}
#endif
