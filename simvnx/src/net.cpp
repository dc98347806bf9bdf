// simulated TCP network and the MsgServer built on it
#include <vnx/vnx.h>
#include <simvnx/sim.h>
#include <algorithm>
#include <deque>
#include <sstream>
#include <cstring>

using namespace vnx;
using namespace vnx::addons;

namespace net {
Policy policy;
uint64_t messages = 0, bytes = 0, resets = 0, stalls = 0;
typedef std::shared_ptr<const std::vector<uint8_t>> data_t;

struct End {
	sim::Machine* m = nullptr; uint64_t inc = 0;
	MsgServer* server = nullptr; uint64_t client = 0;
	std::shared_ptr<RawPeer> raw;
	std::string ip, remote_host;
	int64_t busy_until = 0, last_arrival = 0;		// outgoing direction
	std::deque<data_t> held;						// incoming while partitioned or paused
	bool alive() const { return raw || (m->alive && m->inc == inc && server); }
	int mid() const { return m ? m->id : -1; }
};
struct Link { uint64_t id = 0; End e[2]; bool open = true; };
struct event_t { std::function<void()> fn; };
struct State {
	uint64_t next_id = 1;
	std::map<uint64_t, std::shared_ptr<Link>> links;
	std::map<std::pair<int64_t, uint64_t>, std::function<void()>> events;
	uint64_t seq = 0;
	bool running = false;
	std::map<int, std::string> addr;
	std::map<std::pair<int, int>, std::pair<uint64_t, MsgServer*>> listeners;
	std::set<std::pair<int, int>> cuts;
	std::set<int> hooked;
};
static State& S() { static State* s = new State; return *s; }

static void at(int64_t t, std::function<void()> fn) {
	auto& s = S();
	s.events[{t, s.seq++}] = fn;
	if(!s.running) {
		s.running = true;
		sim::spawn(sim::machine_by_id(0), "network", []() {
			auto& s = S();
			while(true) {
				if(s.events.empty()) { sim::block(&s, "network idle"); continue; }
				const auto t = s.events.begin()->first.first;
				if(t > sim::now_us()) { sim::block(&s, "network", t - sim::now_us()); continue; }
				auto fn = s.events.begin()->second;
				s.events.erase(s.events.begin());
				fn();
			}
		});
	}
	sim::wake_all(&s);
}
static bool is_cut(int a, int b) { if(a > b) std::swap(a, b); return S().cuts.count({a, b}); }
static bool is_cut(const Link& l) { return is_cut(l.e[0].mid(), l.e[1].mid()); }
static int64_t latency() { return policy.latency_us + (policy.jitter_us > 0 ? sim::draw(sim::S_NET, policy.jitter_us) : 0); }

static void tell_closed(std::shared_ptr<Link> l, int side) {
	auto& e = l->e[side];
	if(!e.alive()) return;
	if(e.raw) { auto r = e.raw; r->connected = false; if(r->on_disconnect) r->on_disconnect(); }
	else { auto s = e.server; const auto c = e.client; const auto h = e.remote_host; s->vnx_post([s, c, h]() { s->net_disconnected(c, h); }); }
}
static void break_link(std::shared_ptr<Link> l, const char* why) {
	if(!l->open) return;
	l->open = false;
	S().links.erase(l->id);
	sim::trace("net: link %llu %s-%s broken (%s)", (unsigned long long)l->id, l->e[0].ip.c_str(), l->e[1].ip.c_str(), why);
	for(int i = 0; i < 2; ++i) at(sim::now_us() + policy.latency_us, [l, i]() { tell_closed(l, i); });
}
static void deliver(std::shared_ptr<Link> l, int to, data_t d) {
	if(!l->open) return;
	auto& e = l->e[to];
	if(!e.alive()) return;
	messages++; bytes += d->size();
	if(e.raw) {
		if(e.raw->on_msg) {
			struct In : InputStream { const std::vector<uint8_t>& d; size_t p = 0; In(const std::vector<uint8_t>& d) : d(d) {} size_t read(void* b, size_t n) override { n = std::min(n, d.size() - p); ::memcpy(b, d.data() + p, n); p += n; return n; } } in(*d);
			TypeInput ti(&in);
			if(auto v = read_any(ti)) e.raw->on_msg(v);
		}
	} else {
		auto s = e.server; const auto c = e.client;
		s->vnx_post([s, c, d]() { s->net_deliver(c, d); });
	}
}
static void arrive(std::shared_ptr<Link> l, int to, data_t d) {
	if(!l->open) return;
	auto& e = l->e[to];
	if(is_cut(*l) || !e.held.empty()) { e.held.push_back(d); return; }
	deliver(l, to, d);
}
static void flush_held(std::shared_ptr<Link> l) {
	if(is_cut(*l)) return;
	for(int i = 0; i < 2; ++i) {
		auto q = std::move(l->e[i].held);
		l->e[i].held.clear();
		for(auto& d : q) deliver(l, i, d);
	}
}
static void transmit(std::shared_ptr<Link> l, int from, data_t d, std::function<void()> sent) {
	auto& e = l->e[from];
	const auto now = sim::now_us();
	const auto start = std::max(now, e.busy_until);
	e.busy_until = start + int64_t(d->size() * 1000000 / std::max<int64_t>(policy.bandwidth, 1));
	int64_t t = e.busy_until + latency();
	if(policy.stall > 0 && sim::flip(sim::S_NET, policy.stall)) { stalls++; sim::count("net_stall"); t += sim::draw(sim::S_NET, policy.stall_us); }
	t = std::max(t, e.last_arrival);
	e.last_arrival = t;
	if(sent) at(e.busy_until, sent);
	if(policy.reset > 0 && sim::flip(sim::S_NET, policy.reset)) {
		resets++; sim::count("net_reset");
		at(t, [l]() { break_link(l, "reset"); });
		return;
	}
	at(t, [l, from, d]() { arrive(l, 1 - from, d); });
}
static void hook(sim::Machine* m) {
	if(!S().hooked.insert(m->id).second) return;
	auto prev = m->on_crash;
	m->on_crash = [m, prev]() {
		if(prev) prev();
		auto& s = S();
		for(auto it = s.listeners.begin(); it != s.listeners.end();) { if(it->first.first == m->id) it = s.listeners.erase(it); else ++it; }
		auto links = s.links;
		for(auto& x : links) if(x.second->e[0].m == m || x.second->e[1].m == m) break_link(x.second, "crash");
	};
}

void set_address(sim::Machine* m, const std::string& ip) { S().addr[m->id] = ip; hook(m); }
std::string address(sim::Machine* m) { auto it = S().addr.find(m->id); return it == S().addr.end() ? "127.0.0.1" : it->second; }
sim::Machine* find_machine(const std::string& ip) { for(auto& e : S().addr) if(e.second == ip) return sim::machine_by_id(e.first); return nullptr; }
void partition(int a, int b, bool cut) {
	if(a > b) std::swap(a, b);
	if(cut) { S().cuts.insert({a, b}); return; }
	S().cuts.erase({a, b});
	auto links = S().links;
	for(auto& l : links) flush_held(l.second);
}
void heal_all() { S().cuts.clear(); auto links = S().links; for(auto& l : links) flush_held(l.second); }
void reset_link(int a, int b) {
	auto links = S().links;
	for(auto& l : links) { const int x = l.second->e[0].mid(), y = l.second->e[1].mid(); if((x == a && y == b) || (x == b && y == a)) break_link(l.second, "reset"); }
}
static data_t serialise(const std::shared_ptr<const Value>& v) {
	struct Out : OutputStream { std::vector<uint8_t>* d; void write(const void* p, size_t n) override { d->insert(d->end(), (const uint8_t*)p, (const uint8_t*)p + n); } } o;
	auto d = std::make_shared<std::vector<uint8_t>>();
	o.d = d.get();
	TypeOutput out(&o);
	write_any(out, v.get());
	out.flush();
	return d;
}
static MsgServer* listener(sim::Machine* m, int port) {
	if(!m || !m->alive) return nullptr;
	auto it = S().listeners.find({m->id, port});
	return it != S().listeners.end() && it->second.first == m->inc ? it->second.second : nullptr;
}
void RawPeer::send(std::shared_ptr<const Value> msg) {
	auto it = S().links.find(id);
	if(it == S().links.end()) return;
	transmit(it->second, 0, serialise(msg), nullptr);
}
void RawPeer::close() { auto it = S().links.find(id); if(it != S().links.end()) break_link(it->second, "closed by raw peer"); }
std::shared_ptr<RawPeer> connect_raw(const std::string& from_ip, sim::Machine* target, int port) {
	auto r = std::make_shared<RawPeer>();
	at(sim::now_us() + latency(), [r, from_ip, target, port]() {
		auto s = listener(target, port);
		if(!s) { if(r->on_disconnect) r->on_disconnect(); return; }
		auto l = std::make_shared<Link>();
		l->id = S().next_id++;
		l->e[0].raw = r; l->e[0].ip = from_ip; l->e[0].remote_host = address(target);
		l->e[1].m = target; l->e[1].inc = target->inc; l->e[1].server = s; l->e[1].ip = address(target); l->e[1].remote_host = from_ip;
		r->id = l->id;
		S().links[l->id] = l;
		const auto c = l->e[1].client = uint64_t(1) << 32 | l->id;
		s->vnx_post([s, c, from_ip]() { s->net_connected(c, from_ip); });
		r->connected = true;
		if(r->on_connect) r->on_connect();
	});
	return r;
}
} // net

namespace vnx { namespace addons {
struct MsgServer::conn_t { std::shared_ptr<net::Link> link; int side = 0; std::string host; bool is_paused = false; std::deque<net::data_t> backlog; };

static std::map<uint64_t, std::pair<std::shared_ptr<net::Link>, int>>& pending_links() { static auto* m = new std::map<uint64_t, std::pair<std::shared_ptr<net::Link>, int>>; return *m; }

MsgServer::MsgServer(const std::string& name) : MsgServerBase(name) {}
MsgServer::~MsgServer() {
	auto m = sim::machine();
	for(auto it = net::S().listeners.begin(); it != net::S().listeners.end();) { if(it->second.second == this) it = net::S().listeners.erase(it); else ++it; }
	(void)m;
	for(auto& c : conns) net::break_link(c.second->link, "server closed");
	auto links = net::S().links;
	for(auto& l : links) for(int i = 0; i < 2; ++i) if(l.second->e[i].server == this) net::break_link(l.second, "server closed");
	for(auto& l : links) for(int i = 0; i < 2; ++i) if(l.second->e[i].server == this) l.second->e[i].server = nullptr;
}
void MsgServer::init() {
	auto m = sim::machine();
	net::hook(m);
	if(port > 0) net::S().listeners[{m->id, port}] = {m->inc, this};
}
void MsgServer::main() {
	if(port > 0) { auto m = sim::machine(); net::S().listeners[{m->id, port}] = {m->inc, this}; }
	if(stats_interval_ms > 0) set_timer_millis(stats_interval_ms, [this]() { print_stats(); });
	Module::main();
	auto m = sim::machine();
	auto it = net::S().listeners.find({m->id, port});
	if(it != net::S().listeners.end() && it->second.second == this) net::S().listeners.erase(it);
	for(auto& c : conns) net::break_link(c.second->link, "server stopped");
	conns.clear();
}
size_t MsgServer::num_peers() const { return conns.size(); }
uint64_t MsgServer::connect_client(const TcpEndpoint& peer) {
	auto& s = net::S();
	const auto id = s.next_id++;
	const auto client = uint64_t(2) << 32 | id;
	auto me = sim::machine(); const auto inc = me->inc;
	const auto host_name = peer.host_name; const int rport = peer.port;
	const bool fail = net::policy.connect_fail > 0 && sim::flip(sim::S_NET, net::policy.connect_fail);
	net::at(sim::now_us() + 2 * net::latency(), [=]() {
		if(!me->alive || me->inc != inc) return;
		if(std::find_if(me->alive ? net::S().listeners.begin() : net::S().listeners.end(), net::S().listeners.end(), [=](const std::pair<const std::pair<int,int>, std::pair<uint64_t, MsgServer*>>& e) { return e.second.second == this; }) == net::S().listeners.end() && port > 0) return;
		auto tm = net::find_machine(host_name);
		auto srv = net::listener(tm, rport);
		const bool full = srv && srv->max_connections >= 0 && srv->conns.size() >= size_t(srv->max_connections);
		if(fail || !srv || full || net::is_cut(me->id, tm->id) || tm == me) {
			if(fail) sim::count("net_connect_failed");
			vnx_post([this, client, host_name]() { on_disconnect(client, host_name); });
			return;
		}
		auto l = std::make_shared<net::Link>();
		l->id = id;
		l->e[0].m = me; l->e[0].inc = inc; l->e[0].server = this; l->e[0].client = client; l->e[0].ip = net::address(me); l->e[0].remote_host = host_name;
		l->e[1].m = tm; l->e[1].inc = tm->inc; l->e[1].server = srv; l->e[1].client = uint64_t(1) << 32 | id; l->e[1].ip = net::address(tm); l->e[1].remote_host = net::address(me);
		net::S().links[id] = l;
		sim::trace("net: link %llu %s-%s connected", (unsigned long long)id, l->e[0].ip.c_str(), l->e[1].ip.c_str());
		const auto rc = l->e[1].client; const auto rh = l->e[1].remote_host;
		vnx_post([this, client, host_name]() { net_connected(client, host_name); });
		srv->vnx_post([srv, rc, rh]() { srv->net_connected(rc, rh); });
	});
	return client;
}
void MsgServer::net_connected(uint64_t client, const std::string& host) {
	auto it = net::S().links.find(client & 0xffffffffu);
	if(it == net::S().links.end()) { on_disconnect(client, host); return; }
	auto c = std::make_shared<conn_t>();
	c->link = it->second; c->side = it->second->e[0].client == client && it->second->e[0].server == this ? 0 : 1; c->host = host;
	conns[client] = c;
	on_connect(client, host);
}
void MsgServer::net_disconnected(uint64_t client, const std::string& host) {
	if(!conns.erase(client)) return;
	on_disconnect(client, host);
}
void MsgServer::net_deliver(uint64_t client, std::shared_ptr<const std::vector<uint8_t>> d) {
	auto it = conns.find(client);
	if(it == conns.end()) return;
	auto c = it->second;
	if(c->is_paused) { c->backlog.push_back(d); return; }
	if(int64_t(d->size()) > max_msg_size) { disconnect(client); return; }
	std::shared_ptr<Value> v;
	try {
		struct In : InputStream { const std::vector<uint8_t>& d; size_t p = 0; In(const std::vector<uint8_t>& d) : d(d) {} size_t read(void* b, size_t n) override { n = std::min(n, d.size() - p); ::memcpy(b, d.data() + p, n); p += n; return n; } } in(*d);
		TypeInput ti(&in);
		ti.safe_read = true;
		v = read_any(ti);
	} catch(const std::exception& ex) {
		sim::count("net_unreadable_message");
		disconnect(client);
		return;
	}
	try { if(auto p = get_peer_base(client)) p->bytes_recv += d->size(); } catch(...) {}
	if(!v) return;
	try { on_msg(client, v); }
	catch(const std::exception& ex) {
		sim::count("on_msg_exception");
		sim::trace_quiet("on_msg(%s) failed with: %s", v->get_type_name().c_str(), ex.what());
		disconnect(client);
	}
}
void MsgServer::net_drained(uint64_t client) { if(conns.count(client)) on_resume(client); }
void MsgServer::disconnect(uint64_t client) {
	auto it = conns.find(client);
	if(it == conns.end()) return;
	auto c = it->second;
	conns.erase(it);
	net::break_link(c->link, "disconnect");
	on_disconnect(client, c->host);
}
void MsgServer::pause(uint64_t client) { auto it = conns.find(client); if(it != conns.end()) it->second->is_paused = true; }
void MsgServer::resume(uint64_t client) {
	auto it = conns.find(client);
	if(it == conns.end() || !it->second->is_paused) return;
	auto c = it->second;
	c->is_paused = false;
	auto q = std::move(c->backlog);
	c->backlog.clear();
	for(auto& d : q) add_task([this, client, d]() { net_deliver(client, d); });
}
bool MsgServer::send_to(std::shared_ptr<peer_t> peer, std::shared_ptr<const vnx::Value> msg) {
	if(!peer || !msg) return false;
	auto it = conns.find(peer->client);
	if(it == conns.end() || !it->second->link->open) return false;
	auto c = it->second;
	const auto d = net::serialise(msg);
	peer->bytes_send += d->size(); peer->bytes_send_raw += d->size();
	peer->write_queue_size += d->size();
	const size_t limit = max_write_queue > 0 ? max_write_queue : 262144;
	if(!peer->is_blocked_ && peer->write_queue_size > limit) { peer->is_blocked_ = true; sim::count("net_write_blocked"); on_pause(peer->client); }
	auto me = sim::machine(); const auto inc = me->inc;
	std::weak_ptr<peer_t> wp = peer; const auto n = d->size(); const auto client = peer->client;
	net::transmit(c->link, c->side, d, [this, me, inc, wp, n, client]() {
		if(!me->alive || me->inc != inc) return;
		auto p = wp.lock();
		if(!p) return;
		p->write_queue_size -= std::min<size_t>(p->write_queue_size, n);
		if(p->is_blocked_ && p->write_queue_size == 0) { p->is_blocked_ = false; vnx_post([this, client]() { net_drained(client); }); }
	});
	return true;
}
}}
