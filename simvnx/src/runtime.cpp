// simvnx runtime implementation: files, configuration, logging, thread pool, modules, messaging, timers
#include <simvnx/vnx.h>
#include <simvnx/sim_internal.h>
#include <ctime>

namespace vnx {

// ------------------------------------------------------------------ utilities
uint64_t rand64() { return sim::rnd64(); }
void secure_random_bytes(void* data, size_t n) { auto p = (uint8_t*)data; for(size_t i = 0; i < n; ++i) p[i] = uint8_t(sim::rnd64() >> 13); }
std::string to_hex_string(const void* data, size_t n, bool big_endian, bool lower_case) {
	static const char up[] = "0123456789ABCDEF", lo[] = "0123456789abcdef";
	const char* tab = lower_case ? lo : up;
	std::string out;
	auto p = (const uint8_t*)data;
	for(size_t i = 0; i < n; ++i) { const auto b = p[big_endian ? n - i - 1 : i]; out += tab[b >> 4]; out += tab[b & 15]; }
	return out;
}
std::vector<uint8_t> from_hex_string(const std::string& s_) {
	std::string s = s_;
	if(s.size() >= 2 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s = s.substr(2);
	auto dig = [](char c) -> int { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
	std::vector<uint8_t> out;
	for(size_t i = 0; i + 1 < s.size(); i += 2) {
		const int a = dig(s[i]), b = dig(s[i + 1]);
		if(a < 0 || b < 0) throw std::runtime_error("invalid hex string");
		out.push_back(a * 16 + b);
	}
	return out;
}
int64_t get_wall_time_micros() { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return int64_t(ts.tv_sec) * 1000000 + ts.tv_nsec / 1000; }
int64_t get_wall_time_millis() { return get_wall_time_micros() / 1000; }
int64_t get_wall_time_seconds() { return get_wall_time_micros() / 1000000; }
std::string get_date_string_ex(const std::string& fmt, bool, int64_t t_) {
	time_t t = t_ >= 0 ? t_ : get_wall_time_seconds();
	struct tm tm; gmtime_r(&t, &tm);
	char buf[256]; buf[0] = 0; strftime(buf, sizeof(buf), fmt.c_str(), &tm);
	return buf;
}
std::string get_date_string(bool full, int64_t t) { return get_date_string_ex(full ? "%Y%m%d_%H%M%S" : "%Y-%m-%d %H:%M:%S", false, t); }
std::vector<std::string> string_split(const std::string& s, char sep, bool clean) {
	std::vector<std::string> out; std::string cur;
	for(char c : s) { if(c == sep) { if(!clean || cur.size()) out.push_back(cur); cur.clear(); } else cur += c; }
	if(!clean || cur.size()) out.push_back(cur);
	return out;
}
std::string string_subs(const std::string& s, const std::string& a, const std::string& b) {
	std::string out = s; size_t p = 0;
	while(a.size() && (p = out.find(a, p)) != std::string::npos) { out.replace(p, a.size(), b); p += b.size(); }
	return out;
}
std::string resolve_host(const std::string& host) { return host; }
bool is_valid_ip_addr(const std::string& s) { int n = 0; for(char c : s) { if(c == '.') n++; else if(c < '0' || c > '9') return false; } return n == 3; }
std::string get_host_name() { return sim::machine() ? sim::machine()->name : "host"; }
std::string input_password(const std::string&) { return ""; }
std::shared_ptr<const Session> get_session(const Hash64&) { return nullptr; }

// ------------------------------------------------------------------ files
size_t FileSectionInputStream::read(void* buf, size_t n) {
	if(left == 0 || !file) return 0;
	if(left > 0) n = std::min<size_t>(n, left);
	if(cap) n = std::min(n, cap);
	n = file->pread(buf, n, pos);
	pos += n;
	if(left > 0) left -= n;
	return n;
}
File::~File() {
	if(file) { try { out.flush(); } catch(...) {} file->close(true); }
}
void File::open(const std::string& mode) {
	close();
	auto f = sim::disk_open(path_, mode);
	in.reset(); out.reset(); in.set_total(0);
	write_pos = f->append ? f->node->data.size() : 0;
	out = TypeOutput(this);
	out.set_total(write_pos);
	file = f;
}
void File::close() {
	if(!file) return;
	auto f = file;
	try { out.flush(); } catch(...) { f->close(true); file = nullptr; throw; }
	file = nullptr;
	f->close(false);
}
void File::flush() {
	if(!file) return;
	out.flush();
	file->flush();
}
void File::seek_to(int64_t pos) {
	if(!file) throw std::logic_error("File::seek_to(): not open");
	out.flush();
	in.reset();
	file->seek(pos);
	in.set_total(pos);
	if(!file->append) { write_pos = pos; out.set_total(pos); }
}
void File::seek_end() { seek_to(file ? file_size() : 0); }
void File::lock_exclusive() { if(file && !file->lock_exclusive()) throw std::runtime_error("flock('" + path_ + "') failed: resource temporarily unavailable"); }
void File::unlock() { if(file) file->unlock(); }
void File::remove() { if(file) { auto f = file; file = nullptr; out.reset(); f->wbuf.clear(); f->close(true); } sim::disk_remove(path_); }
void File::rename(const std::string& new_path) { close(); sim::disk_rename(path_, new_path); path_ = new_path; }
bool File::exists() const { return sim::disk_exists(path_); }
int64_t File::file_size() const {
	if(file && file->node) return std::max<int64_t>(file->node->data.size(), file->wbuf.empty() ? 0 : file->wbuf_pos + file->wbuf.size());
	auto m = sim::machine();
	auto p = path_;
	while(p.find("//") != std::string::npos) p.erase(p.find("//"), 1);
	auto it = m->disk->files.find(p);
	if(it == m->disk->files.end()) throw std::runtime_error("stat('" + path_ + "') failed with: No such file or directory");
	return it->second->data.size();
}
int64_t File::last_write_time() const { return get_wall_time_seconds(); }
int64_t File::get_input_pos() const { return in.get_input_pos(); }
int64_t File::get_output_pos() const { return write_pos + int64_t(out.get_buffer_pos()); }
std::string File::get_name(bool with_ext) const {
	auto n = path_.substr(path_.find_last_of('/') == std::string::npos ? 0 : path_.find_last_of('/') + 1);
	if(!with_ext && n.find_last_of('.') != std::string::npos) n = n.substr(0, n.find_last_of('.'));
	return n;
}
std::string File::get_extension() const { auto n = get_name(); auto p = n.find_last_of('.'); return p == std::string::npos ? "" : n.substr(p); }
size_t File::read(void* buf, size_t n) {
	if(!file) throw std::logic_error("File::read(): not open");
	if(out.get_buffer_pos()) out.flush();
	return file->read(buf, n);
}
void File::write(const void* buf, size_t n) {
	if(!file) throw std::logic_error("File::write(): not open");
	file->write(buf, n);
	write_pos += n;
}
void Directory::create() { sim::disk_mkdir(path); }
bool Directory::exists() const { return sim::disk_exists(path); }
std::vector<std::shared_ptr<File>> Directory::files() const {
	std::vector<std::shared_ptr<File>> out;
	for(auto& f : sim::disk_list(path, false)) out.push_back(std::make_shared<File>(f));
	return out;
}
std::vector<std::shared_ptr<File>> Directory::all_files() const {
	auto out = files();
	for(auto& d : directories()) for(auto& f : d->all_files()) out.push_back(f);
	return out;
}
std::vector<std::shared_ptr<Directory>> Directory::directories() const {
	std::vector<std::shared_ptr<Directory>> out;
	for(auto& d : sim::disk_list(path, true)) out.push_back(std::make_shared<Directory>(d));
	return out;
}
std::string Directory::get_name() const { auto p = path; while(p.size() && p.back() == '/') p.pop_back(); return p.substr(p.find_last_of('/') == std::string::npos ? 0 : p.find_last_of('/') + 1); }
void Directory::remove() { sim::machine()->disk->dirs.erase(path); }
std::shared_ptr<Value> read_from_file(const std::string& path) {
	File f(path);
	if(!f.exists()) return nullptr;
	f.open("rb");
	auto v = read_any(f.in);
	f.close();
	return v;
}
void write_to_file_any(const std::string& path, const Value* v) {
	File f(path);
	f.open("wb");
	write_any(f.out, v);
	f.flush();
	f.close();
}
Object read_config_file(const std::string& path) {
	auto it = sim::machine()->disk->files.find(path);
	if(it == sim::machine()->disk->files.end()) return Object();
	std::istringstream ss(it->second->data);
	return vnx::read(ss).to_object();
}
void write_config_file(const std::string& path, const Object& o) {
	File f(path);
	f.open("wb");
	const auto s = o.to_string();
	f.out.write(s.data(), s.size());
	f.flush(); f.close();
}

// ------------------------------------------------------------------ logging
LogOut::LogOut(int l, const std::string& n) : level(l), name(n) {
	if(sim::verbosity() >= (level <= 2 ? 1 : 2)) ss = std::make_unique<std::ostringstream>();
}
LogOut::~LogOut() {
	if(ss) {
		static const char* const lv[] = {"", "ERROR", "WARN", "INFO", "DEBUG"};
		sim::log_line(std::string("LOG ") + lv[level < 5 ? level : 4] + " [" + name + "] " + ss->str());
	}
}

// ------------------------------------------------------------------ thread pool
uint64_t ThreadPool::task_errors = 0;
struct ThreadPool::impl_t {
	std::deque<std::pair<int64_t, std::function<void()>>> queue;
	std::set<int64_t> pending;
	int max_threads = 1, max_queue = -1, idle = 0, running = 0, threads = 0;
	int64_t next = 1;
	bool closing = false;
	char k_work, k_done;
	sim::Machine* m = nullptr;
	std::vector<sim::Fiber*> fibers;
};
ThreadPool::ThreadPool(int n, int q) : p(std::make_shared<impl_t>()) {
	p->max_threads = n > 0 ? n : 4;
	p->max_queue = q;
}
ThreadPool::~ThreadPool() { close(); }
void ThreadPool::worker(std::shared_ptr<impl_t> p) {
	while(true) {
		while(p->queue.empty()) {
			if(p->closing) { p->threads--; sim::wake_all(&p->k_done); return; }
			p->idle++;
			sim::block(&p->k_work, "pool_idle");
			p->idle--;
		}
		auto t = std::move(p->queue.front());
		p->queue.pop_front();
		sim::wake_all(&p->k_done);		// queue space
		p->running++;
		sim::point("pool_task");
		try { t.second(); }
		catch(const std::exception& ex) {
			task_errors++;
			sim::count("pool_task_exception");
			sim::trace("ThreadPool task failed with: %s", ex.what());
		}
		t.second = nullptr;
		p->running--;
		p->pending.erase(t.first);
		sim::wake_all(&p->k_done);
	}
}
int64_t ThreadPool::add_task(const std::function<void()>& fn) {
	while(p->max_queue >= 0 && p->queue.size() > size_t(p->max_queue)) sim::block(&p->k_done, "pool_queue");
	const auto id = p->next++;
	if(!sim::in_sim()) { fn(); return id; }
	p->queue.emplace_back(id, fn);
	p->pending.insert(id);
	if(p->idle == 0 && p->threads < p->max_threads) {
		p->threads++;
		auto q = p;
		p->fibers.push_back(sim::spawn(sim::machine(), "pool", [q]() { worker(q); }));
	} else {
		sim::wake_one(&p->k_work);
	}
	sim::point("pool_add");
	return id;
}
void ThreadPool::sync() { while(!p->pending.empty()) sim::block(&p->k_done, "pool_sync"); }
void ThreadPool::sync(const std::vector<int64_t>& ids) {
	for(auto id : ids) while(p->pending.count(id)) sim::block(&p->k_done, "pool_sync");
}
void ThreadPool::close() {
	if(!p->threads || !sim::in_sim()) return;
	p->closing = true;
	sim::wake_all(&p->k_work);
	while(p->threads > 0) {
		bool alive = false;
		for(auto f : p->fibers) if(!sim::finished(f)) alive = true;
		if(!alive) break;
		sim::block(&p->k_done, "pool_close", 1000000);
		sim::wake_all(&p->k_work);
	}
	p->closing = false;
	p->fibers.clear();
}
size_t ThreadPool::get_num_pending() const { return p->queue.size(); }
size_t ThreadPool::get_num_pending_total() const { return p->pending.size(); }
size_t ThreadPool::get_num_running() const { return p->running; }

// ------------------------------------------------------------------ process
static Process g_default_process;
Process* process() {
	auto m = sim::machine();
	if(!m) return &g_default_process;
	if(!m->process) init_process(m);
	return (Process*)m->process.get();
}
void init_process(sim::Machine* m) {
	auto p = new Process();
	p->m = m;
	m->process = std::shared_ptr<void>(p, [](void*) {});		// a crashed process is leaked on purpose
}
bool do_run() { return process()->do_run; }
void trigger_shutdown() {
	auto* p = process();
	p->do_run = false;
	for(auto* m : p->modules) { m->vnx_exiting = true; m->vnx_wake(); }
}
void wait() { auto* p = process(); sim::wait_until([p]() { return p->running_modules == 0; }, -1); }
void close() {}
Variant get_config(const std::string& name) { auto* p = process(); auto it = p->config.find(name); return it != p->config.end() ? it->second : Variant(); }
bool is_config_protected(const std::string& name) { auto* p = process(); auto it = p->config_protected.find(name); return it != p->config_protected.end() && it->second; }
std::map<std::string, Variant> get_all_configs() { return process()->config; }

std::shared_ptr<Pipe> open_pipe(const std::string& name, ModuleBase* m, int64_t q) { return open_pipe(Hash64(name), m, q); }
std::shared_ptr<Pipe> open_pipe(const Hash64& addr, ModuleBase* m, int64_t) {
	auto* mod = dynamic_cast<Module*>(m);
	auto pipe = std::make_shared<Pipe>();
	pipe->module = mod; pipe->proc = process(); pipe->addr = addr;
	process()->services[addr] = mod;
	sim::wake_all(process());
	return pipe;
}
std::shared_ptr<Pipe> get_pipe(const Hash64& addr) {
	auto* p = process();
	auto it = p->services.find(addr);
	if(it == p->services.end()) return nullptr;
	auto pipe = std::make_shared<Pipe>();
	pipe->module = it->second; pipe->proc = p; pipe->addr = addr;
	return pipe;
}

// ------------------------------------------------------------------ messaging
std::function<void(uint64_t)> sim_on_unknown_return;		// a request that is not pending (any more) was answered
static void complete(Process* p, uint64_t id, std::shared_ptr<const Value> value) {
	auto it = p->pending.find(id);
	if(it == p->pending.end()) { if(sim_on_unknown_return) sim_on_unknown_return(id); return; }
	auto pend = it->second;
	p->pending.erase(it);
	pend->done = true;
	pend->value = value;
	if(pend->reply_to) {
		Module::msg_t msg; msg.kind = 3; msg.ret = pend;
		pend->reply_to->vnx_push(msg);
	} else {
		sim::wake_all(pend.get());
	}
}
void post_request(Process* p, const Hash64& addr, const Hash64& session, std::shared_ptr<const Value> method, std::shared_ptr<pending_t> pend) {
	const auto id = p->next_request++;
	p->pending[id] = pend;
	auto it = p->services.find(addr);
	if(it == p->services.end() || !it->second) {
		auto ex = NoSuchService::create(); ex->what = "no such service: " + addr.to_string();
		complete(p, id, ex);
		return;
	}
	auto req = std::make_shared<RequestInfo>();
	req->id.id = id; req->id.src = 1; req->session = session; req->method = method;
	pend->target = it->second;
	Module::msg_t msg; msg.kind = 1; msg.request = req;
	auto pi = p->paused_pipes.find(addr.value);
	if(pi != p->paused_pipes.end()) { auto* m = it->second; pi->second.push_back([m, msg]() { m->vnx_push(msg); }); return; }
	it->second->vnx_push(msg);
}
void Pipe::pause() { proc->paused_pipes[addr.value]; }
void Pipe::resume() {
	auto it = proc->paused_pipes.find(addr.value);
	if(it == proc->paused_pipes.end()) return;
	auto q = std::move(it->second);
	proc->paused_pipes.erase(it);
	for(auto& f : q) f();
}
std::shared_ptr<const Value> Client::vnx_request(std::shared_ptr<const Value> method, bool is_async) {
	auto* p = process();
	auto pend = std::make_shared<pending_t>();
	post_request(p, vnx_addr, vnx_session, method, pend);
	if(is_async) return nullptr;
	while(!pend->done) sim::block(pend.get(), "client_request");
	if(auto ex = std::dynamic_pointer_cast<const Exception>(pend->value)) throw exception(ex);
	return pend->value;
}
static std::map<uint64_t, AsyncClient*>& async_clients() { static auto* m = new std::map<uint64_t, AsyncClient*>(); return *m; }
static uint64_t g_async_uid = 0;
AsyncClient::~AsyncClient() { if(vnx_uid) async_clients().erase(vnx_uid); }
void AsyncClient::vnx_request(std::shared_ptr<const Value> method, uint64_t id) {
	if(!vnx_owner) sim::harness_error("AsyncClient without owner module");
	auto pend = std::make_shared<pending_t>();
	pend->reply_to = vnx_owner;
	pend->client = (AsyncClient*)vnx_uid;
	pend->client_req = id;
	post_request(vnx_owner->vnx_proc, vnx_addr, Hash64(), method, pend);
}

// ------------------------------------------------------------------ modules
void Timer::reset() { deadline = sim::now_us() + interval_us; active = true; if(module) module->vnx_wake(); }
static uint64_t g_module_uid = 0;
Module::Module(const std::string& name) {
	vnx_name = name;
	vnx_id = Hash64(0x4d4f44ull << 32 | ++g_module_uid);
	vnx_proc = process();
}
Module::~Module() {
	auto* p = vnx_proc;
	for(auto it = p->services.begin(); it != p->services.end();) { if(it->second == this) it = p->services.erase(it); else ++it; }
	for(auto& e : p->topics) { auto& v = e.second; v.erase(std::remove_if(v.begin(), v.end(), [this](const std::pair<Module*, int64_t>& a) { return a.first == this; }), v.end()); }
	p->modules.erase(std::remove(p->modules.begin(), p->modules.end(), this), p->modules.end());
}
void Module::vnx_wake() const { sim::wake_all(this); }
void Module::vnx_push(msg_t msg) {
	if(vnx_finished) {
		if(msg.kind == 1) { auto ex = NoSuchService::create(); ex->what = "service has shut down"; complete(vnx_proc, msg.request->id.id, ex); }
		return;
	}
	msg.time = sim::now_us();
	vnx_queue.push_back(std::move(msg));
	vnx_wake();
	sim::point("msg_push");
}
void Module::vnx_call(std::shared_ptr<const RequestInfo> req) {
	vnx_request = req;
	std::shared_ptr<const Value> ret;
	try {
		ret = vnx_call_switch(req->method, req->id);
	} catch(const exception& ex) {
		ret = ex.value() ? ex.value() : Exception::from_what(ex.what());
	} catch(const std::exception& ex) {
		auto e = InternalError::create(); e->what = ex.what(); ret = e;
	}
	vnx_request = nullptr;
	if(ret) complete(vnx_proc, req->id.id, ret);
}
void Module::vnx_process(msg_t& msg) {
	switch(msg.kind) {
		case 0:
			vnx_sample = msg.sample;
			try { vnx_handle_switch(msg.sample->value); }
			catch(const std::exception& ex) { sim::count("handler_exception"); sim::trace("%s: handle() of %s failed with: %s", vnx_name.c_str(), msg.sample->value->get_type_name().c_str(), ex.what()); }
			vnx_sample = nullptr;
			break;
		case 1: vnx_call(msg.request); break;
		case 2:
			try { msg.task(); }
			catch(const std::exception& ex) { sim::count("task_exception"); sim::trace("%s: task failed with: %s", vnx_name.c_str(), ex.what()); }
			break;
		case 3: {
			auto it = async_clients().find((uint64_t)msg.ret->client);
			if(it == async_clients().end()) break;
			auto* c = it->second;
			try {
				if(auto ex = std::dynamic_pointer_cast<const Exception>(msg.ret->value)) c->vnx_purge_request(msg.ret->client_req, exception(ex));
				else c->vnx_callback_switch(msg.ret->client_req, msg.ret->value);
			} catch(const std::exception& ex) { sim::count("callback_exception"); sim::trace("%s: async callback failed with: %s", vnx_name.c_str(), ex.what()); }
			break;
		}
	}
}
void Module::main() {
	while(vnx_do_run()) {
		std::shared_ptr<Timer> due;
		int64_t next = -1;
		const auto now = sim::now_us();
		for(auto& t : vnx_timers) {
			if(!t->active) continue;
			if(t->deadline <= now) { if(!due || t->deadline < due->deadline) due = t; }
			if(next < 0 || t->deadline < next) next = t->deadline;
		}
		if(due && (vnx_queue.empty() || !sim::policy.pick_random || !sim::flip(sim::S_SCHED, 0.5))) {
			if(due->repeat) due->deadline = std::max(due->deadline + due->interval_us, now + 1);
			else due->active = false;
			if(due->once) vnx_timers.erase(std::find(vnx_timers.begin(), vnx_timers.end(), due));
			try { due->fn(); }
			catch(const std::exception& ex) { sim::count("timer_exception"); sim::trace("%s: timer failed with: %s", vnx_name.c_str(), ex.what()); }
			continue;
		}
		if(!vnx_queue.empty()) {
			auto msg = std::move(vnx_queue.front());
			vnx_queue.pop_front();
			sim::wake_all(&vnx_queue);
			vnx_process(msg);
			sim::point("module_loop");
			continue;
		}
		sim::block(this, "module", next >= 0 ? std::max<int64_t>(next - now, 0) : -1);
	}
}
void Module::vnx_thread_main() {
	try {
		init();
		vnx_init_done = true;
		sim::wake_all(this);
		main();
	} catch(const std::exception& ex) {
		sim::count("module_exception");
		sim::trace("module %s failed with: %s", vnx_name.c_str(), ex.what());
		if(!vnx_init_done) vnx_init_failed = true;
	}
	vnx_exiting = true;
	vnx_finished = true;
	vnx_init_done = true;
	auto* p = vnx_proc;
	for(auto it = p->services.begin(); it != p->services.end();) { if(it->second == this) it = p->services.erase(it); else ++it; }
	for(auto& m : vnx_queue) if(m.kind == 1) { auto ex = NoSuchService::create(); ex->what = "service has shut down"; complete(p, m.request->id.id, ex); }
	vnx_queue.clear();
	std::vector<uint64_t> ids;
	for(auto& e : p->pending) if(e.second->target == this) ids.push_back(e.first);
	for(auto id : ids) { auto ex = NoSuchService::create(); ex->what = "service has shut down"; complete(p, id, ex); }
	p->running_modules--;
	sim::wake_all(this);
	if(vnx_detached) delete this;
}
void start_module(Module* m) {
	auto* p = process();
	m->vnx_proc = p;
	p->modules.push_back(m);
	p->services[m->vnx_get_id()] = m;
	p->running_modules++;
	const bool det = m->vnx_detached;
	auto* fib = sim::spawn(sim::machine(), m->vnx_name.empty() ? "module" : m->vnx_name, [m]() { m->vnx_thread_main(); });
	m->vnx_fiber = fib;
	while(!sim::finished(fib) && !m->vnx_init_done) { sim::block(m, "module_init", 1000); if(det && sim::finished(fib)) break; }
}
std::function<void(const Module*)> sim_on_subscribe;
void Module::subscribe(const TopicPtr& topic, int64_t max_queue_ms) {
	if(sim_on_subscribe) sim_on_subscribe(this);
	if(topic.name.empty()) return;
	for(auto& e : vnx_proc->topics[topic.name]) if(e.first == this) { e.second = max_queue_ms; return; }
	vnx_proc->topics[topic.name].emplace_back(this, max_queue_ms);
}
void Module::publish(std::shared_ptr<const Value> value, const TopicPtr& topic, int flags) const {
	if(!value || topic.name.empty()) return;
	auto s = std::make_shared<Sample>();
	s->topic = topic; s->recv_time = get_wall_time_micros(); s->value = value; s->src_mac = vnx_id; s->seq_num = sim::rnd64();
	auto* p = vnx_proc;
	auto tp = p->taps.find(topic.name);
	if(tp != p->taps.end()) for(auto& f : tp->second) f(*s);
	auto it = p->topics.find(topic.name);
	if(it == p->topics.end()) return;
	const auto subs = it->second;
	for(auto& e : subs) {
		if(e.second > 0 && !(flags & BLOCKING)) {
			bool old = false;
			for(auto& m : e.first->vnx_queue) if(m.kind == 0) { old = sim::now_us() - m.time > e.second * 1000; break; }
			if(old) { p->dropped++; sim::count("samples_dropped"); continue; }
		}
		msg_t msg; msg.kind = 0; msg.sample = s;
		e.first->vnx_push(msg);
	}
}
std::shared_ptr<Timer> Module::set_timer_millis(int64_t ms, const std::function<void()>& fn) {
	auto t = std::make_shared<Timer>();
	t->fn = fn; t->module = this; t->repeat = true; t->interval_us = ms * 1000;
	vnx_timers.push_back(t);
	t->reset();
	return t;
}
std::shared_ptr<Timer> Module::set_timeout_millis(int64_t ms, const std::function<void()>& fn) {
	auto t = std::make_shared<Timer>();
	t->fn = fn; t->module = this; t->once = true; t->interval_us = ms * 1000;
	vnx_timers.push_back(t);
	t->reset();
	return t;
}
std::shared_ptr<Timer> Module::add_timer(const std::function<void()>& fn) {
	auto t = std::make_shared<Timer>();
	t->fn = fn; t->module = this;
	vnx_timers.push_back(t);
	return t;
}
void Module::add_task(const std::function<void()>& fn) const {
	msg_t msg; msg.kind = 2; msg.task = fn;
	const_cast<Module*>(this)->vnx_push(msg);
}
void Module::add_async_client(std::shared_ptr<AsyncClient> c) {
	c->vnx_owner = this;
	c->vnx_uid = ++g_async_uid;
	async_clients()[c->vnx_uid] = c.get();
	vnx_async.push_back(c);
}
void Module::vnx_async_return(const request_id_t& id, std::shared_ptr<const Value> value) const { complete(vnx_proc, id.id, value); }
void Module::vnx_async_return_ex(const request_id_t& id, const std::exception& ex) const {
	if(auto* e = dynamic_cast<const exception*>(&ex)) { if(e->value()) { complete(vnx_proc, id.id, e->value()); return; } }
	vnx_async_return_ex_what(id, ex.what());
}
void Module::vnx_async_return_ex_what(const request_id_t& id, const std::string& what) const {
	auto e = InternalError::create(); e->what = what;
	complete(vnx_proc, id.id, e);
}

// ------------------------------------------------------------------ endpoints, module interface types
std::shared_ptr<Endpoint> Endpoint::from_url(const std::string& url) {
	auto e = TcpEndpoint::create();
	auto s = url;
	if(s.find("tcp://") == 0) s = s.substr(6);
	auto p = s.find(':');
	e->host_name = s.substr(0, p);
	e->port = p == std::string::npos ? TcpEndpoint::default_port : std::atoi(s.substr(p + 1).c_str());
	return e;
}
static std::map<uint64_t, std::shared_ptr<TypeCode>>& mi_codes() { static auto* m = new std::map<uint64_t, std::shared_ptr<TypeCode>>(); return *m; }
static const TypeCode* mi_code(const char* name, Hash64 h, Hash64 c) {
	auto& p = mi_codes()[h.value];
	if(!p) { p = std::make_shared<TypeCode>(); p->name = name; p->type_hash = h; p->code_hash = c; p->is_class = true; }
	return p.get();
}
#define SIMVNX_DEF(NS, NAME, HASH) const Hash64 NAME::VNX_TYPE_HASH(HASH); const Hash64 NAME::VNX_CODE_HASH(uint64_t(HASH) ^ 0x5555); \
	const TypeCode* NAME::static_get_type_code() { return mi_code(NS #NAME, VNX_TYPE_HASH, VNX_CODE_HASH); }
SIMVNX_DEF("vnx.", ModuleInterface_vnx_get_config, 0xbbc7f1a01044d294ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_get_config_return, 0x1111000000000001ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_get_config_object, 0x17f58f68bf83abc0ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_get_config_object_return, 0x1111000000000002ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_set_config, 0x362aac91373958b7ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_set_config_return, 0x1111000000000003ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_set_config_object, 0xca30f814f17f322full)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_set_config_object_return, 0x1111000000000004ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_get_type_code, 0x305ec4d628960e5dull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_get_type_code_return, 0x1111000000000005ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_get_module_info, 0xf6d82bdf66d034a1ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_get_module_info_return, 0x1111000000000006ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_restart, 0x9e95dc280cecca1bull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_restart_return, 0x1111000000000007ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_stop, 0x7ab49ce3d1bfc0d2ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_stop_return, 0x1111000000000008ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_self_test, 0x6ce3775b41a42697ull)
SIMVNX_DEF("vnx.", ModuleInterface_vnx_self_test_return, 0x1111000000000009ull)
namespace addons {
SIMVNX_DEF("vnx.addons.", HttpRequest, 0x1111000000000011ull)
SIMVNX_DEF("vnx.addons.", HttpResponse, 0x1111000000000012ull)
SIMVNX_DEF("vnx.addons.", HttpData, 0x1111000000000013ull)
SIMVNX_DEF("vnx.addons.", HttpComponent_http_request, 0xe0b6c38f619bad92ull)
SIMVNX_DEF("vnx.addons.", HttpComponent_http_request_return, 0x1111000000000014ull)
SIMVNX_DEF("vnx.addons.", HttpComponent_http_request_chunk, 0x97e79d08440406d5ull)
SIMVNX_DEF("vnx.addons.", HttpComponent_http_request_chunk_return, 0x1111000000000015ull)
const TypeCode* TcpServerBase::static_get_type_code() { return mi_code("vnx.addons.TcpServer", 0x1111000000000021ull, 0x1111000000000022ull); }
const TypeCode* MsgServerBase::static_get_type_code() { return mi_code("vnx.addons.MsgServer", 0x1111000000000023ull, 0x1111000000000024ull); }
}

} // vnx
