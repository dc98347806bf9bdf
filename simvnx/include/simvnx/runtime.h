// simvnx runtime: files, configuration, logging, thread pool, modules, messaging, timers, sockets -- all on the simulator
#ifndef SIMVNX_RUNTIME_H
#define SIMVNX_RUNTIME_H

#include <simvnx/sim.h>

namespace vnx {

// ------------------------------------------------------------------ utilities
class CRC64 {
public:
	void update(const char* data, size_t n) { sum = calc_crc64(data, n, sum); }
	template<typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>>
	void update(const T& v) { sum = calc_crc64(&v, sizeof(v), sum); }
	void update(const std::string& s) { update(s.data(), s.size()); }
	uint64_t get() const { return sum; }
private:
	uint64_t sum = 0;
};
class SHA256 {
public:
	SHA256() { reset(); }
	void reset();
	void update(const void* data, size_t n);
	void update(const std::string& s) { update(s.data(), s.size()); }
	std::vector<uint8_t> get_result();
	void finalize(void* out) { const auto r = get_result(); ::memcpy(out, r.data(), 32); }
	std::string get_result_string();
private:
	uint32_t st[8];
	uint64_t total = 0;
	uint8_t blk[64];
	size_t fill = 0;
	void block(const uint8_t* p);
};
uint64_t rand64();
void secure_random_bytes(void* data, size_t n);
std::string to_hex_string(const void* data, size_t n, bool big_endian = false, bool lower_case = false);
std::vector<uint8_t> from_hex_string(const std::string& s);
template<typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
std::string to_hex_string(const T& v) { std::ostringstream ss; ss << std::hex << std::uppercase << uint64_t(v); return ss.str(); }
int64_t get_wall_time_seconds();
int64_t get_wall_time_millis();
int64_t get_wall_time_micros();
inline int64_t get_time_micros() { return get_wall_time_micros(); }
inline int64_t get_time_millis() { return get_wall_time_millis(); }
inline int64_t get_time_seconds() { return get_wall_time_seconds(); }
std::string get_date_string(bool full = false, int64_t t = -1);
std::string get_date_string_ex(const std::string& fmt, bool local = false, int64_t t = -1);
std::vector<std::string> string_split(const std::string& s, char sep, bool clean = false);
std::string string_subs(const std::string& s, const std::string& a, const std::string& b);
std::string resolve_host(const std::string& host);
bool is_valid_ip_addr(const std::string& s);
std::string get_host_name();
std::string input_password(const std::string& prompt);

// ------------------------------------------------------------------ files
class FileSectionInputStream : public InputStream {
public:
	FileSectionInputStream(sim::OpenFile* f, int64_t offset, int64_t length = -1, size_t buf = 4096) : file(f), pos(offset), left(length), cap(buf) {}
	size_t read(void* buf, size_t n) override;
private:
	sim::OpenFile* file;
	int64_t pos, left;
	size_t cap;
};
class File : public InputStream, public OutputStream {
public:
	TypeInput in;
	TypeOutput out;
	File() : in(this), out(this) {}
	File(const std::string& path) : in(this), out(this), path_(path) {}
	File(const File&) = delete;
	File& operator=(const File&) = delete;
	~File();
	void open(const std::string& path, const std::string& mode) { close(); path_ = path; open(mode); }
	void open(const std::string& mode);
	void close();
	void flush() override;
	void seek_to(int64_t pos);
	void seek_begin() { seek_to(0); }
	void seek_end();
	void lock_exclusive();
	void unlock();
	void remove();
	void rename(const std::string& new_path);
	bool exists() const;
	bool is_open() const { return bool(file); }
	bool good() const { return bool(file); }
	int64_t file_size() const;
	int64_t last_write_time() const;
	int64_t get_input_pos() const;
	int64_t get_output_pos() const;
	std::string get_path() const { return path_; }
	std::string get_name(bool with_ext = true) const;
	std::string get_extension() const;
	sim::OpenFile* get_handle() const { return file.get(); }
	size_t read(void* buf, size_t n) override;
	void write(const void* buf, size_t n) override;
private:
	std::string path_;
	std::shared_ptr<sim::OpenFile> file;
	int64_t write_pos = 0;
};
class Directory {
public:
	Directory(const std::string& p) : path(p) {}
	void create();
	bool exists() const;
	std::vector<std::shared_ptr<File>> files() const;
	std::vector<std::shared_ptr<File>> all_files() const;
	std::vector<std::shared_ptr<Directory>> directories() const;
	std::string get_path() const { return path; }
	std::string get_name() const;
	void remove();
private:
	std::string path;
};
std::shared_ptr<Value> read_from_file(const std::string& path);
template<typename T> std::shared_ptr<T> read_from_file(const std::string& path) { return std::dynamic_pointer_cast<T>(read_from_file(path)); }
void write_to_file_any(const std::string& path, const Value* v);
template<typename T> void write_to_file(const std::string& path, const std::shared_ptr<T>& v) { write_to_file_any(path, v.get()); }
template<typename T, typename = std::enable_if_t<std::is_base_of<Value, T>::value>> void write_to_file(const std::string& path, const T& v) { write_to_file_any(path, &v); }
Object read_config_file(const std::string& path);
void write_config_file(const std::string& path, const Object& o);

// ------------------------------------------------------------------ logging
class LogMsg : public Value { public: int level = 0; std::string message, module; };
class LogOut {
public:
	LogOut(int level, const std::string& name);
	LogOut(LogOut&& o) : level(o.level), name(std::move(o.name)), ss(std::move(o.ss)) {}
	~LogOut();
	template<typename T> LogOut& operator<<(const T& v) { if(ss) *ss << v; return *this; }
	LogOut& operator<<(std::ostream& (*f)(std::ostream&)) { return *this; }
private:
	int level;
	std::string name;
	std::unique_ptr<std::ostringstream> ss;
};
inline LogOut log_error() { return LogOut(1, ""); }
inline LogOut log_warn() { return LogOut(2, ""); }
inline LogOut log_info() { return LogOut(3, ""); }
inline LogOut log_debug() { return LogOut(4, ""); }

// ------------------------------------------------------------------ thread pool
class ThreadPool {
public:
	ThreadPool(int num_threads = -1, int max_queue = -1);
	~ThreadPool();
	ThreadPool(const ThreadPool&) = delete;
	int64_t add_task(const std::function<void()>& fn);
	void sync();
	void sync(int64_t id) { sync(std::vector<int64_t>{id}); }
	void sync(const std::vector<int64_t>& ids);
	void close();
	size_t get_num_pending() const;
	size_t get_num_pending_total() const;
	size_t get_num_running() const;
	static uint64_t task_errors;			// exceptions that escaped a pool task (they are logged and dropped)
private:
	struct impl_t;
	static void worker(std::shared_ptr<impl_t>);
	std::shared_ptr<impl_t> p;
};

// ------------------------------------------------------------------ process (one per machine incarnation)
class ModuleBase;
class Module;
class AsyncClient;
struct Sample {
	TopicPtr topic;
	int64_t recv_time = 0;		// [us]
	std::shared_ptr<const Value> value;
	uint64_t src_mac = 0, seq_num = 0;
};
struct RequestInfo {
	request_id_t id;
	Hash64 session;
	std::shared_ptr<const Value> method;
};
struct Process;
class Pipe { public: Module* module = nullptr; Process* proc = nullptr; Hash64 addr; void pause(); void resume(); };
struct pending_t {
	bool done = false;
	std::shared_ptr<const Value> value;
	Module* reply_to = nullptr;			// module owning the async client
	Module* target = nullptr;
	AsyncClient* client = nullptr;
	uint64_t client_req = 0;
};
struct Process {
	sim::Machine* m = nullptr;
	bool do_run = true;
	Hash64 session;
	uint64_t next_request = 1;
	std::map<std::string, Variant> config;
	std::map<std::string, bool> config_protected;
	std::map<Hash64, Module*> services;
	std::map<std::string, std::vector<std::pair<Module*, int64_t>>> topics;
	std::map<std::string, std::vector<std::function<void(const Sample&)>>> taps;	// harness observers
	std::map<uint64_t, std::shared_ptr<pending_t>> pending;
	std::vector<Module*> modules;
	std::map<uint64_t, std::vector<std::function<void()>>> paused_pipes;
	uint64_t dropped = 0;
	int running_modules = 0;
};
Process* process();						// of the current machine
void init_process(sim::Machine* m);		// fresh process state (start and restart)
bool do_run();
void trigger_shutdown();				// stop all modules of the current process
void wait();
void close();

template<typename T> void read_config(const std::string& name, T& value) {
	auto* p = process();
	auto it = p->config.find(name);
	if(it != p->config.end()) it->second.to(value);
}
template<typename T> void read_config(const std::string& name, std::shared_ptr<T>& value) {
	auto* p = process();
	auto it = p->config.find(name);
	if(it == p->config.end()) return;
	typedef typename std::remove_const<T>::type U;
	auto tmp = U::create();
	tmp->from_object(it->second.to_object());
	value = tmp;
}
template<typename T> void write_config(const std::string& name, const T& value) { process()->config[name] = Variant(value); }
template<typename T> void set_config(const std::string& name, const T& value, bool prot = false) { process()->config[name] = Variant(value); if(prot) process()->config_protected[name] = true; }
Variant get_config(const std::string& name);
bool is_config_protected(const std::string& name);
std::map<std::string, Variant> get_all_configs();

std::shared_ptr<Pipe> open_pipe(const std::string& name, ModuleBase* m, int64_t max_queue_ms = 0);
std::shared_ptr<Pipe> open_pipe(const Hash64& addr, ModuleBase* m, int64_t max_queue_ms = 0);
std::shared_ptr<Pipe> get_pipe(const Hash64& addr);
inline std::shared_ptr<Pipe> get_pipe(const std::string& name) { return get_pipe(Hash64(name)); }
inline void open_flow(std::shared_ptr<Pipe>, std::shared_ptr<Pipe>) {}

// ------------------------------------------------------------------ clients
class Client {
public:
	Client(const Hash64& addr) : vnx_addr(addr) {}
	Client(const std::string& name) : vnx_addr(Hash64(name)) {}
	void vnx_set_non_blocking(bool) {}
	void vnx_set_timeout(int64_t) {}
	void vnx_set_session_id(Hash64 s) { vnx_session = s; }
	Hash64 vnx_get_addr() const { return vnx_addr; }
	virtual ~Client() {}
protected:
	std::shared_ptr<const Value> vnx_request(std::shared_ptr<const Value> method, bool is_async);
	Hash64 vnx_addr, vnx_session;
};
class AsyncClient {
public:
	AsyncClient(const Hash64& addr) : vnx_addr(addr) {}
	AsyncClient(const std::string& name) : vnx_addr(Hash64(name)) {}
	virtual ~AsyncClient();
	void vnx_set_non_blocking(bool) {}
	size_t vnx_get_num_pending() const { return vnx_pending.size(); }
	void vnx_set_timeout(int64_t) {}
	virtual int32_t vnx_purge_request(uint64_t id, const exception& ex) = 0;
	virtual int32_t vnx_callback_switch(uint64_t id, std::shared_ptr<const Value> value) = 0;
	Module* vnx_owner = nullptr;
protected:
	void vnx_request(std::shared_ptr<const Value> method, uint64_t id);
	std::atomic<uint64_t> vnx_next_id {0};
	mutable std::mutex vnx_mutex;
	std::unordered_map<uint64_t, int32_t> vnx_pending;
	Hash64 vnx_addr;
	uint64_t vnx_uid = 0;
	friend class Module;
};

// ------------------------------------------------------------------ modules
class Timer {
public:
	void reset();
	void stop() { active = false; }
	void set_millis(int64_t ms) { interval_us = ms * 1000; reset(); }
	void set_micros(int64_t us) { interval_us = us; reset(); }
	bool is_active() const { return active; }
	int64_t interval_us = 0, deadline = 0;
	bool active = false, repeat = false, once = false;
	std::function<void()> fn;
	Module* module = nullptr;
};
class ModuleInfo : public Value { public: std::string name, type; int64_t time = 0; static std::shared_ptr<ModuleInfo> create() { return std::make_shared<ModuleInfo>(); } };

class ModuleBase : public Value {
public:
	enum log_level_e { ERROR = 1, WARN = 2, INFO = 3, DEBUG = 4 };
	enum { BLOCKING = 1 };
	std::string vnx_name;
	Hash64 vnx_get_id() const { return vnx_id; }
protected:
	Hash64 vnx_id;
};
class Module : public ModuleBase {
public:
	Module(const std::string& name);
	~Module() override;
	std::string vnx_get_name() const { return vnx_name; }

	// runtime (used by Handle and by the message router)
	struct msg_t { int kind = 0; std::shared_ptr<const Sample> sample; std::shared_ptr<const RequestInfo> request; std::function<void()> task; std::shared_ptr<pending_t> ret; int64_t time = 0; };
	void vnx_push(msg_t msg);
	void vnx_thread_main();
	sim::Fiber* vnx_fiber = nullptr;
	bool vnx_init_done = false, vnx_finished = false, vnx_init_failed = false, vnx_detached = false;
	size_t vnx_queue_size() const { return vnx_queue.size(); }
	Process* vnx_proc = nullptr;
	// harness access to the protected dispatch of the module (on its own fiber via add_task)
	void vnx_post(std::function<void()> fn) { add_task(fn); }
	void vnx_exit_async() { vnx_exiting = true; vnx_wake(); }
	bool vnx_do_run() const { return !vnx_exiting && vnx_proc->do_run; }

protected:
	virtual void init() {}
	virtual void main();
	void exit() { vnx_exiting = true; vnx_wake(); }
	void subscribe(const TopicPtr& topic, int64_t max_queue_ms = 0);
	void subscribe(const std::string& topic, int64_t max_queue_ms = 0) { subscribe(TopicPtr(topic), max_queue_ms); }
	void unsubscribe(const TopicPtr& topic) {}
	void publish(std::shared_ptr<const Value> value, const TopicPtr& topic, int flags = 0) const;
	template<typename T, typename = std::enable_if_t<!std::is_convertible<T, std::shared_ptr<const Value>>::value>>
	void publish(const T& value, const TopicPtr& topic, int flags = 0) const { publish(std::shared_ptr<const Value>(value.clone()), topic, flags); }
	std::shared_ptr<Timer> set_timer_millis(int64_t ms, const std::function<void()>& fn);
	std::shared_ptr<Timer> set_timeout_millis(int64_t ms, const std::function<void()>& fn);
	std::shared_ptr<Timer> add_timer(const std::function<void()>& fn);
	void add_task(const std::function<void()>& fn) const;
	void add_async_client(std::shared_ptr<AsyncClient> c);
	template<typename T> void add_async_client(std::shared_ptr<T> c) { add_async_client(std::shared_ptr<AsyncClient>(c)); }
	LogOut log(int level) const { return LogOut(level, vnx_name); }
	void vnx_async_return(const request_id_t& id, std::shared_ptr<const Value> value) const;
	void vnx_async_return_ex(const request_id_t& id, const std::exception& ex) const;
	void vnx_async_return_ex_what(const request_id_t& id, const std::string& what) const;

	virtual Variant vnx_get_config(const std::string& name) const { return get_field(name); }
	virtual Object vnx_get_config_object() const { return to_object(); }
	virtual void vnx_set_config(const std::string& name, const Variant& value) { set_field(name, value); }
	virtual void vnx_set_config_object(const Object& o) { from_object(o); }
	virtual TypeCode vnx_get_type_code() const { auto* c = get_type_code(); return c ? *c : TypeCode(); }
	virtual std::shared_ptr<const ModuleInfo> vnx_get_module_info() const { auto m = ModuleInfo::create(); m->name = vnx_name; return m; }
	virtual bool vnx_self_test() { return true; }
	virtual void vnx_stop() { exit(); }
	virtual void vnx_restart() { vnx_want_restart = true; exit(); }
	virtual void handle(std::shared_ptr<const Value> value) {}
	virtual void vnx_handle_switch(std::shared_ptr<const Value> value) { handle(value); }
	using Value::vnx_call_switch;
	virtual std::shared_ptr<Value> vnx_call_switch(std::shared_ptr<const Value> method, const request_id_t& id) { return nullptr; }
	mutable std::shared_ptr<const RequestInfo> vnx_request;
	mutable std::shared_ptr<const Sample> vnx_sample;
	bool vnx_want_restart = false;
private:
	void vnx_wake() const;
	void vnx_process(msg_t& msg);
	void vnx_call(std::shared_ptr<const RequestInfo> req);
	mutable std::deque<msg_t> vnx_queue;
	std::vector<std::shared_ptr<Timer>> vnx_timers;
	std::vector<std::shared_ptr<AsyncClient>> vnx_async;
	bool vnx_exiting = false;
	std::map<std::string, int64_t> vnx_queue_ms;
	uint64_t vnx_max_queue_ms = 0;
	friend class Timer;
	friend void trigger_shutdown();
};
void post_request(Process* p, const Hash64& addr, const Hash64& session, std::shared_ptr<const Value> method, std::shared_ptr<pending_t> pend);
void start_module(Module* m);			// spawn fiber, wait until init() finished

template<typename T>
class Handle {
public:
	Handle() = default;
	Handle(T* m) : ptr(m) {}
	Handle(const Handle&) = delete;
	Handle& operator=(const Handle&) = delete;
	Handle(Handle&& o) : ptr(o.ptr), started(o.started), detached(o.detached) { o.ptr = nullptr; }
	Handle& operator=(Handle&& o) { close(); ptr = o.ptr; started = o.started; detached = o.detached; o.ptr = nullptr; return *this; }
	Handle& operator=(T* m) { close(); ptr = m; started = detached = false; return *this; }
	~Handle() { close(); }
	T* operator->() const { return ptr; }
	T& operator*() const { return *ptr; }
	T* get() const { return ptr; }
	explicit operator bool() const { return ptr; }
	Hash64 get_id() const { return ptr ? ptr->vnx_get_id() : Hash64(); }
	void start() { start_module(ptr); started = true; }
	void start_detached() { ptr->vnx_detached = true; start_module(ptr); detached = true; ptr = nullptr; }
	void stop() { if(ptr) ptr->vnx_exit_async(); }
	void wait() { if(ptr && started) sim::wait_until([this]() { return ptr->vnx_finished; }, -1); }
	void close() { if(ptr) { stop(); if(started) { wait(); } delete ptr; ptr = nullptr; } }
	void reset() { close(); }
private:
	T* ptr = nullptr;
	bool started = false, detached = false;
};

// ------------------------------------------------------------------ endpoints
class Endpoint : public Value { public: static std::shared_ptr<Endpoint> from_url(const std::string& url); };
class TcpEndpoint : public Endpoint { public: std::string host_name = "localhost"; int32_t port = 0; static constexpr int default_port = 4444; static std::shared_ptr<TcpEndpoint> create() { return std::make_shared<TcpEndpoint>(); } };
class UnixEndpoint : public Endpoint { public: std::string path; };
class Session { public: std::string user; Hash64 id; bool has_permission(const std::string&) const { return true; } };
std::shared_ptr<const Session> get_session(const Hash64& id);

// ------------------------------------------------------------------ module interface types
#define SIMVNX_MI_BASE(NS, NAME) \
	class NAME : public Value { public: static const Hash64 VNX_TYPE_HASH, VNX_CODE_HASH; \
	static std::shared_ptr<NAME> create() { return std::make_shared<NAME>(); } \
	static const TypeCode* static_get_type_code(); \
	Hash64 get_type_hash() const override { return VNX_TYPE_HASH; } \
	std::string get_type_name() const override { return NS #NAME; } \
	const TypeCode* get_type_code() const override { return static_get_type_code(); } \
	std::shared_ptr<Value> clone() const override { return std::make_shared<NAME>(*this); }
#define SIMVNX_MI0(NAME) SIMVNX_MI_BASE("vnx.", NAME) };
#define SIMVNX_MI1(NAME, T1, F1) SIMVNX_MI_BASE("vnx.", NAME) T1 F1; Variant get_field_by_index(const uint32_t&) const override { return Variant(); } bool is_void() const override { return false; } };
#define SIMVNX_MI2(NAME, T1, F1, T2, F2) SIMVNX_MI_BASE("vnx.", NAME) T1 F1; T2 F2; bool is_void() const override { return false; } };
SIMVNX_MI1(ModuleInterface_vnx_get_config, std::string, name)
SIMVNX_MI1(ModuleInterface_vnx_get_config_return, Variant, _ret_0)
SIMVNX_MI0(ModuleInterface_vnx_get_config_object)
SIMVNX_MI1(ModuleInterface_vnx_get_config_object_return, Object, _ret_0)
SIMVNX_MI2(ModuleInterface_vnx_set_config, std::string, name, Variant, value)
SIMVNX_MI0(ModuleInterface_vnx_set_config_return)
SIMVNX_MI1(ModuleInterface_vnx_set_config_object, Object, config)
SIMVNX_MI0(ModuleInterface_vnx_set_config_object_return)
SIMVNX_MI0(ModuleInterface_vnx_get_type_code)
SIMVNX_MI1(ModuleInterface_vnx_get_type_code_return, TypeCode, _ret_0)
SIMVNX_MI0(ModuleInterface_vnx_get_module_info)
SIMVNX_MI1(ModuleInterface_vnx_get_module_info_return, std::shared_ptr<const ModuleInfo>, _ret_0)
SIMVNX_MI0(ModuleInterface_vnx_restart)
SIMVNX_MI0(ModuleInterface_vnx_restart_return)
SIMVNX_MI0(ModuleInterface_vnx_stop)
SIMVNX_MI0(ModuleInterface_vnx_stop_return)
SIMVNX_MI0(ModuleInterface_vnx_self_test)
SIMVNX_MI1(ModuleInterface_vnx_self_test_return, bool, _ret_0)

namespace addons {
#define SIMVNX_MA(NAME, ...) SIMVNX_MI_BASE("vnx.addons.", NAME) __VA_ARGS__ bool is_void() const override { return false; } };
SIMVNX_MA(HttpRequest, std::string method; std::string path; std::map<std::string, std::string> query_params; std::map<std::string, std::string> headers; std::string payload; std::string session;)
SIMVNX_MA(HttpResponse, int status = 0; std::vector<uint8_t> payload; std::string error_text; std::string content_type; Variant json; bool has_json = false; Variant parse_json() const { return json; } bool is_json() const { return has_json; } bool is_fail() const { return status != 200; } static std::shared_ptr<HttpResponse> from_status(int s) { auto r = create(); r->status = s; return r; })
SIMVNX_MA(HttpData, std::vector<uint8_t> data; bool is_eof = false;)
SIMVNX_MA(HttpComponent_http_request, std::shared_ptr<const HttpRequest> request; std::string sub_path;)
SIMVNX_MA(HttpComponent_http_request_return, std::shared_ptr<const HttpResponse> _ret_0;)
SIMVNX_MA(HttpComponent_http_request_chunk, std::shared_ptr<const HttpRequest> request; std::string sub_path; int64_t offset = 0; int64_t max_bytes = 0;)
SIMVNX_MA(HttpComponent_http_request_chunk_return, std::shared_ptr<const HttpData> _ret_0;)

struct http_request_options_t {
	std::map<std::string, std::string> headers, query;
	bool follow_redirects = true;
};
// the web server is part of the harness, which has to call back on the thread of the requesting module
struct http_request_t {
	bool is_post = false;
	std::string url, payload;
	std::function<void(const Variant&)> got_json;
	std::function<void(std::shared_ptr<const HttpResponse>)> got;
	std::function<void(const std::exception&)> failed;
};
inline std::function<void(const http_request_t&)> http_hook;
class HttpClient : public Module {
public:
	HttpClient(const std::string& name) : Module(name) {}
	TopicPtr output_response;
	int connection_timeout_ms = 0;
	void init() override {}
};
class HttpClientClient : public Client {
public:
	using Client::Client;
	std::shared_ptr<const HttpResponse> get(const std::string&, const http_request_options_t& = {}) { throw std::runtime_error("no network"); }
	std::shared_ptr<const HttpResponse> post(const std::string&, const std::string&, const http_request_options_t& = {}) { throw std::runtime_error("no network"); }
};
class HttpClientAsyncClient : public AsyncClient {
public:
	using AsyncClient::AsyncClient;
	template<typename F, typename E> void get_json(const std::string& url, const http_request_options_t&, F&& ok, E&& err) {
		http_request_t r; r.url = url; r.got_json = ok; r.failed = err; if(http_hook) http_hook(r);
	}
	template<typename F, typename E> void post_json(const std::string& url, const std::string& payload, const http_request_options_t&, F&& ok, E&& err) {
		http_request_t r; r.url = url; r.payload = payload; r.is_post = true; r.got = ok; r.failed = err; if(http_hook) http_hook(r);
	}
	int32_t vnx_purge_request(uint64_t, const exception&) override { return 0; }
	int32_t vnx_callback_switch(uint64_t, std::shared_ptr<const Value>) override { return 0; }
};
template<typename T>
class HttpInterface : public AsyncClient {
public:
	HttpInterface(T*, const std::string& name) : AsyncClient(name) {}
	void http_request(std::shared_ptr<const HttpRequest>, const std::string&, const request_id_t&, const Hash64& = Hash64()) const {}
	template<typename S> void http_request(std::shared_ptr<const HttpRequest>, const std::string&, const request_id_t&, const S&) const {}
	int32_t vnx_purge_request(uint64_t, const exception&) override { return 0; }
	int32_t vnx_callback_switch(uint64_t, std::shared_ptr<const Value>) override { return 0; }
};

// ------------------------------------------------------------------ sockets
class TcpServerBase : public Module {
public:
	TcpServerBase(const std::string& name) : Module(name) {}
	static const TypeCode* static_get_type_code();
};
class MsgServerBase : public TcpServerBase {
public:
	MsgServerBase(const std::string& name) : TcpServerBase(name) {}
	static const TypeCode* static_get_type_code();
};
class MsgServer : public MsgServerBase {
public:
	MsgServer(const std::string& name);
	~MsgServer() override;
	int32_t port = 0;
	std::string host = "0.0.0.0";
	int32_t max_connections = -1;
	int32_t listen_queue_size = 10;
	int32_t stats_interval_ms = 10000;
	int32_t connection_timeout_ms = 10000;
	int32_t send_buffer_size = 0;
	int32_t receive_buffer_size = 0;
	bool tcp_no_delay = true;
	bool tcp_keepalive = false;
	bool show_warnings = true;
	int32_t compress_level = 0;
	int64_t max_msg_size = 16777216;
	int64_t max_write_queue = 0;

	// network side (called by the simulated network on this module's fiber)
	struct conn_t;
	void net_deliver(uint64_t client, std::shared_ptr<const std::vector<uint8_t>> data);
	void net_connected(uint64_t client, const std::string& host);
	void net_disconnected(uint64_t client, const std::string& host);
	void net_drained(uint64_t client);
protected:
	struct peer_t { virtual ~peer_t() {} uint64_t client = 0; uint64_t bytes_send = 0, bytes_recv = 0, bytes_send_raw = 0; size_t write_queue_size = 0; bool is_blocked_ = false; };
	void init() override;
	void main() override;
	virtual void on_msg(uint64_t client, std::shared_ptr<const Value> msg) {}
	virtual void on_pause(uint64_t client) {}
	virtual void on_resume(uint64_t client) {}
	virtual void on_connect(uint64_t client, const std::string& host) {}
	virtual void on_disconnect(uint64_t client, const std::string& host) {}
	virtual std::shared_ptr<peer_t> get_peer_base(uint64_t client) const { return nullptr; }
	virtual void print_stats() {}
	uint64_t connect_client(const TcpEndpoint& peer);
	void disconnect(uint64_t client);
	void pause(uint64_t client);
	void resume(uint64_t client);
	bool send_to(std::shared_ptr<peer_t> peer, std::shared_ptr<const Value> msg);
	bool send_to(uint64_t client, std::shared_ptr<const Value> msg) { return send_to(get_peer_base(client), msg); }
	size_t num_peers() const;
	std::map<uint64_t, std::shared_ptr<conn_t>> conns;
	std::set<uint64_t> paused;
};
} // addons

} // vnx

// ------------------------------------------------------------------ simulated network control (for harnesses)
namespace net {
struct Policy {
	int64_t latency_us = 5000, jitter_us = 20000;
	double stall = 0;				// probability that a message delays the connection by up to stall_us
	int64_t stall_us = 3000000;
	double reset = 0;				// probability per message that the connection breaks
	double connect_fail = 0;
	int64_t bandwidth = 10000000;	// bytes per second
};
extern Policy policy;
void set_address(sim::Machine* m, const std::string& ip);
std::string address(sim::Machine* m);
sim::Machine* find_machine(const std::string& ip);
void partition(int a, int b, bool cut);		// cut or heal the link between two machines
void heal_all();
void reset_link(int a, int b);				// break all connections between two machines
extern uint64_t messages, bytes, resets, stalls;
// raw peer for adversarial harness traffic: speaks the same protocol from a harness machine
struct RawPeer {
	std::function<void(std::shared_ptr<const vnx::Value>)> on_msg;
	std::function<void()> on_connect, on_disconnect;
	bool connected = false;
	uint64_t id = 0;
	void send(std::shared_ptr<const vnx::Value> msg);
	void close();
};
std::shared_ptr<RawPeer> connect_raw(const std::string& from_ip, sim::Machine* target, int port);
}
#endif
