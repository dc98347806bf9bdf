// simvnx: simulated per-machine disk with fault injection.
// Failure model: process kill (user-space stdio buffers are lost, what reached the OS survives),
// torn writes (a prefix of one write reached the OS), EIO, ENOSPC, short writes.
#include <simvnx/sim.h>
#include <simvnx/sim_internal.h>
#include <cstring>
#include <errno.h>
#include <algorithm>

namespace sim {

static uint64_t g_open_id = 0;

static std::string norm(const std::string& path)
{
	std::string out;
	for(char c : path) { if(c == '/' && !out.empty() && out.back() == '/') continue; out += c; }
	while(out.size() > 1 && out.back() == '/') out.pop_back();
	return out;
}
uint64_t Disk::used() const { uint64_t n = 0; for(auto& e : files) n += e.second->data.size(); return n; }
std::shared_ptr<Disk> Disk::clone() const {
	auto out = std::make_shared<Disk>();
	out->dirs = dirs; out->capacity = capacity;
	for(auto& e : files) { auto n = std::make_shared<Inode>(); n->data = e.second->data; out->files[e.first] = n; }
	return out;
}

static fault_e pick(Machine* m, bool mutating, bool is_write, const char* op, const std::string& path)
{
	if(mutating) disk_ops++;
	if(!disk_faults.active || disk_faults.budget <= 0) return F_NONE;
	if(disk_faults.only_machine >= 0 && m->id != disk_faults.only_machine) return F_NONE;
	fault_e f = F_NONE;
	const bool errors = disk_faults.errors_only_in.empty() || current_fiber_name() == disk_faults.errors_only_in;
	if(mutating) {
		if(disk_faults.crash > 0 && flip(S_DISK, disk_faults.crash)) f = F_CRASH;
		else if(!errors) {}
		else if(disk_faults.eio > 0 && flip(S_DISK, disk_faults.eio)) f = F_EIO;
		else if(is_write && disk_faults.enospc > 0 && flip(S_DISK, disk_faults.enospc)) f = F_ENOSPC;
		else if(is_write && disk_faults.short_write > 0 && flip(S_DISK, disk_faults.short_write)) f = F_SHORT;
	} else {
		if(errors && disk_faults.read_eio > 0 && flip(S_DISK, disk_faults.read_eio)) f = F_EIO;
	}
	if(f != F_NONE) {
		static const char* const nm[] = {"none", "crash", "eio", "enospc", "short_write"};
		disk_faults.budget--;
		faults_injected++;
		count(std::string("fault_") + nm[f] + (f == F_CRASH ? std::string("_in_") + op : std::string("_") + op));
		trace("FAULT %s in %s(%s)", nm[f], op, path.c_str());
	}
	return f;
}
[[noreturn]] static void fail(const std::string& what, int code) {
	throw io_error(what + " failed with: " + strerror(code), code);
}

OpenFile::~OpenFile() { try { close(true); } catch(...) {} }

void OpenFile::close(bool silent)
{
	if(!node) return;
	if(m->inc != inc) { node = nullptr; return; }	// process is gone
	auto keep = node;
	try { flush(); } catch(...) { unlock(); node = nullptr; if(!silent) throw; return; }
	unlock();
	node = nullptr;
}
void OpenFile::unlock() {
	if(node && node->lock_owner == id && node->lock_machine == m->id && node->lock_inc == inc) node->lock_owner = 0;
}
bool OpenFile::lock_exclusive() {
	if(node->lock_owner && node->lock_owner != id && machine_by_id(node->lock_machine)->inc == node->lock_inc) return false;
	node->lock_owner = id; node->lock_machine = m->id; node->lock_inc = inc;
	return true;
}
void OpenFile::write_through(const char* p, size_t n, size_t& done)
{
	done = 0;
	if(!n) return;
	point("disk_write");
	const auto f = pick(m, true, true, "write", path);
	size_t k = n;
	if(f == F_CRASH) k = flip(S_DISK, disk_faults.torn) ? draw(S_DISK, n + 1) : 0;
	else if(f == F_EIO) k = 0;
	else if(f == F_SHORT || f == F_ENOSPC) k = draw(S_DISK, n);
	if(m->disk->capacity != uint64_t(-1)) {
		const uint64_t used = m->disk->used(), room = m->disk->capacity > used ? m->disk->capacity - used : 0;
		const uint64_t off = append ? node->data.size() : wbuf_pos;
		const uint64_t over = off < node->data.size() ? node->data.size() - off : 0;
		if(k > room + over) { k = room + over; }
	}
	if(k) {
		if(append) wbuf_pos = node->data.size();
		if(node->data.size() < wbuf_pos + k) node->data.resize(wbuf_pos + k);
		memcpy(&node->data[wbuf_pos], p, k);
		wbuf_pos += k;
		done = k;
	}
	trace_quiet("disk write %s off=%llu n=%zu/%zu", path.c_str(), (unsigned long long)(wbuf_pos - k), k, n);
	if(f == F_CRASH) crash(m);
	if(f == F_EIO) fail("fwrite()", EIO);
	if(k < n) fail("fwrite()", ENOSPC);
}
void OpenFile::write(const void* p_, size_t n)
{
	if(!node || !can_write) fail("fwrite()", EBADF);
	if(m->inc != inc) return;
	auto p = (const char*)p_;
	if(wbuf.empty()) wbuf_pos = append ? node->data.size() : pos;
	wbuf.append(p, n);
	pos += n;
	if(wbuf.size() >= wbuf_cap) {
		size_t done = 0;
		try { write_through(wbuf.data(), wbuf.size(), done); } catch(...) { wbuf.erase(0, done); throw; }
		wbuf.erase(0, done);
	}
}
void OpenFile::flush()
{
	if(!node || m->inc != inc) return;
	while(!wbuf.empty()) {
		size_t done = 0;
		try { write_through(wbuf.data(), wbuf.size(), done); } catch(...) { wbuf.erase(0, done); throw; }
		wbuf.erase(0, done);
	}
}
size_t OpenFile::read(void* p, size_t n)
{
	if(!node || !can_read) fail("fread()", EBADF);
	flush();
	n = pread(p, n, pos);
	pos += n;
	return n;
}
size_t OpenFile::pread(void* p, size_t n, uint64_t off)
{
	if(!node) fail("read()", EBADF);
	if(m->inc != inc) return 0;
	point("disk_read");
	if(pick(m, false, false, "read", path) != F_NONE) fail("read()", EIO);
	if(off >= node->data.size()) return 0;
	n = std::min<size_t>(n, node->data.size() - off);
	memcpy(p, node->data.data() + off, n);
	return n;
}
void OpenFile::seek(uint64_t off)
{
	if(!node) fail("fseek()", EBADF);
	flush();
	pos = off;
}

static std::shared_ptr<Disk> disk() { return machine()->disk; }

std::shared_ptr<OpenFile> disk_open(const std::string& path_, const std::string& mode)
{
	const auto path = norm(path_);
	point("disk_open");
	auto m = machine();
	auto out = std::make_shared<OpenFile>();
	out->m = m; out->inc = m->inc; out->id = ++g_open_id; out->path = path;
	const bool w = mode.find('w') != std::string::npos, a = mode.find('a') != std::string::npos, plus = mode.find('+') != std::string::npos;
	out->can_read = mode.find('r') != std::string::npos || plus;
	out->can_write = w || a || plus;
	out->append = a;
	auto it = disk()->files.find(path);
	if(disk()->dirs.count(path)) fail("fopen('" + path_ + "', '" + mode + "')", EISDIR);
	if(it == disk()->files.end() && !w && !a) fail("fopen('" + path_ + "', '" + mode + "')", ENOENT);
	const bool mutating = w || (a && it == disk()->files.end());
	if(mutating || disk_faults.active) {
		const auto f = pick(m, mutating, false, mutating ? "create" : "open", path);
		if(f == F_CRASH) {
			if(flip(S_DISK, 0.5)) crash(m);
			if(w && it != disk()->files.end()) it->second->data.clear();
			else if(it == disk()->files.end()) disk()->files[path] = std::make_shared<Inode>();
			crash(m);
		}
		if(f != F_NONE) fail("fopen('" + path_ + "', '" + mode + "')", f == F_ENOSPC ? ENOSPC : EIO);
	}
	if(it == disk()->files.end()) { it = disk()->files.emplace(path, std::make_shared<Inode>()).first; trace_quiet("disk create %s", path.c_str()); }
	else if(w) { trace_quiet("disk truncate %s (%zu)", path.c_str(), it->second->data.size()); it->second->data.clear(); }
	out->node = it->second;
	out->wbuf_cap = disk_faults.wbuf_min + (disk_faults.wbuf_max > disk_faults.wbuf_min ? rnd64() % (disk_faults.wbuf_max - disk_faults.wbuf_min) : 0);
	return out;
}
bool disk_exists(const std::string& path) { const auto p = norm(path); return disk()->files.count(p) || disk()->dirs.count(p); }

void disk_remove(const std::string& path_)
{
	const auto path = norm(path_);
	point("disk_remove");
	const auto f = pick(machine(), true, false, "remove", path);
	if(f == F_CRASH) { if(flip(S_DISK, 0.5)) disk()->files.erase(path); crash(machine()); }
	if(f != F_NONE) fail("remove('" + path_ + "')", EIO);
	if(!disk()->files.erase(path)) fail("remove('" + path_ + "')", ENOENT);
	trace_quiet("disk remove %s", path.c_str());
}
void disk_rename(const std::string& from_, const std::string& to_)
{
	const auto from = norm(from_), to = norm(to_);
	point("disk_rename");
	const auto f = pick(machine(), true, false, "rename", from + " -> " + to);
	if(f != F_NONE && f != F_CRASH) fail("rename('" + from_ + "', '" + to_ + "')", EIO);
	const bool skip = f == F_CRASH && !flip(S_DISK, 0.5);
	if(!skip) {
		auto it = disk()->files.find(from);
		if(it == disk()->files.end()) fail("rename('" + from_ + "', '" + to_ + "')", ENOENT);
		auto n = it->second;
		disk()->files.erase(it);
		disk()->files[to] = n;
		trace_quiet("disk rename %s -> %s", from.c_str(), to.c_str());
	}
	if(f == F_CRASH) crash(machine());
}
void disk_mkdir(const std::string& path)
{
	auto p = norm(path);
	std::string cur;
	for(size_t i = 0; i <= p.size(); ++i) {
		if(i == p.size() || p[i] == '/') { if(cur.size()) disk()->dirs.insert(cur); }
		if(i < p.size()) cur += p[i];
	}
}
std::vector<std::string> disk_list(const std::string& dir, bool subdirs)
{
	auto p = norm(dir);
	if(p == ".") p = "";
	const std::string pre = p.empty() || p == "/" ? p : p + "/";
	std::vector<std::string> out;
	auto handle = [&](const std::string& s) {
		if(s.size() > pre.size() && s.compare(0, pre.size(), pre) == 0 && s.find('/', pre.size()) == std::string::npos) out.push_back(s);
	};
	if(subdirs) for(auto& d : disk()->dirs) handle(d);
	else for(auto& e : disk()->files) handle(e.first);
	// directory order is unspecified
	for(size_t i = out.size(); i > 1; --i) std::swap(out[i - 1], out[rnd64() % i]);
	return out;
}

} // sim
