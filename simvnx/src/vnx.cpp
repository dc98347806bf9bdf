// simvnx: serialisation, reflection, JSON, type registry
#include <simvnx/vnx.h>

namespace vnx {

// ------------------------------------------------------------------ crc / hash
namespace {
struct crc_table_t { uint64_t t[256]; crc_table_t() { for(int i = 0; i < 256; ++i) { uint64_t c = i; for(int k = 0; k < 8; ++k) c = (c & 1) ? (c >> 1) ^ 0xC96C5795D7870F42ull : (c >> 1); t[i] = c; } } };
}
uint64_t calc_crc64(const void* data, size_t n, uint64_t crc) {
	static const crc_table_t tab;
	auto* p = (const uint8_t*)data;
	crc = ~crc;		// CRC-64/XZ, as the type hashes in generated code show
	while(n--) crc = tab.t[uint8_t(crc) ^ *p++] ^ (crc >> 8);
	return ~crc;
}
Hash64::Hash64(const std::string& s) : value(calc_crc64(s.data(), s.size())) {}
Hash64::Hash64(const void* data, size_t n) : value(calc_crc64(data, n)) {}
Hash64 Hash64::rand() { return Hash64(rand64()); }
std::string Hash64::to_string() const { char b[32]; ::snprintf(b, sizeof(b), "0x%llx", (unsigned long long)value); return b; }
uint64_t hash64(const std::string& s) { return calc_crc64(s.data(), s.size()); }

void SHA256::reset() { static const uint32_t i[8] = {0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; ::memcpy(st, i, 32); total = 0; fill = 0; }
void SHA256::block(const uint8_t* p) {
	static const uint32_t K[64] = {0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
	auto R = [](uint32_t x, int n) { return (x >> n) | (x << (32 - n)); };
	uint32_t w[64];
	for(int i = 0; i < 16; ++i) w[i] = uint32_t(p[4*i]) << 24 | uint32_t(p[4*i+1]) << 16 | uint32_t(p[4*i+2]) << 8 | p[4*i+3];
	for(int i = 16; i < 64; ++i) w[i] = w[i-16] + (R(w[i-15],7)^R(w[i-15],18)^(w[i-15]>>3)) + w[i-7] + (R(w[i-2],17)^R(w[i-2],19)^(w[i-2]>>10));
	uint32_t a=st[0],b=st[1],c=st[2],d=st[3],e=st[4],f=st[5],g=st[6],h=st[7];
	for(int i = 0; i < 64; ++i) {
		uint32_t t1 = h + (R(e,6)^R(e,11)^R(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i], t2 = (R(a,2)^R(a,13)^R(a,22)) + ((a&b)^(a&c)^(b&c));
		h=g; g=f; f=e; e=d+t1; d=c; c=b; b=a; a=t1+t2;
	}
	st[0]+=a; st[1]+=b; st[2]+=c; st[3]+=d; st[4]+=e; st[5]+=f; st[6]+=g; st[7]+=h;
}
void SHA256::update(const void* data, size_t n) { auto* p = (const uint8_t*)data; total += n; while(n) { size_t k = std::min(n, 64 - fill); ::memcpy(blk + fill, p, k); fill += k; p += k; n -= k; if(fill == 64) { block(blk); fill = 0; } } }
std::vector<uint8_t> SHA256::get_result() {
	const uint64_t bits = total * 8;
	uint8_t one = 0x80, zero = 0; update(&one, 1); while(fill != 56) update(&zero, 1);
	uint8_t len[8]; for(int i = 0; i < 8; ++i) len[i] = uint8_t(bits >> (56 - 8 * i)); update(len, 8);
	std::vector<uint8_t> out(32); for(int i = 0; i < 8; ++i) for(int k = 0; k < 4; ++k) out[4*i+k] = uint8_t(st[i] >> (24 - 8*k));
	return out;
}
std::string SHA256::get_result_string() { auto r = get_result(); return to_hex_string(r.data(), r.size()); }

// ------------------------------------------------------------------ type registry
namespace {
struct registry_t {
	std::map<uint64_t, std::shared_ptr<TypeCode>> by_type;
	std::map<uint64_t, const TypeCode*> by_code;
	std::map<std::string, const TypeCode*> by_name;
};
registry_t& reg() { static auto* r = new registry_t(); return *r; }
}
TypeCode& TypeCode::operator=(const TypeCode& o) {
	if(this == &o) return *this;
	name = o.name; permission = o.permission; type_hash = o.type_hash; code_hash = o.code_hash;
	is_native = o.is_native; is_class = o.is_class; is_enum = o.is_enum; is_async = o.is_async; is_const = o.is_const; is_method = o.is_method; is_return = o.is_return;
	is_equivalent = o.is_equivalent; is_matched = o.is_matched; native_size = o.native_size; create_value = o.create_value;
	depends = o.depends; methods = o.methods; parents = o.parents; super = o.super; return_type = o.return_type; fields = o.fields; enum_map = o.enum_map;
	build();
	return *this;
}
void TypeCode::build() {
	super = parents.empty() ? nullptr : parents[0];
	total_field_size = 0;
	field_map.assign(fields.size(), nullptr);
	ext_fields.clear();
	is_matched = is_equivalent = true;
	for(size_t i = 0; i < fields.size(); ++i) {
		auto& f = fields[i];
		f.native_index = i;
		if(f.is_extended) { ext_fields.push_back(&f); }
		else { f.offset = total_field_size; total_field_size += f.data_size; field_map[i] = &f; }
	}
}
const TypeCode* get_type_code(const Hash64& h) { auto it = reg().by_type.find(h.value); return it != reg().by_type.end() ? it->second.get() : nullptr; }
const TypeCode* get_type_code_by_code(const Hash64& h) { auto it = reg().by_code.find(h.value); return it != reg().by_code.end() ? it->second : nullptr; }
const TypeCode* register_type_code(std::shared_ptr<TypeCode> c) {
	auto& slot = reg().by_type[c->type_hash.value];
	if(!slot) { slot = c; reg().by_code[c->code_hash.value] = c.get(); reg().by_name[c->name] = c.get(); }
	return slot.get();
}
std::vector<const TypeCode*> get_all_type_codes() { std::vector<const TypeCode*> out; for(auto& e : reg().by_type) out.push_back(e.second.get()); return out; }
std::shared_ptr<Value> create(const std::string& name) { auto it = reg().by_name.find(name); return it != reg().by_name.end() && it->second->create_value ? it->second->create_value() : nullptr; }
std::shared_ptr<Value> create(const Hash64& h) { auto* c = get_type_code(h); return c && c->create_value ? c->create_value() : nullptr; }
std::shared_ptr<Value> Value::create(const std::string& n) { return vnx::create(n); }
std::shared_ptr<Value> Value::create(Hash64 h) { return vnx::create(h); }
Variant Value::get_field_by_index(const uint32_t& i) const {
	auto* c = get_type_code();
	if(c && i < c->fields.size()) return get_field(c->fields[i].name);
	return Variant();
}

const Hash64 Exception::VNX_TYPE_HASH(0x7bb0f9f8f3c3a001ull);
const Hash64 Exception::VNX_CODE_HASH(0x7bb0f9f8f3c3a002ull);

// ------------------------------------------------------------------ byte codes
void write_byte_code(TypeOutput& out, const std::vector<uint16_t>& code) {
	const uint16_t n = code.size();
	out.write(&n, 2);
	out.write(code.data(), 2 * n);
}
size_t read_byte_code(TypeInput& in, std::vector<uint16_t>& code) {
	uint16_t n = 0;
	in.read(&n, 2);
	if(n > VNX_MAX_BYTE_CODE_SIZE) throw std::runtime_error("read_byte_code(): code too large");
	code.resize(std::max<size_t>(n, 1));
	code[0] = CODE_NULL;
	if(n) in.read(code.data(), 2 * n);
	return n;
}
void read_byte_code(TypeInput& in, uint16_t* code) {
	std::vector<uint16_t> tmp;
	read_byte_code(in, tmp);
	::memcpy(code, tmp.data(), tmp.size() * 2);
}
size_t code_length(const uint16_t* c) {
	switch(c[0]) {
		case CODE_ARRAY: return 2 + code_length(c + 2);
		case CODE_LIST: case CODE_OPTIONAL: return 1 + code_length(c + 1);
		case CODE_MAP: return c[1] + code_length(c + c[1]);
		case CODE_STRUCT: return 2;
		case CODE_TUPLE: return c[1] ? c[1 + c[1]] + code_length(c + c[1 + c[1]]) : 2;
		default: return 1;
	}
}
static void copy_bytes(TypeInput& in, TypeOutput* out, size_t n) {
	char buf[4096];
	while(n) { const auto k = std::min(n, sizeof(buf)); in.read(buf, k); if(out) out->write(buf, k); n -= k; }
}
static uint32_t copy_u32(TypeInput& in, TypeOutput* out) { uint32_t n = 0; in.read(&n, 4); if(out) out->write(&n, 4); return n; }
static const uint16_t c_string = CODE_STRING, c_dynamic = CODE_DYNAMIC;

void copy(TypeInput& in, TypeOutput* out, const TypeCode* tc, const uint16_t* code)
{
	if(!code) throw std::runtime_error("copy(): no code");
	TypeInput::recursion_t tag(in);
	switch(code[0]) {
		case CODE_NULL: return;
		case CODE_BOOL: case CODE_UINT8: case CODE_INT8: copy_bytes(in, out, 1); return;
		case CODE_UINT16: case CODE_INT16: copy_bytes(in, out, 2); return;
		case CODE_UINT32: case CODE_INT32: case CODE_FLOAT: copy_bytes(in, out, 4); return;
		case CODE_UINT64: case CODE_INT64: case CODE_DOUBLE: copy_bytes(in, out, 8); return;
		case CODE_STRING: copy_bytes(in, out, copy_u32(in, out)); return;
		case CODE_ARRAY: for(int i = 0; i < code[1]; ++i) copy(in, out, tc, code + 2); return;
		case CODE_LIST: { const auto n = copy_u32(in, out); for(uint32_t i = 0; i < n; ++i) copy(in, out, tc, code + 1); return; }
		case CODE_MAP: { const auto n = copy_u32(in, out); for(uint32_t i = 0; i < n; ++i) { copy(in, out, tc, code + 2); copy(in, out, tc, code + code[1]); } return; }
		case CODE_OBJECT: { const auto n = copy_u32(in, out); for(uint32_t i = 0; i < n; ++i) { copy(in, out, nullptr, &c_string); copy(in, out, nullptr, &c_dynamic); } return; }
		case CODE_TUPLE: for(int i = 0; i < code[1]; ++i) copy(in, out, tc, code + code[2 + i]); return;
		case CODE_OPTIONAL: { uint8_t has = 0; in.read(&has, 1); if(out) out->write(&has, 1); if(has) copy(in, out, tc, code + 1); return; }
		case CODE_DYNAMIC: { std::vector<uint16_t> c; const auto n = read_byte_code(in, c); if(!n) c.clear(); if(out) write_byte_code(*out, c); if(n) copy(in, out, nullptr, c.data()); return; }
		case CODE_ANY: { auto v = read_any(in); if(out) write_any(*out, v.get()); return; }
		case CODE_STRUCT: {
			auto* sub = tc ? tc->depends.at(code[1]) : nullptr;
			if(!sub) throw std::runtime_error("copy(): unknown struct");
			copy_bytes(in, out, sub->total_field_size);
			for(auto* f : sub->ext_fields) copy(in, out, sub, f->code.data());
			return;
		}
		case CODE_TYPE_CODE: { Variant v; vnx::read(in, v, nullptr, &c_string); if(out) vnx::write(*out, v.to_string_value(), nullptr, nullptr); return; }
	}
	throw std::runtime_error("copy(): invalid code " + std::to_string(code[0]));
}
void read_value_num(const void* buf, uint16_t code, int64_t& i, uint64_t& u, double& d, int& kind) {
	kind = 0;
	switch(code) {
		case CODE_BOOL: case CODE_UINT8: u = *(const uint8_t*)buf; return;
		case CODE_UINT16: { uint16_t v; ::memcpy(&v, buf, 2); u = v; return; }
		case CODE_UINT32: { uint32_t v; ::memcpy(&v, buf, 4); u = v; return; }
		case CODE_UINT64: ::memcpy(&u, buf, 8); return;
		case CODE_INT8: i = *(const int8_t*)buf; kind = 1; return;
		case CODE_INT16: { int16_t v; ::memcpy(&v, buf, 2); i = v; kind = 1; return; }
		case CODE_INT32: { int32_t v; ::memcpy(&v, buf, 4); i = v; kind = 1; return; }
		case CODE_INT64: ::memcpy(&i, buf, 8); kind = 1; return;
		case CODE_FLOAT: { float v; ::memcpy(&v, buf, 4); d = v; kind = 2; return; }
		case CODE_DOUBLE: ::memcpy(&d, buf, 8); kind = 2; return;
	}
	throw std::runtime_error("read_value(): invalid code " + std::to_string(code));
}
double read_number(TypeInput& in, const TypeCode* tc, const uint16_t* code, int64_t& i, uint64_t& u, int& kind) {
	double d = 0;
	char buf[8];
	switch(code[0]) {
		case CODE_NULL: return 0;
		case CODE_BOOL: case CODE_UINT8: case CODE_INT8: in.read(buf, 1); break;
		case CODE_UINT16: case CODE_INT16: in.read(buf, 2); break;
		case CODE_UINT32: case CODE_INT32: case CODE_FLOAT: in.read(buf, 4); break;
		case CODE_UINT64: case CODE_INT64: case CODE_DOUBLE: in.read(buf, 8); break;
		case CODE_OPTIONAL: { uint8_t has = 0; in.read(&has, 1); if(has) return read_number(in, tc, code + 1, i, u, kind); return 0; }
		case CODE_DYNAMIC: { std::vector<uint16_t> c; if(!read_byte_code(in, c)) return 0; return read_number(in, nullptr, c.data(), i, u, kind); }
		case CODE_STRING: {
			std::string s; read(in, s, tc, code);
			Variant v; from_string_value(s, v);
			if(v.is_string()) { if(v.to_string_value() == "true") u = 1; return 0; }
			if(v.is_null()) return 0;
			VectorInputStream st(&v.data); TypeInput tmp(&st); std::vector<uint16_t> c; read_byte_code(tmp, c);
			return read_number(tmp, nullptr, c.data(), i, u, kind);
		}
		case CODE_STRUCT: {
			auto* sub = tc ? tc->depends.at(code[1]) : nullptr;
			if(sub && sub->is_enum) { uint32_t v = 0; in.read(&v, 4); u = v; return 0; }
			copy(in, nullptr, tc, code); return 0;
		}
		default: copy(in, nullptr, tc, code); return 0;
	}
	read_value_num(buf, code[0], i, u, d, kind);
	return d;
}

// ------------------------------------------------------------------ simple types
static std::string number_to_string(int64_t i, uint64_t u, double d, int kind) {
	if(kind == 1) return std::to_string(i);
	if(kind == 0) return std::to_string(u);
	std::ostringstream ss; ss << std::setprecision(17) << d; return ss.str();
}
void read(TypeInput& in, std::string& value, const TypeCode* tc, const uint16_t* code) {
	value.clear();
	if(!code || code[0] == CODE_STRING) {
		uint32_t n = 0; in.read(&n, 4);
		while(n) { const auto k = std::min<size_t>(n, 65536); const auto off = value.size(); value.resize(off + k); in.read(&value[off], k); n -= k; }
		return;
	}
	switch(code[0]) {
		case CODE_DYNAMIC: { std::vector<uint16_t> c; if(read_byte_code(in, c)) read(in, value, nullptr, c.data()); return; }
		case CODE_LIST: if(code[1] == CODE_UINT8 || code[1] == CODE_INT8) { read(in, value, nullptr, nullptr); return; } break;
		case CODE_OPTIONAL: { uint8_t has = 0; in.read(&has, 1); if(has) read(in, value, tc, code + 1); return; }
	}
	Variant v; read(in, v, tc, code); value = v.to_string_value();
}
void write(TypeOutput& out, const std::string& value, const TypeCode* tc, const uint16_t* code) {
	if(code && code[0] == CODE_DYNAMIC) { write_dynamic(out, value); return; }
	const uint32_t n = value.size(); out.write(&n, 4); out.write(value.data(), n);
}
void read(TypeInput& in, TopicPtr& value, const TypeCode* tc, const uint16_t* code) { read(in, value.name, tc, code); }
void write(TypeOutput& out, const TopicPtr& value, const TypeCode* tc, const uint16_t* code) { write(out, value.name, tc, code); }
void read(TypeInput& in, Hash64& value, const TypeCode* tc, const uint16_t* code) { read(in, value.value, tc, code); }
void write(TypeOutput& out, const Hash64& value, const TypeCode* tc, const uint16_t* code) { write(out, value.value, tc, code); }
void read(TypeInput& in, Buffer& value, const TypeCode* tc, const uint16_t* code) { read(in, value.vec, tc, code); }
void write(TypeOutput& out, const Buffer& value, const TypeCode* tc, const uint16_t* code) { write(out, value.vec, tc, code); }
void read(TypeInput& in, TypeCode& value, const TypeCode* tc, const uint16_t* code) { std::string s; read(in, s); }
void write(TypeOutput& out, const TypeCode& value, const TypeCode* tc, const uint16_t* code) { write(out, value.name); }
void write(TypeOutput& out, std::nullptr_t, const TypeCode* tc, const uint16_t* code) {
	const uint16_t n = 0;
	out.write(&n, 2);		// CODE_NULL resp. empty byte code
}

// ------------------------------------------------------------------ Variant
void read(TypeInput& in, Variant& value, const TypeCode* tc, const uint16_t* code) {
	value.data.clear();
	if(!code || code[0] == CODE_DYNAMIC) {
		std::vector<uint16_t> c;
		if(!read_byte_code(in, c) || c[0] == CODE_NULL) return;
		read(in, value, nullptr, c.data());
		return;
	}
	if(code[0] == CODE_NULL) return;
	if(code[0] == CODE_OPTIONAL) { uint8_t has = 0; in.read(&has, 1); if(has) read(in, value, tc, code + 1); return; }
	VectorOutputStream s(&value.data);
	TypeOutput out(&s);
	if(code[0] == CODE_STRUCT) {
		auto* sub = tc ? tc->depends.at(code[1]) : nullptr;
		if(sub && sub->create_value) { auto v = sub->create_value(); v->read(in, sub, nullptr); value = Variant(v->to_object()); return; }
	}
	write_byte_code(out, std::vector<uint16_t>(code, code + code_length(code)));
	copy(in, &out, tc, code);
	out.flush();
}
void write(TypeOutput& out, const Variant& value, const TypeCode* tc, const uint16_t* code) {
	if(value.data.empty()) { const uint16_t n = 0; out.write(&n, 2); return; }
	out.write(value.data.data(), value.data.size());
}
#define SIMVNX_VCTOR(T) Variant::Variant(const T& v) { assign<T>(v); }
SIMVNX_VCTOR(bool) SIMVNX_VCTOR(std::string) SIMVNX_VCTOR(Object)
SIMVNX_VCTOR(uint8_t) SIMVNX_VCTOR(uint16_t) SIMVNX_VCTOR(uint32_t) SIMVNX_VCTOR(uint64_t)
SIMVNX_VCTOR(int8_t) SIMVNX_VCTOR(int16_t) SIMVNX_VCTOR(int32_t) SIMVNX_VCTOR(int64_t)
SIMVNX_VCTOR(float) SIMVNX_VCTOR(double)
Variant::Variant(const unsigned long long& v) { assign<uint64_t>(uint64_t(v)); }
Variant::Variant(const char* s) { assign<std::string>(std::string(s)); }
void Variant::assign(const char* s) { assign<std::string>(std::string(s)); }
Variant::Variant(const std::vector<Variant>& v) { assign<std::vector<Variant>>(v); }
std::vector<uint16_t> Variant::get_code() const {
	std::vector<uint16_t> c;
	if(data.empty()) { c.push_back(CODE_NULL); return c; }
	VectorInputStream s(&data); TypeInput in(&s);
	read_byte_code(in, c);
	return c;
}
static uint16_t first_code(const std::vector<uint8_t>& d) { uint16_t n = 0, c = 0; if(d.size() < 4) return CODE_NULL; ::memcpy(&n, d.data(), 2); if(!n) return CODE_NULL; ::memcpy(&c, d.data() + 2, 2); return c; }
static uint16_t second_code(const std::vector<uint8_t>& d) { uint16_t n = 0, c = 0; ::memcpy(&n, d.data(), 2); if(n < 2) return CODE_NULL; ::memcpy(&c, d.data() + 4, 2); return c; }
bool Variant::is_null() const { return first_code(data) == CODE_NULL; }
bool Variant::is_bool() const { return first_code(data) == CODE_BOOL; }
bool Variant::is_ulong() const { auto c = first_code(data); return c >= CODE_UINT8 && c <= CODE_UINT64; }
bool Variant::is_long() const { auto c = first_code(data); return c >= CODE_INT8 && c <= CODE_INT64; }
bool Variant::is_double() const { auto c = first_code(data); return c == CODE_FLOAT || c == CODE_DOUBLE; }
bool Variant::is_string() const { auto c = first_code(data); return c == CODE_STRING || (c == CODE_LIST && second_code(data) == CODE_INT8); }
bool Variant::is_array() const { auto c = first_code(data); return c == CODE_LIST || c == CODE_ARRAY || c == CODE_TUPLE; }
bool Variant::is_object() const { auto c = first_code(data); return c == CODE_OBJECT || c == CODE_ANY; }
bool Variant::is_map() const { return first_code(data) == CODE_MAP; }
bool Variant::operator==(const Variant& o) const {
	if(data == o.data) return true;
	if(is_null() || o.is_null()) return is_null() == o.is_null();
	if((is_integral() || is_double()) && (o.is_integral() || o.is_double())) return to_string() == o.to_string();
	return false;
}
template<> void Variant::to(std::string& value) const {
	value.clear();
	if(is_null()) return;
	value = to_string_value();
}
Object Variant::to_object() const {
	Object out;
	switch(first_code(data)) {
		case CODE_OBJECT: to<Object>(out); break;
		case CODE_MAP: { std::map<std::string, Variant> m; to(m); out.field = m; break; }
		case CODE_ANY: if(auto v = to_value()) out = v->to_object(); break;
	}
	return out;
}
std::shared_ptr<Value> Variant::to_value() const {
	if(is_null()) return nullptr;
	VectorInputStream s(&data); TypeInput in(&s);
	std::vector<uint16_t> c; read_byte_code(in, c);
	return read_any(in, nullptr, c.data());
}
std::string Variant::to_string() const { std::ostringstream ss; write(ss, *this); return ss.str(); }
std::string Variant::to_string_value() const {
	if(is_string()) {
		VectorInputStream s(&data); TypeInput in(&s);
		std::vector<uint16_t> c; read_byte_code(in, c);
		std::string v; read(in, v); return v;
	}
	return to_string();
}
std::ostream& operator<<(std::ostream& out, const Variant& v) { write(out, v); return out; }
std::ostream& operator<<(std::ostream& out, const Object& v) { write(out, v); return out; }
std::string Object::to_string() const { std::ostringstream ss; write(ss, *this); return ss.str(); }

// ------------------------------------------------------------------ Object
void read(TypeInput& in, Object& value, const TypeCode* tc, const uint16_t* code) {
	value.field.clear();
	TypeInput::recursion_t tag(in);
	if(!code || code[0] == CODE_OBJECT) {
		uint32_t n = 0; in.read(&n, 4);
		for(uint32_t i = 0; i < n; ++i) { std::string k; read(in, k); Variant v; read(in, v, nullptr, &c_dynamic); value.field[k] = std::move(v); }
		return;
	}
	switch(code[0]) {
		case CODE_MAP: { std::map<std::string, Variant> m; read(in, m, tc, code); value.field = m; return; }
		case CODE_ANY: if(auto v = read_any(in)) value = v->to_object(); return;
		case CODE_DYNAMIC: { std::vector<uint16_t> c; if(read_byte_code(in, c)) read(in, value, nullptr, c.data()); return; }
	}
	Variant v; read(in, v, tc, code); value = v.to_object();
}
void write(TypeOutput& out, const Object& value, const TypeCode* tc, const uint16_t* code) {
	if(code && code[0] == CODE_DYNAMIC) { write_dynamic(out, value); return; }
	const uint32_t n = value.field.size(); out.write(&n, 4);
	for(const auto& e : value.field) { write(out, e.first); write(out, e.second); }
}

// ------------------------------------------------------------------ classes
void write_class_header_raw(TypeOutput& out, const Hash64& h) { const uint16_t c = CODE_CLASS; out.write(&c, 2); out.write(&h.value, 8); }
void write_any(TypeOutput& out, const Value* v) {
	if(!v) { const uint16_t n = CODE_NULL; out.write(&n, 2); return; }
	if(auto* ex = dynamic_cast<const Exception*>(v)) {
		write_class_header_raw(out, Exception::VNX_CODE_HASH);
		std::string method; if(auto* p = dynamic_cast<const NoSuchMethod*>(v)) method = p->method;
		write(out, ex->get_type_name()); write(out, ex->what); write(out, method);
		return;
	}
	v->write(out, nullptr, nullptr);
}
std::shared_ptr<Value> read_any(TypeInput& in) {
	TypeInput::recursion_t tag(in);
	uint16_t c = 0; in.read(&c, 2);
	if(c == CODE_NULL) return nullptr;
	Hash64 h;
	if(c == CODE_TYPE_CODE || c == 0xFFFF) {
		// self-describing stream written by real vnx (shipped .dat files): skip the type descriptions that precede the value.
		// The value starts at a class marker followed by the code hash of a type known here.
		uint8_t win[10] = {};
		for(size_t n = 0; ; ++n) {
			::memmove(win, win + 1, 9);
			in.read(win + 9, 1);
			if(n < 9 || win[0] != CODE_CLASS || win[1]) continue;
			::memcpy(&h.value, win + 2, 8);
			if(get_type_code_by_code(h)) break;
		}
	} else {
		if(c != CODE_CLASS) throw std::runtime_error("read(): invalid class code " + std::to_string(c));
		in.read(&h.value, 8);
	}
	if(h == Exception::VNX_CODE_HASH) {
		std::string type, what, method; read(in, type); read(in, what); read(in, method);
		std::shared_ptr<Exception> ex;
		if(type == "vnx.NoSuchMethod") { auto e = NoSuchMethod::create(); e->method = method; ex = e; }
		else if(type == "vnx.OverflowException") ex = OverflowException::create();
		else if(type == "vnx.InternalError") ex = InternalError::create();
		else if(type == "vnx.NoSuchService") ex = NoSuchService::create();
		else if(type == "vnx.PermissionDenied") ex = PermissionDenied::create();
		else ex = Exception::create();
		ex->what = what;
		return ex;
	}
	auto* tc = get_type_code_by_code(h);
	if(!tc || !tc->create_value) throw std::runtime_error("read(): unknown type " + h.to_string());
	auto v = tc->create_value();
	v->read(in, tc, nullptr);
	return v;
}
std::shared_ptr<Value> read_any(TypeInput& in, const TypeCode* tc, const uint16_t* code) {
	if(!code || code[0] == CODE_ANY) return read_any(in);
	switch(code[0]) {
		case CODE_NULL: return nullptr;
		case CODE_DYNAMIC: { std::vector<uint16_t> c; if(!read_byte_code(in, c)) return nullptr; return read_any(in, nullptr, c.data()); }
		case CODE_OBJECT: {
			Object o; read(in, o, tc, code);
			auto v = create(o.get_type_name());
			if(v) v->from_object(o);
			return v;
		}
	}
	skip(in, tc, code);
	return nullptr;
}
std::shared_ptr<Value> read(TypeInput& in) { return read_any(in); }

// ------------------------------------------------------------------ JSON
static void json_string(std::ostream& out, const std::string& s) {
	out << '"';
	for(unsigned char c : s) switch(c) {
		case '"': out << "\\\""; break; case '\\': out << "\\\\"; break; case '\n': out << "\\n"; break; case '\t': out << "\\t"; break; case '\r': out << "\\r"; break;
		default: if(c < 0x20) { char b[8]; ::snprintf(b, sizeof(b), "\\u%04x", c); out << b; } else out << c;
	}
	out << '"';
}
namespace {
struct json_t {
	std::istream& in;
	int depth = 0;
	void ws() {
		while(true) {
			int c = in.peek();
			if(c == ' ' || c == '\n' || c == '\t' || c == '\r') { in.get(); continue; }
			return;
		}
	}
	std::string str() {
		std::string s; in.get();
		while(true) {
			int c = in.get();
			if(c == EOF) throw std::runtime_error("json: EOF in string");
			if(c == '"') return s;
			if(c == '\\') {
				c = in.get();
				switch(c) { case 'n': s += '\n'; break; case 't': s += '\t'; break; case 'r': s += '\r'; break; case 'b': s += '\b'; break; case 'f': s += '\f'; break;
					case 'u': { char h[5] = {}; in.read(h, 4); const auto v = ::strtoul(h, 0, 16); if(v < 0x80) s += char(v); else if(v < 0x800) { s += char(0xC0 | v >> 6); s += char(0x80 | (v & 63)); } else { s += char(0xE0 | v >> 12); s += char(0x80 | ((v >> 6) & 63)); s += char(0x80 | (v & 63)); } break; }
					default: s += char(c); }
			} else s += char(c);
		}
	}
	Variant value() {
		if(++depth > 100) throw std::runtime_error("json: too deep");
		ws();
		Variant out;
		int c = in.peek();
		if(c == '{') {
			in.get(); Object o; ws();
			if(in.peek() == '}') { in.get(); }
			else while(true) {
				ws(); if(in.peek() == '}') { in.get(); break; }
				if(in.peek() != '"') throw std::runtime_error("json: expected key");
				auto k = str(); ws(); if(in.get() != ':') throw std::runtime_error("json: expected ':'");
				o.field[k] = value(); ws();
				c = in.get(); if(c == '}') break; if(c != ',') throw std::runtime_error("json: expected ','");
			}
			out = Variant(o);
		} else if(c == '[') {
			in.get(); std::vector<Variant> v; ws();
			if(in.peek() == ']') { in.get(); }
			else while(true) {
				ws(); if(in.peek() == ']') { in.get(); break; }
				v.push_back(value()); ws();
				c = in.get(); if(c == ']') break; if(c != ',') throw std::runtime_error("json: expected ','");
			}
			out = Variant(v);
		} else if(c == '"') { out = Variant(str()); }
		else if(c == EOF) { throw std::underflow_error("json: EOF"); }
		else {
			std::string w;
			while((c = in.peek()) != EOF && !::strchr(",]}: \n\t\r\"[{", c)) { w += char(in.get()); }
			if(w == "true") out = Variant(true); else if(w == "false") out = Variant(false); else if(w == "null") {}
			else out = number(w);
		}
		depth--;
		return out;
	}
	static bool is_num(const std::string& w) { if(w.empty()) return false; bool digit = false; for(char ch : w) { if(::isdigit(ch)) digit = true; else if(!::strchr("+-.eE", ch)) return false; } return digit; }
	static Variant number(const std::string& w) {
		if(!is_num(w)) throw std::runtime_error("json: invalid token '" + w + "'");
		if(w.find_first_of(".eE") != std::string::npos) return Variant(::strtod(w.c_str(), 0));
		if(w[0] == '-') return Variant(int64_t(::strtoll(w.c_str(), 0, 10)));
		return Variant(uint64_t(::strtoull(w.c_str(), 0, 10)));
	}
};
}
Variant read(std::istream& in) { json_t j{in}; try { return j.value(); } catch(const std::underflow_error&) { return Variant(); } }
std::shared_ptr<JSON_Value> read_json(std::istream& in, bool until_eof) {
	json_t j{in};
	j.ws();
	if(in.peek() == EOF) return nullptr;
	const bool arr = in.peek() == '[';
	auto v = j.value();
	std::shared_ptr<JSON_Value> out = arr ? std::make_shared<JSON_Array>() : std::make_shared<JSON_Value>();
	out->value = v;
	return out;
}
void from_string_value(const std::string& s, Variant& value) {
	value = Variant();
	if(s.empty()) { value = Variant(s); return; }
	if(json_t::is_num(s) && s.find_first_not_of("0123456789") == std::string::npos) { value = Variant(uint64_t(::strtoull(s.c_str(), 0, 10))); return; }
	try {
		std::istringstream ss(s); json_t j{ss};
		auto v = j.value(); j.ws();
		if(ss.peek() == EOF) { value = v; return; }
	} catch(...) {}
	value = Variant(s);
}
void write(std::ostream& out, const std::string& v) { json_string(out, v); }
void write(std::ostream& out, const bool& v) { out << (v ? "true" : "false"); }
void write(std::ostream& out, const Variant& v) { DefaultPrinter p(out); accept(p, v); }
void write(std::ostream& out, const Object& v) { DefaultPrinter p(out); accept(p, v); }
void write(std::ostream& out, const TypeCode& v) { out << '"' << v.name << '"'; }
void write(std::ostream& out, const Buffer& v) { out << '"' << to_hex_string(v.data(), v.size()) << '"'; }
void accept(Visitor& v, const Object& o) {
	v.map_begin(o.field.size());
	size_t i = 0;
	for(const auto& e : o.field) { v.map_key(i); v.visit(e.first); v.map_value(i); accept(v, e.second); i++; }
	v.map_end(o.field.size());
}
void accept(Visitor& v, const Buffer& b) { v.visit(b.data(), b.size()); }
void accept(Visitor& v, const TypeCode& c) { v.visit(c.name); }

static void visit_code(Visitor& v, TypeInput& in, const uint16_t* code) {
	switch(code[0]) {
		case CODE_NULL: v.visit_null(); return;
		case CODE_BOOL: { uint8_t x; in.read(&x, 1); v.visit(bool(x)); return; }
		case CODE_UINT8: { uint8_t x; in.read(&x, 1); v.visit(x); return; }
		case CODE_UINT16: { uint16_t x; in.read(&x, 2); v.visit(x); return; }
		case CODE_UINT32: { uint32_t x; in.read(&x, 4); v.visit(x); return; }
		case CODE_UINT64: { uint64_t x; in.read(&x, 8); v.visit(x); return; }
		case CODE_INT8: { int8_t x; in.read(&x, 1); v.visit(x); return; }
		case CODE_INT16: { int16_t x; in.read(&x, 2); v.visit(x); return; }
		case CODE_INT32: { int32_t x; in.read(&x, 4); v.visit(x); return; }
		case CODE_INT64: { int64_t x; in.read(&x, 8); v.visit(x); return; }
		case CODE_FLOAT: { float x; in.read(&x, 4); v.visit(x); return; }
		case CODE_DOUBLE: { double x; in.read(&x, 8); v.visit(x); return; }
		case CODE_STRING: { std::string s; read(in, s); v.visit(s); return; }
		case CODE_OBJECT: { Object o; read(in, o); accept(v, o); return; }
		case CODE_ANY: { auto p = read_any(in); if(p) p->accept(v); else v.visit_null(); return; }
		case CODE_DYNAMIC: { std::vector<uint16_t> c; if(read_byte_code(in, c)) visit_code(v, in, c.data()); else v.visit_null(); return; }
		case CODE_OPTIONAL: { uint8_t x; in.read(&x, 1); if(x) visit_code(v, in, code + 1); else v.visit_null(); return; }
		case CODE_ARRAY: { v.list_begin(code[1]); for(size_t i = 0; i < code[1]; ++i) { v.list_element(i); visit_code(v, in, code + 2); } v.list_end(code[1]); return; }
		case CODE_TUPLE: { v.list_begin(code[1]); for(size_t i = 0; i < code[1]; ++i) { v.list_element(i); visit_code(v, in, code + code[2 + i]); } v.list_end(code[1]); return; }
		case CODE_LIST: {
			uint32_t n = 0; in.read(&n, 4);
			if(code[1] == CODE_INT8) { std::string s(n, 0); in.read(&s[0], n); v.visit(s); return; }
			if(code[1] == CODE_UINT8) { std::vector<uint8_t> s(n); in.read(s.data(), n); v.visit(s.data(), n); return; }
			v.list_begin(n); for(size_t i = 0; i < n; ++i) { v.list_element(i); visit_code(v, in, code + 1); } v.list_end(n); return;
		}
		case CODE_MAP: { uint32_t n = 0; in.read(&n, 4); v.map_begin(n); for(size_t i = 0; i < n; ++i) { v.map_key(i); visit_code(v, in, code + 2); v.map_value(i); visit_code(v, in, code + code[1]); } v.map_end(n); return; }
	}
	v.visit_null();
}
void accept(Visitor& v, const Variant& value) {
	if(value.is_null()) { v.visit_null(); return; }
	VectorInputStream s(&value.data); TypeInput in(&s);
	std::vector<uint16_t> c; read_byte_code(in, c);
	visit_code(v, in, c.data());
}
void PrinterBase::visit(const std::string& v) { json_string(out, v); }
void PrinterBase::visit(const uint8_t* data, size_t len) { out << '"' << (len ? "0x" : "") << to_hex_string(data, len) << '"'; }
void PrinterBase::type_begin(const TypeCode& code) { out << "{"; depth++; nl(); out << "\"__type\": \"" << code.name << "\""; }

} // vnx
