// simvnx: re-implementation of the vnx-base API used by mmx-node, on top of the deterministic simulator (sim.h).
// Serialisation, reflection, in-process messaging, timers, files, configuration, logging.
#ifndef SIMVNX_VNX_H
#define SIMVNX_VNX_H

#include <array>
#include <atomic>
#include <algorithm>
#include <condition_variable>
#include <cstdint>
#include <cstring>
#include <cmath>
#include <deque>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <queue>
#include <set>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

namespace sim { struct Machine; struct OpenFile; }

namespace vnx {

typedef bool bool_t;
typedef float float32_t;
typedef double float64_t;

enum code_e : uint16_t {
	CODE_NULL = 0,
	CODE_UINT8 = 1, CODE_UINT16 = 2, CODE_UINT32 = 3, CODE_UINT64 = 4,
	CODE_INT8 = 5, CODE_INT16 = 6, CODE_INT32 = 7, CODE_INT64 = 8,
	CODE_FLOAT = 9, CODE_DOUBLE = 10,
	CODE_ARRAY = 11, CODE_LIST = 12, CODE_MAP = 13, CODE_TYPE_CODE = 14, CODE_CLASS = 15,
	CODE_ANY = 16, CODE_DYNAMIC = 17, CODE_OBJECT = 18, CODE_STRUCT = 19,
	CODE_TUPLE = 23, CODE_BOOL = 31, CODE_STRING = 32, CODE_OPTIONAL = 33,
};
enum alt_code_e : uint16_t {
	CODE_ALT_UINT8 = 0x100, CODE_ALT_UINT16 = 0x200, CODE_ALT_UINT32 = 0x300, CODE_ALT_UINT64 = 0x400,
	CODE_ALT_INT8 = 0x500, CODE_ALT_INT16 = 0x600, CODE_ALT_INT32 = 0x700, CODE_ALT_INT64 = 0x800,
	CODE_ALT_FLOAT = 0x900, CODE_ALT_DOUBLE = 0xa00,
	CODE_ALT_ARRAY = 0xb00, CODE_ALT_LIST = 0xc00, CODE_ALT_MAP = 0xd00, CODE_ALT_TYPE_CODE = 0xe00, CODE_ALT_CLASS = 0xf00,
	CODE_ALT_ANY = 0x1000, CODE_ALT_DYNAMIC = 0x1100, CODE_ALT_OBJECT = 0x1200, CODE_ALT_STRUCT = 0x1300,
	CODE_ALT_TUPLE = 0x1700, CODE_ALT_BOOL = 0x1f00, CODE_ALT_STRING = 0x2000, CODE_ALT_OPTIONAL = 0x2100,
};
}
static constexpr size_t VNX_MAX_BYTE_CODE_SIZE = 4096;
namespace vnx {

inline uint16_t flip_bytes(uint16_t v) { return uint16_t((v << 8) | (v >> 8)); }
inline uint32_t flip_bytes(uint32_t v) { return __builtin_bswap32(v); }
inline uint64_t flip_bytes(uint64_t v) { return __builtin_bswap64(v); }
template<typename T>
T to_big_endian(T v) {
	if constexpr(sizeof(T) == 2) return T(__builtin_bswap16(uint16_t(v)));
	else if constexpr(sizeof(T) == 4) return T(__builtin_bswap32(uint32_t(v)));
	else if constexpr(sizeof(T) == 8) return T(__builtin_bswap64(uint64_t(v)));
	else return v;
}
template<typename T> T from_big_endian(T v) { return to_big_endian(v); }
template<typename T> T to_little_endian(T v) { return v; }
template<typename T> T from_little_endian(T v) { return v; }

uint64_t calc_crc64(const void* data, size_t n, uint64_t init = 0);

// ------------------------------------------------------------------ Hash64
class Hash64 {
public:
	uint64_t value = 0;
	constexpr Hash64() = default;
	constexpr Hash64(uint64_t v) : value(v) {}
	Hash64(uint64_t a, const Hash64& b) { const uint64_t t[2] = {a, b.value}; *this = Hash64((const void*)t, sizeof(t)); }
	explicit Hash64(const std::string& s);
	Hash64(const void* data, size_t n);
	static Hash64 rand();
	constexpr operator uint64_t() const { return value; }
	std::string to_string() const;
	explicit operator bool() const { return value != 0; }
};
uint64_t hash64(const std::string& s);
inline std::ostream& operator<<(std::ostream& out, const Hash64& h) { return out << h.to_string(); }

class TypeInput;
class TypeOutput;
class TypeCode;
class Visitor;
class Variant;
class Object;
class Value;
class Buffer;
class Memory;
struct TypeField;
class JSON_Value;
class TopicPtr;
class Exception;

// ------------------------------------------------------------------ streams
class InputStream {
public:
	virtual ~InputStream() {}
	virtual size_t read(void* buf, size_t n) = 0;
};
class OutputStream {
public:
	virtual ~OutputStream() {}
	virtual void write(const void* buf, size_t n) = 0;
	virtual void flush() {}
};
class VectorInputStream : public InputStream {
public:
	VectorInputStream(const std::vector<uint8_t>* v) : vec(v) {}
	size_t read(void* buf, size_t n) override { n = std::min(n, vec->size() - pos); if(n) ::memcpy(buf, vec->data() + pos, n); pos += n; return n; }
private:
	const std::vector<uint8_t>* vec;
	size_t pos = 0;
};
class VectorOutputStream : public OutputStream {
public:
	VectorOutputStream(std::vector<uint8_t>* v) : vec(v) {}
	void write(const void* buf, size_t n) override { vec->insert(vec->end(), (const uint8_t*)buf, (const uint8_t*)buf + n); }
private:
	std::vector<uint8_t>* vec;
};
class PointerInputStream : public InputStream {
public:
	PointerInputStream(const void* p, size_t n) : ptr((const char*)p), left(n) {}
	size_t read(void* buf, size_t n) override { n = std::min(n, left); if(n) ::memcpy(buf, ptr, n); ptr += n; left -= n; return n; }
private:
	const char* ptr;
	size_t left;
};
class Memory {
public:
	std::vector<uint8_t> vec;
	size_t get_size() const { return vec.size(); }
	void clear() { vec.clear(); }
	void append(const void* p, size_t n) { vec.insert(vec.end(), (const uint8_t*)p, (const uint8_t*)p + n); }
	std::string as_string() const { return std::string((const char*)vec.data(), vec.size()); }
};
class Buffer {
public:
	Buffer() = default;
	Buffer(size_t n) : vec(n) {}
	Buffer(const Memory& m) : vec(m.vec) {}
	Buffer(const std::string& s) : vec(s.begin(), s.end()) {}
	Buffer& operator=(const Memory& m) { vec = m.vec; return *this; }
	uint8_t* data() { return vec.data(); }
	const uint8_t* data() const { return vec.data(); }
	uint8_t* data(size_t off) { return vec.data() + off; }
	size_t size() const { return vec.size(); }
	size_t capacity() const { return vec.size(); }
	bool empty() const { return vec.empty(); }
	void clear() { vec.clear(); }
	void resize(size_t n) { vec.resize(n); }
	void reserve(size_t n) { vec.resize(n); }
	std::string as_string() const { return std::string((const char*)vec.data(), vec.size()); }
	bool operator==(const Buffer& o) const { return vec == o.vec; }
	std::vector<uint8_t> vec;
};
class MemoryOutputStream : public OutputStream {
public:
	MemoryOutputStream(Memory* m) : mem(m) {}
	void write(const void* buf, size_t n) override { mem->append(buf, n); }
private:
	Memory* mem;
};

class OutputBuffer {
public:
	bool disable_type_codes = false;
	OutputBuffer(OutputStream* s) : stream(s) {}
	virtual ~OutputBuffer() {}
	uint8_t* write(size_t n) {		// n <= CAP
		if(n > CAP) throw std::logic_error("OutputBuffer: write too large");
		if(pos + n > CAP) flush();
		auto* p = buf() + pos;
		pos += n;
		return p;
	}
	void write(const void* p, size_t n) {
		if(n > CAP - pos) {
			flush();
			if(n > CAP) { stream->write(p, n); total += n; return; }
		}
		if(n) ::memcpy(buf() + pos, p, n);
		pos += n;
	}
	void flush() { if(pos) { const auto n = pos; pos = 0; total += n; stream->write(buffer.data(), n); } }
	void reset() { pos = 0; }
	void set_total(int64_t t) { total = t; }
	void* get_buffer() { return buf(); }
	size_t get_buffer_pos() const { return pos; }
	int64_t get_output_pos() const { return total + pos; }
	OutputStream* get_stream() { return stream; }
protected:
	static constexpr size_t CAP = 16384;
	uint8_t* buf() { if(buffer.empty()) buffer.resize(CAP); return buffer.data(); }
	OutputStream* stream;
	std::vector<uint8_t> buffer;
	size_t pos = 0;
	int64_t total = 0;
};
class TypeOutput : public OutputBuffer {
public:
	using OutputBuffer::OutputBuffer;
	void write_type_code(const TypeCode*) {}
};
class InputBuffer {
public:
	InputBuffer(InputStream* s) : stream(s) {}
	virtual ~InputBuffer() {}
	void read(void* p, size_t n) {
		auto* dst = (char*)p;
		while(n) {
			if(pos < end) {
				const auto k = std::min(n, end - pos);
				::memcpy(dst, buffer.data() + pos, k);
				pos += k; dst += k; n -= k;
				continue;
			}
			if(n >= CAP) {
				const auto k = stream->read(dst, n);
				if(!k) throw std::underflow_error("read(): EOF");
				total += k; dst += k; n -= k;
				continue;
			}
			fill();
		}
	}
	const uint8_t* read(size_t n) {
		if(scratch.size() < n) scratch.resize(n);
		if(n <= end - pos) { auto* p = buffer.data() + pos; pos += n; return p; }
		read(scratch.data(), n);
		return scratch.data();
	}
	size_t read_some(void* p, size_t n) {
		if(pos >= end) fill();
		const auto k = std::min(n, end - pos);
		::memcpy(p, buffer.data() + pos, k); pos += k;
		return k;
	}
	void reset() { pos = end = 0; }
	size_t get_buffer_avail() const { return end - pos; }
	int64_t get_input_pos() const { return total - int64_t(end - pos); }
	void set_total(int64_t t) { total = t; }
	InputStream* get_stream() { return stream; }
protected:
	static constexpr size_t CAP = 16384;
	void fill() {
		if(buffer.empty()) buffer.resize(CAP);
		pos = end = 0;
		const auto k = stream->read(buffer.data(), CAP);
		if(!k) throw std::underflow_error("read(): EOF");
		end = k; total += k;
	}
	InputStream* stream;
	std::vector<uint8_t> buffer, scratch;
	size_t pos = 0, end = 0;
	int64_t total = 0;
};
class TypeInput : public InputBuffer {
public:
	using InputBuffer::InputBuffer;
	bool safe_read = false;
	int depth = 0;
	struct recursion_t {
		TypeInput& in;
		recursion_t(TypeInput& in_) : in(in_) { if(++in.depth > 100) { in.depth = 0; throw std::runtime_error("recursion too deep"); } }
		~recursion_t() { in.depth--; }
	};
};

// ------------------------------------------------------------------ type codes
struct TypeField {
	bool is_extended = false;
	int data_size = 0;
	std::string name, value;
	std::vector<uint16_t> code;
	int native_index = -1;
	int offset = -1;
};
enum class permission_e_dummy {};
class TypeCode {
public:
	std::string name, permission;
	Hash64 type_hash, code_hash;
	bool is_native = false, is_class = false, is_enum = false, is_async = false, is_const = false, is_method = false, is_return = false;
	bool is_equivalent = false, is_matched = false;
	size_t native_size = 0;
	std::function<std::shared_ptr<Value>()> create_value;
	std::vector<const TypeCode*> depends, methods, parents;
	const TypeCode* super = nullptr;
	const TypeCode* return_type = nullptr;
	std::vector<TypeField> fields;
	std::map<uint32_t, std::string> enum_map;
	size_t total_field_size = 0;
	std::vector<const TypeField*> field_map, ext_fields;
	TypeCode() = default;
	TypeCode(const TypeCode& o) { *this = o; }
	TypeCode& operator=(const TypeCode& o);
	void build();
};
const TypeCode* get_type_code(const Hash64& type_hash);
const TypeCode* get_type_code_by_code(const Hash64& code_hash);
const TypeCode* register_type_code(std::shared_ptr<TypeCode> code);
std::vector<const TypeCode*> get_all_type_codes();

struct struct_t {};

// ------------------------------------------------------------------ optional
template<typename T>
class optional {
public:
	optional() = default;
	optional(std::nullptr_t) {}
	optional(const T& v) : has(true), val(v) {}
	template<typename S, typename = std::enable_if_t<std::is_convertible<const S&, T>::value && !std::is_same<std::decay_t<S>, optional>::value && !std::is_same<std::decay_t<S>, T>::value && !std::is_same<std::decay_t<S>, std::nullptr_t>::value>>
	optional(const S& v) : has(true), val(v) {}
	optional(const T* p) { if(p) { has = true; val = *p; } }
	optional& operator=(const T& v) { val = v; has = true; return *this; }
	optional& operator=(std::nullptr_t) { has = false; val = T(); return *this; }
	template<typename S, typename = std::enable_if_t<std::is_convertible<const S&, T>::value && !std::is_same<std::decay_t<S>, optional>::value && !std::is_same<std::decay_t<S>, T>::value && !std::is_same<std::decay_t<S>, std::nullptr_t>::value>>
	optional& operator=(const S& v) { val = T(v); has = true; return *this; }
	operator bool() const { return has; }
	T& operator*() { check(); return val; }
	const T& operator*() const { check(); return val; }
	T* operator->() { check(); return &val; }
	const T* operator->() const { check(); return &val; }
	T* get() { return has ? &val : nullptr; }
	const T* get() const { return has ? &val : nullptr; }
	T& value() { check(); return val; }
	const T& value() const { check(); return val; }
	void reset() { has = false; val = T(); }
	bool operator==(const optional& o) const { return has == o.has && (!has || val == o.val); }
	bool operator!=(const optional& o) const { return !(*this == o); }
	bool operator==(const T& o) const { return has && val == o; }
	bool operator!=(const T& o) const { return !(*this == o); }
	bool operator==(std::nullptr_t) const { return !has; }
	bool operator!=(std::nullptr_t) const { return has; }
	bool operator<(const optional& o) const { return has && o.has ? val < o.val : has < o.has; }
private:
	void check() const { if(!has) throw std::logic_error("optional: dereferenced nullptr"); }
	bool has = false;
	T val = T();
};

// ------------------------------------------------------------------ visitor
class Visitor {
public:
	bool enable_binary = true;
	virtual ~Visitor() {}
	virtual void visit_null() {}
	virtual void visit(const bool&) {}
	virtual void visit(const uint8_t&) {}
	virtual void visit(const uint16_t&) {}
	virtual void visit(const uint32_t&) {}
	virtual void visit(const uint64_t&) {}
	virtual void visit(const int8_t&) {}
	virtual void visit(const int16_t&) {}
	virtual void visit(const int32_t&) {}
	virtual void visit(const int64_t&) {}
	virtual void visit(const float32_t&) {}
	virtual void visit(const float64_t&) {}
	virtual void visit(const std::string&) {}
	virtual void visit(const uint8_t* data, size_t len) {}
	virtual void list_begin(size_t size) {}
	virtual void list_element(size_t index) {}
	virtual void list_end(size_t size) {}
	virtual void map_begin(size_t size) {}
	virtual void map_key(size_t index) {}
	virtual void map_value(size_t index) {}
	virtual void map_end(size_t size) {}
	virtual void type_begin(const TypeCode& code) {}
	virtual void type_field(const TypeField& field, size_t index) {}
	virtual void type_end(const TypeCode& code) {}
	virtual void enum_value(uint32_t value, const std::string& name) {}
};

// ------------------------------------------------------------------ Object & Variant
class Variant {
public:
	std::vector<uint8_t> data;		// [byte code][value], empty == null
	size_t size() const { return data.size(); }

	Variant() = default;
	Variant(std::nullptr_t) {}
	Variant(const bool& v);
	Variant(const char* s);
	Variant(const std::string& s);
	Variant(const Object& o);
	Variant(const uint8_t&); Variant(const uint16_t&); Variant(const uint32_t&); Variant(const uint64_t&);
	Variant(const int8_t&); Variant(const int16_t&); Variant(const int32_t&); Variant(const int64_t&);
	Variant(const unsigned long long&);
	Variant(const float&); Variant(const double&);
	Variant(const std::vector<Variant>& v);
	template<typename T>
	explicit Variant(const T& v) { assign(v); }
	Variant(const Variant&) = default;
	Variant(Variant&&) = default;
	Variant& operator=(const Variant&) = default;
	Variant& operator=(Variant&&) = default;
	template<typename T>
	Variant& operator=(const T& v) { assign(v); return *this; }
	template<typename T> void assign(const T& v);
	void assign(const Variant& v) { data = v.data; }
	void assign(std::nullptr_t) { data.clear(); }
	void assign(const char* s);

	void clear() { data.clear(); }
	std::vector<uint16_t> get_code() const;
	bool empty() const { return is_null(); }
	bool is_null() const;
	bool is_void() const { return is_null(); }
	bool is_bool() const;
	bool is_ulong() const;
	bool is_long() const;
	bool is_integral() const { return is_long() || is_ulong(); }
	bool is_double() const;
	bool is_string() const;
	bool is_array() const;
	bool is_object() const;
	bool is_map() const;

	template<typename T> void to(T& value) const;
	void to(Variant& value) const { value = *this; }
	template<typename T> T to() const { T tmp = T(); to(tmp); return tmp; }
	Object to_object() const;
	std::shared_ptr<Value> to_value() const;
	std::string to_string() const;			// JSON
	std::string to_string_value() const;	// without quotes
	std::string to_string_value_full() const { return to_string_value(); }
	bool operator==(const Variant& o) const;
	bool operator!=(const Variant& o) const { return !(*this == o); }
	bool operator<(const Variant& o) const { return data < o.data; }
	explicit operator bool() const { return to<bool>(); }
};
std::ostream& operator<<(std::ostream& out, const Variant& v);

class Object {
public:
	std::map<std::string, Variant> field;
	Object() = default;
	Object(const std::map<std::string, Variant>& f) : field(f) {}
	Variant& operator[](const std::string& k) { return field[k]; }
	Variant operator[](const std::string& k) const { auto i = field.find(k); return i != field.end() ? i->second : Variant(); }
	bool empty() const { return field.empty(); }
	const std::map<std::string, Variant>& get_fields() const { return field; }
	void clear() { field.clear(); }
	void erase(const std::string& k) { field.erase(k); }
	bool is_void() const { return field.empty(); }
	Object& operator+=(const Object& o) { for(auto& e : o.field) field[e.first] = e.second; return *this; }
	std::map<std::string, Variant>::const_iterator begin() const { return field.begin(); }
	std::map<std::string, Variant>::const_iterator end() const { return field.end(); }
	bool operator==(const Object& o) const { return field == o.field; }
	bool operator!=(const Object& o) const { return field != o.field; }
	std::string to_string() const;
	std::string get_type_name() const { auto i = field.find("__type"); return i != field.end() ? i->second.to_string_value() : std::string(); }
};
std::ostream& operator<<(std::ostream& out, const Object& v);
template<typename T> struct is_object_t { static constexpr bool value = false; };

// ------------------------------------------------------------------ TopicPtr
class TopicPtr {
public:
	TopicPtr() = default;
	TopicPtr(const std::string& n) : name(n) {}
	TopicPtr(const char* n) : name(n) {}
	std::string get_name() const { return name; }
	std::string to_string() const { return name; }
	bool empty() const { return name.empty(); }
	explicit operator bool() const { return !name.empty(); }
	bool operator==(const TopicPtr& o) const { return name == o.name; }
	bool operator!=(const TopicPtr& o) const { return name != o.name; }
	bool operator<(const TopicPtr& o) const { return name < o.name; }
	std::string name;
};
inline std::ostream& operator<<(std::ostream& out, const TopicPtr& t) { return out << t.name; }

// ------------------------------------------------------------------ read/write/accept: declarations
template<typename T> struct type;

std::shared_ptr<Value> read(TypeInput& in);
template<typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>>
void read(TypeInput& in, T& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>>
void write(TypeOutput& out, const T& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void read(TypeInput& in, std::string& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const std::string& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void read(TypeInput& in, Variant& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const Variant& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void read(TypeInput& in, Object& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const Object& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void read(TypeInput& in, TopicPtr& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const TopicPtr& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void read(TypeInput& in, Hash64& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const Hash64& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void read(TypeInput& in, Buffer& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const Buffer& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void read(TypeInput& in, TypeCode& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, const TypeCode& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
void write(TypeOutput& out, std::nullptr_t, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);

template<typename T> void read(TypeInput& in, std::vector<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const std::vector<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void read(TypeInput& in, std::list<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const std::list<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void read(TypeInput& in, std::set<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const std::set<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void read(TypeInput& in, std::unordered_set<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const std::unordered_set<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T, size_t N> void read(TypeInput& in, std::array<T, N>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T, size_t N> void write(TypeOutput& out, const std::array<T, N>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename K, typename V> void read(TypeInput& in, std::map<K, V>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename K, typename V> void write(TypeOutput& out, const std::map<K, V>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename K, typename V> void read(TypeInput& in, std::unordered_map<K, V>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename K, typename V> void write(TypeOutput& out, const std::unordered_map<K, V>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename A, typename B> void read(TypeInput& in, std::pair<A, B>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename A, typename B> void write(TypeOutput& out, const std::pair<A, B>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename... T> void read(TypeInput& in, std::tuple<T...>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename... T> void write(TypeOutput& out, const std::tuple<T...>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void read(TypeInput& in, optional<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const optional<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void read(TypeInput& in, std::shared_ptr<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);
template<typename T> void write(TypeOutput& out, const std::shared_ptr<T>& value, const TypeCode* type_code = nullptr, const uint16_t* code = nullptr);

template<typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>, typename = void>
void accept(Visitor& visitor, const T& value) { visitor.visit(value); }
inline void accept(Visitor& visitor, const std::string& value) { visitor.visit(value); }
inline void accept(Visitor& visitor, const unsigned long long& value) { visitor.visit(uint64_t(value)); }
inline void accept(Visitor& visitor, const TopicPtr& value) { visitor.visit(value.name); }
inline void accept(Visitor& visitor, const Hash64& value) { visitor.visit(value.value); }
inline void accept(Visitor& visitor, std::nullptr_t) { visitor.visit_null(); }
void accept(Visitor& visitor, const Variant& value);
void accept(Visitor& visitor, const Object& value);
void accept(Visitor& visitor, const Buffer& value);
void accept(Visitor& visitor, const TypeCode& value);
template<typename T> void accept(Visitor& visitor, const std::vector<T>& value);
template<typename T> void accept(Visitor& visitor, const std::list<T>& value);
template<typename T> void accept(Visitor& visitor, const std::set<T>& value);
template<typename T> void accept(Visitor& visitor, const std::unordered_set<T>& value);
template<typename T, size_t N> void accept(Visitor& visitor, const std::array<T, N>& value);
template<typename K, typename V> void accept(Visitor& visitor, const std::map<K, V>& value);
template<typename K, typename V> void accept(Visitor& visitor, const std::unordered_map<K, V>& value);
template<typename A, typename B> void accept(Visitor& visitor, const std::pair<A, B>& value);
template<typename... T> void accept(Visitor& visitor, const std::tuple<T...>& value);
template<typename T> void accept(Visitor& visitor, const optional<T>& value);
template<typename T> void accept(Visitor& visitor, const std::shared_ptr<T>& value);
template<typename T> void accept_generic(T& visitor, std::shared_ptr<const Value> value) {}

// text streams
Variant read(std::istream& in);				// JSON
std::shared_ptr<JSON_Value> read_json(std::istream& in, bool until_eof = false);
void write(std::ostream& out, const std::string& value);
void write(std::ostream& out, const Variant& value);
void write(std::ostream& out, const Object& value);
void write(std::ostream& out, const bool& value);
template<typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value && !std::is_same<T, bool>::value>, typename = void>
void write(std::ostream& out, const T& value) {
	if constexpr(sizeof(T) == 1) out << int(value); else out << value;
}
template<typename T, typename = std::enable_if_t<std::is_arithmetic<T>::value>>
void read(std::istream& in, T& value) { read(in).to(value); }
inline void read(std::istream& in, Variant& value) { value = read(in); }
inline void read(std::istream& in, std::string& value) { value = read(in).to_string_value(); }

namespace detail {
template<typename T> void adl_read(TypeInput& in, T& v, const TypeCode* tc, const uint16_t* code) { read(in, v, tc, code); }
template<typename T> void adl_write(TypeOutput& out, const T& v, const TypeCode* tc, const uint16_t* code) { write(out, v, tc, code); }
template<typename T> void adl_accept(Visitor& vis, const T& v) { accept(vis, v); }
template<typename T> void adl_sread(std::istream& in, T& v) { read(in, v); }
template<typename T> void adl_swrite(std::ostream& out, const T& v) { write(out, v); }
}

// dynamic type codes for the standard types
template<typename T, typename = void>
struct dyn_code { static void add(std::vector<uint16_t>& c, const T&, bool) { c.push_back(std::is_enum<T>::value ? CODE_UINT32 : CODE_OBJECT); } };

template<typename T>
struct type {
	void read(TypeInput& in, T& value, const TypeCode* type_code, const uint16_t* code) { detail::adl_read(in, value, type_code, code); }
	void write(TypeOutput& out, const T& value, const TypeCode* type_code, const uint16_t* code) { detail::adl_write(out, value, type_code, code); }
	void read(std::istream& in, T& value) { detail::adl_sread(in, value); }
	void write(std::ostream& out, const T& value) { detail::adl_swrite(out, value); }
	void accept(Visitor& visitor, const T& value) { detail::adl_accept(visitor, value); }
	const TypeCode* get_type_code() { return nullptr; }
	void create_dynamic_code(std::vector<uint16_t>& code) { dyn_code<T>::add(code, T(), false); }
	void create_dynamic_code(std::vector<uint16_t>& code, const T& value, bool special = false) { dyn_code<T>::add(code, value, special); }
};
#define SIMVNX_CODE(T, C) template<> struct dyn_code<T> { static void add(std::vector<uint16_t>& c, const T&, bool) { c.push_back(C); } };
SIMVNX_CODE(bool, CODE_BOOL) SIMVNX_CODE(uint8_t, CODE_UINT8) SIMVNX_CODE(uint16_t, CODE_UINT16) SIMVNX_CODE(uint32_t, CODE_UINT32) SIMVNX_CODE(uint64_t, CODE_UINT64)
SIMVNX_CODE(int8_t, CODE_INT8) SIMVNX_CODE(int16_t, CODE_INT16) SIMVNX_CODE(int32_t, CODE_INT32) SIMVNX_CODE(int64_t, CODE_INT64)
SIMVNX_CODE(char, CODE_INT8) SIMVNX_CODE(unsigned long long, CODE_UINT64) SIMVNX_CODE(long long, CODE_INT64)
SIMVNX_CODE(float, CODE_FLOAT) SIMVNX_CODE(double, CODE_DOUBLE) SIMVNX_CODE(std::string, CODE_STRING) SIMVNX_CODE(Variant, CODE_DYNAMIC) SIMVNX_CODE(Object, CODE_OBJECT)
SIMVNX_CODE(TypeCode, CODE_TYPE_CODE) SIMVNX_CODE(Hash64, CODE_UINT64)
#undef SIMVNX_CODE
template<> struct dyn_code<TopicPtr> { static void add(std::vector<uint16_t>& c, const TopicPtr&, bool) { c.push_back(CODE_LIST); c.push_back(CODE_INT8); } };
template<> struct dyn_code<Buffer> { static void add(std::vector<uint16_t>& c, const Buffer&, bool) { c.push_back(CODE_LIST); c.push_back(CODE_UINT8); } };
template<typename T> void add_code(std::vector<uint16_t>& c) { type<T>().create_dynamic_code(c); }
template<typename C> struct dyn_list { static void add(std::vector<uint16_t>& c, const C&, bool) { c.push_back(CODE_LIST); add_code<typename C::value_type>(c); } };
template<typename T> struct dyn_code<std::vector<T>> : dyn_list<std::vector<T>> {};
template<typename T> struct dyn_code<std::list<T>> : dyn_list<std::list<T>> {};
template<typename T> struct dyn_code<std::set<T>> : dyn_list<std::set<T>> {};
template<typename T> struct dyn_code<std::unordered_set<T>> : dyn_list<std::unordered_set<T>> {};
template<typename T, size_t N> struct dyn_code<std::array<T, N>> { static void add(std::vector<uint16_t>& c, const std::array<T, N>&, bool) { c.push_back(CODE_ARRAY); c.push_back(N); add_code<T>(c); } };
template<typename C> struct dyn_map { static void add(std::vector<uint16_t>& c, const C&, bool) {
	const auto base = c.size(); c.push_back(CODE_MAP); c.push_back(0); add_code<typename C::key_type>(c); c[base + 1] = c.size() - base; add_code<typename C::mapped_type>(c); } };
template<typename K, typename V> struct dyn_code<std::map<K, V>> : dyn_map<std::map<K, V>> {};
template<typename K, typename V> struct dyn_code<std::unordered_map<K, V>> : dyn_map<std::unordered_map<K, V>> {};
template<typename... T> void add_tuple_code(std::vector<uint16_t>& c) {
	const auto base = c.size(); const size_t n = sizeof...(T); c.push_back(CODE_TUPLE); c.push_back(n); c.resize(c.size() + n);
	size_t i = 0;
	([&]() { c[base + 2 + i++] = c.size() - base; add_code<T>(c); }(), ...);
}
template<typename A, typename B> struct dyn_code<std::pair<A, B>> { static void add(std::vector<uint16_t>& c, const std::pair<A, B>&, bool) { add_tuple_code<std::decay_t<A>, std::decay_t<B>>(c); } };
template<typename... T> struct dyn_code<std::tuple<T...>> { static void add(std::vector<uint16_t>& c, const std::tuple<T...>&, bool) { add_tuple_code<T...>(c); } };
template<typename T> struct dyn_code<optional<T>> { static void add(std::vector<uint16_t>& c, const optional<T>&, bool) { c.push_back(CODE_OPTIONAL); add_code<T>(c); } };
template<typename T> struct dyn_code<std::shared_ptr<T>> { static void add(std::vector<uint16_t>& c, const std::shared_ptr<T>&, bool) { c.push_back(CODE_ANY); } };

template<typename T> struct is_equivalent { bool operator()(const uint16_t* code, const TypeCode* type_code) { return false; } };

void read_byte_code(TypeInput& in, uint16_t* code);
size_t read_byte_code(TypeInput& in, std::vector<uint16_t>& code);
void write_byte_code(TypeOutput& out, const std::vector<uint16_t>& code);
size_t code_length(const uint16_t* code);
void copy(TypeInput& in, TypeOutput* out, const TypeCode* type_code, const uint16_t* code);
inline void skip(TypeInput& in, const TypeCode* type_code, const uint16_t* code) { copy(in, nullptr, type_code, code); }
double read_number(TypeInput& in, const TypeCode* type_code, const uint16_t* code, int64_t& i, uint64_t& u, int& kind);	// kind 0 uint, 1 int, 2 double

template<typename T>
void write_value(void* buf, const T& value) { ::memcpy(buf, &value, sizeof(T)); }
template<typename T, size_t N>
void write_value(void* buf, const std::array<T, N>& value) { ::memcpy(buf, value.data(), sizeof(T) * N); }
void read_value_num(const void* buf, uint16_t code, int64_t& i, uint64_t& u, double& d, int& kind);
template<typename T>
void read_value(const void* buf, T& value, const uint16_t* code = nullptr)
{
	if(!code) { ::memcpy(&value, buf, sizeof(T)); return; }
	int64_t i = 0; uint64_t u = 0; double d = 0; int kind = 0;
	read_value_num(buf, code[0], i, u, d, kind);
	if(kind == 2) value = T(d); else if(kind == 1) value = T(i); else value = T(u);
}

template<typename T, size_t N>
void read_value(const void* buf, std::array<T, N>& value, const uint16_t* code = nullptr) { ::memcpy(value.data(), buf, sizeof(T) * N); }

template<typename T, typename>
void read(TypeInput& in, T& value, const TypeCode* type_code, const uint16_t* code)
{
	if(!code) { in.read(&value, sizeof(T)); return; }
	int64_t i = 0; uint64_t u = 0; int kind = 0;
	const double d = read_number(in, type_code, code, i, u, kind);
	if(kind == 2) value = T(d); else if(kind == 1) value = T(i); else value = T(u);
}
template<typename T>
void write_dynamic(TypeOutput& out, const T& value)
{
	std::vector<uint16_t> code;
	type<T>().create_dynamic_code(code, value);
	write_byte_code(out, code);
	type<T>().write(out, value, type<T>().get_type_code(), code.data());
}
template<typename T, typename>
void write(TypeOutput& out, const T& value, const TypeCode* type_code, const uint16_t* code)
{
	if(code && (code[0] == CODE_DYNAMIC)) { write_dynamic(out, value); return; }
	if(code) {
		switch(code[0]) {
			case CODE_UINT8: { uint8_t v = uint8_t(value); out.write(&v, 1); return; }
			case CODE_BOOL: { bool v = bool(value); out.write(&v, 1); return; }
			case CODE_UINT16: { uint16_t v = uint16_t(value); out.write(&v, 2); return; }
			case CODE_UINT32: { uint32_t v = uint32_t(value); out.write(&v, 4); return; }
			case CODE_UINT64: { uint64_t v = uint64_t(value); out.write(&v, 8); return; }
			case CODE_INT8: { int8_t v = int8_t(value); out.write(&v, 1); return; }
			case CODE_INT16: { int16_t v = int16_t(value); out.write(&v, 2); return; }
			case CODE_INT32: { int32_t v = int32_t(value); out.write(&v, 4); return; }
			case CODE_INT64: { int64_t v = int64_t(value); out.write(&v, 8); return; }
			case CODE_FLOAT: { float v = float(value); out.write(&v, 4); return; }
			case CODE_DOUBLE: { double v = double(value); out.write(&v, 8); return; }
		}
	}
	out.write(&value, sizeof(T));
}
template<typename T>
void read_dynamic(TypeInput& in, T& value)
{
	std::vector<uint16_t> code;
	read_byte_code(in, code);
	if(code[0] == CODE_NULL) { if constexpr(!std::is_abstract<T>::value) value = T(); return; }
	type<T>().read(in, value, nullptr, code.data());
}
template<typename T>
void Variant::assign(const T& v)
{
	std::vector<uint8_t> tmp;
	VectorOutputStream stream(&tmp);
	TypeOutput out(&stream);
	std::vector<uint16_t> code;
	type<T>().create_dynamic_code(code, v, true);
	if(code.empty() || code[0] == CODE_NULL) { data.clear(); return; }
	if(code[0] != CODE_DYNAMIC) write_byte_code(out, code);
	type<T>().write(out, v, type<T>().get_type_code(), code.data());
	out.flush();
	data = std::move(tmp);
}
template<typename T>
void Variant::to(T& value) const
{
	if(is_null()) { value = T(); return; }
	VectorInputStream stream(&data);
	TypeInput in(&stream);
	std::vector<uint16_t> code;
	read_byte_code(in, code);
	type<T>().read(in, value, nullptr, code.data());
}
template<> void Variant::to(std::string& value) const;

template<typename T>
std::vector<uint16_t> default_code() { std::vector<uint16_t> c; add_code<T>(c); return c; }

// ---- containers
template<typename C, typename F>
void read_list(TypeInput& in, const TypeCode* type_code, const uint16_t* code, F&& add)
{
	typedef typename C::value_type T;
	TypeInput::recursion_t tag(in);
	std::vector<uint16_t> tmp;
	if(!code) { tmp = default_code<C>(); code = tmp.data(); }
	switch(code[0]) {
		case CODE_LIST: {
			uint32_t n = 0; in.read(&n, 4);
			for(uint32_t i = 0; i < n; ++i) { T v = T(); type<T>().read(in, v, type_code, code + 1); add(std::move(v)); }
			break;
		}
		case CODE_ARRAY: {
			for(uint32_t i = 0; i < code[1]; ++i) { T v = T(); type<T>().read(in, v, type_code, code + 2); add(std::move(v)); }
			break;
		}
		case CODE_DYNAMIC: {
			std::vector<uint16_t> c; read_byte_code(in, c);
			if(c[0] != CODE_NULL) read_list<C>(in, nullptr, c.data(), add);
			break;
		}
		default: skip(in, type_code, code);
	}
}
template<typename C>
void write_list(TypeOutput& out, const C& value, const TypeCode* type_code, const uint16_t* code)
{
	typedef typename C::value_type T;
	std::vector<uint16_t> tmp;
	if(!code) { tmp = default_code<C>(); code = tmp.data(); type_code = nullptr; }
	if(code[0] == CODE_DYNAMIC) { write_dynamic(out, value); return; }
	if(code[0] != CODE_LIST) throw std::logic_error("write(list): invalid code");
	const uint32_t n = value.size();
	out.write(&n, 4);
	if constexpr(std::is_same<C, std::vector<uint8_t>>::value || std::is_same<C, std::vector<int8_t>>::value) { if(code[1] == CODE_UINT8 || code[1] == CODE_INT8) { out.write(value.data(), n); return; } }
	for(const auto& v : value) type<T>().write(out, v, type_code, code + 1);
}
template<typename T> void read(TypeInput& in, std::vector<T>& value, const TypeCode* tc, const uint16_t* code) {
	value.clear();
	if constexpr(std::is_same<T, uint8_t>::value) {
		if(code && code[0] == CODE_STRING) { std::string s; read(in, s, tc, code); value.assign(s.begin(), s.end()); return; }
	}
	read_list<std::vector<T>>(in, tc, code, [&](T&& v) { value.push_back(std::move(v)); });
}
template<typename T> void write(TypeOutput& out, const std::vector<T>& value, const TypeCode* tc, const uint16_t* code) { write_list(out, value, tc, code); }
template<typename T> void read(TypeInput& in, std::list<T>& value, const TypeCode* tc, const uint16_t* code) { value.clear(); read_list<std::list<T>>(in, tc, code, [&](T&& v) { value.push_back(std::move(v)); }); }
template<typename T> void write(TypeOutput& out, const std::list<T>& value, const TypeCode* tc, const uint16_t* code) { write_list(out, value, tc, code); }
template<typename T> void read(TypeInput& in, std::set<T>& value, const TypeCode* tc, const uint16_t* code) { value.clear(); read_list<std::set<T>>(in, tc, code, [&](T&& v) { value.insert(std::move(v)); }); }
template<typename T> void write(TypeOutput& out, const std::set<T>& value, const TypeCode* tc, const uint16_t* code) { write_list(out, value, tc, code); }
template<typename T> void read(TypeInput& in, std::unordered_set<T>& value, const TypeCode* tc, const uint16_t* code) { value.clear(); read_list<std::unordered_set<T>>(in, tc, code, [&](T&& v) { value.insert(std::move(v)); }); }
template<typename T> void write(TypeOutput& out, const std::unordered_set<T>& value, const TypeCode* tc, const uint16_t* code) { write_list(out, value, tc, code); }

template<typename T, size_t N> void read(TypeInput& in, std::array<T, N>& value, const TypeCode* tc, const uint16_t* code) {
	if(!code || (code[0] == CODE_ARRAY && code[1] == N && sizeof(T) == 1 && code[2] == CODE_UINT8)) {
		if constexpr(std::is_same<T, uint8_t>::value) { in.read(value.data(), N); return; }
	}
	value = {};
	size_t i = 0;
	read_list<std::array<T, N>>(in, tc, code, [&](T&& v) { if(i < N) value[i++] = std::move(v); });
}
template<typename T, size_t N> void write(TypeOutput& out, const std::array<T, N>& value, const TypeCode* tc, const uint16_t* code) {
	if(code && code[0] == CODE_DYNAMIC) { write_dynamic(out, value); return; }
	if constexpr(std::is_same<T, uint8_t>::value) { out.write(value.data(), N); return; }
	std::vector<uint16_t> tmp;
	if(!code) { tmp = default_code<std::array<T, N>>(); code = tmp.data(); tc = nullptr; }
	for(const auto& v : value) type<T>().write(out, v, tc, code + 2);
}
template<typename M, typename F>
void read_map(TypeInput& in, const TypeCode* tc, const uint16_t* code, F&& add)
{
	typedef typename M::key_type K; typedef typename M::mapped_type V;
	TypeInput::recursion_t tag(in);
	std::vector<uint16_t> tmp;
	if(!code) { tmp = default_code<M>(); code = tmp.data(); }
	switch(code[0]) {
		case CODE_MAP: {
			uint32_t n = 0; in.read(&n, 4);
			for(uint32_t i = 0; i < n; ++i) { K k = K(); V v = V(); type<K>().read(in, k, tc, code + 2); type<V>().read(in, v, tc, code + code[1]); add(std::move(k), std::move(v)); }
			break;
		}
		case CODE_OBJECT: {
			static const uint16_t c_str = CODE_STRING, c_dyn = CODE_DYNAMIC;
			uint32_t n = 0; in.read(&n, 4);
			for(uint32_t i = 0; i < n; ++i) { K k = K(); V v = V(); type<K>().read(in, k, nullptr, &c_str); type<V>().read(in, v, nullptr, &c_dyn); add(std::move(k), std::move(v)); }
			break;
		}
		case CODE_LIST: {
			// list of pairs
			typedef std::pair<K, V> P;
			uint32_t n = 0; in.read(&n, 4);
			for(uint32_t i = 0; i < n; ++i) { P p; type<P>().read(in, p, tc, code + 1); add(std::move(p.first), std::move(p.second)); }
			break;
		}
		case CODE_DYNAMIC: {
			std::vector<uint16_t> c; read_byte_code(in, c);
			if(c[0] != CODE_NULL) read_map<M>(in, nullptr, c.data(), add);
			break;
		}
		default: skip(in, tc, code);
	}
}
template<typename M>
void write_map(TypeOutput& out, const M& value, const TypeCode* tc, const uint16_t* code)
{
	typedef typename M::key_type K; typedef typename M::mapped_type V;
	std::vector<uint16_t> tmp;
	if(!code) { tmp = default_code<M>(); code = tmp.data(); tc = nullptr; }
	if(code[0] == CODE_DYNAMIC) { write_dynamic(out, value); return; }
	const uint32_t n = value.size();
	out.write(&n, 4);
	if(code[0] == CODE_OBJECT) {
		static const uint16_t c_str = CODE_STRING, c_dyn = CODE_DYNAMIC;
		for(const auto& e : value) { type<K>().write(out, e.first, nullptr, &c_str); type<V>().write(out, e.second, nullptr, &c_dyn); }
		return;
	}
	for(const auto& e : value) { type<K>().write(out, e.first, tc, code + 2); type<V>().write(out, e.second, tc, code + code[1]); }
}
template<typename K, typename V> void read(TypeInput& in, std::map<K, V>& value, const TypeCode* tc, const uint16_t* code) { value.clear(); read_map<std::map<K, V>>(in, tc, code, [&](K&& k, V&& v) { value[k] = std::move(v); }); }
template<typename K, typename V> void write(TypeOutput& out, const std::map<K, V>& value, const TypeCode* tc, const uint16_t* code) { write_map(out, value, tc, code); }
template<typename K, typename V> void read(TypeInput& in, std::unordered_map<K, V>& value, const TypeCode* tc, const uint16_t* code) { value.clear(); read_map<std::unordered_map<K, V>>(in, tc, code, [&](K&& k, V&& v) { value[k] = std::move(v); }); }
template<typename K, typename V> void write(TypeOutput& out, const std::unordered_map<K, V>& value, const TypeCode* tc, const uint16_t* code) { write_map(out, value, tc, code); }

template<typename Tup, size_t... I>
void read_tuple_impl(TypeInput& in, Tup& value, const TypeCode* tc, const uint16_t* code, std::index_sequence<I...>)
{
	TypeInput::recursion_t tag(in);
	std::vector<uint16_t> tmp;
	if(!code) { tmp = default_code<Tup>(); code = tmp.data(); }
	switch(code[0]) {
		case CODE_TUPLE:
			(((I < code[1]) ? type<std::decay_t<std::tuple_element_t<I, Tup>>>().read(in, const_cast<std::decay_t<std::tuple_element_t<I, Tup>>&>(std::get<I>(value)), tc, code + code[2 + I]) : void()), ...);
			for(size_t i = sizeof...(I); i < code[1]; ++i) skip(in, tc, code + code[2 + i]);
			break;
		case CODE_LIST: {
			uint32_t n = 0; in.read(&n, 4);
			((I < n ? type<std::decay_t<std::tuple_element_t<I, Tup>>>().read(in, const_cast<std::decay_t<std::tuple_element_t<I, Tup>>&>(std::get<I>(value)), tc, code + 1) : void()), ...);
			for(size_t i = sizeof...(I); i < n; ++i) skip(in, tc, code + 1);
			break;
		}
		case CODE_ARRAY: {
			const uint32_t n = code[1];
			((I < n ? type<std::decay_t<std::tuple_element_t<I, Tup>>>().read(in, const_cast<std::decay_t<std::tuple_element_t<I, Tup>>&>(std::get<I>(value)), tc, code + 2) : void()), ...);
			for(size_t i = sizeof...(I); i < n; ++i) skip(in, tc, code + 2);
			break;
		}
		case CODE_DYNAMIC: {
			std::vector<uint16_t> c; read_byte_code(in, c);
			if(c[0] != CODE_NULL) read_tuple_impl(in, value, nullptr, c.data(), std::index_sequence<I...>());
			break;
		}
		default: skip(in, tc, code);
	}
}
template<typename Tup, size_t... I>
void write_tuple_impl(TypeOutput& out, const Tup& value, const TypeCode* tc, const uint16_t* code, std::index_sequence<I...>)
{
	std::vector<uint16_t> tmp;
	if(!code) { tmp = default_code<Tup>(); code = tmp.data(); tc = nullptr; }
	if(code[0] == CODE_DYNAMIC) { write_dynamic(out, value); return; }
	(type<std::decay_t<std::tuple_element_t<I, Tup>>>().write(out, std::get<I>(value), tc, code + code[2 + I]), ...);
}
template<typename A, typename B> void read(TypeInput& in, std::pair<A, B>& value, const TypeCode* tc, const uint16_t* code) { read_tuple_impl(in, value, tc, code, std::make_index_sequence<2>()); }
template<typename A, typename B> void write(TypeOutput& out, const std::pair<A, B>& value, const TypeCode* tc, const uint16_t* code) { write_tuple_impl(out, value, tc, code, std::make_index_sequence<2>()); }
template<typename... T> void read(TypeInput& in, std::tuple<T...>& value, const TypeCode* tc, const uint16_t* code) { read_tuple_impl(in, value, tc, code, std::index_sequence_for<T...>()); }
template<typename... T> void write(TypeOutput& out, const std::tuple<T...>& value, const TypeCode* tc, const uint16_t* code) { write_tuple_impl(out, value, tc, code, std::index_sequence_for<T...>()); }

template<typename T> void read(TypeInput& in, optional<T>& value, const TypeCode* tc, const uint16_t* code) {
	TypeInput::recursion_t tag(in);
	std::vector<uint16_t> tmp;
	value = nullptr;
	if(!code) { tmp = default_code<optional<T>>(); code = tmp.data(); }
	switch(code[0]) {
		case CODE_OPTIONAL: { bool has = false; in.read(&has, 1); if(has) { T v = T(); type<T>().read(in, v, tc, code + 1); value = v; } break; }
		case CODE_DYNAMIC: { std::vector<uint16_t> c; read_byte_code(in, c); if(c[0] != CODE_NULL) read(in, value, nullptr, c.data()); break; }
		default: { T v = T(); type<T>().read(in, v, tc, code); value = v; }
	}
}
template<typename T> void write(TypeOutput& out, const optional<T>& value, const TypeCode* tc, const uint16_t* code) {
	std::vector<uint16_t> tmp;
	if(!code) { tmp = default_code<optional<T>>(); code = tmp.data(); tc = nullptr; }
	if(code[0] == CODE_DYNAMIC) { if(value) write_dynamic(out, *value); else write(out, nullptr); return; }
	const bool has(value);
	out.write(&has, 1);
	if(has) type<T>().write(out, *value, tc, code + 1);
}

// ---- accept for containers
template<typename C> void accept_list(Visitor& v, const C& value) {
	v.list_begin(value.size());
	size_t i = 0;
	for(const auto& e : value) { v.list_element(i++); type<typename C::value_type>().accept(v, e); }
	v.list_end(value.size());
}
template<typename T> void accept(Visitor& v, const std::vector<T>& value) {
	if constexpr(std::is_same<T, uint8_t>::value) v.visit(value.data(), value.size()); else accept_list(v, value);
}
template<typename T> void accept(Visitor& v, const std::list<T>& value) { accept_list(v, value); }
template<typename T> void accept(Visitor& v, const std::set<T>& value) { accept_list(v, value); }
template<typename T> void accept(Visitor& v, const std::unordered_set<T>& value) { accept_list(v, value); }
template<typename T, size_t N> void accept(Visitor& v, const std::array<T, N>& value) {
	if constexpr(std::is_same<T, uint8_t>::value) v.visit(value.data(), N); else accept_list(v, value);
}
template<typename M> void accept_map(Visitor& v, const M& value) {
	v.map_begin(value.size());
	size_t i = 0;
	for(const auto& e : value) { v.map_key(i); type<typename M::key_type>().accept(v, e.first); v.map_value(i); type<typename M::mapped_type>().accept(v, e.second); i++; }
	v.map_end(value.size());
}
template<typename K, typename V> void accept(Visitor& v, const std::map<K, V>& value) { accept_map(v, value); }
template<typename K, typename V> void accept(Visitor& v, const std::unordered_map<K, V>& value) { accept_map(v, value); }
template<typename A, typename B> void accept(Visitor& v, const std::pair<A, B>& value) {
	v.list_begin(2); v.list_element(0); type<std::decay_t<A>>().accept(v, value.first); v.list_element(1); type<std::decay_t<B>>().accept(v, value.second); v.list_end(2);
}
template<typename... T> void accept(Visitor& v, const std::tuple<T...>& value) {
	v.list_begin(sizeof...(T));
	size_t i = 0;
	std::apply([&](const auto&... e) { ((v.list_element(i++), type<std::decay_t<decltype(e)>>().accept(v, e)), ...); }, value);
	v.list_end(sizeof...(T));
}
template<typename T> void accept(Visitor& v, const optional<T>& value) { if(value) type<T>().accept(v, *value); else v.visit_null(); }

// ---- printers
class PrinterBase : public Visitor {
public:
	PrinterBase(std::ostream& o) : out(o) {}
	std::ostream& out;
	bool json = true;
	int depth = 0;
	bool pretty = false;
	std::vector<size_t> cnt;
	void nl() { if(pretty) { out << "\n"; for(int i = 0; i < depth; ++i) out << "  "; } else out << " "; }
	void visit_null() override { out << "null"; }
	void visit(const bool& v) override { out << (v ? "true" : "false"); }
	void visit(const uint8_t& v) override { out << int(v); }
	void visit(const uint16_t& v) override { out << v; }
	void visit(const uint32_t& v) override { out << v; }
	void visit(const uint64_t& v) override { out << v; }
	void visit(const int8_t& v) override { out << int(v); }
	void visit(const int16_t& v) override { out << v; }
	void visit(const int32_t& v) override { out << v; }
	void visit(const int64_t& v) override { out << v; }
	void visit(const float32_t& v) override { out << v; }
	void visit(const float64_t& v) override { out << v; }
	void visit(const std::string& v) override;
	void visit(const uint8_t* data, size_t len) override;
	void list_begin(size_t) override { out << "["; depth++; }
	void list_element(size_t i) override { if(i) { out << ","; if(!pretty) out << " "; } if(pretty) nl(); }
	void list_end(size_t n) override { depth--; if(pretty && n) nl(); out << "]"; }
	void map_begin(size_t) override { out << "{"; depth++; }
	void map_key(size_t i) override { if(i) { out << ","; if(!pretty) out << " "; } if(pretty) nl(); }
	void map_value(size_t) override { out << ": "; }
	void map_end(size_t n) override { depth--; if(pretty && n) nl(); out << "}"; }
	void type_begin(const TypeCode& code) override;
	void type_field(const TypeField& f, size_t) override { out << ","; nl(); out << "\"" << f.name << "\": "; }
	void type_end(const TypeCode&) override { depth--; if(pretty) nl(); out << "}"; }
	void enum_value(uint32_t value, const std::string& name) override { if(name.empty()) out << value; else out << "\"" << name << "\""; }
};
class DefaultPrinter : public PrinterBase { public: DefaultPrinter(std::ostream& o) : PrinterBase(o) {} };
class PrettyPrinter : public PrinterBase { public: PrettyPrinter(std::ostream& o) : PrinterBase(o) { pretty = true; } };
class ToString : public PrinterBase { public: ToString(std::ostream& o) : PrinterBase(o) {} };

template<typename C> void write_container(std::ostream& out, const C& value) { DefaultPrinter p(out); type<C>().accept(p, value); }
template<typename T> void write(std::ostream& out, const std::vector<T>& v) { write_container(out, v); }
template<typename T> void write(std::ostream& out, const std::list<T>& v) { write_container(out, v); }
template<typename T> void write(std::ostream& out, const std::set<T>& v) { write_container(out, v); }
template<typename T> void write(std::ostream& out, const std::unordered_set<T>& v) { write_container(out, v); }
template<typename T, size_t N> void write(std::ostream& out, const std::array<T, N>& v) { write_container(out, v); }
template<typename K, typename V> void write(std::ostream& out, const std::map<K, V>& v) { write_container(out, v); }
template<typename K, typename V> void write(std::ostream& out, const std::unordered_map<K, V>& v) { write_container(out, v); }
template<typename A, typename B> void write(std::ostream& out, const std::pair<A, B>& v) { write_container(out, v); }
template<typename... T> void write(std::ostream& out, const std::tuple<T...>& v) { write_container(out, v); }
template<typename T> void write(std::ostream& out, const optional<T>& v) { write_container(out, v); }
template<typename T> void write(std::ostream& out, const std::shared_ptr<T>& v) { write_container(out, v); }
inline void write(std::ostream& out, const TopicPtr& v) { write(out, v.name); }
inline void write(std::ostream& out, const Hash64& v) { out << v.value; }
void write(std::ostream& out, const TypeCode& v);
void write(std::ostream& out, const Buffer& v);

template<typename T> std::string to_string(const T& value) { std::ostringstream ss; type<T>().write(ss, value); return ss.str(); }
template<typename T> std::string to_string_value(const T& value) { return Variant(value).to_string_value(); }
template<typename T> std::string to_string_value_full(const T& value) { return Variant(value).to_string_value(); }
template<typename T> std::string to_pretty_string(const T& value) { std::ostringstream ss; PrettyPrinter p(ss); type<T>().accept(p, value); return ss.str(); }
template<typename T> T from_string(const std::string& s) { T v = T(); std::istringstream ss(s); vnx::read(ss).to(v); return v; }
template<typename T> void from_string(const std::string& s, T& value) { std::istringstream ss(s); vnx::read(ss).to(value); }
void from_string_value(const std::string& s, Variant& value);
template<typename T> void from_string_value(const std::string& s, T& value) { Variant v; from_string_value(s, v); v.to(value); }

template<typename T> constexpr bool is_object() { return is_object_t<T>::value; }

// ------------------------------------------------------------------ Value
struct request_id_t {
	uint64_t id = 0;
	uint64_t session = 0;
	uint64_t src = 0;
	bool operator==(const request_id_t& o) const { return id == o.id && src == o.src; }
	bool operator!=(const request_id_t& o) const { return !(*this == o); }
	bool operator<(const request_id_t& o) const { return std::tie(src, id) < std::tie(o.src, o.id); }
	std::string to_string() const { return std::to_string(src) + ":" + std::to_string(id); }
};
inline std::ostream& operator<<(std::ostream& out, const request_id_t& r) { return out << r.to_string(); }

class Value {
public:
	virtual ~Value() {}
	virtual Hash64 get_type_hash() const { return Hash64(); }
	virtual std::string get_type_name() const { return "vnx.Value"; }
	virtual const TypeCode* get_type_code() const { return nullptr; }
	virtual std::shared_ptr<Value> clone() const { return nullptr; }
	virtual void read(TypeInput& in, const TypeCode* type_code, const uint16_t* code) {}
	virtual void write(TypeOutput& out, const TypeCode* type_code, const uint16_t* code) const {}
	virtual void accept(Visitor& visitor) const { visitor.visit_null(); }
	virtual void read(std::istream& in) {}
	virtual void write(std::ostream& out) const { out << "null"; }
	virtual Object to_object() const { return Object(); }
	virtual void from_object(const Object& object) {}
	virtual Variant get_field(const std::string& name) const { return Variant(); }
	virtual void set_field(const std::string& name, const Variant& value) {}
	virtual Variant get_field_by_index(const uint32_t& i) const;
	virtual void set_field_by_index(const uint32_t& i, const Variant& v) {}
	virtual bool is_void() const { auto* c = get_type_code(); return !c || c->fields.empty(); }
	virtual std::shared_ptr<Value> vnx_call(std::shared_ptr<const Value> method) { return vnx_call_switch(method); }
	static std::shared_ptr<Value> create(const std::string& type_name);
	static std::shared_ptr<Value> create(Hash64 type_hash);
protected:
	virtual std::shared_ptr<Value> vnx_call_switch(std::shared_ptr<const Value> method) { return nullptr; }
};
inline std::ostream& operator<<(std::ostream& out, const Value& v) { v.write(out); return out; }
std::shared_ptr<Value> create(const std::string& type_name);
std::shared_ptr<Value> create(const Hash64& type_hash);
void write_any(TypeOutput& out, const Value* value);
std::shared_ptr<Value> read_any(TypeInput& in);
std::shared_ptr<Value> read_any(TypeInput& in, const TypeCode* tc, const uint16_t* code);
inline void read(TypeInput& in, Value& value, const TypeCode* tc, const uint16_t* code) { value.read(in, tc, code); }

template<typename T>
class Struct : public T, public Value {
public:
	Struct() = default;
	Struct(const T& v) : T(v) {}
	Hash64 get_type_hash() const override { return T::VNX_TYPE_HASH; }
	std::string get_type_name() const override { return T::get_type_name(); }
	const TypeCode* get_type_code() const override { return T::get_type_code(); }
	std::shared_ptr<Value> clone() const override { return std::make_shared<Struct>(*this); }
	void read(TypeInput& in, const TypeCode* tc, const uint16_t* code) override { T::read(in, tc, code); }
	void write(TypeOutput& out, const TypeCode* tc, const uint16_t* code) const override { T::write(out, tc, code); }
	void read(std::istream& in) override { T::read(in); }
	void write(std::ostream& out) const override { T::write(out); }
	void accept(Visitor& v) const override { T::accept(v); }
	Object to_object() const override { return T::to_object(); }
	void from_object(const Object& o) override { T::from_object(o); }
	Variant get_field(const std::string& n) const override { return T::get_field(n); }
	void set_field(const std::string& n, const Variant& v) override { T::set_field(n, v); }
};
void write_class_header_raw(TypeOutput& out, const Hash64& code_hash);
template<typename T> void write_class_header(TypeOutput& out) { write_class_header_raw(out, T::VNX_CODE_HASH); }

template<typename T> void read(TypeInput& in, std::shared_ptr<T>& value, const TypeCode* tc, const uint16_t* code) {
	typedef typename std::remove_const<T>::type U;
	TypeInput::recursion_t tag(in);
	auto v = read_any(in, tc, code);
	value = std::dynamic_pointer_cast<T>(v);
	if constexpr(!std::is_abstract<U>::value && !std::is_same<U, Value>::value && !std::is_same<U, JSON_Value>::value) {
		(void)0;
	}
}
template<typename T> void write(TypeOutput& out, const std::shared_ptr<T>& value, const TypeCode* tc, const uint16_t* code) { write_any(out, static_cast<const Value*>(value.get())); }
template<typename T> void accept(Visitor& v, const std::shared_ptr<T>& value) { if(value) value->accept(v); else v.visit_null(); }
inline void accept(Visitor& v, const Value& value) { value.accept(v); }
// read into an existing default instance (configuration): objects keep the defaults
template<typename T> void read_generic(TypeInput& in, std::shared_ptr<T>& value) { value = std::dynamic_pointer_cast<T>(read(in)); }
template<typename T> void read_generic(TypeInput& in, T& value) { read_dynamic(in, value); }
template<typename T> void write_generic(TypeOutput& out, const T& value) { write_dynamic(out, value); }

template<typename T> std::shared_ptr<T> clone(const std::shared_ptr<T>& v) { return v ? std::dynamic_pointer_cast<T>(v->clone()) : nullptr; }
template<typename T> std::shared_ptr<T> clone(const std::shared_ptr<const T>& v) { return v ? std::dynamic_pointer_cast<T>(v->clone()) : nullptr; }
template<typename T> std::shared_ptr<T> clone(const T& v) { return std::make_shared<T>(v); }

class JSON_Value {
public:
	Variant value;
	virtual ~JSON_Value() {}
	Object to_object() const { return value.to_object(); }
	std::string to_string() const { return value.to_string(); }
	Variant to_variant() const { return value; }
};
class JSON_Array : public JSON_Value {
public:
	std::vector<std::shared_ptr<JSON_Value>> get_values() const {
		std::vector<std::shared_ptr<JSON_Value>> out;
		std::vector<Variant> list; value.to(list);
		for(auto& v : list) { auto e = std::make_shared<JSON_Value>(); e->value = v; out.push_back(e); }
		return out;
	}
};

// ------------------------------------------------------------------ exceptions
class Exception : public Value {
public:
	std::string what;
	std::vector<std::string> dump;
	static const Hash64 VNX_TYPE_HASH, VNX_CODE_HASH;
	static std::shared_ptr<Exception> create() { return std::make_shared<Exception>(); }
	static std::shared_ptr<Exception> from_what(const std::string& w) { auto e = create(); e->what = w; return e; }
	Hash64 get_type_hash() const override { return VNX_TYPE_HASH; }
	std::string get_type_name() const override { return "vnx.Exception"; }
	std::shared_ptr<Value> clone() const override { return std::make_shared<Exception>(*this); }
	void write(std::ostream& out) const override { out << what; }
	using Value::write;
	bool is_void() const override { return false; }
};
#define SIMVNX_EXC(NAME) class NAME : public Exception { public: std::string method; \
	static std::shared_ptr<NAME> create() { return std::make_shared<NAME>(); } \
	std::string get_type_name() const override { return "vnx." #NAME; } \
	std::shared_ptr<Value> clone() const override { return std::make_shared<NAME>(*this); } \
	void write(std::ostream& out) const override { out << "vnx." #NAME " " << method << " " << what; } using Value::write; };
SIMVNX_EXC(OverflowException) SIMVNX_EXC(InternalError) SIMVNX_EXC(NoSuchMethod) SIMVNX_EXC(NoSuchService) SIMVNX_EXC(PermissionDenied)
#undef SIMVNX_EXC
class exception : public std::exception {
public:
	exception() = default;
	exception(std::shared_ptr<const Exception> v) : val(v) { make(); }
	explicit exception(const std::string& w) { auto v = Exception::create(); v->what = w; val = v; make(); }
	const char* what() const noexcept override { return str.c_str(); }
	std::shared_ptr<const Exception> value() const { return val; }
private:
	void make() { if(val) { str = val->what; if(str.empty()) str = val->get_type_name(); } }
	std::shared_ptr<const Exception> val;
	std::string str;
};

enum class permission_e_t { CONST_REQUEST, VIEW, READ_CONFIG, WRITE_CONFIG, SHUTDOWN, PROTECTED_CONFIG };
struct permission_e {
	enum enum_t : uint32_t { CONST_REQUEST, VIEW, READ_CONFIG, WRITE_CONFIG, SHUTDOWN, PROTECTED_CONFIG, START, PUBLISH, REQUEST, RESTART, SELF_TEST, LOCAL, INTERCEPT, HOST_SHELL, FILE_READ, FILE_WRITE, FILE_REMOVE, FILE_RENAME, CREATE_SOCKET };
	enum_t value = VIEW;
	permission_e() = default;
	permission_e(enum_t v) : value(v) {}
	std::string to_string_value_full() const { return "vnx.permission_e." + std::to_string(value); }
};
class permission_denied : public std::runtime_error { public: permission_denied(const std::string& s = "") : std::runtime_error("permission denied: " + s) {} template<typename T> permission_denied(const T&) : std::runtime_error("permission denied") {} };

} // namespace vnx

namespace std {
template<> struct hash<vnx::Hash64> { size_t operator()(const vnx::Hash64& h) const { return h.value; } };
template<> struct hash<vnx::request_id_t> { size_t operator()(const vnx::request_id_t& h) const { return h.id * 1000003 + h.src; } };
}

#include <simvnx/runtime.h>

#endif
