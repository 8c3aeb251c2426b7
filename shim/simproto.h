// Thrift's wire protocols (stand-in): what the hand-written Cpp2Ops of /repo need.
// Compact and Binary as their specifications say; Named stands for the protocols that
// carry field names in place of numbers.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <folly/Range.h>
#include <simthrift.h>
namespace apache { namespace thrift {
template <class T, class U = void> class Cpp2Ops;
namespace protocol {
enum TType { T_STOP = 0, T_VOID = 1, T_BOOL = 2, T_BYTE = 3, T_DOUBLE = 4, T_I16 = 6, T_I32 = 8, T_U64 = 9, T_I64 = 10, T_STRING = 11, T_STRUCT = 12, T_MAP = 13, T_SET = 14, T_LIST = 15, T_UTF8 = 16, T_UTF16 = 17, T_STREAM = 18, T_FLOAT = 19 };
struct TProtocolException : std::runtime_error {
    explicit TProtocolException(const std::string& s) : std::runtime_error(s) {}
    [[noreturn]] static void throwUnionMissingStop() { throw TProtocolException("missing stop marker to terminate a union"); }
    [[noreturn]] static void throwMissingRequiredField(folly::StringPiece f, folly::StringPiece t) { throw TProtocolException("Required field '" + f.str() + "' was not found in serialized data! Struct: " + t.str()); }
    [[noreturn]] static void truncated() { throw TProtocolException("truncated data"); }
    [[noreturn]] static void invalid(const char* w) { throw TProtocolException(w); }
};
}
using protocol::TProtocolException;
namespace type_class { struct integral; struct enumeration; struct binary; struct string; struct floating_point; struct structure; struct variant; template <class> struct list; template <class> struct set; template <class, class> struct map; }

using protocol::TType;
enum class Proto { COMPACT, BINARY, NAMED };
class WireWriter {
protected:
    Proto p_; std::string* out_;
    struct Level { int16_t last; };
    std::vector<int16_t> last_; int16_t lastId_ = 0; int boolField_ = -1; bool inBool_ = false;
    void raw(const void* d, size_t n) { out_->append((const char*)d, n); }
    uint32_t byte(uint8_t b) { out_->push_back((char)b); return 1; }
    uint32_t varint(uint64_t v) { uint32_t n = 1; while (v > 127) { byte(uint8_t(v) | 128); v >>= 7; n++; } byte((uint8_t)v); return n; }
    uint32_t big(uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) byte(uint8_t(v >> (8 * i))); return n; }
    static uint64_t zig(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
    static uint8_t ct(TType t) {
        switch (t) {
        case TType::T_STOP: return 0; case TType::T_BOOL: return 2; case TType::T_BYTE: return 3; case TType::T_I16: return 4; case TType::T_I32: return 5; case TType::T_I64: return 6;
        case TType::T_DOUBLE: return 7; case TType::T_STRING: return 8; case TType::T_LIST: return 9; case TType::T_SET: return 10; case TType::T_MAP: return 11; case TType::T_STRUCT: return 12; default: return 15;
        }
    }
public:
    WireWriter(Proto p, std::string* out) : p_(p), out_(out) {}
    uint32_t writeStructBegin(const char*) { last_.push_back(lastId_); lastId_ = 0; return 0; }
    uint32_t writeStructEnd() { if (last_.empty()) throw std::logic_error("a struct ends that never began"); lastId_ = last_.back(); last_.pop_back(); return 0; }
    uint32_t header(uint8_t t, int16_t id) {
        uint32_t n;
        if (id > lastId_ && id - lastId_ <= 15) n = byte(uint8_t((id - lastId_) << 4 | t));
        else n = byte(t) + varint(zig(id));
        lastId_ = id; return n;
    }
    uint32_t writeFieldBegin(const char* name, TType t, int16_t id) {
        if (p_ == Proto::NAMED) { uint32_t n = strlen(name); byte(t); varint(n); raw(name, n); return n + 1; }
        if (p_ == Proto::BINARY) { byte(t); return 1 + big((uint16_t)id, 2); }
        if (t == TType::T_BOOL) { boolField_ = id; inBool_ = true; return 0; }
        return header(ct(t), id);
    }
    uint32_t writeFieldEnd() { return 0; }
    uint32_t writeFieldStop() { return byte(0); }
    uint32_t writeBool(bool b) {
        if (p_ == Proto::COMPACT && inBool_) { inBool_ = false; return header(b ? 1 : 2, (int16_t)boolField_); }
        return byte(p_ == Proto::COMPACT ? (b ? 1 : 2) : b);
    }
    uint32_t writeByte(int8_t v) { return byte((uint8_t)v); }
    uint32_t writeI16(int16_t v) { return p_ == Proto::COMPACT ? varint(zig(v)) : big((uint16_t)v, 2); }
    uint32_t writeI32(int32_t v) { return p_ == Proto::COMPACT ? varint(zig(v)) : big((uint32_t)v, 4); }
    uint32_t writeI64(int64_t v) { return p_ == Proto::COMPACT ? varint(zig(v)) : big((uint64_t)v, 8); }
    uint32_t writeDouble(double d) { uint64_t v; memcpy(&v, &d, 8); return big(v, 8); }
    uint32_t size(uint32_t n) { return p_ == Proto::COMPACT ? varint(n) : big(n, 4); }
    uint32_t writeBinary(folly::StringPiece s) { uint32_t n = size(s.size()); raw(s.data(), s.size()); return n + s.size(); }
    uint32_t writeString(folly::StringPiece s) { return writeBinary(s); }
    uint32_t writeListBegin(TType t, uint32_t n) {
        if (p_ != Proto::COMPACT) return byte(t) + big(n, 4);
        if (n < 15) return byte(uint8_t(n << 4 | ct(t)));
        return byte(0xf0 | ct(t)) + varint(n);
    }
    uint32_t writeListEnd() { return 0; }
    uint32_t writeSetBegin(TType t, uint32_t n) { return writeListBegin(t, n); }
    uint32_t writeSetEnd() { return 0; }
    uint32_t writeMapBegin(TType k, TType v, uint32_t n) {
        if (p_ != Proto::COMPACT) return byte(k) + byte(v) + big(n, 4);
        if (!n) return byte(0);
        return varint(n) + byte(uint8_t(ct(k) << 4 | ct(v)));
    }
    uint32_t writeMapEnd() { return 0; }
    // Upper bounds
    uint32_t serializedStructSize(const char*) const { return 0; }
    uint32_t serializedFieldSize(const char* name, TType, int16_t) const { return 4 + (p_ == Proto::NAMED ? strlen(name) + 4 : 0); }
    uint32_t serializedSizeStop() const { return 1; }
    uint32_t serializedSizeBool(bool = false) const { return 1; }
    uint32_t serializedSizeByte(int8_t = 0) const { return 1; }
    uint32_t serializedSizeI16(int16_t = 0) const { return 3; }
    uint32_t serializedSizeI32(int32_t = 0) const { return 5; }
    uint32_t serializedSizeI64(int64_t = 0) const { return 10; }
    uint32_t serializedSizeDouble(double = 0) const { return 8; }
    uint32_t serializedSizeString(folly::StringPiece s) const { return 5 + s.size(); }
    uint32_t serializedSizeBinary(folly::StringPiece s) const { return 5 + s.size(); }
    uint32_t serializedSizeZCBinary(folly::StringPiece s) const { return 5 + s.size(); }
    uint32_t serializedSizeListBegin(TType, uint32_t) const { return 6; }
    uint32_t serializedSizeMapBegin(TType, TType, uint32_t) const { return 7; }
    bool balanced() const { return last_.empty(); }
};
class WireReader {
    Proto p_; const char *b_, *e_;
    std::vector<int16_t> last_; int16_t lastId_ = 0; int bool_ = -1;
    uint8_t byte() { need(1); return (uint8_t)*b_++; }
    void need(size_t n) { if ((size_t)(e_ - b_) < n) TProtocolException::truncated(); }
    uint64_t varint() { uint64_t v = 0; for (int s = 0; s < 70; s += 7) { uint8_t c = byte(); v |= (uint64_t)(c & 127) << s; if (!(c & 128)) return v; } TProtocolException::invalid("variable-length int over 10 bytes"); }
    uint64_t big(int n) { need(n); uint64_t v = 0; while (n--) v = v << 8 | (uint8_t)*b_++; return v; }
    static int64_t zag(uint64_t v) { return (int64_t)(v >> 1) ^ -(int64_t)(v & 1); }
    static TType tt(uint8_t c) {
        static const TType m[] = {TType::T_STOP, TType::T_BOOL, TType::T_BOOL, TType::T_BYTE, TType::T_I16, TType::T_I32, TType::T_I64, TType::T_DOUBLE, TType::T_STRING, TType::T_LIST, TType::T_SET, TType::T_MAP, TType::T_STRUCT};
        if (c > 12) TProtocolException::invalid("invalid type");
        return m[c];
    }
    uint32_t size() { uint64_t n = p_ == Proto::COMPACT ? varint() : big(4); if (n > 0x7fffffff) TProtocolException::invalid("negative size"); if (n > (uint64_t)(e_ - b_)) TProtocolException::truncated(); return n; }
    int depth_ = 0;
public:
    WireReader(Proto p, folly::StringPiece s) : p_(p), b_(s.begin()), e_(s.end()) {}
    const char* pos() const { return b_; }
    bool kUsesFieldNames() const { return p_ == Proto::NAMED; }
    Proto proto() const { return p_; }
    void structBegin() { if (++depth_ > 200) TProtocolException::invalid("nested too deeply"); last_.push_back(lastId_); lastId_ = 0; }
    void structEnd() { depth_--; lastId_ = last_.back(); last_.pop_back(); }
    void fieldBegin(TType& t, int16_t& id, folly::StringPiece& name) {
        uint8_t h = byte();
        if (p_ == Proto::NAMED) {
            t = (TType)h; id = INT16_MIN;
            if (t != TType::T_STOP) { uint64_t n = varint(); need(n); name = folly::StringPiece(b_, b_ + n); b_ += n; } else id = 0;
            return;
        }
        if (p_ == Proto::BINARY) { t = (TType)h; id = t == TType::T_STOP ? 0 : (int16_t)big(2); return; }
        t = tt(h & 15);
        if (t == TType::T_STOP) { id = 0; return; }
        id = h >> 4 ? int16_t(lastId_ + (h >> 4)) : (int16_t)zag(varint());
        if (t == TType::T_BOOL) bool_ = (h & 15) == 1;
        lastId_ = id;
    }
    void readBool(bool& v) { if (p_ == Proto::COMPACT && bool_ >= 0) { v = bool_; bool_ = -1; return; } v = byte() == 1; }
    void readBool(std::vector<bool>::reference v) { bool b; readBool(b); v = b; }
    void readByte(int8_t& v) { v = (int8_t)byte(); }
    void readI16(int16_t& v) { v = p_ == Proto::COMPACT ? (int16_t)zag(varint()) : (int16_t)big(2); }
    void readI32(int32_t& v) { v = p_ == Proto::COMPACT ? (int32_t)zag(varint()) : (int32_t)big(4); }
    void readI64(int64_t& v) { v = p_ == Proto::COMPACT ? zag(varint()) : (int64_t)big(8); }
    void readDouble(double& v) { uint64_t u = big(8); memcpy(&v, &u, 8); }
    void readBinary(std::string& s) { uint32_t n = size(); need(n); s.assign(b_, n); b_ += n; }
    void readString(std::string& s) { readBinary(s); }
    void readListBegin(TType& t, uint32_t& n) {
        uint8_t h = byte();
        if (p_ != Proto::COMPACT) { t = (TType)h; n = size(); return; }
        t = tt(h & 15);
        if (h >> 4 == 15) n = size(); else { n = h >> 4; need(n); }
    }
    void readSetBegin(TType& t, uint32_t& n) { readListBegin(t, n); }
    void readMapBegin(TType& k, TType& v, uint32_t& n) {
        if (p_ != Proto::COMPACT) { k = (TType)byte(); v = (TType)byte(); n = size(); return; }
        n = size(); k = v = TType::T_STOP;
        if (n) { uint8_t h = byte(); k = tt(h >> 4); v = tt(h & 15); }
    }
    void skip(TType t) {
        if (++depth_ > 200) TProtocolException::invalid("nested too deeply");
        switch (t) {
        case TType::T_BOOL: { bool v; readBool(v); break; }
        case TType::T_BYTE: byte(); break;
        case TType::T_I16: { int16_t v; readI16(v); break; }
        case TType::T_I32: { int32_t v; readI32(v); break; }
        case TType::T_I64: { int64_t v; readI64(v); break; }
        case TType::T_DOUBLE: big(8); break;
        case TType::T_STRING: { uint32_t n = size(); need(n); b_ += n; break; }
        case TType::T_STRUCT: { structBegin(); for (;;) { TType f; int16_t id; folly::StringPiece nm; fieldBegin(f, id, nm); if (f == TType::T_STOP) break; skip(f); } structEnd(); break; }
        case TType::T_MAP: { TType k, v; uint32_t n; readMapBegin(k, v, n); while (n--) { skip(k); skip(v); } break; }
        case TType::T_SET: case TType::T_LIST: { TType k; uint32_t n; readListBegin(k, n); while (n--) skip(k); break; }
        default: TProtocolException::invalid("invalid type");
        }
        depth_--;
    }
};
namespace detail {
template <class T> struct TccStructTraits;
template <class P>
struct ProtocolReaderStructReadState {
    int16_t fieldId = 0; protocol::TType fieldType = protocol::T_STOP; folly::StringPiece name_;
    void readStructBegin(P* p) { p->structBegin(); }
    void readStructEnd(P* p) { p->structEnd(); }
    void readFieldBegin(P* p) { p->fieldBegin(fieldType, fieldId, name_); }
    void readFieldBeginNoInline(P* p) { readFieldBegin(p); }
    void readFieldEnd(P*) {}
    folly::StringPiece fieldName() const { return name_; }
    bool advanceToNextField(P* p, int16_t, int16_t next, protocol::TType t) { readFieldBegin(p); return !p->kUsesFieldNames() && fieldId == next && fieldType == t; }
};
namespace pm {
template <class C, class T, class = void> struct protocol_methods;
template <class T> struct protocol_methods<type_class::integral, T> {
    static constexpr protocol::TType tt = std::is_same<T, bool>::value ? protocol::T_BOOL : sizeof(T) == 1 ? protocol::T_BYTE : sizeof(T) == 2 ? protocol::T_I16 : sizeof(T) == 4 ? protocol::T_I32 : protocol::T_I64;
    template <class P> static uint32_t write(P& p, T v) {
        if (std::is_same<T, bool>::value) return p.writeBool(v);
        switch (sizeof(T)) { case 1: return p.writeByte((int8_t)v); case 2: return p.writeI16((int16_t)v); case 4: return p.writeI32((int32_t)v); default: return p.writeI64((int64_t)v); }
    }
    template <class P> static void read(P& p, T& v) {
        if (std::is_same<T, bool>::value) { bool b; p.readBool(b); v = (T)b; return; }
        switch (sizeof(T)) {
        case 1: { int8_t x; p.readByte(x); v = (T)x; break; } case 2: { int16_t x; p.readI16(x); v = (T)x; break; }
        case 4: { int32_t x; p.readI32(x); v = (T)x; break; } default: { int64_t x; p.readI64(x); v = (T)x; }
        }
    }
    template <bool, class P> static uint32_t serializedSize(P& p, T) { switch (sizeof(T)) { case 1: return p.serializedSizeByte(); case 2: return p.serializedSizeI16(); case 4: return p.serializedSizeI32(); default: return p.serializedSizeI64(); } }
};
template <class T> struct protocol_methods<type_class::enumeration, T> {
    static constexpr protocol::TType tt = protocol::T_I32;
    template <class P> static uint32_t write(P& p, T v) { return p.writeI32((int32_t)v); }
    template <class P> static void read(P& p, T& v) { int32_t x; p.readI32(x); v = (T)x; }
    template <bool, class P> static uint32_t serializedSize(P& p, T) { return p.serializedSizeI32(); }
};
template <class T> struct protocol_methods<type_class::binary, T> {
    static constexpr protocol::TType tt = protocol::T_STRING;
    template <class P> static uint32_t write(P& p, const T& v) { return p.writeBinary(v); }
    template <class P> static void read(P& p, T& v) { p.readBinary(v); }
    template <bool, class P> static uint32_t serializedSize(P& p, const T& v) { return p.serializedSizeBinary(v); }
};
template <class T> struct protocol_methods<type_class::string, T> : protocol_methods<type_class::binary, T> {};
template <class T> struct protocol_methods<type_class::floating_point, T> {
    static constexpr protocol::TType tt = protocol::T_DOUBLE;
    template <class P> static uint32_t write(P& p, T v) { return p.writeDouble(v); }
    template <class P> static void read(P& p, T& v) { double d; p.readDouble(d); v = d; }
    template <bool, class P> static uint32_t serializedSize(P& p, T) { return p.serializedSizeDouble(); }
};
template <class T> struct protocol_methods<type_class::structure, T> {
    static constexpr protocol::TType tt = protocol::T_STRUCT;
    template <class P> static uint32_t write(P& p, const T& v) { return Cpp2Ops<T>::write(&p, &v); }
    template <class P> static void read(P& p, T& v) { Cpp2Ops<T>::read(&p, &v); }
    template <bool, class P> static uint32_t serializedSize(P& p, const T& v) { return Cpp2Ops<T>::serializedSize(&p, &v); }
};
template <class C, class T> struct protocol_methods<type_class::list<C>, T> {
    using E = typename T::value_type; using M = protocol_methods<C, E>;
    static constexpr protocol::TType tt = protocol::T_LIST;
    template <class P> static uint32_t write(P& p, const T& v) { uint32_t n = p.writeListBegin(M::tt, v.size()); for (auto& e : v) n += M::write(p, e); return n + p.writeListEnd(); }
    template <class P> static void read(P& p, T& v) {
        protocol::TType t; uint32_t n; p.readListBegin(t, n);
        if (n && t != M::tt) { while (n--) p.skip(t); return; }
        v.reserve(n > 1024 ? 1024 : n);
        while (n--) { v.emplace_back(); M::read(p, v.back()); }
    }
    template <bool, class P> static uint32_t serializedSize(P& p, const T& v) { uint32_t n = p.serializedSizeListBegin(M::tt, v.size()); for (auto& e : v) n += M::template serializedSize<false>(p, e); return n; }
};
template <class C, class T> struct protocol_methods<type_class::set<C>, T> {
    using E = typename T::value_type; using M = protocol_methods<C, E>;
    static constexpr protocol::TType tt = protocol::T_SET;
    template <class P> static uint32_t write(P& p, const T& v) { uint32_t n = p.writeSetBegin(M::tt, v.size()); for (auto& e : v) n += M::write(p, e); return n + p.writeSetEnd(); }
    template <class P> static void read(P& p, T& v) {
        protocol::TType t; uint32_t n; p.readSetBegin(t, n);
        if (n && t != M::tt) { while (n--) p.skip(t); return; }
        while (n--) { E e; M::read(p, e); v.insert(std::move(e)); }
    }
    template <bool, class P> static uint32_t serializedSize(P& p, const T& v) { uint32_t n = p.serializedSizeListBegin(M::tt, v.size()); for (auto& e : v) n += M::template serializedSize<false>(p, e); return n; }
};
template <class K, class C, class T> struct protocol_methods<type_class::map<K, C>, T> {
    using KE = typename T::key_type; using E = typename T::mapped_type; using KM = protocol_methods<K, KE>; using M = protocol_methods<C, E>;
    static constexpr protocol::TType tt = protocol::T_MAP;
    template <class P> static uint32_t write(P& p, const T& v) { uint32_t n = p.writeMapBegin(KM::tt, M::tt, v.size()); for (auto& e : v) { n += KM::write(p, e.first); n += M::write(p, e.second); } return n + p.writeMapEnd(); }
    template <class P> static void read(P& p, T& v) {
        protocol::TType k, t; uint32_t n; p.readMapBegin(k, t, n);
        if (n && (k != KM::tt || t != M::tt)) { while (n--) { p.skip(k); p.skip(t); } return; }
        while (n--) { KE key{}; KM::read(p, key); auto& x = v[std::move(key)]; M::read(p, x); }
    }
    template <bool, class P> static uint32_t serializedSize(P& p, const T& v) { uint32_t n = p.serializedSizeMapBegin(KM::tt, M::tt, v.size()); for (auto& e : v) { n += KM::template serializedSize<false>(p, e.first); n += M::template serializedSize<false>(p, e.second); } return n; }
};
} }
struct CompactSerializer {
    template <class T> static void serialize(const T& v, std::string* out) { WireWriter w(Proto::COMPACT, out); Cpp2Ops<T>::write(&w, &v); }
    template <class T> static size_t deserialize(folly::StringPiece s, T& v) { WireReader r(Proto::COMPACT, s); Cpp2Ops<T>::read(&r, &v); return r.pos() - s.begin(); }
};
} }
