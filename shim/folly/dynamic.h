#pragma once
#include <map>
#include <string>
#include <variant>
#include <vector>
#include <folly/Conv.h>
#include <folly/Range.h>
namespace folly {
struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
// Objects keep insertion order out of it: a sorted map.
class dynamic {
public:
    enum Type { NULLT, ARRAY, BOOL, DOUBLE, INT64, OBJECT, STRING };
    using Arr = std::vector<dynamic>;
    struct DynLess { bool operator()(const dynamic& a, const dynamic& b) const; };
    using Obj = std::map<dynamic, dynamic, DynLess>;
    class ObjectMaker {
    public:
        ObjectMaker() {}
        ObjectMaker(dynamic k, dynamic v);
        ObjectMaker& operator()(dynamic k, dynamic v);
        std::shared_ptr<Obj> o = std::make_shared<Obj>();
    };
    static ObjectMaker object() { return ObjectMaker(); }
    static ObjectMaker object(dynamic k, dynamic v);
    template <class... A> static dynamic array(A&&... a) { dynamic d; d.t_ = ARRAY; d.a_ = std::make_shared<Arr>(); (d.a_->push_back(dynamic(std::forward<A>(a))), ...); return d; }
    dynamic() = default;
    dynamic(std::nullptr_t) {}  // NOLINT
    dynamic(const dynamic& o) { copy(o); }
    dynamic(dynamic&& o) = default;
    dynamic& operator=(const dynamic& o) { if (this != &o) copy(o); return *this; }
    dynamic& operator=(dynamic&&) = default;
    dynamic(ObjectMaker (*)()) : t_(OBJECT), o_(std::make_shared<Obj>()) {}  // NOLINT
    dynamic(const ObjectMaker& m) : t_(OBJECT), o_(std::make_shared<Obj>(*m.o)) {}  // NOLINT
    dynamic(ObjectMaker&& m) : t_(OBJECT), o_(std::move(m.o)) {}  // NOLINT
    dynamic(const char* s) : t_(STRING), s_(s) {}  // NOLINT
    dynamic(const std::string& s) : t_(STRING), s_(s) {}  // NOLINT
    dynamic(StringPiece s) : t_(STRING), s_(s.toString()) {}  // NOLINT
    template <class T, typename = std::enable_if_t<std::is_arithmetic<T>::value>>
    dynamic(T v) { if (std::is_same<T, bool>::value) { t_ = BOOL; i_ = v; } else if (std::is_floating_point<T>::value) { t_ = DOUBLE; d_ = v; } else { t_ = INT64; i_ = (int64_t)v; } }  // NOLINT
    dynamic(std::vector<bool>::reference v) : t_(BOOL), i_((bool)v) {}  // NOLINT
    Type type() const { return t_; }
    bool isNull() const { return t_ == NULLT; }
    bool isArray() const { return t_ == ARRAY; }
    bool isBool() const { return t_ == BOOL; }
    bool isDouble() const { return t_ == DOUBLE; }
    bool isInt() const { return t_ == INT64; }
    bool isObject() const { return t_ == OBJECT; }
    bool isString() const { return t_ == STRING; }
    int64_t getInt() const { need(INT64, "int64"); return i_; }
    double getDouble() const { need(DOUBLE, "double"); return d_; }
    bool getBool() const { need(BOOL, "boolean"); return i_; }
    const std::string& getString() const { need(STRING, "string"); return s_; }
    std::string& getString() { need(STRING, "string"); return s_; }
    const char* c_str() const { return getString().c_str(); }
    StringPiece stringPiece() const { return getString(); }
    int64_t asInt() const { switch (t_) { case INT64: case BOOL: return i_; case DOUBLE: return to<int64_t>(d_); case STRING: return to<int64_t>(s_); default: throw TypeError("expected dynamic type int64"); } }
    double asDouble() const { switch (t_) { case INT64: case BOOL: return i_; case DOUBLE: return d_; case STRING: return to<double>(s_); default: throw TypeError("expected dynamic type double"); } }
    bool asBool() const { switch (t_) { case INT64: case BOOL: return i_; case DOUBLE: return d_; case STRING: return to<bool>(s_); default: throw TypeError("expected dynamic type boolean"); } }
    std::string asString() const { switch (t_) { case INT64: return to<std::string>(i_); case BOOL: return i_ ? "true" : "false"; case DOUBLE: return to<std::string>(d_); case STRING: return s_; default: throw TypeError("expected dynamic type string"); } }
    bool empty() const { return size() == 0; }
    size_t size() const { switch (t_) { case ARRAY: return a_->size(); case OBJECT: return o_->size(); case STRING: return s_.size(); default: throw TypeError("expected dynamic type array/object"); } }
    // arrays
    void push_back(dynamic v) { need(ARRAY, "array"); a_->push_back(std::move(v)); }
    struct iterator_bad {};
    Arr::const_iterator begin() const { need(ARRAY, "array"); return a_->begin(); }
    Arr::const_iterator end() const { need(ARRAY, "array"); return a_->end(); }
    Arr::iterator begin() { need(ARRAY, "array"); return a_->begin(); }
    Arr::iterator end() { need(ARRAY, "array"); return a_->end(); }
    template <class T, typename = std::enable_if_t<std::is_integral<T>::value>> const dynamic& at(T i) const { need(ARRAY, "array"); if ((size_t)i >= a_->size()) throw std::out_of_range("out of range in dynamic array"); return (*a_)[i]; }
    template <class T, typename = std::enable_if_t<std::is_integral<T>::value>> const dynamic& operator[](T i) const { return at(i); }
    template <class T, typename = std::enable_if_t<std::is_integral<T>::value>> dynamic& operator[](T i) { return const_cast<dynamic&>(at(i)); }
    // objects
    const dynamic& at(const char* k) const { return at(StringPiece(k)); }
    const dynamic& at(const std::string& k) const { return at(StringPiece(k)); }
    const dynamic& at(StringPiece k) const { need(OBJECT, "object"); auto it = o_->find(dynamic(k)); if (it == o_->end()) throw std::out_of_range("couldn't find key " + k.toString() + " in dynamic object"); return it->second; }
    const dynamic& operator[](const char* k) const { return at(k); }
    const dynamic& operator[](const std::string& k) const { return at(k); }
    const dynamic& operator[](StringPiece k) const { return at(k); }
    dynamic& operator[](const char* k) { need(OBJECT, "object"); return (*o_)[dynamic(k)]; }
    dynamic& operator[](const std::string& k) { need(OBJECT, "object"); return (*o_)[dynamic(k)]; }
    dynamic& operator[](StringPiece k) { need(OBJECT, "object"); return (*o_)[dynamic(k)]; }
    using const_item_iterator = Obj::const_iterator;
    const_item_iterator find(StringPiece k) const { need(OBJECT, "object"); return o_->find(dynamic(k)); }
    const_item_iterator find(const char* k) const { return find(StringPiece(k)); }
    const_item_iterator find(const std::string& k) const { return find(StringPiece(k)); }
    size_t count(StringPiece k) const { need(OBJECT, "object"); return o_->count(dynamic(k)); }
    const dynamic* get_ptr(StringPiece k) const { need(OBJECT, "object"); auto it = o_->find(dynamic(k)); return it == o_->end() ? nullptr : &it->second; }
    size_t erase(const dynamic& k) { need(OBJECT, "object"); return o_->erase(k); }
    void insert(dynamic k, dynamic v) { need(OBJECT, "object"); (*o_)[std::move(k)] = std::move(v); }
    const Obj& items() const { need(OBJECT, "object"); return *o_; }
    std::vector<dynamic> keys() const { need(OBJECT, "object"); std::vector<dynamic> r; for (auto& p : *o_) r.push_back(p.first); return r; }
    std::vector<dynamic> values() const { need(OBJECT, "object"); std::vector<dynamic> r; for (auto& p : *o_) r.push_back(p.second); return r; }
    friend bool operator==(const dynamic& a, const dynamic& b) {
        if (a.t_ != b.t_) { if (a.isNum() && b.isNum()) return a.asDouble() == b.asDouble(); return false; }
        switch (a.t_) { case NULLT: return true; case ARRAY: return *a.a_ == *b.a_; case BOOL: case INT64: return a.i_ == b.i_; case DOUBLE: return a.d_ == b.d_; case OBJECT: return a.o_->size() == b.o_->size() && std::equal(a.o_->begin(), a.o_->end(), b.o_->begin()); default: return a.s_ == b.s_; }
    }
    friend bool operator!=(const dynamic& a, const dynamic& b) { return !(a == b); }
private:
    bool isNum() const { return t_ == INT64 || t_ == DOUBLE; }
    void need(Type t, const char* n) const { if (t_ != t) throw TypeError(std::string("expected dynamic type '") + n + "'"); }
    void copy(const dynamic& o) { t_ = o.t_; i_ = o.i_; d_ = o.d_; s_ = o.s_; a_ = o.a_ ? std::make_shared<Arr>(*o.a_) : nullptr; o_ = o.o_ ? std::make_shared<Obj>(*o.o_) : nullptr; }
    Type t_ = NULLT;
    int64_t i_ = 0;
    double d_ = 0;
    std::string s_;
    std::shared_ptr<Arr> a_;
    std::shared_ptr<Obj> o_;
};
inline bool dynamic::DynLess::operator()(const dynamic& a, const dynamic& b) const {
    if (a.type() != b.type()) return a.type() < b.type();
    if (a.isString()) return a.getString() < b.getString();
    if (a.isInt()) return a.getInt() < b.getInt();
    return false;
}
inline dynamic::ObjectMaker::ObjectMaker(dynamic k, dynamic v) { (*o)[std::move(k)] = std::move(v); }
inline dynamic::ObjectMaker& dynamic::ObjectMaker::operator()(dynamic k, dynamic v) { (*o)[std::move(k)] = std::move(v); return *this; }
inline dynamic::ObjectMaker dynamic::object(dynamic k, dynamic v) { return ObjectMaker(std::move(k), std::move(v)); }
}
