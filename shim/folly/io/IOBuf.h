#pragma once
#include <memory>
#include <string>
namespace folly {
struct IOBufString : std::string { std::string toStdString() const { return *this; } };
// A chain of buffers; only what a message body needs.
class IOBuf {
public:
    explicit IOBuf(std::string s) : s_(std::move(s)) {}
    static std::unique_ptr<IOBuf> copyBuffer(const std::string& s) { return std::make_unique<IOBuf>(s); }
    const uint8_t* data() const { return reinterpret_cast<const uint8_t*>(s_.data()); }
    size_t length() const { return s_.size(); }
    bool isChained() const { return next_ != nullptr; }
    void appendChain(std::unique_ptr<IOBuf>&& b) { auto* p = this; while (p->next_) p = p->next_.get(); p->next_ = std::move(b); }
    void prependChain(std::unique_ptr<IOBuf>&& b) { appendChain(std::move(b)); }     // of the head of a circular chain: its end
    size_t computeChainDataLength() const { size_t n = 0; for (auto* p = this; p; p = p->next_.get()) n += p->s_.size(); return n; }
    void coalesce() { s_ = all(); next_.reset(); }
    IOBufString moveToFbString() { IOBufString r; r.assign(all()); s_.clear(); next_.reset(); return r; }
    std::string toString() const { return all(); }
private:
    std::string all() const { std::string r; for (auto* p = this; p; p = p->next_.get()) r += p->s_; return r; }
    std::string s_;
    std::unique_ptr<IOBuf> next_;
};
}
