// Seekable in-memory stream buffer with one position for reading and writing
// (like a file). Unbuffered on purpose: every operation of the library is seen.
#pragma once
#include <streambuf>
#include <functional>
#include <mutex>
#include <string>
#include <vector>
#include <cstring>
namespace vh {
class MemBuf : public std::streambuf {
 public:
  using Store = std::vector<char>;
  MemBuf() : store_(std::make_shared<Store>()) {}
  explicit MemBuf(std::string s) : store_(std::make_shared<Store>(s.begin(), s.end())) {}
  explicit MemBuf(Store s) : store_(std::make_shared<Store>(std::move(s))) {}
  // called before every write with position and length
  std::function<void(size_t pos, const char* p, size_t n)> on_write;
  std::function<void()> on_sync;
  const Store& Data() const { return *store_; }
  uint64_t writes = 0, reads = 0, seeks = 0;

 protected:
  pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override {
    ++seeks;
    off_type base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? static_cast<off_type>(pos_) : static_cast<off_type>(store_->size());
    off_type p = 0;
    if (__builtin_add_overflow(base, off, &p) || p < 0) return pos_type(off_type(-1));
    pos_ = static_cast<size_t>(p);
    return pos_type(p);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    if (n <= 0) return 0;
    ++writes;
    if (on_write) on_write(pos_, s, static_cast<size_t>(n));
    if (pos_ + n > store_->size()) {
      if (pos_ + n > store_->capacity()) store_->reserve(std::max<size_t>(2 * store_->capacity(), pos_ + n));
      store_->resize(pos_ + n);
    }
    memcpy(store_->data() + pos_, s, static_cast<size_t>(n));
    pos_ += static_cast<size_t>(n);
    return n;
  }
  int_type overflow(int_type c) override {
    if (traits_type::eq_int_type(c, traits_type::eof())) return traits_type::not_eof(c);
    const char ch = traits_type::to_char_type(c);
    return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
  }
  std::streamsize xsgetn(char* s, std::streamsize n) override {
    ++reads;
    if (n <= 0 || pos_ >= store_->size()) return 0;
    const size_t m = std::min<size_t>(static_cast<size_t>(n), store_->size() - pos_);
    memcpy(s, store_->data() + pos_, m);
    pos_ += m;
    return static_cast<std::streamsize>(m);
  }
  int_type underflow() override {
    return pos_ < store_->size() ? traits_type::to_int_type((*store_)[pos_]) : traits_type::eof();
  }
  int_type uflow() override {
    return pos_ < store_->size() ? traits_type::to_int_type((*store_)[pos_++]) : traits_type::eof();
  }
  int sync() override { if (on_sync) on_sync(); return 0; }

 private:
  std::shared_ptr<Store> store_;
  size_t pos_ = 0;
};
}  // namespace vh
