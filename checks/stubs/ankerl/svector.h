// Stand-in for ankerl::svector (not installed here): same interface and observable behaviour as far as flex_array uses
// it, with N elements stored inline and a heap buffer beyond that.
#pragma once
#include <cstddef>
#include <memory>
#include <utility>
namespace ankerl {
template<typename T, std::size_t N>
class svector {
	std::size_t size_ = 0, cap_ = N; T *heap_ = nullptr; alignas(T) unsigned char buf_[N ? N * sizeof(T) : 1];
	T *base() { return heap_ ? heap_ : reinterpret_cast<T *>(buf_); }
	T const *base() const { return heap_ ? heap_ : reinterpret_cast<T const *>(buf_); }
	void grow(std::size_t n) {
		if (n <= cap_) return;
		std::size_t c = n > 2 * cap_ ? n : 2 * cap_; T *p = std::allocator<T>{}.allocate(c);
		std::uninitialized_move(base(), base() + size_, p); std::destroy(base(), base() + size_);
		if (heap_) std::allocator<T>{}.deallocate(heap_, cap_);
		heap_ = p; cap_ = c;
	}
	void reset() { std::destroy(base(), base() + size_); if (heap_) std::allocator<T>{}.deallocate(heap_, cap_); heap_ = nullptr; cap_ = N; size_ = 0; }
	void take(svector &o) { // *this is empty
		if (o.heap_) { heap_ = std::exchange(o.heap_, nullptr); cap_ = std::exchange(o.cap_, N); size_ = std::exchange(o.size_, 0); }
		else { std::uninitialized_move(o.base(), o.base() + o.size_, base()); size_ = o.size_; std::destroy(o.base(), o.base() + o.size_); o.size_ = 0; }
	}
public:
	using value_type = T; using iterator = T *; using const_iterator = T const *;
	svector() = default;
	svector(svector const &o) { grow(o.size_); std::uninitialized_copy(o.begin(), o.end(), base()); size_ = o.size_; }
	svector(svector &&o) noexcept { take(o); }
	svector &operator=(svector const &o) { if (this != &o) { svector t(o); reset(); take(t); } return *this; }
	svector &operator=(svector &&o) noexcept { if (this != &o) { reset(); take(o); } return *this; }
	~svector() { reset(); }
	std::size_t size() const noexcept { return size_; }
	bool empty() const noexcept { return size_ == 0; }
	T *data() noexcept { return base(); }
	T const *data() const noexcept { return base(); }
	T *begin() noexcept { return base(); }
	T *end() noexcept { return base() + size_; }
	T const *begin() const noexcept { return base(); }
	T const *end() const noexcept { return base() + size_; }
	T &operator[](std::size_t i) { return base()[i]; }
	T const &operator[](std::size_t i) const { return base()[i]; }
	void push_back(T v) { grow(size_ + 1); std::construct_at(base() + size_, std::move(v)); ++size_; }
	void pop_back() { std::destroy_at(base() + --size_); }
	void clear() { std::destroy(base(), base() + size_); size_ = 0; }
	void resize(std::size_t n) { grow(n); while (size_ < n) { std::construct_at(base() + size_); ++size_; } while (size_ > n) pop_back(); }
};
} // namespace ankerl
