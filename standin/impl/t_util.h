// Stand-in for takatori::util: only what jogasaki uses, written for the simulation.
#pragma once
#include <bitset>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <exception>
#include <functional>
#include <iostream>
#include <iterator>
#include <memory>
#include <optional>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <set>

namespace takatori::util {
// ---- exception
template <class T> [[noreturn]] inline void throw_exception(T const& e) { throw e; }

// ---- clone
struct clone_tag_t { explicit clone_tag_t() = default; };
inline constexpr clone_tag_t clone_tag{};
template <class T> std::unique_ptr<T> clone_unique(T const& o) { return std::unique_ptr<T>(static_cast<T*>(o.clone().release())); }
template <class T> std::shared_ptr<T> clone_shared(T const& o) { return std::shared_ptr<T>(static_cast<T*>(o.clone().release())); }

// ---- downcast
template <class To, class From> inline auto unsafe_downcast(From* p) noexcept { return static_cast<std::conditional_t<std::is_const_v<From>, std::add_const_t<To>, To>*>(p); }
template <class To, class From, class = std::enable_if_t<!std::is_pointer_v<std::remove_reference_t<From>>>>
inline decltype(auto) unsafe_downcast(From&& r) noexcept {
    using raw = std::remove_reference_t<From>;
    using to = std::remove_reference_t<To>;
    if constexpr (std::is_const_v<raw>) return static_cast<std::add_const_t<to>&>(r);
    else return static_cast<to&>(r);
}
template <class To, class From> inline To* downcast(From* p) noexcept { return dynamic_cast<To*>(p); }

// ---- infect_qualifier
template <class T> struct infect_const { template <class U> struct with { using type = std::conditional_t<std::is_const_v<T>, std::add_const_t<U>, U>; }; };
template <class From, class To> struct infect_qualifier {
    using type = std::conditional_t<std::is_const_v<std::remove_reference_t<From>>, std::add_const_t<To>, To>;
};
template <class From, class To> using infect_qualifier_t = typename infect_qualifier<From, To>::type;
template <class To, class From> using relative_const = infect_qualifier<From, To>;
template <class From, class To> using relative_const_t = std::conditional_t<std::is_const_v<From>, std::add_const_t<To>, To>;

// ---- enum_tag
template <auto V> struct enum_tag_t { explicit constexpr enum_tag_t() = default; static constexpr auto value = V; };
template <auto V> inline constexpr enum_tag_t<V> enum_tag{};
template <auto V, class F, class... A> decltype(auto) enum_tag_callback(F&& f, A&&... a) { return std::forward<F>(f)(enum_tag<V>, std::forward<A>(a)...); }
// ---- comparability
template <class A, class B, class = void> struct is_equal_comparable : std::false_type {};
template <class A, class B> struct is_equal_comparable<A, B, std::void_t<decltype(std::declval<A>() == std::declval<B>())>> : std::true_type {};
template <class A, class B = A> inline constexpr bool is_equal_comparable_v = is_equal_comparable<A, B>::value;
[[noreturn]] inline void fail() { std::abort(); }

// ---- optional_ptr
template <class T> class optional_ptr {
public:
    using element_type = T; using value_type = T; using pointer = T*; using reference = T&;
    constexpr optional_ptr() = default;
    constexpr optional_ptr(std::nullptr_t) {}
    constexpr explicit optional_ptr(T* p) : p_(p) {}
    constexpr optional_ptr(T& r) : p_(std::addressof(r)) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> constexpr optional_ptr(optional_ptr<U> o) : p_(o.get()) {}
    constexpr T* get() const { return p_; }
    constexpr T& operator*() const { return *p_; }
    constexpr T* operator->() const { return p_; }
    constexpr T& value() const { if (!p_) throw std::bad_optional_access{}; return *p_; }
    constexpr bool has_value() const { return p_ != nullptr; } constexpr bool empty() const { return p_ == nullptr; }
    constexpr explicit operator bool() const { return p_ != nullptr; }
    constexpr void reset() { p_ = nullptr; }
    constexpr void reset(T* p) { p_ = p; }
    friend bool operator==(optional_ptr a, optional_ptr b) { return a.p_ == b.p_; }
    friend bool operator!=(optional_ptr a, optional_ptr b) { return a.p_ != b.p_; }
    friend bool operator==(optional_ptr a, std::nullptr_t) { return a.p_ == nullptr; }
    friend bool operator!=(optional_ptr a, std::nullptr_t) { return a.p_ != nullptr; }
private:
    T* p_{};
};
template <class T> optional_ptr(T&) -> optional_ptr<T>;

// ---- maybe_shared_ptr
template <class T> class maybe_shared_ptr {
public:
    using element_type = T;
    constexpr maybe_shared_ptr() = default;
    constexpr maybe_shared_ptr(std::nullptr_t) {}
    maybe_shared_ptr(T* p) : p_(p) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::shared_ptr<U> s) : s_(std::move(s)) { p_ = s_.get(); }
    template <class U, class D, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::unique_ptr<U, D>&& u) : s_(std::move(u)) { p_ = s_.get(); }
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(maybe_shared_ptr<U> const& o) : s_(o.ownership()), p_(o.get()) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(maybe_shared_ptr<U>&& o) : s_(o.ownership()), p_(o.get()) { o.reset(); }
    maybe_shared_ptr(maybe_shared_ptr const&) = default;
    maybe_shared_ptr(maybe_shared_ptr&& o) noexcept : s_(std::move(o.s_)), p_(o.p_) { o.p_ = nullptr; }
    maybe_shared_ptr& operator=(maybe_shared_ptr const&) = default;
    maybe_shared_ptr& operator=(maybe_shared_ptr&& o) noexcept { auto s = std::move(o.s_); auto* p = o.p_; o.p_ = nullptr; s_ = std::move(s); p_ = p; return *this; }
    T* get() const noexcept { return p_; }
    T& operator*() const noexcept { return *p_; }
    T* operator->() const noexcept { return p_; }
    explicit operator bool() const noexcept { return p_ != nullptr; }
    std::shared_ptr<T> const& ownership() const noexcept { return s_; }
    void reset() noexcept { s_.reset(); p_ = nullptr; }
    void reset(T* p) noexcept { s_.reset(); p_ = p; }
    long use_count() const noexcept { return s_.use_count(); }
    friend bool operator==(maybe_shared_ptr const& a, maybe_shared_ptr const& b) { return a.p_ == b.p_; }
    friend bool operator!=(maybe_shared_ptr const& a, maybe_shared_ptr const& b) { return a.p_ != b.p_; }
    friend bool operator==(maybe_shared_ptr const& a, std::nullptr_t) { return a.p_ == nullptr; }
    friend bool operator!=(maybe_shared_ptr const& a, std::nullptr_t) { return a.p_ != nullptr; }
private:
    std::shared_ptr<T> s_{};
    T* p_{};
};
template <class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template <class T, class D> maybe_shared_ptr(std::unique_ptr<T, D>&&) -> maybe_shared_ptr<T>;
template <class U, class T> std::shared_ptr<U> dynamic_pointer_cast_shared(maybe_shared_ptr<T> const& p) { return std::dynamic_pointer_cast<U>(p.ownership()); }

// ---- iterators over containers of pointers
template <class It> struct reference_extractor_of;
template <class P> struct reference_extractor {
    using value_type = std::remove_reference_t<decltype(*std::declval<P&>())>;
    using reference = value_type&; using pointer = value_type*;
    using const_reference = std::add_const_t<value_type>&;
    static constexpr reference extract(P& v) { return *v; }
    static constexpr reference extract(P const& v) { return *v; }
};
template <class It, class Extractor = reference_extractor<std::remove_const_t<typename std::iterator_traits<It>::value_type>>> class reference_iterator {
public:
    using iterator_category = typename std::iterator_traits<It>::iterator_category;
    using difference_type = typename std::iterator_traits<It>::difference_type;
    using base_value = std::remove_reference_t<decltype(*std::declval<It>())>;
    using value_type = std::remove_reference_t<decltype(*std::declval<typename std::iterator_traits<It>::value_type&>())>;
    using reference = value_type&; using pointer = value_type*;
    reference_iterator() = default;
    explicit constexpr reference_iterator(It c) : c_(c) {}
    reference operator*() const { return Extractor::extract(const_cast<std::remove_const_t<base_value>&>(*c_)); }
    pointer operator->() const { return std::addressof(**this); }
    reference operator[](difference_type n) const { return *(*this + n); }
    reference_iterator& operator++() { ++c_; return *this; }
    reference_iterator operator++(int) { auto r = *this; ++c_; return r; }
    reference_iterator& operator--() { --c_; return *this; }
    reference_iterator operator--(int) { auto r = *this; --c_; return r; }
    reference_iterator& operator+=(difference_type n) { c_ += n; return *this; }
    reference_iterator& operator-=(difference_type n) { c_ -= n; return *this; }
    friend reference_iterator operator+(reference_iterator a, difference_type n) { a.c_ += n; return a; }
    friend reference_iterator operator-(reference_iterator a, difference_type n) { a.c_ -= n; return a; }
    friend difference_type operator-(reference_iterator const& a, reference_iterator const& b) { return a.c_ - b.c_; }
    friend bool operator==(reference_iterator const& a, reference_iterator const& b) { return a.c_ == b.c_; }
    friend bool operator!=(reference_iterator const& a, reference_iterator const& b) { return a.c_ != b.c_; }
    friend bool operator<(reference_iterator const& a, reference_iterator const& b) { return a.c_ < b.c_; }
private:
    It c_{};
};
// a list of pointers seen as a list of references
template <class It, class Extractor = void> class reference_list_view {
public:
    using iterator = reference_iterator<It>; using const_iterator = iterator;
    using value_type = typename iterator::value_type; using reference = value_type&; using const_reference = value_type const&;
    reference_list_view() = default;
    reference_list_view(It b, It e) : b_(b), e_(e) {}
    template <class C, class = std::enable_if_t<!std::is_same_v<std::decay_t<C>, reference_list_view>>> explicit reference_list_view(C& c) : b_(c.begin()), e_(c.end()) {}
    iterator begin() const { return iterator(b_); } iterator end() const { return iterator(e_); }
    std::size_t size() const { return static_cast<std::size_t>(std::distance(b_, e_)); }
    bool empty() const { return b_ == e_; }
    reference operator[](std::size_t i) const { return begin()[static_cast<std::ptrdiff_t>(i)]; }
    reference at(std::size_t i) const { if (i >= size()) throw std::out_of_range("reference_list_view"); return (*this)[i]; }
    reference front() const { return *begin(); } reference back() const { return (*this)[size() - 1]; }
private:
    It b_{}, e_{};
};
template <class C> reference_list_view(C&) -> reference_list_view<typename C::iterator>;
template <class C> reference_list_view(C const&) -> reference_list_view<typename C::const_iterator>;
template <class T> struct ptr_vec_extractor {};

// vector owning polymorphic elements
template <class T> class reference_vector {
public:
    using store = std::vector<std::unique_ptr<T>>;
    using iterator = reference_iterator<typename store::iterator>; using const_iterator = reference_iterator<typename store::const_iterator>;
    using value_type = T; using reference = T&; using const_reference = T const&; using size_type = std::size_t;
    reference_vector() = default;
    reference_vector(reference_vector&&) noexcept = default;
    reference_vector& operator=(reference_vector&&) noexcept = default;
    template <class... R> static reference_vector of(R&&... r) { reference_vector v; (v.push_back(std::forward<R>(r)), ...); return v; }
    std::size_t size() const { return e_.size(); } bool empty() const { return e_.empty(); }
    T& operator[](std::size_t i) { return *e_[i]; } T const& operator[](std::size_t i) const { return *e_[i]; }
    T& at(std::size_t i) { return *e_.at(i); } T const& at(std::size_t i) const { return *e_.at(i); }
    T& front() { return *e_.front(); } T& back() { return *e_.back(); } T const& front() const { return *e_.front(); } T const& back() const { return *e_.back(); }
    iterator begin() { return iterator(e_.begin()); } iterator end() { return iterator(e_.end()); }
    const_iterator begin() const { return const_iterator(e_.begin()); } const_iterator end() const { return const_iterator(e_.end()); }
    const_iterator cbegin() const { return begin(); } const_iterator cend() const { return end(); }
    T& push_back(std::unique_ptr<T> p) { e_.push_back(std::move(p)); return *e_.back(); }
    T& push_back(T const& v) { if constexpr (std::is_copy_constructible_v<T>) { e_.push_back(std::make_unique<T>(v)); } else { e_.push_back(clone_unique(v)); } return *e_.back(); }
    T& push_back(T&& v) { e_.push_back(std::make_unique<T>(std::move(v))); return *e_.back(); }
    template <class U = T, class... A> U& emplace_back(A&&... a) { auto p = std::make_unique<U>(std::forward<A>(a)...); auto& r = *p; e_.push_back(std::move(p)); return r; }
    void reserve(std::size_t n) { e_.reserve(n); } void clear() { e_.clear(); }
    iterator erase(const_iterator) { std::abort(); }
    friend bool operator==(reference_vector const& a, reference_vector const& b) { if (a.size() != b.size()) return false; for (std::size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i])) return false; return true; }
private:
    store e_{};
};

// ---- sequence_view
template <class T> class sequence_view {
public:
    using value_type = std::remove_const_t<T>; using iterator = T*; using const_iterator = T const*; using reference = T&; using const_reference = T const&; using size_type = std::size_t;
    using cursor = T*;
    constexpr sequence_view() = default;
    constexpr sequence_view(T* b, T* e) : b_(b), n_(static_cast<std::size_t>(e - b)) {}
    constexpr sequence_view(T* b, std::size_t n) : b_(b), n_(n) {}
    constexpr explicit sequence_view(T& e) : b_(std::addressof(e)), n_(1) {}
    constexpr explicit sequence_view(T* p) : b_(p), n_(1) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U (*)[], T (*)[]>>> constexpr sequence_view(sequence_view<U> o) : b_(o.data()), n_(o.size()) {}
    template <class C, class = std::enable_if_t<!std::is_pointer_v<C> && std::is_convertible_v<decltype(std::declval<C&>().data()), T*> && !std::is_same_v<std::decay_t<C>, sequence_view>>> constexpr sequence_view(C& c) : b_(c.data()), n_(c.size()) {}
    template <class C, class = std::enable_if_t<std::is_const_v<T> && std::is_convertible_v<decltype(std::declval<C const&>().data()), T*> && !std::is_same_v<std::decay_t<C>, sequence_view>>, class = void> constexpr sequence_view(C const& c) : b_(c.data()), n_(c.size()) {}
    template <class U = T, class = std::enable_if_t<std::is_const_v<U>>> constexpr sequence_view(std::initializer_list<value_type> l) : b_(l.begin()), n_(l.size()) {}
    template <std::size_t N> constexpr sequence_view(T (&a)[N]) : b_(a), n_(N) {}
    constexpr T* begin() const { return b_; } constexpr T* end() const { return b_ + n_; } constexpr T* data() const { return b_; }
    constexpr T const* cbegin() const { return b_; } constexpr T const* cend() const { return b_ + n_; }
    constexpr std::size_t size() const { return n_; } constexpr bool empty() const { return n_ == 0; }
    constexpr T& operator[](std::size_t i) const { assert(i < n_); return b_[i]; }
    constexpr T& at(std::size_t i) const { if (i >= n_) throw std::out_of_range("sequence_view"); return b_[i]; }
    constexpr T& front() const { return b_[0]; } constexpr T& back() const { return b_[n_ - 1]; }
    friend std::ostream& operator<<(std::ostream& o, sequence_view v) { o << "["; bool c = false; for (auto&& e : v) { if (c) o << ", "; c = true; o << e; } return o << "]"; }
    sequence_view subview(std::size_t o, std::size_t n) const { return sequence_view(b_ + o, n); }
private:
    T* b_{}; std::size_t n_{};
};
template <class T> sequence_view(T*) -> sequence_view<T>;
template <class C> sequence_view(C&) -> sequence_view<std::remove_pointer_t<decltype(std::declval<C&>().data())>>;
template <class C> sequence_view(C const&) -> sequence_view<std::remove_pointer_t<decltype(std::declval<C const&>().data())>>;

// ---- string_builder
class string_builder {
public:
    struct to_string_t {};
    static constexpr to_string_t to_string{};
    template <class T> string_builder& operator<<(T const& v) & { s_ << v; return *this; }
    template <class T> string_builder&& operator<<(T const& v) && { s_ << v; return std::move(*this); }
    template <class T> std::enable_if_t<std::is_enum_v<T>, string_builder&&> enum_out(T v) && { s_ << v; return std::move(*this); }
    std::ostream& buffer() { return s_; }
    std::string operator<<(to_string_t) & { return s_.str(); }
    std::string operator<<(to_string_t) && { return s_.str(); }
    string_builder& operator<<(std::ostream& (*f)(std::ostream&)) & { s_ << f; return *this; }
    string_builder&& operator<<(std::ostream& (*f)(std::ostream&)) && { s_ << f; return std::move(*this); }
    std::string str() const { return s_.str(); }
private:
    std::ostringstream s_{};
};

// ---- enum_set
template <class E, E First, E Last> class enum_set {
public:
    using value_type = E;
    static constexpr std::size_t n = static_cast<std::size_t>(Last) - static_cast<std::size_t>(First) + 1;
    constexpr enum_set() = default;
    enum_set(std::initializer_list<E> l) { for (auto e : l) insert(e); }
    template <class... T, class = std::enable_if_t<(sizeof...(T) > 0) && (std::is_same_v<T, E> && ...)>> explicit enum_set(T... v) { (insert(v), ...); }
    bool contains(E e) const { return b_[idx(e)]; }
    bool operator[](E e) const { return contains(e); }
    bool insert(E e) { bool r = !b_[idx(e)]; b_[idx(e)] = true; return r; }
    bool erase(E e) { bool r = b_[idx(e)]; b_[idx(e)] = false; return r; }
    void clear() { b_.reset(); }
    bool empty() const { return b_.none(); }
    std::size_t size() const { return b_.count(); }
    enum_set& operator+=(E e) { insert(e); return *this; }
    friend bool operator==(enum_set const& a, enum_set const& b) { return a.b_ == b.b_; }
    friend bool operator!=(enum_set const& a, enum_set const& b) { return a.b_ != b.b_; }
    enum_set& operator|=(enum_set const& o) { b_ |= o.b_; return *this; }
    friend enum_set operator|(enum_set a, enum_set const& b) { a.b_ |= b.b_; return a; }
    friend enum_set operator+(enum_set a, enum_set const& b) { a.b_ |= b.b_; return a; }
    class iterator {
    public:
        using iterator_category = std::forward_iterator_tag; using value_type = E; using difference_type = std::ptrdiff_t; using pointer = E const*; using reference = E;
        iterator(enum_set const* s, std::size_t i) : s_(s), i_(i) { skip(); }
        E operator*() const { return static_cast<E>(i_ + static_cast<std::size_t>(First)); }
        iterator& operator++() { ++i_; skip(); return *this; }
        bool operator==(iterator const& o) const { return i_ == o.i_; } bool operator!=(iterator const& o) const { return i_ != o.i_; }
    private:
        void skip() { while (i_ < n && !s_->b_[i_]) ++i_; }
        enum_set const* s_; std::size_t i_;
    };
    iterator begin() const { return iterator(this, 0); } iterator end() const { return iterator(this, n); }
    friend std::ostream& operator<<(std::ostream& o, enum_set const& s) { o << "{"; bool c = false; for (auto e : s) { if (c) o << ", "; c = true; o << e; } return o << "}"; }
private:
    static std::size_t idx(E e) { return static_cast<std::size_t>(e) - static_cast<std::size_t>(First); }
    std::bitset<n> b_{};
};

// ---- either
template <class E, class T> class either {
public:
    using left_type = E; using right_type = T; using error_type = E; using value_type = T;
    either(E const& e) : v_(std::in_place_index<0>, e) {}
    either(E&& e) : v_(std::in_place_index<0>, std::move(e)) {}
    either(T const& t) : v_(std::in_place_index<1>, t) {}
    either(T&& t) : v_(std::in_place_index<1>, std::move(t)) {}
    template <std::size_t I, class... A> explicit either(std::in_place_index_t<I> i, A&&... a) : v_(i, std::forward<A>(a)...) {}
    bool has_value() const { return v_.index() == 1; } bool is_error() const { return v_.index() == 0; } bool is_left() const { return is_error(); } bool is_right() const { return has_value(); }
    bool is_success() const { return has_value(); }
    explicit operator bool() const { return has_value(); }
    T& value() { return std::get<1>(v_); } T const& value() const { return std::get<1>(v_); }
    E& error() { return std::get<0>(v_); } E const& error() const { return std::get<0>(v_); }
    T& operator*() { return value(); } T* operator->() { return &value(); } T const& operator*() const { return value(); }
private:
    std::variant<E, T> v_;
};

// ---- misc
template <class T> struct print_support_t { T const& v; friend std::ostream& operator<<(std::ostream& o, print_support_t const& p) { return o << "(...)"; } };
template <class T> print_support_t<T> print_support(T const& v) { return {v}; }
template <class T> print_support_t<T> print_support(std::vector<T> const& v) { static T const x{}; return {x}; }
template <class T> struct comparable_traits {};

// ---- buffer views
template <class B> class basic_buffer_view {
public:
    using value_type = B; using iterator = B*; using const_iterator = std::add_const_t<B>*; using size_type = std::size_t; using pointer = B*; using const_pointer = std::add_const_t<B>*;
    using difference_type = std::ptrdiff_t; using reference = B&; using const_reference = std::add_const_t<B>&;
    constexpr basic_buffer_view() = default;
    constexpr basic_buffer_view(B* p, std::size_t n) : p_(p), n_(n) {}
    constexpr basic_buffer_view(B* a, B* b) : p_(a), n_(static_cast<std::size_t>(b - a)) {}
    template <class U, class = std::enable_if_t<std::is_convertible_v<U*, B*>>> constexpr basic_buffer_view(basic_buffer_view<U> o) : p_(o.data()), n_(o.size()) {}
    constexpr B* data() const { return p_; } constexpr std::size_t size() const { return n_; } constexpr bool empty() const { return n_ == 0; }
    constexpr B* begin() const { return p_; } constexpr B* end() const { return p_ + n_; }
    constexpr const_iterator cbegin() const { return p_; } constexpr const_iterator cend() const { return p_ + n_; }
    constexpr B& operator[](std::size_t i) const { return p_[i]; }
    constexpr B& at(std::size_t i) const { if (i >= n_) throw std::out_of_range("buffer_view"); return p_[i]; }
    basic_buffer_view slice(std::size_t o, std::size_t n) const { return basic_buffer_view(p_ + o, n); }
private:
    B* p_{}; std::size_t n_{};
};
using buffer_view = basic_buffer_view<char>;
using const_buffer_view = basic_buffer_view<char const>;

template <class B> class basic_bitset_view {
public:
    using size_type = std::size_t; using block_type = B; using buffer_type = basic_buffer_view<B>;
    basic_bitset_view() = default;
    basic_bitset_view(buffer_type b, std::size_t n) : b_(b), n_(n) {}
    basic_bitset_view(buffer_type b) : b_(b), n_(b.size() * 8) {}
    basic_bitset_view(B* p, std::size_t n) : b_(p, (n + 7) / 8), n_(n) {}
    std::size_t size() const { return n_; } bool empty() const { return n_ == 0; }
    struct ref { B* p; unsigned m; operator bool() const { return (static_cast<unsigned char>(*p) & m) != 0; } ref& operator=(bool v) { unsigned c = static_cast<unsigned char>(*p); if (v) c |= m; else c &= ~m; const_cast<std::remove_const_t<B>&>(*p) = static_cast<B>(c); return *this; } };
    ref operator[](std::size_t i) const { return ref{b_.data() + i / 8, 1U << (i % 8)}; }
    bool test(std::size_t i) const { return static_cast<bool>((*this)[i]); }
    ref at(std::size_t i) const { if (i >= n_) throw std::out_of_range("bitset_view"); return (*this)[i]; }
    bool any() const { for (std::size_t i = 0; i < n_; ++i) if (test(i)) return true; return false; }
    bool all() const { for (std::size_t i = 0; i < n_; ++i) if (!test(i)) return false; return true; }
    std::size_t count() const { std::size_t c = 0; for (std::size_t i = 0; i < n_; ++i) c += test(i); return c; }
    basic_bitset_view& set(std::size_t i, bool v = true) { (*this)[i] = v; return *this; }
    basic_bitset_view& reset() { for (std::size_t i = 0; i < n_; ++i) (*this)[i] = false; return *this; }
    std::size_t block_size() const { return (n_ + 7) / 8; } B* block_data() const { return b_.data(); }
    buffer_type const& block() const { return b_; }
    B const* begin() const { return b_.data(); } std::reverse_iterator<std::reverse_iterator<B const*>> end() const { return std::make_reverse_iterator(std::make_reverse_iterator(static_cast<B const*>(b_.data() + block_size()))); }
private:
    buffer_type b_{}; std::size_t n_{};
};
using bitset_view = basic_bitset_view<char>;
using const_bitset_view = basic_bitset_view<char const>;
} // namespace takatori::util
namespace takatori::util {
// boost.stacktrace is too slow for simulated runs: an empty trace
inline std::string_view get_caller() { return {}; }
struct fake_stacktrace { bool empty() const { return true; } friend std::ostream& operator<<(std::ostream& o, fake_stacktrace const&) { return o; } };
template <class E> fake_stacktrace const* find_trace(E const&) { return nullptr; }
inline void print_trace(std::ostream& o, std::exception const& e) { o << e.what(); }
struct fake_trace_out { std::exception const& e; friend std::ostream& operator<<(std::ostream& o, fake_trace_out const& t) { return o << t.e.what(); } };
}
