#ifndef VERIF_MODEL_ERROR_CODE
#define VERIF_MODEL_ERROR_CODE
#include <string>
#include <boost/config.hpp>
namespace boost { namespace system {
class error_code; class error_condition;
template<class T> struct is_error_code_enum { static bool const value=false; };
template<class T> struct is_error_condition_enum { static bool const value=false; };
class error_category {
public:
    error_category(error_category const&) = delete;
    error_category& operator=(error_category const&) = delete;
    virtual const char* name() const noexcept = 0;
    virtual std::string message(int) const = 0;
    virtual inline error_condition default_error_condition(int) const noexcept;
    virtual bool failed(int ev) const noexcept { return ev != 0; }
    bool operator==(error_category const& o) const noexcept { return this == &o; }
    bool operator!=(error_category const& o) const noexcept { return this != &o; }
protected:
    constexpr error_category() noexcept {}
    ~error_category() = default;
};
extern error_category const& model_generic() noexcept;
inline error_category const& generic_category() noexcept { return model_generic(); }
inline error_category const& system_category() noexcept { return model_generic(); }
class error_condition {
    int v_; error_category const* c_;
public:
    constexpr error_condition() noexcept : v_(0), c_(nullptr) {}
    constexpr error_condition(int v, error_category const& c) noexcept : v_(v), c_(&c) {}
    template<class E, class=typename std::enable_if<is_error_condition_enum<E>::value>::type>
    error_condition(E e) noexcept { *this = make_error_condition(e); }
    int value() const noexcept { return v_; }
    error_category const& category() const noexcept { return *c_; }
    std::string message() const { return c_->message(v_); }
    explicit operator bool() const noexcept { return v_ != 0; }
    friend bool operator==(error_condition const& a, error_condition const& b) noexcept { return a.v_==b.v_ && a.c_==b.c_; }
    friend bool operator!=(error_condition const& a, error_condition const& b) noexcept { return !(a==b); }
};
inline error_condition error_category::default_error_condition(int v) const noexcept { return error_condition(v,*this); }
class error_code {
    int v_; error_category const* c_;
public:
    constexpr error_code() noexcept : v_(0), c_(nullptr) {}
    error_code(int v, error_category const& c) noexcept : v_(v), c_(&c) {}
    template<class E, class=typename std::enable_if<is_error_code_enum<E>::value>::type>
    error_code(E e) noexcept { *this = make_error_code(e); }
    template<class E, class=typename std::enable_if<is_error_code_enum<E>::value>::type>
    error_code& operator=(E e) noexcept { *this = make_error_code(e); return *this; }
    void assign(int v, error_category const& c) noexcept { v_=v; c_=&c; }
    void clear() noexcept { v_=0; c_=nullptr; }
    int value() const noexcept { return v_; }
    error_category const& category() const noexcept { return *c_; }
    error_condition default_error_condition() const noexcept { return c_->default_error_condition(v_); }
    std::string message() const { return c_->message(v_); }
    bool failed() const noexcept { return v_ != 0; }
    explicit operator bool() const noexcept { return v_ != 0; }
    friend bool operator==(error_code const& a, error_code const& b) noexcept { return a.v_==b.v_ && a.c_==b.c_; }
    friend bool operator!=(error_code const& a, error_code const& b) noexcept { return !(a==b); }
};
}}
#endif
