// Symbolic-side definitions of the out-of-line parts of libstdc++ / libc that header code refers to.
#define private public
#define protected public
#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <condition_variable>
#include <memory>
#include <typeinfo>
#include <optional>
#include <variant>
#include <pthread.h>
#include <time.h>

extern "C" size_t strlen(const char*);
static char* dupn(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }

namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {} const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }

__cow_string::__cow_string() { _M_p = dupn("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = dupn(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = dupn(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = dupn(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = dupn(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = dupn("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }

#define EXC(E) \
  E::E(const string& s) : _M_msg(s) {} E::E(const char* s) : _M_msg(s, strlen(s)) {} E::E(const E& o) noexcept : exception(o), _M_msg(o._M_msg) {} \
  E::E(E&& o) noexcept : exception(o), _M_msg(o._M_msg) {} E& E::operator=(const E& o) noexcept { _M_msg = o._M_msg; return *this; } E& E::operator=(E&& o) noexcept { _M_msg = o._M_msg; return *this; } \
  E::~E() noexcept {} const char* E::what() const noexcept { return _M_msg._M_p; }
EXC(logic_error) EXC(runtime_error)
#define EXD(E, B) E::E(const string& s) : B(s) {} E::E(const char* s) : B(s) {} E::~E() noexcept {}
EXD(domain_error, logic_error) EXD(invalid_argument, logic_error) EXD(length_error, logic_error) EXD(out_of_range, logic_error)
EXD(range_error, runtime_error) EXD(overflow_error, runtime_error) EXD(underflow_error, runtime_error)
system_error::~system_error() noexcept {}

void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int e) { throw system_error(error_code(e, generic_category())); }

inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this == c.category() && c.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("", 0); }
struct vp_gencat : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return "g"; } };
struct vp_syscat : error_category { const char* name() const noexcept override { return "system"; } string message(int) const override { return "s"; }
  error_condition default_error_condition(int i) const noexcept override { return error_condition(i, generic_category()); } };
static vp_gencat g_gen; static vp_syscat g_sys;
const error_category& generic_category() noexcept { return g_gen; }
const error_category& system_category() noexcept { return g_sys; }
}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }

thread::_State::~_State() {}
static void* vp_thread_entry(void* p) { thread::_State_ptr st((thread::_State*)p); st->_M_run(); return nullptr; }
void thread::_M_start_thread(_State_ptr st, void (*)()) { pthread_create(&_M_id._M_thread, nullptr, vp_thread_entry, st.release()); }
void thread::join() { pthread_join(_M_id._M_thread, nullptr); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
type_info::~type_info() {}
const nothrow_t nothrow{};
}
