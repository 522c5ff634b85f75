// Verification stand-in for pybind11: the same surface syntax, but every
// interaction with Python goes through extern "C" hooks (vp_*) which the
// symbolic LLVM-IR interpreter implements.  The repository's wrappers and the
// PYBIND11_MODULE table are compiled against it UNMODIFIED.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <functional>
#include <initializer_list>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/types.h>

extern "C" {
void *vp_array_data(int64_t h);
int64_t vp_array_ndim(int64_t h);
int64_t vp_array_shape(int64_t h, int64_t axis);
int64_t vp_array_cast(int64_t h, int dtype);
int64_t vp_array_new(int dtype, int ndim, const int64_t *shape, const void *ptr, int64_t owner, int has_owner);
int64_t vp_attr(int64_t h, const char *name);
int64_t vp_hasattr(int64_t h, const char *name);
int64_t vp_getitem(int64_t h, int64_t k);
double vp_to_double(int64_t h);
int64_t vp_to_int(int64_t h);
int vp_to_bool(int64_t h);
int64_t vp_from_double(double d);
int64_t vp_from_int(int64_t i);
int64_t vp_from_bool(int b);
int64_t vp_from_str(const char *s);
int64_t vp_none();
int vp_is_none(int64_t h);
int64_t vp_capsule(const void *p, void (*del)(void *));
int64_t vp_tuple(int n, const int64_t *items);
int64_t vp_call(int64_t h, int n, const int64_t *args);
void vp_incref(int64_t h);
void vp_decref(int64_t h);
void vp_def(const char *name, void *thunk, void *fn, const char *sig, int nargs);
void vp_defarg(const char *name, int has_default, int64_t dflt);
}

#define PYBIND11_NAMESPACE pybind11
namespace pybind11 {
using ssize_t = ::ssize_t;
using size_t = ::std::size_t;

enum { VP_F64 = 1, VP_F32 = 2, VP_I32 = 3, VP_I64 = 4, VP_BOOL = 5 };
template <typename T> struct vp_dtype;
template <> struct vp_dtype<double> { static constexpr int v = VP_F64; static constexpr char c = 'd'; };
template <> struct vp_dtype<float> { static constexpr int v = VP_F32; static constexpr char c = 'f'; };
template <> struct vp_dtype<int> { static constexpr int v = VP_I32; static constexpr char c = 'i'; };
template <> struct vp_dtype<long> { static constexpr int v = VP_I64; static constexpr char c = 'l'; };
template <> struct vp_dtype<bool> { static constexpr int v = VP_BOOL; static constexpr char c = 'b'; };

class error_already_set : public std::runtime_error {
public:
    error_already_set() : std::runtime_error("python error") {}
};
class builtin_exception : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class value_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class type_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class index_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class key_error : public builtin_exception { public: using builtin_exception::builtin_exception; };
class cast_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };

class object;
class handle {
public:
    int64_t h;
    handle() : h(vp_none()) {}
    explicit handle(int64_t x) : h(x) {}
    object attr(const char *name) const;
    bool is_none() const { return vp_is_none(h) != 0; }
    template <typename T> T cast() const;
    template <typename... A> object operator()(A &&...a) const;
    object operator[](int64_t k) const;
    explicit operator bool() const { return !vp_is_none(h); }
};
class object : public handle {
public:
    object() {}
    explicit object(int64_t x) : handle(x) {}
    object(const object &o) : handle(o.h) { vp_incref(h); }
    object(object &&o) noexcept : handle(o.h) { vp_incref(h); }
    object &operator=(const object &o) { vp_incref(o.h); vp_decref(h); h = o.h; return *this; }
    ~object() { vp_decref(h); }
};
class none : public object { public: none() : object(vp_none()) {} };
class float_ : public object {
public:
    float_(const object &o) : object(o) {}
    float_(double d) : object(vp_from_double(d)) {}
    operator double() const { return vp_to_double(h); }
    operator float() const { return (float) vp_to_double(h); }
};
class int_ : public object {
public:
    int_(const object &o) : object(o) {}
    int_(long i) : object(vp_from_int(i)) {}
    int_(int i) : object(vp_from_int(i)) {}
    template <typename T, typename = std::enable_if_t<std::is_integral<T>::value>>
    operator T() const { return (T) vp_to_int(h); }
};
class bool_ : public object {
public:
    bool_(const object &o) : object(o) {}
    bool_(bool b) : object(vp_from_bool(b)) {}
    operator bool() const { return vp_to_bool(h) != 0; }
};
class str : public object { public: str(const char *s) : object(vp_from_str(s)) {} };
class function : public object { public: function() {} function(const object &o) : object(o) {} };
class capsule : public object {
public:
    capsule(const void *p, void (*del)(void *)) : object(vp_capsule(p, del)) {}
};
class tuple : public object {
public:
    tuple() : object(vp_tuple(0, nullptr)) {}
    explicit tuple(int64_t x) : object(x) {}
};
class module_ : public object {
public:
    std::string d;
    std::string &doc() { return d; }
    template <typename F, typename... X> module_ &def(const char *name, F &&f, const X &...x);
};
using module = module_;

template <typename... T> struct call_guard {};
class gil_scoped_release { public: gil_scoped_release() {} ~gil_scoped_release() {} };
class gil_scoped_acquire { public: gil_scoped_acquire() {} ~gil_scoped_acquire() {} };

// ---------------------------------------------------------------- arguments
struct arg_v;
struct arg {
    const char *name;
    constexpr explicit arg(const char *n) : name(n) {}
    template <typename T> arg_v operator=(T &&x) const;
    arg &noconvert(bool = true) { return *this; }
};
struct arg_v {
    const char *name;
    int64_t h;
};

// ------------------------------------------------------------------ buffers
struct buffer_info {
    void *ptr;
    ssize_t itemsize, size, ndim;
    std::vector<ssize_t> shape, strides;
};

class array : public object {
public:
    enum { c_style = 1, f_style = 2, forcecast = 4 };
    using ShapeContainer = std::vector<ssize_t>;
    array() {}
    explicit array(int64_t x) : object(x) {}
    ssize_t ndim() const { return vp_array_ndim(h); }
    ssize_t shape(ssize_t i) const { return vp_array_shape(h, i); }
    ssize_t size() const { ssize_t s = 1; for (ssize_t i = 0; i < ndim(); i++) s *= shape(i); return s; }
};

template <typename T, int N> struct vp_view {
    T *p; ssize_t s[N];
    T &at(const ssize_t *ix) const { ssize_t o = 0; for (int i = 0; i < N; i++) o = o * s[i] + ix[i]; return p[o]; }
    template <typename... I> T &operator()(I... i) const { const ssize_t ix[] = {(ssize_t) i...}; return at(ix); }
    template <typename I> T &operator[](I i) const { const ssize_t ix[] = {(ssize_t) i}; return at(ix); }
    ssize_t shape(ssize_t i) const { return s[i]; }
    ssize_t size() const { ssize_t z = 1; for (int i = 0; i < N; i++) z *= s[i]; return z; }
    T *mutable_data(ssize_t i) const { return p + i; }
    const T *data(ssize_t i) const { return p + i; }
};

template <typename T, int Flags = array::forcecast> class array_t : public array {
public:
    using value_type = T;
    array_t() {}
    explicit array_t(int64_t x) : array(x) {}
    array_t(const object &o) : array(vp_array_cast(o.h, vp_dtype<T>::v)) {}
    template <int F2> array_t(const array_t<T, F2> &o) : array(o.h) { vp_incref(h); }
    array_t(const array_t &o) : array(o.h) { vp_incref(h); }
    array_t &operator=(const array_t &o) { object::operator=(o); return *this; }
    array_t(ShapeContainer shape, const T *ptr, handle base) { init(shape, ptr, base.h, 1); }
    array_t(ShapeContainer shape, const T *ptr) { init(shape, ptr, 0, 0); }
    explicit array_t(ShapeContainer shape) { init(shape, nullptr, 0, 0); }
    template <typename C, typename = std::enable_if_t<std::is_integral<C>::value>>
    explicit array_t(C n, const T *ptr = nullptr) { init(ShapeContainer{(ssize_t) n}, ptr, 0, 0); }
    template <typename C, typename = std::enable_if_t<std::is_integral<C>::value>>
    array_t(C n, const T *ptr, handle base) { init(ShapeContainer{(ssize_t) n}, ptr, base.h, 1); }
    void init(const ShapeContainer &shape, const T *ptr, int64_t owner, int has) {
        int64_t s[8]; int n = 0;
        for (auto v : shape) s[n++] = v;
        h = vp_array_new(vp_dtype<T>::v, n, s, ptr, owner, has);
    }
    buffer_info request(bool = false) const {
        buffer_info b;
        b.ptr = vp_array_data(h);
        b.itemsize = sizeof(T);
        b.ndim = vp_array_ndim(h);
        b.size = 1;
        for (ssize_t i = 0; i < b.ndim; i++) { b.shape.push_back(vp_array_shape(h, i)); b.size *= b.shape[i]; }
        b.strides = b.shape;
        ssize_t st = sizeof(T);
        for (ssize_t i = b.ndim; i-- > 0;) { b.strides[i] = st; st *= b.shape[i]; }
        return b;
    }
    T *mutable_data() const { return static_cast<T *>(vp_array_data(h)); }
    const T *data() const { return static_cast<const T *>(vp_array_data(h)); }
    template <typename... I> const T *data(I... i) const { return &unchecked<sizeof...(I)>()(i...); }
    template <typename... I> T *mutable_data(I... i) const { return &mutable_unchecked<sizeof...(I)>()(i...); }
    template <typename... I> const T &at(I... i) const { return unchecked<sizeof...(I)>()(i...); }
    template <typename... I> T &mutable_at(I... i) const { return mutable_unchecked<sizeof...(I)>()(i...); }
    template <int N> vp_view<const T, N> unchecked() const {
        vp_view<const T, N> v; v.p = data(); for (int i = 0; i < N; i++) v.s[i] = vp_array_shape(h, i); return v; }
    template <int N> vp_view<T, N> mutable_unchecked() const {
        vp_view<T, N> v; v.p = mutable_data(); for (int i = 0; i < N; i++) v.s[i] = vp_array_shape(h, i); return v; }
};

// -------------------------------------------------------------- conversions
template <typename T, typename = void> struct vp_conv;
template <typename T> struct vp_conv<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    static constexpr char c = vp_dtype<T>::c;
    static T from(int64_t h) { return (T) vp_to_double(h); }
    static int64_t to(T x) { return vp_from_double((double) x); }
};
template <> struct vp_conv<bool> {
    static constexpr char c = 'b';
    static bool from(int64_t h) { return vp_to_bool(h) != 0; }
    static int64_t to(bool x) { return vp_from_bool(x); }
};
template <typename T> struct vp_conv<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    static constexpr char c = 'i';
    static T from(int64_t h) { return (T) vp_to_int(h); }
    static int64_t to(T x) { return vp_from_int((int64_t) x); }
};
template <typename T, int F> struct vp_conv<array_t<T, F>> {
    static constexpr char c = vp_dtype<T>::c - 32;   // upper case: an array
    static array_t<T, F> from(int64_t h) { return array_t<T, F>(vp_array_cast(h, vp_dtype<T>::v)); }
    static int64_t to(const array_t<T, F> &a) { vp_incref(a.h); return a.h; }
};
template <typename T> struct vp_conv<T, std::enable_if_t<std::is_base_of<handle, T>::value && !std::is_base_of<array, T>::value>> {
    static constexpr char c = 'o';
    static T from(int64_t h) { vp_incref(h); T o; static_cast<handle &>(o).h = h; return o; }
    static int64_t to(const T &a) { vp_incref(a.h); return a.h; }
};
template <> struct vp_conv<std::string> {
    static constexpr char c = 's';
    static int64_t to(const std::string &s) { return vp_from_str(s.c_str()); }
};
template <typename T> struct vp_conv<std::optional<T>> {
    static constexpr char c = '?';
    static std::optional<T> from(int64_t h) {
        if (vp_is_none(h)) return std::nullopt;
        return std::optional<T>(vp_conv<std::remove_cv_t<T>>::from(h));
    }
};
template <typename T> struct vp_conv<std::vector<T>> {
    static constexpr char c = 'v';
    static std::vector<T> from(int64_t h) {
        array_t<T> a(vp_array_cast(h, vp_dtype<T>::v));
        const T *p = a.data(); ssize_t n = a.shape(0);
        std::vector<T> r; for (ssize_t i = 0; i < n; i++) r.push_back(p[i]); return r;
    }
};
template <typename R_, typename... A> struct vp_conv<std::function<R_(A...)>> {
    static constexpr char c = 'o';
    static std::function<R_(A...)> from(int64_t h) {
        vp_incref(h);
        return [h](A... a) { const int64_t x[] = {vp_conv<std::decay_t<A>>::to(a)...}; vp_decref(vp_call(h, sizeof...(A), x)); };
    }
};
template <typename T> using vp_arg = std::remove_cv_t<std::remove_reference_t<T>>;

template <typename T> T handle::cast() const { return vp_conv<T>::from(h); }
template <typename T> T cast(const handle &x) { return vp_conv<T>::from(x.h); }
template <typename T> object cast(const T &x) { return object(vp_conv<T>::to(x)); }
inline object handle::attr(const char *name) const { return object(vp_attr(h, name)); }
inline object handle::operator[](int64_t k) const { return object(vp_getitem(h, k)); }
inline bool hasattr(const handle &x, const char *n) { return vp_hasattr(x.h, n) != 0; }
inline object getattr(const handle &x, const char *n) { return object(vp_attr(x.h, n)); }
template <typename T> bool isinstance(const handle &x) { return !x.is_none(); }
template <typename... A> object handle::operator()(A &&...a) const {
    const int64_t x[] = {vp_conv<vp_arg<A>>::to(a)..., 0};
    return object(vp_call(h, sizeof...(A), x));
}
template <typename... A> tuple make_tuple(A &&...a) {
    const int64_t x[] = {vp_conv<vp_arg<A>>::to(a)..., 0};
    return tuple(vp_tuple(sizeof...(A), x));
}
template <typename T> arg_v arg::operator=(T &&x) const {
    return arg_v{name, vp_conv<vp_arg<T>>::to(x)};
}
namespace literals {
constexpr arg operator"" _a(const char *name, size_t) { return arg(name); }
}

inline void vp_extra(const arg &a) { vp_defarg(a.name, 0, 0); }
inline void vp_extra(const arg_v &a) { vp_defarg(a.name, 1, a.h); }
inline void vp_extra(const char *) {}
template <typename T> inline void vp_extra(const call_guard<T> &) {}
template <typename T, typename U> inline void vp_extra(const call_guard<T, U> &) {}

template <typename R_, typename... A> struct vp_thunk {
    static constexpr char sig[] = {vp_conv<vp_arg<A>>::c..., 0};
    template <size_t... I> static int64_t go(R_ (*f)(A...), const int64_t *v, std::index_sequence<I...>) {
        if constexpr (std::is_void<R_>::value) {
            f(vp_conv<vp_arg<A>>::from(v[I])...);
            return vp_none();
        } else {
            auto r = f(vp_conv<vp_arg<A>>::from(v[I])...);
            return vp_conv<vp_arg<R_>>::to(r);
        }
    }
    static int64_t call(void *f, const int64_t *v) {
        return go(reinterpret_cast<R_ (*)(A...)>(f), v, std::index_sequence_for<A...>{});
    }
};
template <typename R_, typename... A> void vp_register(const char *name, R_ (*f)(A...)) {
    vp_def(name, reinterpret_cast<void *>(&vp_thunk<R_, A...>::call), reinterpret_cast<void *>(f),
           vp_thunk<R_, A...>::sig, sizeof...(A));
}
template <typename F, typename... X> module_ &module_::def(const char *name, F &&f, const X &...x) {
    if constexpr (std::is_function<std::remove_reference_t<F>>::value || std::is_pointer<std::decay_t<F>>::value)
        vp_register(name, f);
    else
        vp_register(name, +f);
    (vp_extra(x), ...);
    return *this;
}
}  // namespace pybind11
namespace py = pybind11;

#define PYBIND11_MODULE(name, var) \
    static void vp_init_##name(pybind11::module_ &); \
    extern "C" void vp_module_init() { pybind11::module_ m; vp_init_##name(m); } \
    static void vp_init_##name(pybind11::module_ &var)
