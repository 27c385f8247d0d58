// Runtime of the instrumented C++ side: seeded values, canonical form, call events.
// It only uses the public interface of the generated headers (included before this one).
#pragma once
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#ifdef VH_BOOST
#include <boost/optional.hpp>
#include <boost/utility/string_view.hpp>
#include <boost/variant.hpp>
#else
#include <optional>
#include <string_view>
#include <variant>
#endif
extern "C" {
void vh_log(const char *p, size_t n);
void vh_flush();
void vh_set_seed(uint64_t s);
uint64_t vh_alive();
uint64_t vh_born();
uint64_t vh_over_dropped();
uint32_t vh_drops_of(uint64_t id);
void vh_pool_clear();
uint64_t vh_live_bytes();
}
namespace vh {
#ifdef VH_BOOST
template <class T> using Opt = boost::optional<T>;
template <class... T> using Var = boost::variant<T...>;
using Sv = boost::string_view;
#else
template <class T> using Opt = std::optional<T>;
template <class... T> using Var = std::variant<T...>;
using Sv = std::string_view;
#endif

inline void log(const std::string &s) { vh_log(s.data(), s.size()); }

struct Rng {
    uint64_t s;
    uint64_t next()
    {
        s += 0x9E3779B97F4A7C15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return next() % n; }
    bool chance(uint64_t n) { return below(n) == 0; }
};
inline Rng &rng()
{
    static thread_local Rng r{ 1 };
    return r;
}
// Backing store of borrowed arguments.
struct Arena {
    std::vector<std::shared_ptr<void>> v;
    template <class T> T &put(T &&x)
    {
        auto p = std::make_shared<std::decay_t<T>>(std::forward<T>(x));
        v.push_back(p);
        return *p;
    }
    void clear()
    {
        while (!v.empty())
            v.pop_back();
    }
};

template <class T, class = void> struct V;
template <class T> std::string canon(const T &x)
{
    std::string s;
    V<std::decay_t<T>>::canon(s, x);
    return s;
}
inline size_t gen_len(Rng &r)
{
    switch (r.below(8)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return r.below(50);
    default: return r.below(6);
    }
}
template <class T> struct V<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    static T gen(Rng &r, Arena &)
    {
        using U = std::make_unsigned_t<T>;
        switch (r.below(8)) {
        case 0: return std::numeric_limits<T>::min();
        case 1: return std::numeric_limits<T>::max();
        case 2: return static_cast<T>(static_cast<U>(uint64_t(1) << r.below(sizeof(T) * 8)));
        case 3: return static_cast<T>(static_cast<U>((uint64_t(1) << r.below(sizeof(T) * 8)) - 1));
        case 4: return static_cast<T>(static_cast<U>(uint64_t(0) - r.below(3)));
        case 5: return static_cast<T>(r.below(4));
        default: return static_cast<T>(static_cast<U>(r.next()));
        }
    }
    static void canon(std::string &o, T x) { o += std::to_string(x); }
};
template <> struct V<bool> {
    static bool gen(Rng &r, Arena &) { return r.chance(2); }
    static void canon(std::string &o, bool x)
    {
        // a bool object must hold 0 or 1 whatever path it came by
        unsigned char b;
        std::memcpy(&b, &x, 1);
        o += b == 1 ? "T" : b == 0 ? "F" : "?bool";
    }
};
template <class T, class U> inline T bits_to(U u)
{
    T t;
    static_assert(sizeof(t) == sizeof(u), "");
    std::memcpy(&t, &u, sizeof t);
    return t;
}
template <class T> struct V<T, std::enable_if_t<std::is_floating_point<T>::value>> {
    using U = std::conditional_t<sizeof(T) == 4, uint32_t, uint64_t>;
    static T gen(Rng &r, Arena &)
    {
        using L = std::numeric_limits<T>;
        switch (r.below(10)) {
        case 0: return T(0);
        case 1: return -T(0);
        case 2: return L::infinity();
        case 3: return -L::infinity();
        case 4: return L::quiet_NaN();
        case 5: return L::denorm_min();
        case 6: return L::max();
        case 7: return T(int32_t(r.next()));
        default: {
            T t = bits_to<T>(U(r.next()));
            return t != t ? T(1.5) : t;
        }
        }
    }
    static void canon(std::string &o, T x)
    {
        if (x != x) {
            o += "nan";
            return;
        }
        char b[32];
        if (sizeof(T) == 4)
            snprintf(b, sizeof b, "f%08" PRIx32, bits_to<uint32_t>(float(x)));
        else
            snprintf(b, sizeof b, "d%016" PRIx64, bits_to<uint64_t>(double(x)));
        o += b;
    }
};
inline void utf8(std::string &s, uint32_t c)
{
    if (c < 0x80) {
        s += char(c);
    } else if (c < 0x800) {
        s += char(0xC0 | c >> 6);
        s += char(0x80 | (c & 63));
    } else if (c < 0x10000) {
        s += char(0xE0 | c >> 12);
        s += char(0x80 | ((c >> 6) & 63));
        s += char(0x80 | (c & 63));
    } else {
        s += char(0xF0 | c >> 18);
        s += char(0x80 | ((c >> 12) & 63));
        s += char(0x80 | ((c >> 6) & 63));
        s += char(0x80 | (c & 63));
    }
}
inline std::string gen_string(Rng &r)
{
    std::string s;
    size_t n = gen_len(r);
    for (size_t i = 0; i < n; ++i)
        switch (r.below(8)) {
        case 0: s += '\0'; break;
        case 1: utf8(s, r.below(0x80)); break;
        case 2: utf8(s, 0x80 + r.below(0x780)); break;
        case 3: utf8(s, 0x800 + r.below(0xD000)); break;
        case 4: utf8(s, 0xE000 + r.below(0x2000)); break;
        case 5: utf8(s, 0x10000 + r.below(0x100000)); break;
        default: s += char('a' + r.below(26));
        }
    return s;
}
inline void canon_bytes(std::string &o, const char *p, size_t n)
{
    static const char H[] = "0123456789abcdef";
    o += '"';
    for (size_t i = 0; i < n; ++i) {
        o += H[(unsigned char)p[i] >> 4];
        o += H[p[i] & 15];
    }
    o += '"';
}
template <> struct V<Sv> {
    static Sv gen(Rng &r, Arena &a)
    {
        // (a null string view is a known finding, probed separately)
        // exactly sized heap block, so that ASan sees reads past the end
        std::string s = gen_string(r);
        auto &v = a.put(std::vector<char>(s.begin(), s.end()));
        v.shrink_to_fit();
        if (v.empty())
            return Sv{ "", 0 };
        return Sv{ v.data(), v.size() };
    }
    static void canon(std::string &o, const Sv &x) { canon_bytes(o, x.data(), x.size()); }
};
template <> struct V<vns::RustString> {
    static void canon(std::string &o, const vns::RustString &x)
    {
        std::string s = x.to_std_string();
        if (s.size() != x.size() || x.empty() != s.empty()) {
            o += "?size";
            return;
        }
#ifdef VH_BOOST
        auto v = x.to_boost_string_view();
#else
        auto v = x.to_string_view();
#endif
        if (v.size() != s.size() || (!s.empty() && std::memcmp(v.data(), s.data(), s.size()) != 0)) {
            o += "?view";
            return;
        }
        canon_bytes(o, s.data(), s.size());
    }
};
template <class T> struct V<Opt<T>> {
    static Opt<T> gen(Rng &r, Arena &a)
    {
        if (r.chance(3))
            return Opt<T>{};
        return Opt<T>(V<T>::gen(r, a));
    }
    static void canon(std::string &o, const Opt<T> &x)
    {
        if (!x) {
            o += 'N';
        } else {
            o += "S(";
            V<T>::canon(o, *x);
            o += ')';
        }
    }
};
template <class T, class E> struct V<Var<T, E>> {
    static Var<T, E> gen(Rng &r, Arena &a)
    {
        if (r.chance(3))
            return Var<T, E>(V<E>::gen(r, a));
        return Var<T, E>(V<T>::gen(r, a));
    }
    static void canon(std::string &o, const Var<T, E> &x)
    {
#ifdef VH_BOOST
        if (x.which() == 0) {
            o += "O(";
            V<T>::canon(o, boost::get<T>(x));
        } else {
            o += "E(";
            V<E>::canon(o, boost::get<E>(x));
        }
#else
        if (x.index() == 0) {
            o += "O(";
            V<T>::canon(o, std::get<0>(x));
        } else {
            o += "E(";
            V<E>::canon(o, std::get<1>(x));
        }
#endif
        o += ')';
    }
};
template <class A, class B> struct V<std::pair<A, B>> {
    static std::pair<A, B> gen(Rng &r, Arena &a)
    {
        A x = V<A>::gen(r, a);
        B y = V<B>::gen(r, a);
        return std::pair<A, B>(std::move(x), std::move(y));
    }
    static void canon(std::string &o, const std::pair<A, B> &x)
    {
        o += '(';
        V<A>::canon(o, x.first);
        o += ',';
        V<B>::canon(o, x.second);
        o += ')';
    }
};
template <class A, class B, class C> struct V<std::tuple<A, B, C>> {
    static std::tuple<A, B, C> gen(Rng &r, Arena &a)
    {
        A x = V<A>::gen(r, a);
        B y = V<B>::gen(r, a);
        C z = V<C>::gen(r, a);
        return std::tuple<A, B, C>(std::move(x), std::move(y), std::move(z));
    }
    static void canon(std::string &o, const std::tuple<A, B, C> &x)
    {
        o += '(';
        V<A>::canon(o, std::get<0>(x));
        o += ',';
        V<B>::canon(o, std::get<1>(x));
        o += ',';
        V<C>::canon(o, std::get<2>(x));
        o += ')';
    }
};
// Sequences: every way of reading them must agree.
template <class S> void canon_seq(std::string &o, const S &x)
{
    o += '[';
    size_t n = 0;
    for (auto it = x.begin(); it != x.end(); ++it) {
        if (n)
            o += ',';
        std::string e = vh::canon(*it);
        if (vh::canon(x[n]) != e)
            o += "?index";
        o += e;
        if (++n > x.size())
            break;
    }
    o += ']';
    if (n != x.size() || x.empty() != (n == 0))
        o += "?size";
}
#ifdef VH_SLICE
template <class T> struct V<vns::RustSlice<T>> {
    static vns::RustSlice<T> gen(Rng &r, Arena &a)
    {
        using E = std::remove_const_t<T>;
        if (r.chance(12))
            return vns::RustSlice<T>(nullptr, 0);
        size_t n = gen_len(r);
        auto p = std::shared_ptr<E>(new E[n], std::default_delete<E[]>());
        for (size_t i = 0; i < n; ++i)
            p.get()[i] = V<E>::gen(r, a);
        a.v.push_back(p);
        return vns::RustSlice<T>(p.get(), n);
    }
    static void canon(std::string &o, const vns::RustSlice<T> &x) { canon_seq(o, x); }
};
#endif
template <class C, void (*F)(C)> struct VVec;
#ifdef VH_VEC
// made by Rust, since C++ cannot make one: see MkVec in the generated driver
template <class T> struct MkVec;
template <class C, void (*F)(C)> struct V<vns::RustVec<C, F>> {
    using S = vns::RustVec<C, F>;
    static S gen(Rng &r, Arena &a)
    {
        if (r.chance(12))
            return S{};
        return MkVec<S>::make(r, a);
    }
    static void canon(std::string &o, const S &x) { canon_seq(o, x); }
};
#endif
#ifdef VH_FVEC
template <class R, class C, void (*F)(C), void (*P)(C *, void *), void *(*M)(C *, uintptr_t), const uintptr_t &E>
struct V<vns::RustForeignVec<R, C, F, P, M, E>> {
    using S = vns::RustForeignVec<R, C, F, P, M, E>;
    static S gen(Rng &r, Arena &a)
    {
        S s;
        size_t n = gen_len(r);
        for (size_t i = 0; i < n; ++i)
            s.push(V<typename S::value_type>::gen(r, a));
        return s;
    }
    static void canon(std::string &o, const S &x) { canon_seq(o, x); }
};
template <class R> struct FVecOf;
template <class R, class C> struct V<vns::RustForeignSlice<R, C>> {
    using S = vns::RustForeignSlice<R, C>;
    static S gen(Rng &r, Arena &a)
    {
        if (r.chance(12))
            return S{};
        auto &v = a.put(V<typename FVecOf<R>::type>::gen(r, a));
        return from(v, static_cast<C *>(nullptr));
    }
    template <class W> static S from(W &v, CRustObjectSlice *) { return v.as_slice(); }
    template <class W> static S from(W &v, CRustObjectMutSlice *) { return v.as_slice_mut(); }
    static void canon(std::string &o, const S &x) { canon_seq(o, x); }
};
#endif

// ---------------------------------------------------------------- one argument of a call
inline std::string &post()
{
    static thread_local std::string p;
    return p;
}
template <class T> struct is_mut_view : std::false_type {};
#ifdef VH_SLICE
template <class T> struct is_mut_view<vns::RustSlice<T>> : std::integral_constant<bool, !std::is_const<T>::value> {};
#endif
#ifdef VH_FVEC
template <class R> struct is_mut_view<vns::RustForeignSlice<R, CRustObjectMutSlice>> : std::true_type {};
#endif
template <class A> struct Arg { // by value
    A x;
    using Keep = std::conditional_t<is_mut_view<A>::value, A, int>;
    std::shared_ptr<Keep> keep;
    static A make(Rng &r, Arena &a) { return V<A>::gen(r, a); }
    Arg(Rng &r, Arena &a) : x(make(r, a)) { init(is_mut_view<A>{}); }
    void init(std::true_type) { keep = std::make_shared<Keep>(dup(x)); }
    void init(std::false_type) {}
#ifdef VH_SLICE
    template <class T> static vns::RustSlice<T> dup(vns::RustSlice<T> &s) { return vns::RustSlice<T>(s.begin(), s.size()); }
#endif
#ifdef VH_FVEC
    template <class R, class C> static vns::RustForeignSlice<R, C> dup(vns::RustForeignSlice<R, C> &s)
    {
        return vns::RustForeignSlice<R, C>(static_cast<const C &>(s));
    }
#endif
    void pre(std::string &o) { V<A>::canon(o, x); }
    A &&pass() { return std::move(x); }
    void after(std::string &o) { after_(o, is_mut_view<A>{}); }
    void after_(std::string &o, std::true_type)
    {
        o += ' ';
        V<A>::canon(o, *keep);
    }
    void after_(std::string &, std::false_type) {}
};
template <class T> struct Arg<const T &> {
    T x;
    std::string was;
    Arg(Rng &r, Arena &a) : x(V<T>::gen(r, a)) {}
    void pre(std::string &o)
    {
        was = vh::canon(x);
        o += was;
    }
    const T &pass() { return x; }
    void after(std::string &)
    {
        if (vh::canon(x) != was)
            vh::log("! const-arg-changed " + was + " " + vh::canon(x));
    }
};
template <class T> struct Arg<T &> {
    T x;
    Arg(Rng &r, Arena &a) : x(V<T>::gen(r, a)) {}
    void pre(std::string &o) { V<T>::canon(o, x); }
    T &pass() { return x; }
    void after(std::string &o)
    {
        o += ' ';
        V<T>::canon(o, x);
    }
};
template <class T> struct Arg<const T *> {
    T x;
    bool some;
    Arg(Rng &r, Arena &a) : x(V<T>::gen(r, a)), some(!r.chance(3)) {}
    void pre(std::string &o) { o += some ? "S(" + vh::canon(x) + ")" : "N"; }
    const T *pass() { return some ? &x : nullptr; }
    void after(std::string &) {}
};
template <class T> struct Arg<T *> {
    T x;
    bool some;
    Arg(Rng &r, Arena &a) : x(V<T>::gen(r, a)), some(!r.chance(3)) {}
    void pre(std::string &o) { o += some ? "S(" + vh::canon(x) + ")" : "N"; }
    T *pass() { return some ? &x : nullptr; }
    void after(std::string &o)
    {
        if (some)
            o += " S(" + vh::canon(x) + ")";
    }
};

// ---------------------------------------------------------------- calls C++ -> Rust
template <class F, class Tup, size_t... I>
void run_call(int id, const std::string &self, F &&f, Tup &args, std::index_sequence<I...>)
{
    std::string o = "> " + std::to_string(id) + self;
    int dummy[] = { 0, (o += ' ', std::get<I>(args)->pre(o), 0)... };
    (void)dummy;
    log(o);
    std::string ret = f(std::get<I>(args)->pass()...);
    o = "< " + std::to_string(id) + " " + ret + " |";
    int dummy2[] = { 0, (std::get<I>(args)->after(o), 0)... };
    (void)dummy2;
    log(o);
}
template <class R> struct Ret {
    template <class F> static std::string of(F &&f)
    {
        R r = f();
        return vh::canon(r);
    }
};
template <> struct Ret<void> {
    template <class F> static std::string of(F &&f)
    {
        f();
        return "()";
    }
};
template <class... A> struct Args {
    Arena arena; // outlives the arguments
    std::tuple<std::unique_ptr<Arg<A>>...> t;
    explicit Args(Rng &r) : t{ std::unique_ptr<Arg<A>>(new Arg<A>(r, arena))... } {}
};
template <class R, class... A> void call(int id, R (*m)(A...), Rng &r)
{
    Args<A...> args(r);
    run_call(
        id, "", [&](auto &&...a) { return Ret<R>::of([&]() -> R { return m(std::forward<decltype(a)>(a)...); }); },
        args.t, std::index_sequence_for<A...>());
}
template <class C, class S, class R, class... A> void call_m(int id, S &self, R (C::*m)(A...), Rng &r, const std::string &who)
{
    Args<A...> args(r);
    run_call(
        id, who,
        [&](auto &&...a) { return Ret<R>::of([&]() -> R { return (self.*m)(std::forward<decltype(a)>(a)...); }); },
        args.t, std::index_sequence_for<A...>());
}
template <class C, class S, class R, class... A>
void call_m(int id, S &self, R (C::*m)(A...) const, Rng &r, const std::string &who)
{
    Args<A...> args(r);
    run_call(
        id, who,
        [&](auto &&...a) { return Ret<R>::of([&]() -> R { return (self.*m)(std::forward<decltype(a)>(a)...); }); },
        args.t, std::index_sequence_for<A...>());
}
// A constructor's parameter types are found by conversion.
struct Conv {
    Rng *r;
    Arena *a;
    std::string *o;
    template <class T> operator T() const
    {
        T x = V<T>::gen(*r, *a);
        V<T>::canon(*o, x);
        return x;
    }
};

// ---------------------------------------------------------------- calls Rust -> C++ (callbacks)
inline Arena &ret_arena()
{
    static thread_local Arena a;
    return a;
}
// What C++ may change in place of the argument of a callback; the result is compared after the call.
template <class T> struct Change {
    static void by(std::string &, T &) {}
};
#ifdef VH_SLICE
template <class T> struct Change<vns::RustSlice<T>> {
    static void by(std::string &o, vns::RustSlice<T> &x) { go(o, x, std::is_const<T>()); }
    static void go(std::string &, vns::RustSlice<T> &, std::true_type) {}
    static void go(std::string &o, vns::RustSlice<T> &x, std::false_type)
    {
        Arena a;
        if (!x.empty())
            x[rng().below(x.size())] = V<T>::gen(rng(), a);
        o += ' ';
        V<vns::RustSlice<T>>::canon(o, x);
    }
};
#endif
template <class T> void add_canon(std::string &o, const T &x)
{
    o += ' ';
    V<std::decay_t<T>>::canon(o, x);
}
template <class R> struct CbRet {
    static R make(int id, const std::string &post)
    {
        R r = V<R>::gen(rng(), ret_arena());
        log("[ " + std::to_string(id) + " " + vh::canon(r) + " |" + post);
        return r;
    }
};
template <> struct CbRet<void> {
    static void make(int id, const std::string &post) { log("[ " + std::to_string(id) + " () |" + post); }
};
inline void (*&cb_hook())()
{
    static void (*f)() = nullptr;
    return f;
}
template <class R, class... A> R on_callback(int id, const std::string &who, A &...a)
{
    std::string o = "] " + std::to_string(id) + who, post;
    int dummy[] = { 0, (add_canon(o, a), 0)... };
    (void)dummy;
    log(o);
    if (cb_hook())
        cb_hook()();
    int dummy2[] = { 0, (Change<A>::by(post, a), 0)... };
    (void)dummy2;
    return CbRet<R>::make(id, post);
}
} // namespace vh
