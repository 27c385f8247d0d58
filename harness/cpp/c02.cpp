// Model-based workload for the containers of the generated C++ interface.
#include <algorithm>
#include <map>
#include <set>
namespace vh {
struct Mon {
    Rng r{ 1 };
    std::string kind, hist;
    std::vector<std::string> last;
    uint64_t ops = 0;
    int errors = 0;
    std::map<std::string, uint64_t> per;
    std::set<std::pair<std::string, size_t>> distinct; // (kind/op, hash of the state it ran in)
    void op(const std::string &name, const std::string &state)
    {
        ++ops;
        ++per[kind + "/" + name];
        distinct.insert({ kind + "/" + name, std::hash<std::string>{}(state) });
        last.push_back(name);
        if (last.size() > 12)
            last.erase(last.begin());
    }
    void check(bool ok, const std::string &what)
    {
        if (ok || errors > 20)
            return;
        ++errors;
        std::string h;
        for (auto &x : last)
            h += " " + x;
        log("! " + kind + ": " + what + " | last operations:" + h);
    }
    void eq(const std::string &got, const std::string &want, const char *what)
    {
        if (got != want)
            check(false, std::string(what) + ": got " + got.substr(0, 300) + " want " + want.substr(0, 300));
    }
    void report()
    {
        for (auto &x : per)
            log("OPS " + x.first + " " + std::to_string(x.second));
        log("DISTINCT " + std::to_string(distinct.size()));
    }
};
inline Mon &mon()
{
    static Mon m;
    return m;
}
using Model = std::vector<std::string>;
inline std::string show(const Model &m)
{
    std::string o = "[";
    for (size_t i = 0; i < m.size(); ++i)
        o += (i ? "," : "") + m[i];
    return o + "]";
}
template <class Vec> struct Slot {
    Vec v;
    Model m;
};

// ------------------------------------------------------------------ RustVec and RustSlice of plain elements
template <class E> struct PrimFuzz {
    using C = typename E::C;
    using Vec = typename E::Vec;
    using S = Slot<Vec>;
    Mon &M = mon();
    std::vector<std::unique_ptr<S>> slots;
    typename E::Holder holder;
    Model hm;
    Arena arena;

    C gen() { return V<C>::gen(M.r, arena); }
    std::vector<C> some()
    {
        std::vector<C> v(gen_len(M.r) * (M.r.chance(10) ? 20 : 1));
        for (auto &x : v)
            x = gen();
        return v;
    }
    static Model model(const std::vector<C> &v)
    {
        Model m;
        for (auto &x : v)
            m.push_back(canon(x));
        return m;
    }
    template <class T> static Model seen(const T &v)
    {
        Model m;
        for (auto it = v.begin(); it != v.end(); ++it)
            m.push_back(canon(*it));
        return m;
    }
    template <class T> void agree(T &v, const Model &m, const char *what)
    {
        const T &c = v;
        M.eq(canon(c), show(m), what);
        M.check(c.size() == m.size() && c.empty() == m.empty(), std::string(what) + ": size or empty");
        M.check(size_t(v.end() - v.begin()) == m.size(), std::string(what) + ": end - begin");
        Model f;
        for (auto &&x : v)
            f.push_back(canon(x));
        M.eq(show(f), show(m), what);
        for (size_t k = 0; k < 2 && !m.empty(); ++k) {
            size_t i = M.r.below(m.size());
            M.eq(canon(v[i]), m[i], what);
            M.eq(canon(*(v.begin() + i)), m[i], what);
            M.eq(canon(*(c.end() - (m.size() - i))), m[i], what);
            M.check(&c[i] == c.begin() + i, std::string(what) + ": address of element");
        }
    }
    // after a move the source must be usable; it is empty or holds what the target held before
    void moved_from(Vec &v, Model &m, const Model &target_was)
    {
        Model now = seen(v);
        M.check(now.empty() || now == target_was, "moved-from vector holds " + show(now));
        m = now;
    }
    void step()
    {
        S &a = *slots[M.r.below(slots.size())];
        S &b = *slots[M.r.below(slots.size())];
        size_t n = a.m.size();
        std::string st = show(a.m) + (&a == &b ? "" : show(b.m));
        switch (M.r.below(16)) {
        case 0: {
            M.op("make", st);
            auto v = some();
            a.v = E::make(vns::RustSlice<const C>(v.data(), v.size()), M.r.below(20));
            a.m = model(v);
            break;
        }
        case 1: {
            M.op("default", st);
            a.v = Vec{};
            a.m.clear();
            break;
        }
        case 2: {
            M.op("clear", st);
            a.v.clear();
            a.m.clear();
            break;
        }
        case 3: {
            M.op("move-construct", st);
            Vec t(std::move(a.v));
            agree(t, a.m, "move-constructed");
            Model keep = a.m;
            moved_from(a.v, a.m, {});
            if (M.r.chance(2)) {
                Vec u(std::move(t));
                agree(u, keep, "twice moved");
                a.v = std::move(u);
            } else {
                a.v = std::move(t);
            }
            a.m = keep;
            break;
        }
        case 4: {
            if (&a == &b)
                break;
            M.op("move-assign", st);
            Model was = b.m;
            b.v = std::move(a.v);
            b.m = a.m;
            moved_from(a.v, a.m, was);
            break;
        }
        case 5: {
            M.op("release", st);
            auto raw = a.v.release();
            Model none = seen(a.v);
            M.check(none.empty(), "released vector is not empty");
            Vec t(raw);
            agree(t, a.m, "adopted");
            a.v = std::move(t);
            break;
        }
        case 6: {
            M.op("write", st);
            if (n) {
                size_t i = M.r.below(n);
                C x = gen();
                *(a.v.begin() + i) = x;
                a.m[i] = canon(x);
            }
            break;
        }
        case 7: {
            M.op("through-rust", st);
            a.v = E::rev(std::move(a.v));
            std::reverse(a.m.begin(), a.m.end());
            break;
        }
        case 8: {
            M.op("grow-in-rust", st);
            C x = gen();
            size_t k = M.r.below(6);
            a.v = E::grow(std::move(a.v), x, k);
            for (size_t i = 0; i < k; ++i)
                a.m.push_back(canon(x));
            break;
        }
        case 9: {
            M.op("as-slice", st);
            size_t i = n ? M.r.below(n + 1) : 0, j = i + M.r.below(n - i + 1);
            vns::RustSlice<const C> s(a.v.begin() + i, j - i);
            Model sub(a.m.begin() + i, a.m.begin() + j);
            agree(s, sub, "slice");
            vns::RustSlice<const C> t(std::move(s));
            agree(t, sub, "moved slice");
            M.check(s.size() == 0 && s.begin() == s.end(), "moved-from slice is not empty");
            s = std::move(t);
            agree(s, sub, "move-assigned slice");
            M.eq(canon(E::seen(std::move(s))), canon(E::seen(vns::RustSlice<const C>(a.v.begin() + i, j - i))), "slice passed twice");
            M.eq(E::seen(vns::RustSlice<const C>(a.v.begin() + i, j - i)).to_std_string(), show(sub), "slice in Rust");
            break;
        }
        case 10: {
            M.op("mut-slice", st);
            size_t i = n ? M.r.below(n + 1) : 0, j = i + M.r.below(n - i + 1);
            vns::RustSlice<C> s(a.v.begin() + i, j - i);
            if (j > i) {
                size_t k = M.r.below(j - i);
                C x = gen();
                if (M.r.chance(2)) {
                    E::poke(std::move(s), k, x);
                } else {
                    s[k] = x;
                    *(s.begin() + k) = s[k];
                }
                a.m[i + k] = canon(x);
            }
            break;
        }
        case 11: {
            M.op("sort", st);
            // by bytes, so that NaNs and signed zeros have a place
            std::sort(a.v.begin(), a.v.end(), [](C x, C y) { return canon(x) < canon(y); });
            std::sort(a.m.begin(), a.m.end());
            break;
        }
        case 12: {
            M.op("put-in-holder", st);
            hm = a.m;
            holder.put(std::move(a.v));
            moved_from(a.v, a.m, {});
            break;
        }
        case 13: {
            M.op("take-from-holder", st);
            a.v = holder.take();
            a.m = hm;
            hm.clear();
            break;
        }
        case 14: {
            M.op("borrow-slice", st);
            auto s = holder.all();
            agree(s, hm, "borrowed slice");
            size_t i = M.r.below(hm.size() + 2), j = M.r.below(hm.size() + 2);
            auto t = holder.part(i, j);
            i = std::min(i, hm.size());
            j = std::max(i, std::min(j, hm.size()));
            agree(t, Model(hm.begin() + i, hm.begin() + j), "part of borrowed slice");
            break;
        }
        case 15: {
            M.op("borrow-mut-slice", st);
            auto s = holder.all_mut();
            agree(s, hm, "mutable borrowed slice");
            if (!hm.empty()) {
                size_t k = M.r.below(hm.size());
                C x = gen();
                s[k] = x;
                hm[k] = canon(x);
            }
            M.eq(holder.seen().to_std_string(), show(hm), "what Rust holds after a write through a mutable slice");
            break;
        }
        }
        agree(a.v, a.m, "after");
        agree(b.v, b.m, "after(2)");
        arena.clear();
    }
    void run(int n)
    {
        M.kind = std::string("RustVec<") + E::name() + ">";
        for (int i = 0; i < 4; ++i)
            slots.emplace_back(new S);
        for (int i = 0; i < n; ++i)
            step();
        for (auto &s : slots)
            agree(s->v, s->m, "at the end");
        M.eq(holder.seen().to_std_string(), show(hm), "holder at the end");
    }
};

// ------------------------------------------------------------------ RustForeignVec and RustForeignSlice of classes
template <class E> struct ClassFuzz {
    using C = typename E::C;
    using Vec = typename E::Vec;
    using S = Slot<Vec>;
    Mon &M = mon();
    std::vector<std::unique_ptr<S>> slots;
    typename E::Holder holder;
    Model hm;
    Arena arena;
    uint64_t alive0 = vh_alive();

    C gen() { return V<C>::gen(M.r, arena); }
    template <class T> void agree(T &v, const Model &m, const char *what)
    {
        const T &c = v;
        M.eq(canon(c), show(m), what);
        M.check(c.size() == m.size() && c.empty() == m.empty(), std::string(what) + ": size or empty");
        Model f;
        for (auto x : v)
            f.push_back(canon(x));
        M.eq(show(f), show(m), what);
        iter(c.begin(), c.end(), m, what);
        iter(v.begin(), v.end(), m, what);
    }
    template <class I> void iter(I b, I e, const Model &m, const char *what)
    {
        ptrdiff_t n = m.size();
        auto chk = [&](bool ok, const char *s) { M.check(ok, std::string(what) + ": iterator " + s); };
        chk(e - b == n && b - e == -n && std::distance(b, e) == n, "distance");
        chk((b == e) == (n == 0) && (b != e) == (n != 0), "equality of begin and end");
        Model back;
        for (I it = e; it != b;) {
            --it;
            back.push_back(canon(*it));
            if (back.size() > m.size())
                break;
        }
        std::reverse(back.begin(), back.end());
        M.eq(show(back), show(m), what);
        ptrdiff_t i = M.r.below(n + 1), j = M.r.below(n + 1);
        I x = b + i, y = e - (n - j);
        chk(x - y == i - j, "difference");
        chk((x < y) == (i < j) && (x > y) == (i > j) && (x <= y) == (i <= j) && (x >= y) == (i >= j), "order");
        chk((x == y) == (i == j) && (x != y) == (i != j), "equality");
        I z = x;
        z += j - i;
        chk(z == y, "+=");
        z -= j - i;
        chk(z == x, "-=");
        chk(x + (j - i) == y && y - (j - i) == x && y + (i - j) == x, "offset");
        if (j < n) {
            M.eq(canon(*y), m[j], what);
            M.eq(canon(x[j - i]), m[j], "iterator []");
            I w = y;
            I &p = ++w;
            chk(&p == &w && w - y == 1, "++");
            I &q = --w;
            chk(&q == &w && w == y, "--");
            std::advance(w, i - j);
            chk(w == x, "advance");
        }
    }
    void moved_from(Vec &v, Model &m, const Model &target_was)
    {
        Model now;
        for (auto x : v)
            now.push_back(canon(x));
        M.check(now.empty() || now == target_was, "moved-from vector holds " + show(now));
        m = now;
    }
    void step()
    {
        S &a = *slots[M.r.below(slots.size())];
        S &b = *slots[M.r.below(slots.size())];
        size_t n = a.m.size();
        std::string st = show(a.m) + (&a == &b ? "" : show(b.m));
        switch (M.r.below(19)) {
        case 0: {
            M.op("default", st);
            a.v = Vec{};
            a.m.clear();
            break;
        }
        case 1:
        case 2:
        case 3: {
            M.op("push", st);
            for (size_t k = M.r.chance(12) ? 30 : 1; k > 0; --k) {
                C x = gen();
                a.m.push_back(canon(x));
                a.v.push(std::move(x));
            }
            break;
        }
        case 4:
        case 5: {
            M.op("remove", st);
            if (n) {
                size_t i = M.r.below(n);
                C x = a.v.remove(i);
                M.eq(canon(x), a.m[i], "removed element");
                a.m.erase(a.m.begin() + i);
            }
            break;
        }
        case 6: {
            if (!M.r.chance(3))
                break;
            M.op("clear", st);
            a.v.clear();
            a.m.clear();
            break;
        }
        case 7: {
            M.op("move-construct", st);
            Vec t(std::move(a.v));
            agree(t, a.m, "move-constructed");
            Model keep = a.m;
            moved_from(a.v, a.m, {});
            if (M.r.chance(3)) { // a moved-from vector can be used again
                C x = gen();
                std::string cx = canon(x);
                a.v.push(std::move(x));
                Model one{ cx };
                agree(a.v, one, "moved-from and used again");
            }
            a.v = std::move(t);
            a.m = keep;
            break;
        }
        case 8: {
            if (&a == &b)
                break;
            M.op("move-assign", st);
            Model was = b.m;
            b.v = std::move(a.v);
            b.m = a.m;
            moved_from(a.v, a.m, was);
            break;
        }
        case 9: {
            M.op("release", st);
            auto raw = a.v.release();
            M.check(a.v.size() == 0 && a.v.begin() == a.v.end(), "released vector is not empty");
            Vec t(raw);
            agree(t, a.m, "adopted");
            a.v = std::move(t);
            break;
        }
        case 10: {
            M.op("through-rust", st);
            a.v = E::rev(std::move(a.v));
            std::reverse(a.m.begin(), a.m.end());
            break;
        }
        case 11: {
            M.op("grow-in-rust", st);
            size_t k = M.r.below(4);
            for (size_t i = 0; i < k; ++i) {
                C x = gen();
                a.m.push_back(canon(x));
                a.v = E::grow(std::move(a.v), std::move(x), i);
            }
            break;
        }
        case 12: {
            M.op("as-slice", st);
            auto s = a.v.as_slice();
            agree(s, a.m, "slice");
            auto t = std::move(s);
            agree(t, a.m, "moved slice");
            Model none;
            agree(s, none, "moved-from slice");
            if (M.r.chance(2))
                M.eq(E::seen(std::move(s)).to_std_string(), "[]", "moved-from slice in Rust");
            s = std::move(t);
            agree(s, a.m, "move-assigned slice");
            agree(t, none, "moved-from slice(2)");
            M.eq(E::seen(std::move(s)).to_std_string(), show(a.m), "slice in Rust");
            break;
        }
        case 13: {
            M.op("as-mut-slice", st);
            auto s = a.v.as_slice_mut();
            agree(s, a.m, "mutable slice");
            if (n) {
                size_t k = M.r.below(n);
                C x = gen();
                a.m[k] = canon(x);
                E::poke(std::move(s), k, std::move(x));
            }
            break;
        }
        case 14: {
            M.op("put-in-holder", st);
            hm = a.m;
            holder.put(std::move(a.v));
            moved_from(a.v, a.m, {});
            break;
        }
        case 15: {
            M.op("take-from-holder", st);
            a.v = holder.take();
            a.m = hm;
            hm.clear();
            break;
        }
        case 16: {
            M.op("borrow-slice", st);
            auto s = holder.all();
            agree(s, hm, "borrowed slice");
            size_t i = M.r.below(hm.size() + 2), j = M.r.below(hm.size() + 2);
            auto t = holder.part(i, j);
            i = std::min(i, hm.size());
            j = std::max(i, std::min(j, hm.size()));
            Model sub(hm.begin() + i, hm.begin() + j);
            agree(t, sub, "part of borrowed slice");
            M.eq(E::seen(std::move(t)).to_std_string(), show(sub), "part given back to Rust");
            break;
        }
        case 17: {
            M.op("borrow-mut-slice", st);
            auto s = holder.all_mut();
            agree(s, hm, "mutable borrowed slice");
            if (!hm.empty()) {
                size_t k = M.r.below(hm.size());
                C x = gen();
                hm[k] = canon(x);
                E::poke(std::move(s), k, std::move(x));
            }
            M.eq(holder.seen().to_std_string(), show(hm), "what Rust holds after a write through a mutable slice");
            break;
        }
        case 18: {
            M.op("search", st);
            if (n) {
                std::string x = a.m[M.r.below(n)];
                auto it = std::find_if(a.v.begin(), a.v.end(), [&](const auto &e) { return canon(e) == x; });
                M.check(it - a.v.begin() == std::find(a.m.begin(), a.m.end(), x) - a.m.begin(), "find_if");
            }
            break;
        }
        }
        agree(a.v, a.m, "after");
        agree(b.v, b.m, "after(2)");
        arena.clear();
        if (E::counted()) {
            uint64_t want = alive0 + hm.size();
            for (auto &s : slots)
                want += s->m.size();
            M.check(vh_alive() == want, "objects alive " + std::to_string(vh_alive()) + ", held " + std::to_string(want));
        }
    }
    void run(int n)
    {
        M.kind = std::string("RustForeignVec<") + E::name() + ">";
        for (int i = 0; i < 4; ++i)
            slots.emplace_back(new S);
        for (int i = 0; i < n; ++i)
            step();
        for (auto &s : slots)
            agree(s->v, s->m, "at the end");
        M.eq(holder.seen().to_std_string(), show(hm), "holder at the end");
    }
};

// ------------------------------------------------------------------ RustString
struct StrFuzz {
    using Str = vns::RustString;
    struct S {
        Str v;
        std::string m;
    };
    Mon &M = mon();
    std::vector<std::unique_ptr<S>> slots;
    static std::string hex(const std::string &s)
    {
        std::string o;
        canon_bytes(o, s.data(), s.size());
        return o;
    }
    void agree(const Str &v, const std::string &m, const char *what)
    {
        M.eq(canon(v), hex(m), what);
        M.check(v.size() == m.size() && v.empty() == m.empty(), std::string(what) + ": size or empty");
#ifdef VH_BOOST
        Sv s = v.to_boost_string_view();
#else
        Sv s = v.to_string_view();
#endif
        M.check(s.size() == m.size() && std::equal(s.begin(), s.end(), m.begin()), std::string(what) + ": view");
    }
    void moved_from(S &a, const std::string &target_was)
    {
        std::string now = a.v.to_std_string();
        M.check(now.empty() || now == target_was, "moved-from string holds " + hex(now));
        a.m = now;
    }
    void step()
    {
        S &a = *slots[M.r.below(slots.size())];
        S &b = *slots[M.r.below(slots.size())];
        std::string st = a.m + "|" + b.m;
        switch (M.r.below(9)) {
        case 0: {
            M.op("make", st);
            a.m = gen_string(M.r);
            a.v = vns::StrOps::make(Sv{ a.m.data(), a.m.size() }, M.r.below(30));
            break;
        }
        case 1: {
            M.op("default", st);
            a.v = Str{};
            a.m.clear();
            break;
        }
        case 2: {
            M.op("copy-construct", st);
            Str t(a.v);
            agree(t, a.m, "copy");
            agree(a.v, a.m, "copied");
            b.v = std::move(t);
            b.m = a.m;
            break;
        }
        case 3:
        case 4: {
            M.op(&a == &b ? "self-copy-assign" : "copy-assign", st);
            const Str &src = b.v;
            a.v = src;
            a.m = b.m;
            break;
        }
        case 5: {
            M.op("move-construct", st);
            Str t(std::move(a.v));
            agree(t, a.m, "move-constructed");
            std::string keep = a.m;
            moved_from(a, "");
            if (M.r.chance(2)) {
                Str u(a.v);
                agree(u, a.m, "copy of moved-from");
                b.v = a.v;
                b.m = a.m;
            }
            a.v = std::move(t);
            a.m = keep;
            break;
        }
        case 6: {
            if (&a == &b)
                break;
            M.op("move-assign", st);
            std::string was = b.m;
            b.v = std::move(a.v);
            b.m = a.m;
            moved_from(a, was);
            break;
        }
        case 7: {
            M.op("to-rust-as-view", st);
            if (a.v.size()) {
#ifdef VH_BOOST
                Sv s = a.v.to_boost_string_view();
#else
                Sv s = a.v.to_string_view();
#endif
                b.m = std::string(s.data(), s.size());
                b.v = vns::StrOps::make(s, 0);
            }
            break;
        }
        case 8: {
            M.op("in-std-vector", st);
            std::vector<Str> v;
            for (auto &s : slots)
                v.push_back(s->v);
            v.insert(v.begin(), a.v);
            v.erase(v.begin() + 1);
            agree(v[0], a.m, "first of vector");
            for (size_t i = 1; i < slots.size(); ++i)
                agree(v[i], slots[i]->m, "vector");
            break;
        }
        }
        agree(a.v, a.m, "after");
        agree(b.v, b.m, "after(2)");
    }
    void run(int n)
    {
        M.kind = "RustString";
        for (int i = 0; i < 4; ++i)
            slots.emplace_back(new S);
        for (int i = 0; i < n; ++i)
            step();
    }
};
} // namespace vh
