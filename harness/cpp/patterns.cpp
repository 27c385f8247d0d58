// Oracle of patterns.rs.in.
#include <cinttypes>
#include <cstring>
#include <future>
#include <thread>
using namespace vns;
static std::string hx(uint64_t x) { char b[32]; snprintf(b, sizeof b, "%" PRIx64, x); return b; }
static uint32_t bits(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static uint64_t bits(double f) { uint64_t u; memcpy(&u, &f, 8); return u; }
static float fl(uint32_t u) { float f; memcpy(&f, &u, 4); return f; }
static double db(uint64_t u) { double f; memcpy(&f, &u, 8); return f; }
static Vec2 v2(uint32_t x, uint32_t y) { Vec2 v; v.x = fl(x); v.y = fl(y); return v; }
static std::string s(const Vec2 &v) { return hx(bits(v.x)) + ":" + hx(bits(v.y)); }
static Rect rc(uint64_t k)
{
    Rect r;
    r.tag = (uint8_t)k;
    r.a = v2((uint32_t)k, ~(uint32_t)k);
    r.id = k;
    r.b = v2((uint32_t)(k >> 32), (uint32_t)(k >> 13));
    r.neg = (int16_t)(k >> 5);
    r.w = db(k ^ (k >> 7));
    r.p = (void *)(uintptr_t)(k >> 1);
    return r;
}
static std::string s(const Rect &r)
{
    return hx(r.tag) + " " + s(r.a) + " " + hx(r.id) + " " + s(r.b) + " " + hx((uint16_t)r.neg) + " " + hx(bits(r.w)) + " " + hx((uintptr_t)r.p);
}
static std::string str(RustString &&x) { return x.to_std_string(); }
static std::map<std::string, size_t> ops;
static std::set<std::string> seen;
static void eq(const char *op, const std::string &want, const std::string &got)
{
    ops[op]++;
    seen.insert(std::string(op) + " " + want);
    if (want != got) {
        vh::log(std::string("! ") + op + ": got " + got + " | wanted " + want);
    }
}
static std::string n(long long x) { return std::to_string(x); }
// signalling NaNs may be quieted by the way C passes floating point numbers on some machines
static uint32_t rb(vh::Rng &r)
{
    static const uint32_t e[] = { 0, 0x80000000u, 0x3f800000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 1, 0x007fffffu, 0x7f7fffffu };
    if (r.below(3) == 0) {
        return e[r.below(9)];
    }
    uint32_t x = (uint32_t)r.next();
    return (x & 0x7f800000u) == 0x7f800000u ? x & 0xffbfffffu & ~0x00400000u & 0xbfffffffu : x;
}
static std::string last;
static int calls;
extern "C" void on2(int32_t x, void *p) { last += n(x) + "@" + hx((uintptr_t)p) + ";"; }
extern "C" void onvec(Vec2 v, Rect r) { last += s(v) + "|" + s(r); }
extern "C" void onopt(void *p) { last += hx((uintptr_t)p); }
extern "C" void onoptvec(Vec2 v) { last += s(v); }
static std::string take() { std::string r; std::swap(r, last); return r; }

static int watches;
struct MyWatch final : public Watch {
    uint32_t k;
    explicit MyWatch(uint32_t k) : k(k) { ++watches; }
    ~MyWatch() override { --watches; }
    Vec2 at(Vec2 v, int32_t i) const noexcept override { last += "at " + s(v) + " " + n(i); return v2(k, ~k); }
    VH_OPT<Vec2> maybe(VH_OPT<Vec2> v) const noexcept override
    {
        last += "maybe " + (v ? s(*v) : std::string("none"));
        if (k % 2) {
            return v2(k, ~k);
        }
        return VH_OPT<Vec2>();
    }
    uint64_t rect(Rect r) const noexcept override { last += "rect " + s(r); return k; }
};

static void structs(vh::Rng &r)
{
    uint32_t x = rb(r), y = rb(r), k = (uint32_t)r.next(), z = rb(r), w = rb(r);
    uint64_t q = r.next();
    // no NaN where its bits may change
    auto okr = [](uint64_t q) { uint64_t w = q ^ (q >> 7); return (w & 0x7ff0000000000000ull) != 0x7ff0000000000000ull && ((uint32_t)q & 0x7f800000u) != 0x7f800000u && (~(uint32_t)q & 0x7f800000u) != 0x7f800000u && ((uint32_t)(q >> 32) & 0x7f800000u) != 0x7f800000u && ((uint32_t)(q >> 13) & 0x7f800000u) != 0x7f800000u; };
    while (!okr(q)) {
        q = r.next();
    }
    while ((k & 0x7f800000u) == 0x7f800000u || (~k & 0x7f800000u) == 0x7f800000u) {
        k = (uint32_t)r.next();
    }
    std::string a = s(v2(x, y)), b = s(v2(z, w));
    eq("result", a, s(Geo::make(x, y)));
    eq("argument", a, str(Geo::seen(v2(x, y))));
    eq("both ways", a, s(Geo::same(v2(x, y))));
    auto sw = Geo::swap(v2(x, y), v2(z, w));
    eq("pair of results", b + " " + a, s(sw.first) + " " + s(sw.second));
    auto o = Geo::opt(k & 1, x, y);
    eq("option result", k & 1 ? a : "none", o ? s(*o) : "none");
    eq("option argument", k & 1 ? a : "none", str(Geo::opt_seen(k & 1 ? VH_OPT<Vec2>(v2(x, y)) : VH_OPT<Vec2>())));
    auto re = Geo::res(k & 1, x, y);
    eq("Result", k & 1 ? a : hx(x), VH_GET<Vec2>(&re) ? s(*VH_GET<Vec2>(&re)) : VH_GET<RustString>(&re)->to_std_string());
    auto pr = Geo::pair(std::make_pair(v2(x, y), (int32_t)k));
    eq("pair argument", n((int32_t)k) + " " + a, n(pr.first) + " " + s(pr.second));
    Vec2 v = v2(x, y);
    eq("pointer", a, str(Geo::ptr(&v)));
    Geo::ptr_mut(&v, z);
    eq("mutable pointer", s(v2(x, z)), s(v));
    eq("returned pointer", hx((uintptr_t)&v), hx((uintptr_t)Geo::ptr_back(&v)));
    eq("structure result", s(rc(q)), s(Geo::rect(q)));
    eq("structure argument", s(rc(q)), str(Geo::rect_seen(rc(q))));
    auto ro = Geo::rect_opt(q);
    eq("option of structure", q % 3 ? s(rc(q)) : "none", ro ? s(*ro) : "none");
    Word u = Geo::word(q);
    eq("union result", hx(q), hx(u.u));
    u.f = db(q);
    eq("union argument", hx(q), hx(Geo::word_seen(u)));
    std::vector<Vec2> vs;
    std::string all;
    size_t cnt = r.below(6);
    for (size_t i = 0; i < cnt; ++i) {
        vs.push_back(v2(rb(r), rb(r)));
        all += (i ? " " : "") + s(vs.back());
    }
    eq("slice", all, str(Geo::slice(RustSlice<const Vec2>{ vs.data(), vs.size() })));
    if (cnt) {
        size_t i = r.below(cnt);
        Geo::slice_mut(RustSlice<Vec2>{ vs.data(), vs.size() }, i, x);
        eq("slice element", hx(x), hx(bits(vs[i].x)));
    }
    auto vec = Geo::vec(cnt, 5);
    std::string m, g;
    for (uint32_t i = 0; i < cnt; ++i) {
        m += s(v2(5 ^ i, 5 * i)) + " ";
    }
    for (auto &e : vec) {
        g += s(e) + " ";
    }
    eq("vec result", m, g);
    eq("vec argument", m, str(Geo::vec_seen(std::move(vec))) + (cnt ? " " : ""));

    void *p = (void *)(uintptr_t)(q >> 3);
    Fns::call2(on2, (int32_t)k, p);
    eq("extern fn", n((int32_t)k) + "@" + hx((uintptr_t)p) + ";" + n((int32_t)(k + 1)) + "@" + hx((uintptr_t)p) + ";", take());
    Fns::call_vec(onvec, k, q);
    eq("extern fn of structures", s(v2(k, ~k)) + "|" + s(rc(q)), take());
    eq("option of extern fn", "yes" + hx((uintptr_t)p), (Fns::call_opt(onopt, p) ? "yes" : "no") + take());
    eq("option of extern fn", "no", (Fns::call_opt(nullptr, p) ? "yes" : "no") + take());
    eq("option of extern fn of a structure", "yes" + s(v2(k, ~k)), (Fns::call_opt_vec(onoptvec, k) ? "yes" : "no") + take());

    eq("callback", s(v2(k, ~k)) + "<at " + a + " " + n((int32_t)z), [&] { auto t = str(Watched::at(std::unique_ptr<Watch>(new MyWatch(k)), x, y, (int32_t)z)); return t + "<" + take(); }());
    eq("callback with option", (k % 2 ? s(v2(k, ~k)) : "none") + "<maybe " + (z & 1 ? a : "none"),
       [&] { auto t = str(Watched::maybe(std::unique_ptr<Watch>(new MyWatch(k)), z & 1, x, y)); return t + "<" + take(); }());
    eq("callback with structure", hx(k) + "<rect " + s(rc(q)), [&] { auto t = hx(Watched::rect(std::unique_ptr<Watch>(new MyWatch(k)), q)); return t + "<" + take(); }());
    eq("callbacks left", "0", n(watches));
}

static std::string s(const Foo &f) { return n(f.x()) + std::string(f.name()); }
static std::string mk(long long x) { return n(x) + "f" + n(x); }
template <class V> static std::string list(const V &v)
{
    std::string o;
    for (size_t i = 0; i < v.size(); ++i) {
        o += n(v[i].x()) + std::string(v[i].name()) + " ";
    }
    return o;
}
static std::string mklist(uint32_t c)
{
    std::string o;
    for (uint32_t i = 0; i < c; ++i) {
        o += mk(i) + " ";
    }
    return o;
}
static void futures(vh::Rng &r)
{
    uint32_t how = (uint32_t)r.below(30), c = (uint32_t)r.below(5);
    int32_t k = (int32_t)r.next();
    uint32_t x = rb(r) & 0x3fffffffu;
    bool blue = r.below(2);
    // several at a time, taken in another order than started
    auto a = Fut::num(how, k);
    auto b = Fut::text(how, k);
    auto d = Fut::foo(how, k);
    auto e = Fut::foos(how, c);
    auto f = Fut::color(how, blue);
    auto g = Fut::res(how, c);
    auto o = Fut::opt(how, c);
    auto v = Fut::vec2(how, x);
    Fut own(k);
    auto w = own.own(how, 77);
    auto m = own.own_mut();
    if (r.below(4) == 0) {
        // a future nobody waits for
        auto lost = Fut::foos(how, 3);
        lost.wait();
    }
    eq("future of a structure", s(v2(x, ~x)), s(v.get()));
    auto ov = o.get();
    eq("future of an option", c % 2 ? mk(c) : "none", ov ? s(*ov) : "none");
    auto gv = g.get();
    if (auto *p = VH_GET<RustForeignVecFoo>(&gv)) {
        eq("future of a Result", c % 2 ? "" : "ok " + mklist(c), "ok " + list(*p));
    } else {
        eq("future of a Result", c % 2 ? "e" + n(c) : "ok", VH_GET<RustString>(&gv)->to_std_string());
    }
    eq("future of an enum", blue ? "blue" : "red", f.get() == Color::CBlue ? "blue" : "red");
    eq("future of a vector", mklist(c), list(e.get()));
    eq("future of an object", mk(k), s(d.get()));
    eq("future of a string", "t" + n(k), b.get().to_std_string());
    eq("future of a number", n(k), n(a.get()));
    eq("future of a method", n((int64_t)k + 77), n(w.get()));
    eq("future of a changing method", mk((int64_t)k + 1), s(m.get()));
}

template <class V> static std::string items(const V &v)
{
    std::string o = n(v.size()) + (v.empty() ? "e" : "") + ": ";
    for (size_t i = 0; i < v.size(); ++i) {
        o += n(v[i].val()) + "=" + std::string(v[i].s()) + " ";
    }
    return o;
}
static std::string mkitems(int b, int c)
{
    std::string o = n(c) + (c ? "" : "e") + ": ";
    for (int i = 0; i < c; ++i) {
        o += n(b + i) + "=Arc<FooArc> " + n(b + i) + " ";
    }
    return o;
}
static void access(vh::Rng &r)
{
    int b = (int)r.below(100000), c = (int)r.below(7);
    uint64_t before = vh_alive();
    {
        std::unique_ptr<Work> w(new Work(b, c));
        {
            auto sl = w->slice();
            eq("slice access", mkitems(b, c), items(sl));
            int j = (int)r.below(c + 1), i = (int)r.below(j + 1);
            auto pt = w->part(i, j);
            eq("slice access", mkitems(b + i, j - i), items(pt));
            auto mv = std::move(pt);
            eq("moved slice access", mkitems(b + i, j - i), items(mv));
            eq("moved slice access", "0e: ", items(pt));
            mv = std::move(sl);
            eq("assigned slice access", mkitems(b, c), items(mv));
            eq("assigned slice access", "0e: ", items(sl));
            eq("empty slice access", "0e: ", items(RustFooArcConstSlice()));
        }
        auto v = w->vec();
        eq("vec access", mkitems(b, c), items(v));
        eq("objects", n(c), n(vh_alive() - before));
        w.reset();
        eq("vec access after the owner went", mkitems(b, c), items(v));
        eq("objects", n(c), n(vh_alive() - before));
        auto mv = std::move(v);
        eq("moved vec access", mkitems(b, c), items(mv));
        eq("moved vec access", "0e: ", items(v));
        int c2 = (int)r.below(5);
        mv = Work::fresh(7, c2, r.below(9));
        eq("assigned vec access", mkitems(7, c2), items(mv));
        eq("objects", n(c2), n(vh_alive() - before));
        v = std::move(mv);
        eq("assigned vec access", mkitems(7, c2), items(v));
        eq("assigned vec access", "0e: ", items(mv));
        eq("objects", n(c2), n(vh_alive() - before));
    }
    eq("objects left", "0", n(vh_alive() - before));
}
static void settle()
{
    for (int i = 0; i < 400 && vh_alive() != 0; ++i) {
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
    }
}
int main(int, char **v)
{
    uint64_t seed = strtoull(v[1], 0, 10);
    int cnt = atoi(v[2]);
    vh_set_seed(seed);
    vh::Rng r{ seed * 7919 + 3 };
    for (int i = 0; i < cnt; ++i) {
        structs(r);
        access(r);
        if (vh_alive() != 0) {
            vh::log("! objects are left: " + n(vh_alive()));
            break;
        }
        if (i % 4 == 0) {
            futures(r);
            settle();
            eq("objects left by futures", "0", n(vh_alive()));
        }
    }
    if (vh_over_dropped()) {
        vh::log("! objects dropped twice");
    }
    for (auto &o : ops) {
        vh::log("OPS " + n(o.second) + " " + o.first);
    }
    vh::log("DISTINCT " + n(seen.size()));
    vh::log("END");
    vh_flush();
    return 0;
}
