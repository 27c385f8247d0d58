// Values of the classes in objs.rs.
#pragma once
#include "vh.hpp"
namespace vh {
template <bool B> struct V<vns::FooWrapper<B>> {
    static vns::Foo gen(Rng &r, Arena &a)
    {
        int64_t x = V<int64_t>::gen(r, a);
        return vns::Foo(x, V<Sv>::gen(r, a));
    }
    static void canon(std::string &o, const vns::FooWrapper<B> &f)
    {
        o += "Foo{";
        V<int64_t>::canon(o, f.x());
        o += ':';
        V<Sv>::canon(o, f.name());
        o += '}';
    }
};
template <bool B> struct V<vns::WideWrapper<B>> {
    static vns::Wide gen(Rng &r, Arena &a)
    {
        uint64_t x = V<uint64_t>::gen(r, a);
        return vns::Wide(x, V<uint8_t>::gen(r, a));
    }
    static void canon(std::string &o, const vns::WideWrapper<B> &f)
    {
        o += "Wide{";
        V<uint64_t>::canon(o, f.s());
        o += ':';
        V<uint8_t>::canon(o, f.b());
        o += '}';
    }
};
template <bool B> struct V<vns::TinyWrapper<B>> {
    static vns::Tiny gen(Rng &r, Arena &a) { return vns::Tiny(V<uint8_t>::gen(r, a)); }
    static void canon(std::string &o, const vns::TinyWrapper<B> &f)
    {
        o += "Tiny{";
        V<uint8_t>::canon(o, f.v());
        o += '}';
    }
};
template <> struct V<vns::Color> {
    static vns::Color gen(Rng &r, Arena &)
    {
        switch (r.below(5)) {
        case 0: return vns::Color::RED;
        case 1: return vns::Color::GREEN;
        case 2: return vns::Color::BLUE;
        case 3: return vns::Color::ULTRA;
        default: return vns::Color::INFRA;
        }
    }
    static void canon(std::string &o, vns::Color c)
    {
        switch (c) {
        case vns::Color::RED: o += "#RED"; break;
        case vns::Color::GREEN: o += "#GREEN"; break;
        case vns::Color::BLUE: o += "#BLUE"; break;
        case vns::Color::ULTRA: o += "#ULTRA"; break;
        case vns::Color::INFRA: o += "#INFRA"; break;
        default: o += "?enum";
        }
    }
};
#define VH_MKVEC(P, C)                                                                                                 \
    template <> struct MkVec<decltype(vns::Mk::vec_##P(std::declval<vns::RustSlice<const C>>(), 0))> {                 \
        static auto make(Rng &r, Arena &a)                                                                             \
        {                                                                                                              \
            return vns::Mk::vec_##P(V<vns::RustSlice<const C>>::gen(r, a), r.below(64));                                \
        }                                                                                                              \
    };
VH_MKVEC(i8, int8_t)
VH_MKVEC(u8, uint8_t)
VH_MKVEC(i16, int16_t)
VH_MKVEC(u16, uint16_t)
VH_MKVEC(i32, int32_t)
VH_MKVEC(u32, uint32_t)
VH_MKVEC(i64, int64_t)
VH_MKVEC(u64, uint64_t)
VH_MKVEC(isize, intptr_t)
VH_MKVEC(usize, uintptr_t)
VH_MKVEC(f32, float)
VH_MKVEC(f64, double)
template <bool B> struct FVecOf<vns::FooWrapper<B>> { using type = vns::RustForeignVecFoo; };
template <bool B> struct FVecOf<vns::WideWrapper<B>> { using type = vns::RustForeignVecWide; };
template <bool B> struct FVecOf<vns::TinyWrapper<B>> { using type = vns::RustForeignVecTiny; };
} // namespace vh
