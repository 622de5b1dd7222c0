// C22..C24: Variant as a value type, its conversions and its comparison, against a model of values.
#include <algorithm>
#include <cfloat>
#include <cmath>
#include <limits>
#include <memory>

#include "hsmcpp/variant.hpp"
#include "pbt.hpp"

using namespace hsmcpp;
using pbt::Rep;
using pbt::Src;
using T = Variant::Type;

namespace {

struct Cust {
    static long live;
    std::string a;
    int n = 0;
    Cust() { ++live; }
    Cust(const std::string& x, int y) : a(x), n(y) { ++live; }
    Cust(const Cust& o) : a(o.a), n(o.n) { ++live; }
    Cust& operator=(const Cust&) = default;
    ~Cust() { --live; }
    bool operator==(const Cust& o) const { return a == o.a && n == o.n; }
    bool operator>(const Cust& o) const { return a != o.a ? a > o.a : n > o.n; }
};
long Cust::live = 0;

// ---------------------------------------------------------------------------------------------- model of a value
struct Val {
    T t = T::UNKNOWN;
    int64_t i = 0;   // BYTE_x, BOOL
    uint64_t u = 0;  // UBYTE_x
    double d = 0;
    std::string s;           // STRING, BYTEARRAY, CUSTOM
    std::vector<Val> items;  // LIST, VECTOR, PAIR(2), MAP(key, value, key, value... sorted by key)
};
bool isSigned(T t) { return t >= T::BYTE_1 && t <= T::BYTE_8; }
bool isUnsigned(T t) { return t >= T::UBYTE_1 && t <= T::UBYTE_8; }
bool isInt(T t) { return isSigned(t) || isUnsigned(t); }
const char* tn(T t) {
    static const char* n[] = {"empty", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "double", "bool", "string", "bytes", "list", "vector", "map", "pair", "custom"};
    return n[static_cast<int>(t)];
}
std::string show(const Val& v) {
    std::string r = tn(v.t);
    if (isSigned(v.t)) r += ":" + std::to_string(v.i);
    else if (isUnsigned(v.t)) r += ":" + std::to_string(v.u);
    else if (v.t == T::BOOL) r += v.i ? ":true" : ":false";
    else if (v.t == T::DOUBLE) { char b[40]; snprintf(b, sizeof b, ":%.17g", v.d); r += b; }
    else if (v.t == T::STRING || v.t == T::BYTEARRAY) r += ":\"" + pbt::jsonEsc(v.s) + "\"";
    else if (v.t == T::CUSTOM) r += ":" + pbt::jsonEsc(v.s) + "/" + std::to_string(v.i);
    else if (v.t >= T::LIST && v.t <= T::PAIR) {
        r += "[";
        for (size_t k = 0; k < v.items.size(); ++k) r += (k ? (v.t == T::MAP && k % 2 ? "=>" : ", ") : "") + show(v.items[k]);
        r += "]";
    }
    return r;
}
int icmp(const Val& a, const Val& b) {  // integers, mathematically
    __int128 x = isSigned(a.t) ? static_cast<__int128>(a.i) : static_cast<__int128>(a.u), y = isSigned(b.t) ? static_cast<__int128>(b.i) : static_cast<__int128>(b.u);
    return x < y ? -1 : x > y ? 1 : 0;
}
// identity of content (type included); used by C22
bool same(const Val& a, const Val& b) {
    if (a.t != b.t) return false;
    if (a.t == T::DOUBLE) return memcmp(&a.d, &b.d, sizeof a.d) == 0;
    if (a.i != b.i || a.u != b.u || a.s != b.s || a.items.size() != b.items.size()) return false;
    for (size_t k = 0; k < a.items.size(); ++k) if (!same(a.items[k], b.items[k])) return false;
    return true;
}
bool keyLess(const Val& a, const Val& b) { return a.t == T::STRING ? a.s < b.s : icmp(a, b) < 0; }
void setKey(Val& m, const Val& k, const Val& v) {
    size_t p = 0;
    while (p < m.items.size() && keyLess(m.items[p], k)) p += 2;
    if (p < m.items.size() && !keyLess(k, m.items[p])) { m.items[p + 1] = v; return; }
    m.items.insert(m.items.begin() + static_cast<long>(p), {k, v});
}

// ---------------------------------------------------------------------------------------------- generators
int64_t genBits(Src& s) {
    static const int64_t edge[] = {0, 1, -1, 2, 7, 127, -128, 128, 255, 256, 32767, -32768, 65535, 65536, INT32_MAX, INT32_MIN, UINT32_MAX, int64_t(1) << 32, INT64_MAX, INT64_MIN,
                                   INT64_MAX - 1, INT64_MIN + 1, int64_t(1) << 53, (int64_t(1) << 53) + 1};
    switch (s.weighted({4, 5, 2})) {
        case 0: return s.range(-4, 20);
        case 1: return edge[s.below(sizeof edge / sizeof *edge)];
        default: return static_cast<int64_t>(s.bits64());
    }
}
Val genInt(Src& s, T t) {
    Val v;
    v.t = t;
    int64_t b = genBits(s);
    switch (t) {
        case T::BYTE_1: v.i = static_cast<int8_t>(b); break;
        case T::BYTE_2: v.i = static_cast<int16_t>(b); break;
        case T::BYTE_4: v.i = static_cast<int32_t>(b); break;
        case T::BYTE_8: v.i = b; break;
        case T::UBYTE_1: v.u = static_cast<uint8_t>(b); break;
        case T::UBYTE_2: v.u = static_cast<uint16_t>(b); break;
        case T::UBYTE_4: v.u = static_cast<uint32_t>(b); break;
        default: v.u = static_cast<uint64_t>(b); break;
    }
    return v;
}
T genIntType(Src& s) { return static_cast<T>(s.range(1, 8)); }
double genDouble(Src& s) {
    static const double edge[] = {0.0, -0.0, 0.5, -0.5, 1.0, -1.0, 0.25, 0.999, 1.5, 3.14159265, 1e-7, 1e-9, 1e10, -1e10, 9007199254740992.0, 9007199254740993.0, 9223372036854775807.0,
                                  -9223372036854775808.0, 18446744073709551615.0, 1e19, 1e20, DBL_MAX, -DBL_MAX, DBL_MIN, DBL_EPSILON, 5e-324, HUGE_VAL, -HUGE_VAL};
    switch (s.weighted({4, 5, 2, 2})) {
        case 0: return s.range(-20, 20) / 2.0;
        case 1: return edge[s.below(sizeof edge / sizeof *edge)];
        case 2: return static_cast<double>(genBits(s)) + s.range(0, 3) / 4.0;
        default: {
            uint64_t b = s.bits64();
            double d;
            memcpy(&d, &b, sizeof d);
            return std::isnan(d) ? 2.5 : d;
        }
    }
}
std::string genStr(Src& s) {
    static const std::vector<std::string> fixed = {"", "a", "b", "aa", "ab", "true", "false", "0", "1", "-1", " ", "abc", "hello world, this string does not fit into the small buffer", std::string("a\0b", 3),
                                                   std::string("\0", 1), "\xff\xfe", "é"};
    if (s.chance(70)) return fixed[s.below(static_cast<uint32_t>(fixed.size()))];
    std::string r;
    while (r.size() < 40 && s.more(75)) r += static_cast<char>(s.below(256));
    return r;
}
Val genVal(Src& s, int depth, bool empties = true);
Val genKey(Src& s, T t) {
    Val v;
    if (t == T::STRING) { v.t = t; v.s = genStr(s); }
    else v = genInt(s, t);
    return v;
}
T genKeyType(Src& s) { return s.chance(40) ? T::STRING : genIntType(s); }
Val genVal(Src& s, int depth, bool empties) {
    Val v;
    size_t w = s.weighted({8, 3, 2, 5, 3, depth > 0 ? 3 : 0, depth > 0 ? 5 : 0, depth > 0 ? 3 : 0, depth > 0 ? 3 : 0, 2, empties ? 1 : 0});
    switch (w) {
        case 0: return genInt(s, genIntType(s));
        case 1: v.t = T::DOUBLE; v.d = genDouble(s); return v;
        case 2: v.t = T::BOOL; v.i = s.coin(); return v;
        case 3: v.t = T::STRING; v.s = genStr(s); return v;
        case 4: v.t = T::BYTEARRAY; v.s = genStr(s); return v;
        case 5: case 6:
            v.t = w == 5 ? T::LIST : T::VECTOR;
            while (v.items.size() < 5 && s.more(65)) v.items.push_back(genVal(s, depth - 1, empties));
            return v;
        case 7: {
            v.t = T::MAP;
            T kt = genKeyType(s);
            int n = s.range(0, 4);
            for (int k = 0; k < n; ++k) { Val key = genKey(s, kt); setKey(v, key, genVal(s, depth - 1, empties)); }
            return v;
        }
        case 8:
            v.t = T::PAIR;
            v.items.push_back(genVal(s, depth - 1, empties));
            v.items.push_back(genVal(s, depth - 1, empties));
            return v;
        case 9: v.t = T::CUSTOM; v.s = genStr(s); v.i = s.range(0, 3); return v;
        default: return v;
    }
}

// ---------------------------------------------------------------------------------------------- building Variants
Variant build(const Val& v);
ByteArray_t bytes(const std::string& s) { return ByteArray_t(s.begin(), s.end()); }
template <class C>
C fill(const Val& v) {
    C c;
    for (auto& x : v.items) c.push_back(build(x));
    return c;
}
VariantMap_t fillMap(const Val& v) {
    VariantMap_t m;
    for (size_t k = 0; k + 1 < v.items.size(); k += 2) m.emplace(build(v.items[k]), build(v.items[k + 1]));
    return m;
}
VariantPair_t fillPair(const Val& v) { return VariantPair_t(build(v.items[0]), build(v.items[1])); }

// calls f with the C++ value v stands for
template <class F>
void withValue(const Val& v, F f) {
    switch (v.t) {
        case T::BYTE_1: f(static_cast<int8_t>(v.i)); break;
        case T::BYTE_2: f(static_cast<int16_t>(v.i)); break;
        case T::BYTE_4: f(static_cast<int32_t>(v.i)); break;
        case T::BYTE_8: f(static_cast<int64_t>(v.i)); break;
        case T::UBYTE_1: f(static_cast<uint8_t>(v.u)); break;
        case T::UBYTE_2: f(static_cast<uint16_t>(v.u)); break;
        case T::UBYTE_4: f(static_cast<uint32_t>(v.u)); break;
        case T::UBYTE_8: f(static_cast<uint64_t>(v.u)); break;
        case T::DOUBLE: f(v.d); break;
        case T::BOOL: f(static_cast<bool>(v.i)); break;
        case T::STRING: f(v.s); break;
        case T::BYTEARRAY: f(bytes(v.s)); break;
        case T::LIST: f(fill<VariantList_t>(v)); break;
        case T::VECTOR: f(fill<VariantVector_t>(v)); break;
        case T::MAP: f(fillMap(v)); break;
        case T::PAIR: f(fillPair(v)); break;
        case T::CUSTOM: f(Cust(v.s, static_cast<int>(v.i))); break;
        default: break;
    }
}
Variant build(const Val& v) {
    Variant r;
    withValue(v, [&](const auto& x) { r = Variant(x); });
    return r;
}
bool allOf(const Val& v, T t) {
    for (auto& x : v.items) if (x.t != t) return false;
    return true;
}
// builds v through one of the other documented ways
Variant buildVia(const Val& v, uint32_t route) {
    switch (route) {
        case 0: return build(v);
        case 1: {
            Variant r;
            withValue(v, [&](const auto& x) { r = Variant::make(x); });
            return r;
        }
        case 2: {
            Variant r;
            withValue(v, [&](const auto& x) { r = x; });
            return r;
        }
        case 3: return Variant::make(build(v));
        default: break;
    }
    if (v.t == T::STRING && v.s.find('\0') == std::string::npos) return route & 1 ? Variant(v.s.c_str()) : Variant::make(v.s.c_str());
    if (v.t == T::BYTEARRAY) {
        std::vector<char> tmp(v.s.begin(), v.s.end());
        tmp.push_back(0);
        const char* raw = tmp.data();
        return route & 1 ? Variant(raw, v.s.size()) : Variant::make(raw, v.s.size());
    }
    if (v.t == T::VECTOR && allOf(v, T::BYTE_4)) {
        std::vector<int32_t> x;
        for (auto& e : v.items) x.push_back(static_cast<int32_t>(e.i));
        return route & 1 ? Variant(x) : Variant::make(x);
    }
    if (v.t == T::VECTOR && allOf(v, T::STRING)) {
        std::vector<std::string> x;
        for (auto& e : v.items) x.push_back(e.s);
        return route & 1 ? Variant(x) : Variant::make(x);
    }
    if (v.t == T::LIST && allOf(v, T::UBYTE_8)) {
        std::list<uint64_t> x;
        for (auto& e : v.items) x.push_back(e.u);
        return route & 1 ? Variant(x) : Variant::make(x);
    }
    if (v.t == T::LIST && allOf(v, T::STRING)) {
        std::list<std::string> x;
        for (auto& e : v.items) x.push_back(e.s);
        return route & 1 ? Variant(x) : Variant::make(x);
    }
    if (v.t == T::MAP) {
        bool si = true;
        for (size_t k = 0; k + 1 < v.items.size(); k += 2) si = si && v.items[k].t == T::STRING && v.items[k + 1].t == T::BYTE_4;
        if (si) {
            std::map<std::string, int32_t> x;
            for (size_t k = 0; k + 1 < v.items.size(); k += 2) x[v.items[k].s] = static_cast<int32_t>(v.items[k + 1].i);
            return route & 1 ? Variant(x) : Variant::make(x);
        }
    }
    if (v.t == T::PAIR && v.items[0].t == T::BYTE_4 && v.items[1].t == T::STRING)
        return route & 1 ? Variant(static_cast<int32_t>(v.items[0].i), v.items[1].s) : Variant::make(static_cast<int32_t>(v.items[0].i), v.items[1].s);
    if (v.t == T::CUSTOM) return Variant::makeCustom(Cust(v.s, static_cast<int>(v.i)));
    return build(v);
}
void genHomogeneous(Src& s, Val& v) {  // containers that the templated constructors accept
    static const T kinds[] = {T::VECTOR, T::LIST, T::MAP, T::PAIR};
    v = Val();
    v.t = kinds[s.below(4)];
    bool str = s.coin();
    T et = str ? T::STRING : v.t == T::LIST ? T::UBYTE_8 : T::BYTE_4;
    if (v.t == T::PAIR) { v.items.push_back(genInt(s, T::BYTE_4)); v.items.push_back(genKey(s, T::STRING)); return; }
    int n = s.range(0, 4);
    for (int k = 0; k < n; ++k) {
        if (v.t == T::MAP) { Val key = genKey(s, T::STRING); setKey(v, key, genInt(s, T::BYTE_4)); }
        else v.items.push_back(genKey(s, et));
    }
}

// ---------------------------------------------------------------------------------------------- reading back
#define BAD(...) return std::string(__VA_ARGS__)
std::string check(const Variant& r, const Val& v) {
    if (r.getType() != v.t) BAD("type is " + std::string(tn(r.getType())) + ", expected " + show(v));
    if (static_cast<bool>(r) != (v.t != T::UNKNOWN) || r.isEmpty() != (v.t == T::UNKNOWN)) BAD("emptiness of " + show(v));
    bool num = isInt(v.t) || v.t == T::DOUBLE;
    if (r.isNumeric() != num || r.isSignedNumeric() != (isSigned(v.t) || v.t == T::DOUBLE) || r.isUnsignedNumeric() != isUnsigned(v.t) || r.isBool() != (v.t == T::BOOL) ||
        r.isString() != (v.t == T::STRING) || r.isByteArray() != (v.t == T::BYTEARRAY) || r.isVector() != (v.t == T::VECTOR) || r.isList() != (v.t == T::LIST) ||
        r.isMap() != (v.t == T::MAP) || r.isPair() != (v.t == T::PAIR) || r.isCustomType() != (v.t == T::CUSTOM))
        BAD("a type predicate is wrong for " + show(v));
    auto ba = r.getByteArray();
    auto ve = r.getVector();
    auto li = r.getList();
    auto ma = r.getMap();
    auto pa = r.getPair();
    auto cu = r.getCustomType<Cust>();
    if (!ba != (v.t != T::BYTEARRAY) || !ve != (v.t != T::VECTOR) || !li != (v.t != T::LIST) || !ma != (v.t != T::MAP) || !pa != (v.t != T::PAIR) || !cu != (v.t != T::CUSTOM))
        BAD("getX() returned a pointer for another type, or none for its own: " + show(v));
    std::string e;
    size_t k = 0;
    switch (v.t) {
        case T::BYTE_1: case T::BYTE_2: case T::BYTE_4: case T::BYTE_8: if (r.toInt64() != v.i) BAD("reads back " + std::to_string(r.toInt64()) + " instead of " + show(v)); break;
        case T::UBYTE_1: case T::UBYTE_2: case T::UBYTE_4: case T::UBYTE_8: if (r.toUInt64() != v.u) BAD("reads back " + std::to_string(r.toUInt64()) + " instead of " + show(v)); break;
        case T::DOUBLE: { double d = r.toDouble(); if (memcmp(&d, &v.d, sizeof d) != 0) BAD("reads back " + std::to_string(d) + " instead of " + show(v)); break; }
        case T::BOOL: if (r.toBool() != static_cast<bool>(v.i)) BAD("reads back the wrong bool " + show(v)); break;
        case T::STRING: if (r.toString() != v.s) BAD("reads back \"" + pbt::jsonEsc(r.toString()) + "\" instead of " + show(v)); break;
        case T::BYTEARRAY: if (*ba != bytes(v.s) || r.toByteArray() != *ba) BAD("reads back other bytes than " + show(v)); break;
        case T::VECTOR:
            if (ve->size() != v.items.size()) BAD("vector has " + std::to_string(ve->size()) + " items, expected " + show(v));
            for (auto& x : *ve) if (!(e = check(x, v.items[k++])).empty()) return "in vector: " + e;
            break;
        case T::LIST:
            if (li->size() != v.items.size()) BAD("list has " + std::to_string(li->size()) + " items, expected " + show(v));
            for (auto& x : *li) if (!(e = check(x, v.items[k++])).empty()) return "in list: " + e;
            break;
        case T::MAP:
            if (ma->size() * 2 != v.items.size()) BAD("map has " + std::to_string(ma->size()) + " items, expected " + show(v));
            for (auto& x : *ma) {
                if (!(e = check(x.first, v.items[k++])).empty()) return "in map key: " + e;
                if (!(e = check(x.second, v.items[k++])).empty()) return "in map value: " + e;
            }
            break;
        case T::PAIR:
            if (!(e = check(pa->first, v.items[0])).empty()) return "in pair: " + e;
            if (!(e = check(pa->second, v.items[1])).empty()) return "in pair: " + e;
            break;
        case T::CUSTOM: if (cu->a != v.s || cu->n != v.i) BAD("custom value differs from " + show(v)); break;
        default: break;
    }
    return "";
}

// ---------------------------------------------------------------------------------------------- C22
void valueProp(Src& s, Rep& rep) {
    const int N = 4;
    long customs = Cust::live;
    std::string key;
    bool aliasing = false;
    int copies = 0;
    {
        std::vector<Val> m(N);
        std::vector<std::unique_ptr<Variant>> r;
        for (int i = 0; i < N; ++i) r.emplace_back(new Variant());
        auto log = [&](const std::string& x) {
            key += x + "; ";
            if (rep.verbose) rep.desc << x << "\n";
        };
        int nops = s.range(2, 14);
        for (int o = 0; o < nops; ++o) {
            int i = s.range(0, N - 1), j = s.range(0, N - 1);
            Variant &a = *r[static_cast<size_t>(i)], &b = *r[static_cast<size_t>(j)];
            Val &ma = m[static_cast<size_t>(i)], &mb = m[static_cast<size_t>(j)];
            std::string si = "v" + std::to_string(i), sj = "v" + std::to_string(j);
            size_t n = mb.items.size();
            switch (s.weighted({14, 6, 5, 4, 3, 2, 6, 8, 7, 6, 4, 3, 5})) {
                case 0: {
                    Val v;
                    if (s.chance(25)) genHomogeneous(s, v); else v = genVal(s, 2);
                    uint32_t route = s.below(6);
                    log(si + " = new Variant " + show(v) + " (route " + std::to_string(route) + ")");
                    r[static_cast<size_t>(i)].reset(new Variant(buildVia(v, route)));
                    ma = v;
                    break;
                }
                case 1: log(si + " = " + sj); a = b; { Val t = mb; ma = t; } ++copies; break;
                case 2: {
                    log(si + " = move(" + sj + ")");
                    Variant* pb = &b;
                    a = std::move(*pb);
                    if (i != j) { ma = mb; mb = Val(); }
                    else if (a.isEmpty()) ma = Val();
                    break;
                }
                case 3: if (i != j) { log(si + " = new Variant(" + sj + ")"); r[static_cast<size_t>(i)].reset(new Variant(b)); ma = mb; ++copies; } break;
                case 4: if (i != j) { log(si + " = new Variant(move(" + sj + "))"); r[static_cast<size_t>(i)].reset(new Variant(std::move(b))); ma = mb; mb = Val(); } break;
                case 5: log(si + ".clear()"); a.clear(); ma = Val(); break;
                case 6: {
                    Val v = genVal(s, 1, false);
                    log(si + " = value " + show(v));
                    withValue(v, [&](const auto& x) { a = x; });
                    ma = v;
                    break;
                }
                case 7: {  // element -> variant (possibly the one that holds it)
                    if (n == 0) break;
                    size_t k = s.below(static_cast<uint32_t>(n));
                    bool mv = s.chance(30) && mb.t != T::MAP;
                    log(si + " = " + (mv ? "move of " : "") + "element " + std::to_string(k) + " of " + sj);
                    Variant* el = nullptr;
                    if (mb.t == T::VECTOR) el = &(*b.getVector())[k];
                    else if (mb.t == T::LIST) el = &*std::next(b.getList()->begin(), static_cast<long>(k));
                    else if (mb.t == T::PAIR) el = k ? &b.getPair()->second : &b.getPair()->first;
                    else { k |= 1; el = &std::next(b.getMap()->begin(), static_cast<long>(k / 2))->second; }
                    Val v = mb.items[k];
                    if (i == j) aliasing = true;
                    if (mv) { a = std::move(*el); if (i != j) mb.items[k] = Val(); } else a = *el;
                    ma = v;
                    break;
                }
                case 8: {  // variant -> element (possibly its own)
                    if (n == 0) break;
                    size_t k = s.below(static_cast<uint32_t>(n));
                    log("element " + std::to_string(k) + " of " + sj + " = " + si);
                    Val v = ma;
                    if (v.items.size() > 40) break;
                    if (mb.t == T::VECTOR) (*b.getVector())[k] = a;
                    else if (mb.t == T::LIST) *std::next(b.getList()->begin(), static_cast<long>(k)) = a;
                    else if (mb.t == T::PAIR) (k ? b.getPair()->second : b.getPair()->first) = a;
                    else { k |= 1; std::next(b.getMap()->begin(), static_cast<long>(k / 2))->second = a; }
                    mb.items[k] = v;
                    if (i == j) aliasing = true;
                    break;
                }
                case 9: {  // change through the pointer
                    Val v = genVal(s, 1);
                    if (ma.t == T::VECTOR) { a.getVector()->push_back(build(v)); ma.items.push_back(v); }
                    else if (ma.t == T::LIST) { a.getList()->push_front(build(v)); ma.items.insert(ma.items.begin(), v); }
                    else if (ma.t == T::BYTEARRAY) { a.getByteArray()->push_back(0x42); ma.s += '\x42'; }
                    else if (ma.t == T::PAIR) { a.getPair()->first = build(v); ma.items[0] = v; }
                    else if (ma.t == T::CUSTOM) { a.getCustomType<Cust>()->n = 77; ma.i = 77; }
                    else if (ma.t == T::MAP && !ma.items.empty()) { a.getMap()->begin()->second = build(v); ma.items[1] = v; }
                    else break;
                    log("change content of " + si + " using " + show(v));
                    break;
                }
                case 10: {  // container of a variant assigned by type (possibly its own)
                    log(si + " = content of " + sj);
                    if (mb.t == T::VECTOR) { auto& x = *b.getVector(); a = x; }
                    else if (mb.t == T::LIST) { auto& x = *b.getList(); a = x; }
                    else if (mb.t == T::MAP) { auto& x = *b.getMap(); a = x; }
                    else if (mb.t == T::PAIR) { auto& x = *b.getPair(); a = x; }
                    else if (mb.t == T::BYTEARRAY) { auto& x = *b.getByteArray(); a = x; }
                    else break;
                    if (i == j) aliasing = true;
                    Val t = mb;
                    ma = t;
                    break;
                }
                case 11: if (i != j) { log("swap " + si + " " + sj); std::swap(a, b); std::swap(ma, mb); } break;
                default: {  // reading leaves a variant as it is; results are copies
                    log("read " + si);
                    (void)a.toString();
                    auto x = a.toByteArray();
                    x.push_back(1);
                    (void)(a == b);
                    (void)(a > b);
                    break;
                }
            }
            for (int q = 0; q < N; ++q) {
                std::string e = check(*r[static_cast<size_t>(q)], m[static_cast<size_t>(q)]);
                if (!e.empty()) rep.fail("value", "after step " + std::to_string(o + 1) + ": v" + std::to_string(q) + ": " + e);
            }
            size_t total = 0;
            for (auto& x : m) total += show(x).size();
            if (total > 6000) break;
        }
    }
    if (Cust::live != customs) rep.fail("leak", std::to_string(Cust::live - customs) + " custom values are still alive after all variants were destroyed");
    rep.nontrivial = copies > 0 || aliasing;
    rep.hash = pbt::hashStr(key);
    if (aliasing) rep.label("assignment from or to own element");
}

// ---------------------------------------------------------------------------------------------- C23
std::string modelString(const Val& v, bool strict, bool& amb) {
    switch (v.t) {
        case T::BYTE_1: case T::BYTE_2: case T::BYTE_4: case T::BYTE_8: return std::to_string(v.i);
        case T::UBYTE_1: case T::UBYTE_2: case T::UBYTE_4: case T::UBYTE_8: return std::to_string(v.u);
        case T::DOUBLE: { char b[400]; snprintf(b, sizeof b, "%f", v.d); return b; }
        case T::BOOL: return v.i ? "true" : "false";
        case T::STRING: case T::BYTEARRAY: return v.s;
        case T::LIST: case T::VECTOR: {
            std::string r;
            bool first = true;
            for (auto& x : v.items) {
                std::string e = modelString(x, strict, amb);
                if (!first) { if (r.empty()) amb = true; r += ", "; }
                r += e;
                first = false;
            }
            return r;
        }
        case T::MAP: {
            std::string r;
            for (size_t k = 0; k + 1 < v.items.size(); k += 2) r += (k ? ", " : "") + modelString(v.items[k], strict, amb) + "=[" + modelString(v.items[k + 1], strict, amb) + "]";
            return r;
        }
        case T::PAIR: return "(" + modelString(v.items[0], strict, amb) + ", " + modelString(v.items[1], strict, amb) + ")";
        default: return "";
    }
}
template <class I>
void le(std::string& r, I x) { r.append(reinterpret_cast<const char*>(&x), sizeof x); }
std::string modelBytes(const Val& v) {
    std::string r;
    switch (v.t) {
        case T::BYTE_1: le(r, static_cast<int8_t>(v.i)); break;
        case T::BYTE_2: le(r, static_cast<int16_t>(v.i)); break;
        case T::BYTE_4: le(r, static_cast<int32_t>(v.i)); break;
        case T::BYTE_8: le(r, v.i); break;
        case T::UBYTE_1: le(r, static_cast<uint8_t>(v.u)); break;
        case T::UBYTE_2: le(r, static_cast<uint16_t>(v.u)); break;
        case T::UBYTE_4: le(r, static_cast<uint32_t>(v.u)); break;
        case T::UBYTE_8: le(r, v.u); break;
        case T::DOUBLE: le(r, v.d); break;
        case T::BOOL: r += static_cast<char>(v.i ? 1 : 0); break;
        case T::STRING: case T::BYTEARRAY: r = v.s; break;
        case T::LIST: case T::VECTOR: case T::PAIR: for (auto& x : v.items) r += modelBytes(x); break;
        default: break;
    }
    return r;
}
// decimal digits -> magnitude; false if it exceeds 64 bits
bool magnitude(const std::string& d, uint64_t& out) {
    out = 0;
    for (char c : d) {
        unsigned __int128 x = static_cast<unsigned __int128>(out) * 10 + static_cast<unsigned>(c - '0');
        if (x > UINT64_MAX) return false;
        out = static_cast<uint64_t>(x);
    }
    return true;
}
std::string genNumberText(Src& s) {
    std::string r;
    if (s.chance(25)) r += s.coin() ? " " : "\t ";
    switch (s.weighted({5, 4, 2})) { case 1: r += "-"; break; case 2: r += "+"; break; default: break; }
    switch (s.weighted({5, 5, 4, 3})) {
        case 0: r += std::to_string(s.below(300)); break;
        case 1: r += std::to_string(static_cast<uint64_t>(genBits(s))); break;
        case 2: {
            static const char* e[] = {"9223372036854775807", "9223372036854775808", "9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0000000000000000000000012", "00", "010"};
            r += e[s.below(9)];
            break;
        }
        default: {
            int n = s.range(1, 22);
            for (int k = 0; k < n; ++k) r += static_cast<char>('0' + s.below(10));
        }
    }
    if (s.chance(30)) {
        r += ".";
        int n = s.range(1, 6);
        for (int k = 0; k < n; ++k) r += static_cast<char>('0' + s.below(10));
        if (s.chance(30)) { r += "e"; if (s.coin()) r += s.coin() ? "-" : "+"; r += std::to_string(s.below(25)); }
    }
    return r;
}
std::string genJunk(Src& s) {
    static const char* j[] = {"", "abc", "z17", "true", "True", "TRUE", "false", "-", "+", "--1", "x1", ".", "e5", "#", "tru", "truee", "-abc", "  ", "O", "\n", "o1", "_1", "$1"};
    return j[s.below(sizeof j / sizeof *j)];
}
bool sameDouble(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }

void conversionProp(Src& s, Rep& rep) {
    Val v;
    int textKind = 0;  // 1 number, 2 junk
    switch (s.weighted({6, 5, 2, 8})) {
        case 1: v.t = T::STRING; v.s = genNumberText(s); textKind = 1; break;
        case 2: v.t = T::STRING; v.s = genJunk(s); textKind = 2; break;
        case 3: v = s.coin() ? genInt(s, genIntType(s)) : Val(); if (v.t == T::UNKNOWN) { v.t = T::DOUBLE; v.d = genDouble(s); } break;
        default: v = genVal(s, 2); break;
    }
    if (rep.verbose) rep.desc << show(v) << "\n";
    Variant r = build(v);
    std::string e = check(r, v);
    if (!e.empty()) rep.fail("value", e);
    auto bad = [&](const std::string& what, const std::string& got, const std::string& want) { rep.fail("conversion", show(v) + ": " + what + " gives " + got + ", expected " + want); };
    int64_t i64 = r.toInt64();
    uint64_t u64 = r.toUInt64();
    double d = r.toDouble();
    bool b = r.toBool();
    std::string str = r.toString();
    ByteArray_t ba = r.toByteArray();
    auto wantI = [&](int64_t x) { if (i64 != x) bad("toInt64()", std::to_string(i64), std::to_string(x)); };
    auto wantU = [&](uint64_t x) { if (u64 != x) bad("toUInt64()", std::to_string(u64), std::to_string(x)); };
    auto wantD = [&](double x) { if (!sameDouble(d, x)) bad("toDouble()", std::to_string(d), std::to_string(x)); };
    auto wantB = [&](bool x) { if (b != x) bad("toBool()", std::to_string(b), std::to_string(x)); };
    if (isSigned(v.t)) { wantI(v.i); wantU(static_cast<uint64_t>(v.i)); wantD(static_cast<double>(v.i)); wantB(v.i != 0); }
    else if (isUnsigned(v.t)) { wantI(static_cast<int64_t>(v.u)); wantU(v.u); wantD(static_cast<double>(v.u)); wantB(v.u != 0); }
    else if (v.t == T::BOOL) { wantI(v.i); wantU(static_cast<uint64_t>(v.i)); wantD(static_cast<double>(v.i)); wantB(v.i != 0); }
    else if (v.t == T::DOUBLE) {
        if (v.d >= -9223372036854775808.0 && v.d < 9223372036854775808.0) wantI(static_cast<int64_t>(v.d));
        if (v.d >= 0 && v.d < 18446744073709551616.0) wantU(static_cast<uint64_t>(v.d));
        wantD(v.d);
        wantB(v.d != 0);
    } else if (textKind == 1) {
        size_t p = v.s.find_first_not_of(" \t");
        bool neg = v.s[p] == '-';
        if (v.s[p] == '-' || v.s[p] == '+') ++p;
        std::string rest = v.s.substr(p);
        double expect = strtod(v.s.c_str(), nullptr);
        if (std::isfinite(expect) && (expect == 0 || std::fabs(expect) > 1e-290)) {
            wantD(expect);
            wantB(expect != 0);
        }
        if (rest.find_first_not_of("0123456789") == std::string::npos) {
            uint64_t mag = 0;
            bool fits = magnitude(rest, mag);
            if (fits && (neg ? mag <= uint64_t(1) << 63 : mag < uint64_t(1) << 63)) wantI(neg ? static_cast<int64_t>(0 - mag) : static_cast<int64_t>(mag));
            else wantI(0);
            if (!neg) { if (fits) wantU(mag); else wantU(0); }
        }
    } else if (textKind == 2) {
        wantI(0); wantU(0); wantD(0.0); wantB(v.s == "true");
    } else if (v.t != T::STRING) {
        wantI(0); wantU(0); wantD(0.0); wantB(false);
    }
    bool amb = false;
    std::string ms = modelString(v, true, amb);
    if (!amb && str != ms) bad("toString()", "\"" + pbt::jsonEsc(str) + "\"", "\"" + pbt::jsonEsc(ms) + "\"");
    std::string mb = modelBytes(v);
    if (ba != bytes(mb)) bad("toByteArray()", "\"" + pbt::jsonEsc(std::string(ba.begin(), ba.end())) + "\"", "\"" + pbt::jsonEsc(mb) + "\"");
    // text round trip
    Variant text(str);
    if (isSigned(v.t) && text.toInt64() != v.i) bad("text round trip", std::to_string(text.toInt64()), std::to_string(v.i));
    if (isUnsigned(v.t) && text.toUInt64() != v.u) bad("text round trip", std::to_string(text.toUInt64()), std::to_string(v.u));
    if (isInt(v.t) && text.toDouble() != d) bad("text round trip (double)", std::to_string(text.toDouble()), std::to_string(d));
    if (v.t == T::BOOL && text.toBool() != b) bad("text round trip", std::to_string(text.toBool()), std::to_string(b));
    if (v.t == T::DOUBLE && std::isfinite(v.d) && std::fabs(text.toDouble() - v.d) > 5.1e-7 + 1e-15 * std::fabs(v.d)) bad("text round trip", std::to_string(text.toDouble()), std::to_string(v.d));
    // element-wise conversions
    int calls = 0;
    std::function<std::string(const Variant&)> conv = [&](const Variant& x) { ++calls; return x.toString(); };
    auto vec = r.toVector<std::string>(conv);
    auto lst = r.toList<std::string>(conv);
    auto mp = r.toMap<std::string, std::string>(conv, conv);
    auto pr = r.toPair<std::string, std::string>(conv, conv);
    std::vector<std::string> expVec, expLst;
    std::map<std::string, std::string> expMap;
    std::pair<std::string, std::string> expPair;
    auto txt = [](const Val& x) { return build(x).toString(); };
    if (v.t == T::VECTOR) for (auto& x : v.items) expVec.push_back(txt(x));
    if (v.t == T::LIST) for (auto& x : v.items) expLst.push_back(txt(x));
    if (v.t == T::MAP) for (size_t k = 0; k + 1 < v.items.size(); k += 2) expMap.insert({txt(v.items[k]), txt(v.items[k + 1])});
    if (v.t == T::PAIR) expPair = {txt(v.items[0]), txt(v.items[1])};
    if (vec != expVec) rep.fail("conversion", show(v) + ": toVector() is wrong");
    if (std::vector<std::string>(lst.begin(), lst.end()) != expLst) rep.fail("conversion", show(v) + ": toList() is wrong");
    if (mp != expMap) rep.fail("conversion", show(v) + ": toMap() is wrong");
    if (pr != expPair) rep.fail("conversion", show(v) + ": toPair() is wrong");
    if (calls != static_cast<int>(v.items.size())) rep.fail("conversion", show(v) + ": converter was called " + std::to_string(calls) + " times");
    e = check(r, v);
    if (!e.empty()) rep.fail("value", "after conversions: " + e);
    rep.nontrivial = v.t != T::UNKNOWN && !(v.t == T::BOOL);
    rep.hash = pbt::hashStr(show(v));
    rep.label(textKind == 1 ? "number as text" : textKind == 2 ? "text that is no number" : isInt(v.t) ? "integer" : v.t == T::DOUBLE ? "double" : v.t >= T::LIST && v.t <= T::PAIR ? "container" : "other");
}

// ---------------------------------------------------------------------------------------------- C24
// -1/0/1, 2: not equal but unordered (or order unspecified), 3: nothing is specified
int model(const Val& a, const Val& b) {
    if (a.t == T::UNKNOWN || b.t == T::UNKNOWN) return a.t == b.t ? 0 : 2;
    if (isInt(a.t) && isInt(b.t)) return icmp(a, b);
    bool na = isInt(a.t) || a.t == T::DOUBLE, nb = isInt(b.t) || b.t == T::DOUBLE;
    if (na && nb) {
        auto dbl = [](const Val& x) { return x.t == T::DOUBLE ? x.d : isSigned(x.t) ? static_cast<double>(x.i) : static_cast<double>(x.u); };
        double x = dbl(a), y = dbl(b);
        if ((isInt(a.t) && std::fabs(x) > 9e15) || (isInt(b.t) && std::fabs(y) > 9e15)) {
            if (x < y && y - x > 5000) return -1;
            if (x > y && x - y > 5000) return 1;
            return 3;
        }
        if (x == y) return 0;
        double diff = std::fabs(x - y);
        if (diff < 1.5e-8) return 3;
        return x < y ? -1 : 1;
    }
    if (a.t != b.t) return 2;
    switch (a.t) {
        case T::BOOL: return a.i < b.i ? -1 : a.i > b.i ? 1 : 0;
        case T::STRING: return a.s < b.s ? -1 : a.s > b.s ? 1 : 0;
        case T::BYTEARRAY: { auto x = bytes(a.s), y = bytes(b.s); return x == y ? 0 : x < y ? -1 : 1; }
        case T::CUSTOM: return a.s == b.s && a.i == b.i ? 0 : a.s != b.s ? (a.s < b.s ? -1 : 1) : a.i < b.i ? -1 : 1;
        default: {
            bool fuzzy = false, anyDiff = a.items.size() != b.items.size();
            int first = -9;
            for (size_t k = 0; k < a.items.size() && k < b.items.size(); ++k) {
                int c = model(a.items[k], b.items[k]);
                if (c == 3) { fuzzy = true; if (first == -9) first = 3; }
                else if (c != 0) { anyDiff = true; if (first == -9) first = c; }
            }
            if (!anyDiff) return fuzzy ? 3 : 0;
            if (a.t == T::MAP || a.t == T::LIST) return 2;  // order not specified
            if (first == 2 || first == 3) return 2;
            if (first != -9) return first;
            return a.items.size() < b.items.size() ? -1 : 1;
        }
    }
}
// small change of a value, or an independent one
Val near(Src& s, const Val& a, int depth) {
    Val v = a;
    if (s.chance(20)) return v;
    if (!v.items.empty() && s.chance(75)) {
        size_t k = s.below(static_cast<uint32_t>(v.items.size()));
        if (v.t == T::MAP) k |= 1;
        if (s.chance(20) && v.t != T::PAIR && v.t != T::MAP) v.items.pop_back();
        else v.items[k] = near(s, v.items[k], depth - 1);
        return v;
    }
    if (isInt(v.t)) {
        switch (s.below(4)) {
            case 0: return genInt(s, v.t);
            case 1: {  // same bits, other type
                int64_t bits = isSigned(v.t) ? v.i : static_cast<int64_t>(v.u);
                Val w;
                w.t = genIntType(s);
                switch (w.t) {
                    case T::BYTE_1: w.i = static_cast<int8_t>(bits); break;
                    case T::BYTE_2: w.i = static_cast<int16_t>(bits); break;
                    case T::BYTE_4: w.i = static_cast<int32_t>(bits); break;
                    case T::BYTE_8: w.i = bits; break;
                    case T::UBYTE_1: w.u = static_cast<uint8_t>(bits); break;
                    case T::UBYTE_2: w.u = static_cast<uint16_t>(bits); break;
                    case T::UBYTE_4: w.u = static_cast<uint32_t>(bits); break;
                    default: w.u = static_cast<uint64_t>(bits); break;
                }
                return w;
            }
            case 2: { Val w; w.t = T::DOUBLE; w.d = isSigned(v.t) ? static_cast<double>(v.i) : static_cast<double>(v.u); return w; }
            default: return genInt(s, genIntType(s));
        }
    }
    if (v.t == T::DOUBLE) {
        static const double delta[] = {1.0, 0.5, 1e-3, 1e-6, 1e-7, 2e-8, 1e-9, 1e-12};
        if (s.chance(70)) { v.d += (s.coin() ? 1 : -1) * delta[s.below(8)]; return v; }
        v.d = genDouble(s);
        return v;
    }
    if (v.t == T::STRING || v.t == T::BYTEARRAY) {
        switch (s.below(4)) {
            case 0: v.s += static_cast<char>(s.below(256)); break;
            case 1: if (!v.s.empty()) v.s.pop_back(); break;
            case 2: if (!v.s.empty()) v.s[s.below(static_cast<uint32_t>(v.s.size()))] = static_cast<char>(s.below(256)); break;
            default: v.t = v.t == T::STRING ? T::BYTEARRAY : T::STRING; break;
        }
        return v;
    }
    if (v.t == T::BOOL) { v.i = !v.i; return v; }
    if (v.t == T::CUSTOM) { v.i ^= 1; return v; }
    if (v.t == T::VECTOR || v.t == T::LIST) {
        if (s.coin()) v.items.push_back(genVal(s, 0));
        else v.t = v.t == T::VECTOR ? T::LIST : T::VECTOR;
        return v;
    }
    return genVal(s, depth);
}
std::string rel(const Variant& a, const Variant& b) {
    std::string r;
    r += a == b ? '=' : '.';
    r += a != b ? '!' : '.';
    r += a < b ? '<' : '.';
    r += a > b ? '>' : '.';
    r += a <= b ? 'l' : '.';
    r += a >= b ? 'g' : '.';
    return r;
}
void comparisonProp(Src& s, Rep& rep) {
    Val a = genVal(s, 2);
    Val b = s.chance(70) ? near(s, a, 2) : genVal(s, 2);
    if (rep.verbose) rep.desc << "a = " << show(a) << "\nb = " << show(b) << "\n";
    Variant x = build(a), y = build(b);
    auto laws = [&](const Variant& p, const Variant& q, const char* n) {
        std::string r = rel(p, q), t = rel(q, p);
        auto bad = [&](const std::string& m) { rep.fail("laws", std::string(n) + ": " + m + "; relations of (a,b) " + r + ", of (b,a) " + t); };
        bool eq = r[0] != '.', lt = r[2] != '.', gt = r[3] != '.', le = r[4] != '.', ge = r[5] != '.';
        if (r[0] != t[0]) bad("equality is not symmetric");
        if (eq == (r[1] != '.')) bad("!= is not the negation of ==");
        if (lt != (t[3] != '.') || gt != (t[2] != '.')) bad("a<b and b>a disagree");
        if (lt && gt) bad("both a<b and a>b");
        if (eq && (lt || gt)) bad("equal values are ordered");
        if (le != (lt || eq) || ge != (gt || eq)) bad("<= or >= disagrees with the other operators");
        return r;
    };
    std::string r = laws(x, y, "pair");
    int m = model(a, b);
    bool eq = r[0] != '.', lt = r[2] != '.', gt = r[3] != '.';
    if (m == 0 && !eq) rep.fail("compare", "expected a == b");
    if (m != 0 && m != 3 && eq) rep.fail("compare", "expected a != b");
    if (m == -1 && !lt) rep.fail("compare", "expected a < b");
    if (m == 1 && !gt) rep.fail("compare", "expected a > b");
    Variant c(x);
    laws(x, c, "copy");
    laws(x, x, "itself");
    if (!(x == c) || !(x == x)) rep.fail("compare", "a copy is not equal to its original");
    Variant mv(std::move(c));
    if (!(mv == x)) rep.fail("compare", "a moved copy is not equal to its original");
    if (!check(x, a).empty() || !check(y, b).empty()) rep.fail("compare", "comparing changed a value");
    rep.nontrivial = a.t != T::UNKNOWN && b.t != T::UNKNOWN && !same(a, b);
    rep.hash = pbt::hashStr(show(a) + "|" + show(b));
    rep.label(m == 0 ? "equal" : m == 3 ? "unspecified" : m == 2 ? "unordered" : "ordered");
}

// values of one shape
Val genShape(Src& s, int shape) {
    Val v;
    switch (shape) {
        case 0: return genInt(s, genIntType(s));
        case 1: v.t = T::DOUBLE; v.d = s.chance(10) ? (s.coin() ? HUGE_VAL : -HUGE_VAL) : s.range(-6, 6) / 2.0; return v;
        case 2: v.t = T::STRING; v.s = genStr(s); return v;
        case 3: v.t = T::BYTEARRAY; v.s = genStr(s); return v;
        case 4: v.t = T::BOOL; v.i = s.coin(); return v;
        case 5: case 6: {
            v.t = shape == 5 ? T::VECTOR : T::LIST;
            int n = s.range(0, 3);
            for (int k = 0; k < n; ++k) { Val e = genInt(s, genIntType(s)); if (s.chance(60)) { e = Val(); e.t = T::BYTE_4; e.i = s.range(0, 2); } v.items.push_back(e); }
            return v;
        }
        case 7:
            v.t = T::PAIR;
            v.items = {genShape(s, 4), genShape(s, 2)};
            return v;
        case 8:
            v.t = T::PAIR;
            v.items = {genInt(s, T::UBYTE_1), genShape(s, 5)};
            return v;
        default:
            v.t = T::VECTOR;
            for (int k = s.range(0, 2); k > 0; --k) v.items.push_back(genShape(s, 2));
            return v;
    }
}
void orderProp(Src& s, Rep& rep) {
    int shape = static_cast<int>(s.below(10));
    int n = s.range(3, 7);
    std::vector<Val> vals;
    std::vector<Variant> vs;
    std::string key;
    for (int k = 0; k < n; ++k) {
        vals.push_back(k > 0 && s.chance(25) ? vals[s.below(static_cast<uint32_t>(k))] : genShape(s, shape));
        vs.push_back(build(vals.back()));
        key += show(vals.back()) + "\n";
    }
    if (rep.verbose) rep.desc << key;
    for (int a = 0; a < n; ++a)
        for (int b = 0; b < n; ++b)
            for (int c = 0; c < n; ++c) {
                const Variant &x = vs[static_cast<size_t>(a)], &y = vs[static_cast<size_t>(b)], &z = vs[static_cast<size_t>(c)];
                std::string w = " for items " + std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(c);
                if (x < y && y < z && !(x < z)) rep.fail("order", "< is not transitive" + w);
                if (x == y && y == z && !(x == z)) rep.fail("order", "== is not transitive" + w);
                if (x == y && y < z && !(x < z)) rep.fail("order", "== and < disagree" + w);
                if (!(x < y) && !(y < x) && !(x == y)) rep.fail("order", "two values of one type are neither ordered nor equal" + w);
            }
    // keys of a map
    std::map<Variant, Variant> m;
    std::vector<std::pair<Val, int>> expect;
    for (int k = 0; k < n; ++k) {
        m[vs[static_cast<size_t>(k)]] = k;
        bool found = false;
        for (auto& e : expect) if (model(e.first, vals[static_cast<size_t>(k)]) == 0) { e.second = k; found = true; }
        if (!found) expect.push_back({vals[static_cast<size_t>(k)], k});
    }
    if (m.size() != expect.size()) rep.fail("map", "a map with these keys has " + std::to_string(m.size()) + " items, expected " + std::to_string(expect.size()));
    for (auto& e : expect) {
        auto it = m.find(build(e.first));
        if (it == m.end() || it->second.toInt64() != e.second) rep.fail("map", "looking up " + show(e.first) + " in a map with these keys fails");
    }
    const Variant* prev = nullptr;
    for (auto& e : m) {
        if (prev && !(*prev < e.first)) rep.fail("map", "map is not sorted");
        prev = &e.first;
    }
    // std::sort agrees with the model
    if (shape != 6) {
        std::vector<size_t> idx;
        for (size_t k = 0; k < vs.size(); ++k) idx.push_back(k);
        std::stable_sort(idx.begin(), idx.end(), [&](size_t a, size_t b) { return vs[a] < vs[b]; });
        for (size_t k = 0; k + 1 < idx.size(); ++k) if (model(vals[idx[k]], vals[idx[k + 1]]) == 1) rep.fail("sort", "sorted out of order: " + show(vals[idx[k]]) + " before " + show(vals[idx[k + 1]]));
    }
    rep.nontrivial = expect.size() >= 3;
    rep.hash = pbt::hashStr(key);
    rep.label("shape " + std::to_string(shape));
}

}  // namespace

int main(int argc, char** argv) {
    std::map<std::string, pbt::Prop> props;
    auto add = [&](const char* n, pbt::PropFn f, const char* rule, uint64_t q, uint64_t t) {
        pbt::Prop p;
        p.fn = f; p.rule = rule; p.quick = q; p.thorough = t;
        props[n] = p;
    };
    add("C22", valueProp, "random sequences of construct/copy/move/assign/clear/element access over four variants, each checked against model values after every step (under ASan/UBSan, "
        "with live-object counting); non-trivial: at least one copy or an assignment from/to an own element", 800000, 6000000);
    add("C23", conversionProp, "random values of every type, numeric text (boundary numbers, signs, blanks, fractions, overflow) and malformed text; every conversion against the model; non-trivial: not empty, not bool", 3000000, 60000000);
    add("C24", comparisonProp, "random pairs (70% near misses of each other) of nested values; all six operators against the model and the laws; non-trivial: two different values", 1200000, 30000000);
    add("C24/order", orderProp, "3 to 7 values of one shape; transitivity over all triples, use as map keys and in sort against the model; non-trivial: three different values", 150000, 5000000);
    return pbt::mainImpl(argc, argv, props);
}
