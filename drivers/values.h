// Reference implementation of the D-Bus type system, independent of the library.
#pragma once
#include "common.h"
namespace T = DBus::Type;
struct Val {
    char code = 0;
    uint64_t bits = 0;
    std::string s;          // text, or the contained signature of a variant
    std::string sig;        // complete signature of containers
    std::vector<Val> kids;
    bool operator==(const Val& o) const
    {
        return code == o.code && bits == o.bits && s == o.s && kids == o.kids
            && (code == 'v' || kids.empty() == o.kids.empty());
    }
};
static const std::string BASIC = "ybnqiuxtdsog";
static size_t al(char c)
{
    switch (c) {
    case 'y': case 'g': case 'v': return 1;
    case 'n': case 'q': return 2;
    case 'x': case 't': case 'd': case '(': case '{': return 8;
    case 'b': case 'i': case 'u': case 's': case 'o': case 'a': return 4;
    }
    return 1;
}
static int width(char c)
{
    switch (c) {
    case 'y': return 1;
    case 'n': case 'q': return 2;
    case 'b': case 'i': case 'u': return 4;
    case 'x': case 't': case 'd': return 8;
    }
    return 0;
}
static std::string show(const Val& v)
{
    std::string r(1, v.code);
    if (width(v.code))
        return r + ":" + std::to_string(v.bits);
    if (v.code == 's' || v.code == 'o' || v.code == 'g')
        return r + ":" + shown(v.s.size() < 200 ? v.s : v.s.substr(0, 200) + "...");
    if (v.code == 'v')
        r += "<" + v.s + ">";
    if (v.code == 'a')
        r += "<" + v.sig + ">";
    r += "[";
    for (size_t i = 0; i < v.kids.size() && i < 12; i++)
        r += (i ? "," : "") + show(v.kids[i]);
    return r + "]";
}
// ---------------------------------------------------------------- generators
static std::string rsig(int d, bool inarray = false)
{
    unsigned k = rnd(d > 0 ? 10 : 5);
    if (k < 5)
        return std::string(1, BASIC[rnd(BASIC.size())]);
    if (k == 5)
        return "v";
    if (k < 8)
        return "a" + rsig(d - 1, true);
    if (k == 9 && inarray)
        return "{" + std::string(1, BASIC[rnd(BASIC.size())]) + rsig(d - 1) + "}";
    std::string r = "(";
    for (unsigned n = 1 + rnd(4); n; n--)
        r += rsig(d - 1);
    return r + ")";
}
static std::string rtext(size_t max = 20, size_t big = 300)
{
    std::string r;
    size_t n = one_in(20) ? rnd(big) : rnd(max);
    for (size_t i = 0; i < n; i++)
        r += (char)(one_in(8) ? rnd(256) : 'a' + rnd(26));
    return r;
}
static std::vector<std::string> split(const std::string& s);
static std::string first(const std::string& s, size_t i)
{
    if (i >= s.size())
        return "";
    if (s[i] == 'a') {
        std::string r = first(s, i + 1);
        return "a" + r;
    }
    char o = s[i], c = o == '(' ? ')' : o == '{' ? '}' : 0;
    if (!c)
        return s.substr(i, 1);
    int n = 0;
    for (size_t j = i; j < s.size(); j++) {
        if (s[j] == '(' || s[j] == '{')
            n++;
        if (s[j] == ')' || s[j] == '}')
            if (--n == 0)
                return s.substr(i, j - i + 1);
    }
    return "";
}
static std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    for (size_t i = 0; i < s.size();) {
        r.push_back(first(s, i));
        i += r.back().size();
        if (r.back().empty())
            break;
    }
    return r;
}
static Val rval(const std::string& sig, int d)
{
    Val v;
    v.code = sig[0];
    if (int w = width(v.code)) {
        v.bits = interesting();
        if (w < 8)
            v.bits &= (1ull << (8 * w)) - 1;
        if (v.code == 'b')
            v.bits &= 1;
        return v;
    }
    v.sig = sig;
    switch (v.code) {
    case 's': case 'o':
        v.s = rtext();
        break;
    case 'g':
        v.s = one_in(20) ? std::string(rnd(256), 'y') : rtext(10, 256);
        break;
    case 'v':
        v.s = rsig(d > 0 ? d - 1 : 0);
        v.kids.push_back(rval(v.s, d - 1));
        break;
    case 'a':
        for (unsigned n = one_in(3) ? 0 : rnd(one_in(30) ? 60 : 4); n; n--)
            v.kids.push_back(rval(sig.substr(1), d - 1));
        break;
    default:
        for (auto& x : split(sig.substr(1, sig.size() - 2)))
            v.kids.push_back(rval(x, d - 1));
    }
    return v;
}
// ---------------------------------------------------------------- encoding
static void put(std::string& o, uint64_t x, int n, bool swap)
{
    for (int i = 0; i < n; i++)
        o += (char)(x >> (8 * (swap ? n - 1 - i : i)));
}
static void padto(std::string& o, size_t a)
{
    while (o.size() % a)
        o += '\0';
}
static void enc(const Val& v, std::string& o, bool swap = false)
{
    padto(o, al(v.code));
    if (int w = width(v.code))
        return put(o, v.bits, w, swap);
    switch (v.code) {
    case 's': case 'o':
        put(o, v.s.size(), 4, swap);
        o += v.s;
        o += '\0';
        break;
    case 'g':
        put(o, v.s.size(), 1, swap);
        o += v.s;
        o += '\0';
        break;
    case 'v':
        put(o, v.s.size(), 1, swap);
        o += v.s;
        o += '\0';
        enc(v.kids[0], o, swap);
        break;
    case 'a': {
        size_t at = o.size();
        put(o, 0, 4, swap);
        padto(o, al(v.sig[1]));
        size_t b = o.size();
        for (auto& k : v.kids)
            enc(k, o, swap);
        std::string n;
        put(n, o.size() - b, 4, swap);
        o.replace(at, 4, n);
        break;
    }
    default:
        for (auto& k : v.kids)
            enc(k, o, swap);
    }
}
// ---------------------------------------------------------------- to and from the library
static T::Generic real(const Val& v)
{
    switch (v.code) {
#define I_(c, C, t) case c: { T::C x; x.m_Value = (t)v.bits; return x; }
        I_('y', Byte, uint8_t) I_('b', Boolean, uint32_t) I_('n', Int16, int16_t) I_('q', Uint16, uint16_t)
        I_('i', Int32, int32_t) I_('u', Uint32, uint32_t) I_('x', Int64, int64_t) I_('t', Uint64, uint64_t)
#undef I_
    case 'd': { T::Double x; memcpy(&x.m_Value, &v.bits, 8); return x; }
    case 's': { T::String x; x.m_Value = v.s; return x; }
    case 'o': { T::ObjectPath x; x.m_Value = v.s; return x; }
    case 'g': { T::Signature x; x.m_Value = v.s; return x; }
    case 'v': { T::Variant x; x.m_Value = real(v.kids[0]); x.m_ContainedSignature = v.s; return x; }
    case 'a': { T::Array x; x.setSignature(v.sig); for (auto& k : v.kids) x.contents.push_back(real(k)); return x; }
    case '(': { T::Struct x; x.m_Signature = v.sig; for (auto& k : v.kids) x.m_Value.push_back(real(k)); return x; }
    case '{': { T::DictEntry x; x.set(real(v.kids[0]), real(v.kids[1])); return x; }
    }
    return T::Generic();
}
static Val seen(const T::Generic& g)
{
    Val v;
    const std::type_info& t = g.type();
#define I_(c, C, u) if (t == typeid(T::C)) { v.code = c; v.bits = (u)boost::any_cast<const T::C&>(g).m_Value; return v; }
    I_('y', Byte, uint8_t) I_('b', Boolean, uint32_t) I_('n', Int16, uint16_t) I_('q', Uint16, uint16_t)
    I_('i', Int32, uint32_t) I_('u', Uint32, uint32_t) I_('x', Int64, uint64_t) I_('t', Uint64, uint64_t)
#undef I_
    if (t == typeid(T::Double)) { v.code = 'd'; memcpy(&v.bits, &boost::any_cast<const T::Double&>(g).m_Value, 8); return v; }
#define S_(c, C) if (t == typeid(T::C)) { v.code = c; v.s = boost::any_cast<const T::C&>(g).m_Value; return v; }
    S_('s', String) S_('o', ObjectPath) S_('g', Signature)
#undef S_
    if (t == typeid(T::Variant)) { auto& x = boost::any_cast<const T::Variant&>(g); v.code = 'v'; v.s = x.m_ContainedSignature; v.kids.push_back(seen(x.m_Value)); return v; }
    if (t == typeid(T::Array)) { v.code = 'a'; for (auto& k : boost::any_cast<const T::Array&>(g).contents) v.kids.push_back(seen(k)); return v; }
    if (t == typeid(T::Struct)) { v.code = '('; for (auto& k : boost::any_cast<const T::Struct&>(g).m_Value) v.kids.push_back(seen(k)); return v; }
    if (t == typeid(T::DictEntry)) { auto& x = boost::any_cast<const T::DictEntry&>(g); v.code = '{'; v.kids.push_back(seen(x.m_Value.first)); v.kids.push_back(seen(x.m_Value.second)); return v; }
    v.code = g.empty() ? 0 : '?';
    return v;
}
// ---------------------------------------------------------------- decoding
struct Bad {};
struct Rd {
    const std::string& b;
    size_t p, e, base; // position, limit; base is added to p for alignment
    bool swap;
    void align(size_t a)
    {
        size_t k = (a - (p + base) % a) % a;
        if (p + k > e)
            throw Bad();
        p += k;
    }
    uint64_t num(int n)
    {
        if (e - p < (size_t)n)
            throw Bad();
        uint64_t x = 0;
        for (int i = 0; i < n; i++)
            x |= (uint64_t)(unsigned char)b[p + (swap ? n - 1 - i : i)] << (8 * i);
        p += n;
        return x;
    }
    std::string text(size_t n)
    {
        if (e - p < n || e - p - n < 1)
            throw Bad();
        std::string r = b.substr(p, n);
        p += n + 1;
        return r;
    }
};
static Val dec(const std::string& sig, Rd& r, int depth = 0)
{
    Val v;
    v.code = sig.empty() ? 0 : sig[0];
    v.sig = sig;
    if (depth >= 65 || !v.code || (BASIC + "va({").find(v.code) == std::string::npos)
        throw Bad();
    r.align(al(v.code));
    if (int w = width(v.code)) {
        v.bits = r.num(w);
        return v;
    }
    switch (v.code) {
    case 's': case 'o':
        v.s = r.text(r.num(4));
        return v;
    case 'g':
        v.s = r.text(r.num(1));
        return v;
    case 'v':
        v.s = r.text(r.num(1));
        v.kids.push_back(dec(v.s, r, depth + 1));
        return v;
    case 'a': {
        size_t n = r.num(4);
        std::string es = T::extractSignature(sig, 1);
        r.align(al(es[0]));
        if (r.e - r.p < n)
            throw Bad();
        Rd k { r.b, r.p, r.p + n, r.base, r.swap };
        while (k.p < k.e)
            v.kids.push_back(dec(es, k, depth + 1));
        r.p += n;
        return v;
    }
    case '(': {
        size_t i = 1;
        do {
            std::string m = T::extractSignature(sig, i);
            v.kids.push_back(dec(m, r, depth + 1));
            i += m.size();
        } while (i < sig.size() - 1);
        return v;
    }
    default: {
        if (sig.size() < 2 || BASIC.find(sig[1]) == std::string::npos)
            throw Bad();
        v.kids.push_back(dec(sig.substr(1, 1), r, depth + 1));
        v.kids.push_back(dec(T::extractSignature(sig, 2), r, depth + 1));
        return v;
    }
    }
}
