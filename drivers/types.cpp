// C01 C02 C03 C04 C05 C06 C07 C08 C09 on concrete values.
#include "values.h"

static void marshal_one(const Val& v, const std::string& pre)
{
    cases++;
    DBus::MessageOStream st;
    st.data = pre;
    std::string want = pre;
    enc(v, want);
    try {
        T::marshallData(real(v), st);
    } catch (std::exception& x) {
        fail("marshalling " + show(v) + " throws " + x.what());
    }
    check(st.data == want, "marshalling " + show(v) + " at offset " + std::to_string(pre.size()) + " gives " + hex(st.data.substr(0, 400)) + ", not " + hex(want.substr(0, 400)));
}
static void marshal(bool containers)
{
    for (char c : BASIC)
        for (int off = 0; off < 9 && !containers; off++)
            for (int i = 0; i < 40; i++)
                marshal_one(rval(std::string(1, c), 0), rtext(1) + std::string(off, 'x'));
    {
        // lengths of signatures
        for (int n : { 254, 255, 256, 257, 511, 512, 700 }) {
            Val g;
            g.code = 'g';
            g.s = std::string(n, 'y');
            if (n <= 255)
                marshal_one(g, "ab");
            else {
                cases++;
                DBus::MessageOStream st;
                bool thrown = false;
                try {
                    T::marshallData(real(g), st);
                } catch (std::exception&) {
                    thrown = true;
                }
                check(thrown, "a signature of " + std::to_string(n) + " bytes is written");
            }
        }
    }
    while (more())
        for (int i = 0; i < 300; i++) {
            std::string s = containers ? rsig(5) : std::string(1, BASIC[rnd(BASIC.size())]);
            marshal_one(rval(s, 4), std::string(rnd(17), 'p'));
        }
}
static void unmarshal_one(const std::string& sig, const std::string& bytes, size_t base, bool swap, const std::string& how)
{
    cases++;
    // the stream starts at the given offset: exact heap copy so that ASan sees every stray read
    std::string whole = std::string(base, '\1') + bytes;
    std::unique_ptr<uint8_t[]> heap(new uint8_t[whole.size()]);
    memcpy(heap.get(), whole.data(), whole.size());
    std::string desc = how + ": signature " + shown(sig) + ", bytes " + hex(bytes.substr(0, 600)) + " at offset " + std::to_string(base) + (swap ? ", other byte order" : "");
    g_context = desc;
    DBus::MessageIStream st(heap.get(), whole.size(), swap);
    for (size_t i = 0; i < base; i++)
        st.read();
    Rd r { bytes, 0, bytes.size(), base, swap };
    bool ok = true, rok = true;
    Val want, got;
    try {
        want = dec(sig, r);
    } catch (Bad&) {
        ok = false;
    }
    std::string err;
    try {
        T::Generic g = T::create(sig);
        T::unmarshallData(g, st);
        got = seen(g);
    } catch (std::exception& x) {
        rok = false;
        err = x.what();
    }
    if (prop == "C03" || prop == "C06")
        return; // memory, termination and nesting only
    check(ok == rok, desc + (ok ? " throws " + err : std::string(" is accepted as ") + show(got)));
    if (ok) {
        check(want == got, desc + " decodes to " + show(got) + ", not " + show(want));
        check(st.m_data.size() == bytes.size() - r.p, desc + " leaves " + std::to_string(st.m_data.size()) + " bytes unread, not " + std::to_string(bytes.size() - r.p));
    }
}
static std::string rbadsig()
{
    std::string s = rsig(3);
    static const std::string A = "ybnqiuxtdsogvha(){}\0z";
    for (unsigned n = rnd(3); n; n--) {
        size_t i = rnd(s.size() + 1);
        if (one_in(2) && i < s.size())
            s.erase(i, 1);
        else
            s.insert(i, 1, A[rnd(A.size())]);
    }
    if (s.empty())
        s = "(";
    return s;
}
static void nesting()
{
    for (int kind = 0; kind < 4; kind++)
        for (int n : { 1, 2, 10, 62, 63, 64, 65, 66, 67, 100, 200, 5000, 200000 }) {
            cases++;
            std::string sig, bytes;
            if (kind == 0) { // variants in variants
                sig = "v";
                for (int i = 1; i < n; i++)
                    bytes += std::string("\1v\0", 3);
                bytes += std::string("\1y\0*", 4);
            } else {
                if (n > 200)
                    continue;
                if (kind == 1) {
                    sig = std::string(n, '(') + "y" + std::string(n, ')');
                    bytes = "*";
                } else if (kind == 2) {
                    sig = std::string(n, 'a') + "y";
                    for (int i = 0; i < n; i++)
                        put(bytes, 4 * (n - 1 - i) + 1, 4, false);
                    bytes += "*";
                } else {
                    sig = "v";
                    for (int i = 1; i < n / 2; i++)
                        bytes += std::string("\1v\0", 3);
                    std::string in = std::string(n - n / 2, '(') + "y" + std::string(n - n / 2, ')');
                    if (in.size() > 255 || n < 2)
                        continue;
                    bytes += std::string(1, (char)in.size()) + in + std::string(1, '\0');
                    while (bytes.size() % 8)
                        bytes += '\0';
                    bytes += "*";
                }
            }
            std::unique_ptr<uint8_t[]> heap(new uint8_t[bytes.size()]);
            memcpy(heap.get(), bytes.data(), bytes.size());
            DBus::MessageIStream st(heap.get(), bytes.size(), false);
            bool rok = true;
            std::string err;
            try {
                T::Generic g = T::create(sig);
                T::unmarshallData(g, st);
            } catch (std::exception& x) {
                rok = false;
                err = x.what();
            }
            check(rok == (n <= 64), std::to_string(n) + " nested containers (" + shown(sig.substr(0, 80)) + ") " + (rok ? "are accepted" : "are refused: " + err));
        }
}
static void unmarshal(bool containers)
{
    if (containers)
        nesting();
    while (more())
        for (int i = 0; i < 200; i++) {
            std::string s = containers ? rsig(4) : std::string(1, BASIC[rnd(BASIC.size())]);
            size_t base = rnd(17);
            bool swap = rnd(2);
            std::string pre(base, 'x'), w = pre;
            enc(rval(s, 4), w, swap);
            std::string b = w.substr(base);
            unmarshal_one(s, b, base, swap, "well-formed");
            unmarshal_one(s, b + rtext(5), base, swap, "followed by more");
            if (!b.empty()) {
                unmarshal_one(s, b.substr(0, rnd(b.size())), base, swap, "cut short");
                unmarshal_one(s, b.substr(0, b.size() - 1), base, swap, "cut short");
                std::string c = b;
                for (unsigned k = 1 + rnd(3); k; k--)
                    c[rnd(c.size())] = (char)(one_in(2) ? rnd(6) : rng());
                unmarshal_one(s, c, base, swap, "altered");
            }
            if (containers)
                unmarshal_one(rbadsig(), one_in(2) ? b : rtext(40), base, swap, "arbitrary signature");
        }
}
static void hostile()
{
    // arrays of values that take no bytes
    const char* sigs[] = { "a", "a)", "ah", "a()", "a(", "a{", "a{}", "a{s", "a{sv", "a{hs}", "av", "(", "{", "()", "aaaa", "", "z", "(a", "{sa" };
    for (auto s : sigs)
        for (int n : { 1, 2, 8, 100 })
            for (bool sw : { false, true }) {
                std::string b;
                put(b, n, 4, sw);
                b += std::string(4, '\0') + std::string(n, '\0');
                unmarshal_one(s, b, 0, sw, "hostile");
                b.resize(b.size() / 2);
                unmarshal_one(s, b, 0, sw, "hostile");
            }
}
static void signatures()
{
    static const std::string A = "ysav(){}";
    // all short strings
    for (int n = 0; n <= 5; n++) {
        std::vector<int> ix(n, 0);
        for (;;) {
            std::string s;
            for (int i : ix)
                s += A[i];
            for (size_t p = 0; p < s.size(); p++) {
                cases++;
                std::string w = first(s, p), r = T::extractSignature(s, p);
                bool good = !w.empty();
                int a = 0;
                std::vector<char> st;
                for (char c : w) { // well nested and an element behind every a
                    if (c == '(' || c == '{')
                        st.push_back(c);
                    if (c == ')' || c == '}') {
                        if (st.empty() || st.back() != (c == ')' ? '(' : '{'))
                            good = false;
                        else
                            st.pop_back();
                    }
                }
                (void)a;
                if (!w.empty() && (w.back() == 'a' || w[0] == ')' || w[0] == '}'))
                    good = false;
                size_t k = w.find_first_not_of('a');
                if (k != std::string::npos && (w[k] == ')' || w[k] == '}'))
                    good = false;
                if (good)
                    check(r == w, "the complete type at " + std::to_string(p) + " of " + shown(s) + " is given as " + shown(r) + ", not " + shown(w));
            }
            int i = 0;
            while (i < n && ++ix[i] == (int)A.size())
                ix[i++] = 0;
            if (i == n)
                break;
        }
    }
    while (more()) {
        cases++;
        std::string pre = rbadsig(), t = rsig(6, true), post = rbadsig();
        std::string r = T::extractSignature(pre + t + post, pre.size());
        check(r == t, "the complete type at " + std::to_string(pre.size()) + " of " + shown(pre + t + post) + " is given as " + shown(r) + ", not " + shown(t));
    }
}
static void table()
{
    for (int c = 0; c < 256; c++) {
        cases++;
        std::string s(1, (char)c), name = shown(s);
        bool basic = c && BASIC.find((char)c) != std::string::npos, known = basic || (c && strchr("va({", c));
        if (c == '(')
            s = "(i)";
        if (c == '{')
            s = "{sv}";
        if (c == 'a')
            s = "as";
        T::Generic g = T::create(s);
        check(known ? seen(g).code == (char)c : g.empty(), "type code " + name + " creates " + show(seen(g)));
        check(!known || T::getAlignment(s) == al((char)c), "alignment of " + name + " is " + std::to_string(T::getAlignment(s)));
        if (known && c != '(') // an empty struct has no members to report
            check(T::getMarshallingSignature(g) == s, "signature of a value created from " + s + " is " + T::getMarshallingSignature(g));
        for (int k = 0; k < 2; k++) {
            bool thrown = false;
            try {
                if (k)
                    DBus::Validation::throwOnInvalidBasicType(std::string(1, (char)c));
                else
                    DBus::Validation::throwOnInvalidBasicType((char)c);
            } catch (std::exception&) {
                thrown = true;
            }
            if (c != 'h')
                check(thrown == !basic, "type code " + name + (thrown ? " refused" : " accepted") + " as a dict key");
        }
    }
    while (more())
        for (int i = 0; i < 200; i++) {
            cases++;
            std::string s = rsig(4, one_in(2));
            Val v = rval(s, 3);
            check(T::getMarshallingSignature(real(v)) == s, "signature of " + show(v) + " is " + T::getMarshallingSignature(real(v)));
            check(T::getAlignment(s) == al(s[0]), "alignment of " + s);
        }
}
static void access_one(const Val& v)
{
    cases++;
    std::string want;
    switch (v.code) {
    case 'n': want = std::to_string((int16_t)v.bits); break;
    case 'i': want = std::to_string((int32_t)v.bits); break;
    case 'x': want = std::to_string((int64_t)v.bits); break;
    case 's': case 'o': case 'g': want = v.s; break;
    default: want = std::to_string(v.bits);
    }
    T::Generic g = real(v);
    for (int d = 0; d < 3; d++) {
        std::string got = T::asString(g);
        check(got == want, "asString of " + show(v) + (d ? " in a variant" : "") + " is " + shown(got));
        if (v.code == 'y')
            check(T::asByte(g) == (uint8_t)v.bits, "asByte of " + show(v));
        if (v.code == 'u' || v.code == 'y' || v.code == 'q')
            check(T::asUint32(g) == (uint32_t)v.bits, "asUint32 of " + show(v) + " is " + std::to_string(T::asUint32(g)));
        T::Variant w;
        w.m_ContainedSignature = std::string(1, v.code);
        w.m_Value = g;
        g = w;
    }
}
static void accessors()
{
    for (int i = 0; i < 256; i++) {
        Val v;
        v.code = 'y';
        v.bits = i;
        access_one(v);
    }
    for (uint64_t x : { 0ull, 1ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull })
        for (char c : { 'i', 'u', 'x', 't' }) {
            Val v;
            v.code = c;
            v.bits = x;
            access_one(v);
        }
    while (more())
        for (int i = 0; i < 300; i++) {
            char c;
            do
                c = BASIC[rnd(BASIC.size())];
            while (c == 'd');
            access_one(rval(std::string(1, c), 0));
        }
}
int main(int argc, char** argv)
{
    start(argc, argv);
    if (prop == "C01")
        marshal(false);
    else if (prop == "C04")
        marshal(true);
    else if (prop == "C02")
        unmarshal(false);
    else if (prop == "C05")
        unmarshal(true);
    else if (prop == "C03" || prop == "C06") {
        nesting();
        hostile();
        unmarshal(true);
    } else if (prop == "C07")
        signatures();
    else if (prop == "C08")
        table();
    else if (prop == "C09")
        accessors();
    else
        fail("no such property in this driver");
    return finish();
}
