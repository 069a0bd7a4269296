// C15, C22, C23, C25, C26: serials, match rules, hex codec, bus addresses.
#include "common.h"
#include "dbus_matchrule.h"
#include <optional>
#include <unordered_set>

static std::string pick(const std::vector<std::string>& v) { return v[rnd(v.size())]; }

// ---------------------------------------------------------------- C15
static uint32_t make(unsigned kind)
{
    using namespace DBus::Message;
    MethodCallIdentifier id("/o", "i.f", "m");
    switch (kind % 6) {
    case 0:
        return MethodCall(id).getSerial();
    case 1:
        return MethodCall(id, MethodCallParametersIn(std::string("x")), Header::FLAGS_NO_REPLY_EXPECTED).getSerial();
    case 2:
        return MethodReturn(kind).getSerial();
    case 3:
        return Error(kind, "n", "m").getSerial();
    case 4:
        return Signal(id).getSerial();
    default:
        return Base().getSerial();
    }
}
static void serials()
{
    static const uint32_t starts[] = { 1, 2, 255, 256, 65535, 0x7ffffff0u, 0x7fffffffu, 0x80000000u, 0xfffffff0u, 0xfffffffeu, 0xffffffffu };
    for (int round = 0; round == 0 || more(); ++round) {
        for (uint32_t s0 : starts) {
            DBus::Message::Base::m_SerialCounter = s0;
            std::unordered_set<uint32_t> seen;
            unsigned k0 = rnd(6);
            for (unsigned i = 0; i < 100; ++i) {
                uint32_t s = make(round % 2 ? (unsigned)rnd(6) : k0 + i);
                ++cases;
                check(s != 0, "serial 0 given to message " + std::to_string(i) + " when the counter starts at " + std::to_string(s0));
                check(seen.insert(s).second, "serial " + std::to_string(s) + " given twice when the counter starts at " + std::to_string(s0));
            }
        }
        DBus::Message::Base::m_SerialCounter = round % 2 ? 1 : 0xffffff00u;
        std::vector<std::vector<uint32_t>> got(8);
        std::vector<std::thread> ts;
        std::atomic<bool> go { false };
        for (int t = 0; t < 8; ++t)
            ts.emplace_back([&, t] {
                while (!go)
                    ;
                for (int i = 0; i < 4000; ++i)
                    got[t].push_back(make(i + t));
            });
        go = true;
        for (auto& t : ts)
            t.join();
        std::unordered_set<uint32_t> seen;
        for (auto& v : got)
            for (uint32_t s : v) {
                ++cases;
                check(s != 0, "serial 0 given to a message created by one of 8 threads");
                check(seen.insert(s).second, "serial " + std::to_string(s) + " given twice to messages created by 8 threads");
            }
    }
}

// ---------------------------------------------------------------- C22, C23
struct Rule {
    bool bad = false;
    std::map<std::string, std::string> v;
};
static Rule parse(const std::string& s)
{
    // an element ends at a comma outside quotes
    Rule r;
    std::vector<std::string> el(1);
    bool q = false;
    for (char c : s) {
        if (c == '\'')
            q = !q;
        if (c == ',' && !q)
            el.push_back("");
        else
            el.back() += c;
    }
    for (auto& e : el) {
        if (e.empty())
            continue;
        auto p = e.find('=');
        if (p == std::string::npos) {
            r.bad = true;
            return r;
        }
        std::string v = e.substr(p + 1);
        if (v.size() >= 2 && v[0] == '\'' && v[v.size() - 1] == '\'')
            v = v.substr(1, v.size() - 2);
        r.v[e.substr(0, p)] = v;
    }
    if (r.v["path"] != "" && r.v["path_namespace"] != "")
        r.bad = true;
    return r;
}
static const std::vector<std::string> KEYS = { "type", "sender", "interface", "member", "path", "path_namespace", "destination", "arg0",
    "eavesdrop", "arg0path", "x", "", "Path", "paths", "senders", "membe" };
static std::string value()
{
    switch (rnd(8)) {
    case 0:
        return "";
    case 1:
        return "'";
    case 2:
        return "'a,b=c'";
    case 3:
        return "''";
    case 4:
        return pick({ "a", "'a", "a'", "'a=b'", "=", "'='", "'/a,sender='b'", "'\\''", "'a''b'", std::string("'\0'", 3) });
    case 5:
        return pick({ "/a/b", "org.x", "'/a/b'", "'org.x'" });
    default: {
        std::string s;
        for (size_t n = rnd(6); n; --n)
            s += pick({ "a", "b", "/", ".", ",", "=", "'", " ", "\xff" });
        return one_in(2) ? "'" + s + "'" : s;
    }
    }
}
static std::string rule_text()
{
    std::string s;
    if (one_in(6)) {
        for (size_t n = rnd(30); n; --n)
            s += pick({ "'", ",", "=", "a", "path", "sender", "member", "path_namespace", "interface", "x" });
        return s;
    }
    for (size_t n = rnd(6); n; --n) {
        if (!s.empty() || one_in(20))
            s += one_in(20) ? ",," : ",";
        s += pick(KEYS);
        if (!one_in(25))
            s += "=" + value();
    }
    if (one_in(20))
        s += ",";
    return s;
}
static void rules()
{
    while (more()) {
        std::string s = rule_text();
        // exactly sized: an access beyond the text is found
        std::string text(s.data(), s.size());
        text.shrink_to_fit();
        Rule want = parse(s);
        ++cases;
        g_context = "rule " + shown(s);
        std::optional<DBus::MatchRule> got;
        try {
            got.emplace(text, [](const DBus::Message::Signal&) {});
        } catch (const std::exception&) {
        }
        check(got.has_value() == !want.bad, "rule " + shown(s) + (want.bad ? " is accepted" : " is refused"));
        if (!got)
            continue;
        auto eq = [&](const char* k, const std::string& v) {
            check(v == want.v[k], "rule " + shown(s) + ": " + k + " is " + shown(v) + ", expected " + shown(want.v[k]));
        };
        eq("type", got->type);
        eq("sender", got->sender);
        eq("interface", got->interface);
        eq("member", got->member);
        eq("path", got->path);
        eq("path_namespace", got->path_namespace);
        eq("destination", got->destination);
    }
}
static void matching()
{
    static const std::vector<std::string> names = { "", "a", "b", "org.x", "org.xy", "org" };
    static const std::vector<std::string> paths = { "", "/", "/a", "/a/", "/a/b", "/ab", "/a/b/c", "/abc", "a", "/b", "//", "//a" };
    while (more()) {
        int calls = 0;
        DBus::MatchRule r("", [&](const DBus::Message::Signal&) { ++calls; });
        auto some = [&](const std::vector<std::string>& v) { return one_in(3) ? pick(v) : std::string(); };
        r.sender = some(names);
        r.interface = some(names);
        r.member = some(names);
        r.destination = some(names);
        if (one_in(2))
            r.path = some(paths);
        else
            r.path_namespace = one_in(3) ? "" : pick(paths);
        DBus::Message::Signal s(DBus::Message::MethodCallIdentifier("x", "y", "z"));
        s.m_Header.sender = one_in(2) ? r.sender : pick(names);
        s.m_Header.interface = one_in(2) ? r.interface : pick(names);
        s.m_Header.member = one_in(2) ? r.member : pick(names);
        s.m_Header.destination = one_in(2) ? r.destination : pick(names);
        s.m_Header.path = one_in(3) ? r.path : one_in(4) ? r.path_namespace + pick(paths) : pick(paths);
        const std::string &ns = r.path_namespace, &p = s.m_Header.path;
        bool below = p.size() >= ns.size() && p.substr(0, ns.size()) == ns && (p.size() == ns.size() || ns == "/" || p[ns.size()] == '/');
        bool want = (r.sender == "" || r.sender == s.m_Header.sender) && (r.interface == "" || r.interface == s.m_Header.interface)
            && (r.member == "" || r.member == s.m_Header.member) && (r.destination == "" || r.destination == s.m_Header.destination)
            && (r.path == "" || r.path == p) && (ns == "" || below);
        std::string what = "rule sender=" + r.sender + " interface=" + r.interface + " member=" + r.member + " destination=" + r.destination
            + " path=" + r.path + " path_namespace=" + ns + " and signal sender=" + s.m_Header.sender + " interface=" + s.m_Header.interface
            + " member=" + s.m_Header.member + " destination=" + s.m_Header.destination + " path=" + p;
        g_context = what;
        ++cases;
        check(r.isMatched(s) == want, what + (want ? " do not match" : " match"));
        r.invoke(s);
        check(calls == 1, "invoke calls the handler " + std::to_string(calls) + " times");
    }
}

// ---------------------------------------------------------------- C25
static void codec()
{
    auto one = [](const std::string& b, const std::string& before) {
        static const char d[] = "0123456789abcdef";
        std::string want = before, t;
        for (unsigned char c : b) {
            t += d[c >> 4];
            t += d[c & 15];
        }
        want += t;
        std::string got = before;
        ++cases;
        DBus::Utils::ConvertBinaryToHexString(got, b);
        check(got == want, "the digits of " + hex(b) + " appended to " + shown(before) + " give " + shown(got));
        got = before;
        DBus::Utils::ConvertHexStringToBinary(got, t);
        check(got == before + b, "decoding the digits " + t + " onto " + hex(before) + " gives " + hex(got));
    };
    for (int c = 0; c < 256; ++c) {
        one(std::string(1, (char)c), "");
        for (int d = 0; d < 256; d += 5)
            one(std::string(1, (char)c) + (char)d, "x");
    }
    while (more()) {
        std::string s, b;
        for (size_t n = rnd(40); n; --n)
            s += (char)rnd(256);
        for (size_t n = rnd(4); n; --n)
            b += (char)rnd(256);
        one(s, b);
    }
}

// ---------------------------------------------------------------- C26
static void addresses()
{
    auto expected = [](const std::string& a) {
        auto cut = [](const std::string& s) { return s.substr(0, s.find(",guid=")); };
        const std::string p = "unix:path=", q = "unix:abstract=";
        if (a.compare(0, p.size(), p) == 0)
            return cut(a.substr(p.size()));
        if (a.compare(0, q.size(), q) == 0)
            return cut(std::string(1, '\0') + a.substr(q.size()));
        return a;
    };
    auto one = [&](const std::string& a) {
        std::string w = expected(a), g;
        g_context = "address " + shown(a);
        ++cases;
        g = DBus::Platform::getSystemBus(a.c_str());
        check(g == w, "system bus address " + shown(a) + " gives " + shown(g));
        g = DBus::Platform::getSessionBus(a.c_str());
        check(g == w, "session bus address " + shown(a) + " gives " + shown(g));
        setenv("DBUS_SYSTEM_BUS_ADDRESS", a.c_str(), 1);
        setenv("DBUS_SESSION_BUS_ADDRESS", (a + "s").c_str(), 1);
        g = DBus::Platform::getSystemBus();
        check(g == w, "DBUS_SYSTEM_BUS_ADDRESS=" + shown(a) + " gives " + shown(g));
        g = DBus::Platform::getSessionBus();
        check(g == expected(a + "s"), "DBUS_SESSION_BUS_ADDRESS=" + shown(a + "s") + " gives " + shown(g));
    };
    unsetenv("DBUS_SYSTEM_BUS_ADDRESS");
    unsetenv("DBUS_SESSION_BUS_ADDRESS");
    check(DBus::Platform::getSystemBus() == "/var/run/dbus/system_bus_socket", "default system bus");
    check(DBus::Platform::getSessionBus() == "", "default session bus");
    check(DBus::Platform::getSystemBus(nullptr) == "/var/run/dbus/system_bus_socket", "default system bus");
    check(DBus::Platform::getSessionBus(nullptr) == "", "default session bus");
    while (more()) {
        std::string a;
        for (size_t n = rnd(6); n; --n)
            a += pick({ "unix:path=", "unix:abstract=", ",guid=", "/tmp/x", "0f", ",", "guid=", "unix:", "a", ";", "path=", "unix:tmpdir=/t", " " });
        if (one_in(2))
            a = pick({ "unix:path=", "unix:abstract=" }) + a;
        one(a);
    }
}

int main(int argc, char** argv)
{
    start(argc, argv);
    if (prop == "C15")
        serials();
    else if (prop == "C22")
        matching();
    else if (prop == "C23")
        rules();
    else if (prop == "C25")
        codec();
    else if (prop == "C26")
        addresses();
    else
        fail("no such property in this driver");
    return finish();
}
