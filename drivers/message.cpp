// C13, C14, C16: outgoing messages and received ones, against an independent codec.
#include "values.h"
using namespace DBus;
typedef std::vector<Val> Vals;
static Val basic(char c, uint64_t n)
{
    Val v;
    v.code = c;
    v.bits = n;
    return v;
}
static Val text(char c, const std::string& s)
{
    Val v;
    v.code = c;
    v.s = s;
    return v;
}
static Val field(uint8_t code, const Val& x, const std::string& sig)
{
    Val var, st;
    var.code = 'v';
    var.s = sig;
    var.kids.push_back(x);
    st.code = '(';
    st.sig = "(yv)";
    st.kids = { basic('y', code), var };
    return st;
}
static std::string sigof(const Vals& ps)
{
    std::string r;
    for (auto& p : ps)
        r += width(p.code) || p.code == 's' || p.code == 'o' || p.code == 'g' || p.code == 'v' ? std::string(1, p.code) : p.sig;
    return r;
}
static Vals rparams(std::string* sig = nullptr)
{
    Vals r;
    std::string all;
    for (unsigned n = one_in(3) ? 0 : rnd(5); n; n--) {
        std::string s = rsig(3);
        if (all.size() + s.size() > 255)
            break;
        all += s;
        r.push_back(rval(s, 3));
    }
    if (sig)
        *sig = all;
    return r;
}
static std::string shown(const Vals& ps)
{
    std::string r = "[";
    for (auto& p : ps)
        r += (r.size() > 1 ? "," : "") + show(p);
    return r + "]";
}
static std::string body(const Vals& ps, bool swap)
{
    std::string o;
    for (auto& p : ps)
        enc(p, o, swap);
    return o;
}
// what a marshalled message says
struct Msg {
    uint8_t type, flags;
    uint32_t serial;
    std::map<int, Val> fields;
    Vals params;
};
static Msg parse(const std::string& b, const std::string& what)
{
    auto bad = [&](const std::string& why) { fail(what + " marshals to " + hex(b) + ": " + why); };
    Msg m;
    try {
        Rd r { b, 0, b.size(), 0, false };
        if (r.num(1) != 'l')
            bad("not the host's byte order mark");
        m.type = r.num(1);
        m.flags = r.num(1);
        if (r.num(1) != 1)
            bad("protocol version");
        size_t blen = r.num(4);
        m.serial = r.num(4);
        Val fs = dec("a(yv)", r);
        for (auto& f : fs.kids) {
            int c = f.kids[0].bits;
            if (m.fields.count(c))
                bad("header field " + std::to_string(c) + " twice");
            m.fields[c] = f.kids[1];
        }
        r.align(8);
        for (size_t i = r.p; i % 8; i--)
            ;
        if (b.size() - r.p != blen)
            bad("body length " + std::to_string(blen) + " but " + std::to_string(b.size() - r.p) + " bytes follow the header");
        std::string sig = m.fields.count(8) ? m.fields[8].kids[0].s : "";
        if (blen && sig.empty())
            bad("a body without signature");
        std::string rest = b.substr(r.p);
        Rd br { rest, 0, rest.size(), 0, false };
        for (auto& s : split(sig))
            m.params.push_back(dec(s, br));
        if (br.p != rest.size())
            bad("the body goes on behind its last argument");
        // padding bytes are zero: the canonical encoding is the same
        std::string o = b.substr(0, 12);
        enc(fs, o);
        padto(o, 8);
        o += body(m.params, false);
        if (o != b)
            bad("not the encoding of what it says, which is " + hex(o));
    } catch (Bad&) {
        bad("does not parse");
    }
    return m;
}
static void outgoing()
{
    while (more()) {
        cases++;
        int kind = 1 + rnd(4);
        Vals ps = rparams();
        std::string path = "/" + rtext(), iface = rtext(), member = rtext(), dest = rtext(), error = rtext();
        if (one_in(6))
            iface = "";
        if (one_in(4))
            dest = "";
        if (one_in(10))
            path = "";
        uint32_t reply = interesting(), flags = rnd(4);
        std::string out;
        uint32_t serial;
        std::string what;
        Message::MethodCallIdentifier id(path, iface, member);
        if (kind == 1) {
            Message::MethodCallParametersIn in;
            for (auto& p : ps)
                in.add(real(p));
            Message::MethodCall m(id, in, flags);
            serial = m.getSerial();
            out = m.marshall(dest);
            what = "a call of ";
        } else if (kind == 2) {
            Message::MethodReturn m(reply);
            for (auto& p : ps)
                m.addParameter(real(p));
            serial = m.getSerial();
            out = m.marshall(dest);
            what = "a return for ";
        } else if (kind == 3) {
            std::string text_ = rtext();
            ps = { text('s', text_) };
            Message::Error m(reply, error, text_);
            serial = m.getSerial();
            out = m.marshall(dest);
            what = "an error for ";
        } else {
            Message::Signal m(id);
            for (auto& p : ps)
                m.addParameter(real(p));
            serial = m.getSerial();
            out = m.marshall(dest);
            what = "a signal ";
        }
        what += shown(path) + " " + shown(iface) + " " + shown(member) + " to " + shown(dest) + " reply serial " + std::to_string(reply) + " error " + shown(error)
            + " parameters " + shown(ps);
        Msg m = parse(out, what);
        auto is = [&](bool ok, const std::string& w) { check(ok, what + " marshals to " + hex(out) + ": wrong " + w); };
        is(m.type == kind, "type");
        is((m.flags & 3) == (kind == 1 ? flags : 0), "flags");
        is(m.serial == serial, "serial");
        is(m.params == ps, "parameters " + shown(m.params));
        is(m.fields.count(8) ? m.fields[8].kids[0].s == sigof(ps) : ps.empty(), "signature");
        auto f = [&](int c, char code, const std::string& v, bool opt) {
            if (!m.fields.count(c))
                return is(opt && v.empty(), "field " + std::to_string(c) + " (missing)");
            Val& x = m.fields[c];
            is(x.s == std::string(1, code) && (code == 'u' ? x.kids[0].bits == reply : x.kids[0].s == v), "field " + std::to_string(c));
        };
        if (kind == 1 || kind == 4) {
            f(1, 'o', path, false);
            f(2, 's', iface, true);
            f(3, 's', member, false);
        }
        if (kind == 3)
            f(4, 's', error, false);
        if (kind == 2 || kind == 3)
            f(5, 'u', "", false);
        f(6, 's', dest, true);
        for (auto& x : m.fields) {
            std::string own = kind == 1 || kind == 4 ? "1236" : kind == 2 ? "56" : "456";
            is(x.first == 8 || own.find('0' + x.first) != std::string::npos, "extra field " + std::to_string(x.first));
        }
    }
}
static void incoming()
{
    while (more()) {
        cases++;
        int kind = prop == "C16" ? 3 : 1 + rnd(4);
        bool swap = one_in(2);
        Vals ps = rparams();
        if (kind == 3 && one_in(2)) {
            ps = { text(one_in(4) ? 'o' : 's', rtext()) };
            if (one_in(3))
                ps.push_back(rval("v", 2));
        }
        std::string b = body(ps, swap), sig = sigof(ps);
        std::map<int, std::string> t;
        Vals fs;
        for (int c : { 1, 2, 3, 4, 6, 7 })
            if (one_in(2)) {
                t[c] = rtext();
                fs.push_back(field(c, text(c == 1 ? 'o' : 's', t[c]), c == 1 ? "o" : "s"));
            }
        uint32_t reply = 0;
        if (one_in(2) || kind == 3)
            fs.push_back(field(5, basic('u', reply = interesting()), "u"));
        if (!sig.empty() || one_in(2))
            fs.push_back(field(8, text('g', sig), "g"));
        for (unsigned n = rnd(3); n; n--) {
            std::string s = rsig(2);
            int c = one_in(3) ? 0 : one_in(2) ? 9 : 10 + rnd(246);
            fs.push_back(field(c, rval(s, 2), s));
        }
        std::shuffle(fs.begin(), fs.end(), rng);
        uint8_t flags = rnd(256);
        uint32_t serial = interesting();
        Val all;
        all.code = 'a';
        all.sig = "a(yv)";
        all.kids = fs;
        T::Struct h;
        h.m_Signature = "(yyyyuua(yv))";
        for (auto& v : { basic('y', swap ? 'B' : 'l'), basic('y', kind), basic('y', flags), basic('y', 1), basic('u', b.size()), basic('u', serial), all })
            h.m_Value.push_back(real(v));
        std::string what = "message of type " + std::to_string(kind) + " serial " + std::to_string(serial) + " flags " + std::to_string(flags) + " byte order " + (swap ? "B" : "l")
            + " fields " + shown(fs) + " body " + shown(ps) + " = " + hex(b);
        auto eq = [&](const std::string& n, const std::string& got, const std::string& want) { check(got == want, what + ": " + n + " reads " + shown(got) + ", not " + shown(want)); };
        auto num = [&](const std::string& n, uint64_t got, uint64_t want) { check(got == want, what + ": " + n + " reads " + std::to_string(got) + ", not " + std::to_string(want)); };
        auto base = [&](const Message::Base& m) {
            eq("path", m.getHeaderPath(), t[1]);
            eq("interface", m.getHeaderInterface(), t[2]);
            eq("member", m.getHeaderMember(), t[3]);
            eq("destination", m.getHeaderDestination(), t[6]);
            eq("sender", m.getHeaderSender(), t[7]);
            num("serial", m.getSerial(), serial);
            num("reply serial", m.getReplySerial(), reply);
            num("reply expected", m.isReplyExpected(), !(flags & 1));
            num("parameter count", m.getParameterCount(), ps.size());
            for (size_t i = 0; i < ps.size(); i++)
                check(seen(m.getParameter(i)) == ps[i], what + ": parameter " + std::to_string(i) + " reads " + show(seen(m.getParameter(i))));
        };
        try {
            if (kind == 1) {
                Message::MethodCall m(h, b);
                base(m);
                eq("object", m.getObject(), t[1]);
                eq("interface", m.getInterface(), t[2]);
                eq("method", m.getMethod(), t[3]);
                eq("full name", m.getFullName(), t[2] + "." + t[3]);
            } else if (kind == 2) {
                Message::MethodReturn m(h, b);
                base(m);
                num("serial replied to", m.m_SerialReplyingTo, reply);
            } else if (kind == 3) {
                Message::Error m(h, b);
                if (prop != "C16")
                    base(m);
                num("serial of the call", m.getSerialOfReply(), reply);
                eq("text", m.getMessage(), ps.empty() || ps[0].code != 's' ? "" : ps[0].s);
            } else {
                Message::Signal m(h, b);
                base(m);
            }
        } catch (std::exception& x) {
            fail(what + " is refused: " + x.what());
        }
    }
}
int main(int argc, char** argv)
{
    start(argc, argv);
    if (prop == "C13")
        outgoing();
    else if (prop == "C14" || prop == "C16")
        incoming();
    else
        fail("no such property in this driver");
    return finish();
}
