// C36: the message codec delivers every message intact, ignores malformed ones, and releases every buffer.
#include "mdp_gen.hpp"
using namespace mg;
namespace zq = opencmw::zmq;
using MF     = mdp::MessageFormat;
struct Env { // clean counters around one case
    long live = fz::liveBuffers;
    Env() {
        fz::misuse.clear();
        fz::failSend = nullptr;
    }
    ~Env() { fz::failSend = nullptr; }
    void end(pbt::Src &s) {
        s.check(fz::misuse.empty(), "use of the messaging library: ", fz::misuse);
        s.check(fz::liveBuffers == live, fz::liveBuffers - live, " message buffers were not released (negative: released twice)");
    }
};
struct Link {
    zq::Context ctx;
    std::unique_ptr<zq::Socket> a, b;
    Link(int ta, int tb) : a(new zq::Socket(ctx, ta)), b(new zq::Socket(ctx, tb)) {
        (void) zmq_bind(b->zmq_ptr, "inproc://x");
        (void) zmq_connect(a->zmq_ptr, "inproc://x");
        if (tb == ZMQ_SUB) (void) zmq_setsockopt(b->zmq_ptr, ZMQ_SUBSCRIBE, "", 0);
    }
};
template<MF F>
static std::optional<Flat> recvFlat(pbt::Src &s, zq::Socket &k) {
    try {
        auto m = zq::receive<F>(k);
        if (!m) return {};
        return flat(*m);
    } catch (const std::exception &e) { s.check(false, "receive() threw: ", e.what()); } catch (...) { s.check(false, "receive() threw"); }
    return {};
}
PROPERTY(roundtrip, 20000, 300000, "1-5 messages of arbitrary binary fields over push/pull, publish/subscribe, dealer/router and router/dealer, sends failing with EAGAIN now and then; non-trivial = a field holds a NUL byte or more than 100 bytes, or a send was retried") {
    Env        env;
    const auto kind = s.below(4);
    bool       nontrivial = false;
    {
        Link l(kind == 0 ? ZMQ_PUSH : kind == 1 ? ZMQ_XPUB : ZMQ_DEALER, kind == 0 ? ZMQ_PULL : kind == 1 ? ZMQ_SUB : ZMQ_ROUTER);
        auto &to = kind == 3 ? *l.a : *l.b; // 3: the router answers
        auto &from = kind == 3 ? *l.b : *l.a;
        std::string peer;
        if (kind == 3) {
            sendRaw(l.a->zmq_ptr, { "hello" });
            peer = (*recvRaw(l.b->zmq_ptr))[0];
        }
        int fails = s.chance(1, 3) ? int(1 + s.below(6)) : 0;
        std::vector<Flat> sent;
        const auto        n = 1 + s.below(5);
        for (unsigned i = 0; i < n; ++i) {
            auto f = gen(s);
            if (kind == 3) f.sourceId = peer;
            s.note("send ", show(f));
            for (auto *x : { &f.sourceId, &f.service, &f.requestId, &f.data, &f.error, &f.rbac }) nontrivial |= x->find('\0') != std::string::npos || x->size() > 100;
            unsigned skip = s.below(9);
            fz::failSend  = [&] {
                if (fails > 0 && skip-- == 0) {
                    --fails;
                    skip = 0;
                    nontrivial = true;
                    return true;
                }
                return false;
            };
            bool ok;
            if (kind == 1 || kind == 3) ok = zq::send(message<MF::WithSourceId>(f), from).isValid();
            else ok = zq::send(message<MF::WithoutSourceId>(f), from).isValid();
            s.check(ok, "send() failed");
            if (kind != 1) f.sourceId.clear();
            sent.push_back(f);
            if (s.coin() || i + 1 == n) { // receive what is there
                for (auto &want : sent) {
                    auto got = kind == 1 || kind == 2 ? recvFlat<MF::WithSourceId>(s, to) : recvFlat<MF::WithoutSourceId>(s, to);
                    s.check(bool(got), "a message was lost");
                    if (kind == 2) {
                        s.check(!got->sourceId.empty(), "the sender's identity is missing");
                        got->sourceId.clear();
                    }
                    s.check(*got == want, "received ", show(*got), " instead of ", show(want));
                }
                sent.clear();
                s.check(!(kind == 1 || kind == 2 ? recvFlat<MF::WithSourceId>(s, to) : recvFlat<MF::WithoutSourceId>(s, to)), "a message appeared from nowhere");
            }
        }
        fz::failSend = nullptr;
    }
    env.end(s);
    if (nontrivial) s.nontrivial();
}
static fz::Frames garbage(pbt::Src &s, bool withId) {
    auto f = frames(gen(s), withId);
    switch (s.below(6)) {
    case 0: f.resize(1 + s.below(unsigned(f.size()))); break;
    case 1:
        for (unsigned n = 1 + s.below(4); n; --n) f.push_back(bytes(s));
        break;
    case 2: f[withId + 1] = bytes(s); break;                                    // command of any length and value
    case 3: f[withId + 1] = std::string(1, char(s.range(0, 255))); break;
    case 4: f[withId + 4] = s.coin() ? bytes(s) : s.oneOf<std::string>({ "://", "/x%20y", "/a b", "/%zz", "?", "#", "a:b:c", "/a?x=%", "//[", "http://h:99999999/", "/\xff", "/\n" }); break; // topic
    default: {
        const auto n = 1 + s.below(12);
        f.clear();
        for (unsigned i = 0; i < n; ++i) f.push_back(bytes(s));
    }
    }
    return f;
}
PROPERTY(malformed, 20000, 300000, "streams of valid and malformed multi-part messages: missing, extra or arbitrary frames, bad commands and topics; non-trivial = a malformed message is followed by a valid one") {
    Env        env;
    const bool withId = s.coin();
    bool       nontrivial = false;
    {
        Link l(ZMQ_PUSH, ZMQ_PULL);
        std::vector<fz::Frames> stream;
        const auto              n = 1 + s.below(7);
        bool                    bad = false;
        for (unsigned i = 0; i < n; ++i) {
            stream.push_back(s.chance(1, 3) ? frames(gen(s), withId) : garbage(s, withId));
            std::string t;
            for (auto &x : stream.back()) t += "[" + show(x) + "]";
            s.note(t);
            const bool v = bool(decode(stream.back(), withId));
            nontrivial |= v && bad;
            bad |= !v;
            sendRaw(l.a->zmq_ptr, stream.back());
        }
        for (auto &f : stream) {
            const auto want = decode(f, withId);
            const auto got  = withId ? recvFlat<MF::WithSourceId>(s, *l.b) : recvFlat<MF::WithoutSourceId>(s, *l.b);
            if (want) {
                s.check(bool(got), "a valid message was dropped: ", show(*want));
                s.check(*got == *want, "received ", show(*got), " instead of ", show(*want));
            } else {
                s.check(!got, "a malformed message was accepted as ", got ? show(*got) : "");
            }
        }
    }
    env.end(s);
    if (nontrivial) s.nontrivial();
}
PROPERTY(frame_ownership, 20000, 300000, "histories of up to 25 operations on up to 4 frames: construct, move, assign, swap, send (also failing), receive, destroy, compared with a model of their contents; non-trivial = at least one move assignment over a frame that holds data and one send") {
    Env env;
    bool moved = false, sentOne = false;
    {
        Link l(ZMQ_PUSH, ZMQ_PULL);
        std::vector<std::optional<zq::MessageFrame>> fr(4);
        std::vector<std::string>                     model(4);
        std::vector<bool>                            judged(4, true); // a frame that was moved from holds nothing in particular
        std::deque<std::string>                      wire;
        const auto n = 1 + s.below(25);
        for (unsigned i = 0; i < n; ++i) {
            const auto k = s.below(4), j = s.below(4);
            switch (s.below(9)) {
            case 0: {
                auto b = bytes(s);
                fr[k].reset();
                fr[k].emplace(IoBuffer(b.data(), b.size()));
                model[k] = b, judged[k] = true;
                break;
            }
            case 1: {
                auto b = bytes(s);
                fr[k].reset();
                fr[k].emplace(std::string(b));
                model[k] = b, judged[k] = true;
                break;
            }
            case 2: {
                fr[k].reset();
                const char c = char(s.range(0, 255));
                fr[k].emplace(c);
                model[k] = std::string(1, c), judged[k] = true;
                break;
            }
            case 3: {
                static constexpr std::string_view st[] = { std::string_view("\0", 1), "static text", "" };
                const auto                        w    = s.below(3);
                fr[k].reset();
                fr[k].emplace(zq::MessageFrame::fromStaticData(st[w]));
                model[k] = st[w], judged[k] = true;
                break;
            }
            case 4:
                if (!fr[k] || k == j) break;
                if (fr[j]) {
                    moved |= judged[j] && !model[j].empty();
                    *fr[j] = std::move(*fr[k]);
                } else fr[j].emplace(std::move(*fr[k]));
                s.note("move ", k, " to ", j);
                model[j] = model[k], judged[j] = judged[k];
                judged[k] = false;
                break;
            case 5:
                if (!fr[k] || !fr[j] || k == j) break;
                fr[k]->swap(*fr[j]);
                std::swap(model[k], model[j]);
                { bool t = judged[k]; judged[k] = judged[j]; judged[j] = t; }
                break;
            case 6: {
                if (!fr[k] || !judged[k]) break;
                bool fail = s.chance(1, 4);
                fz::failSend = [&] { return fail; };
                auto r = fr[k]->send(*l.a, ZMQ_DONTWAIT);
                fz::failSend = nullptr;
                s.note("send ", k, fail ? " fails" : "");
                s.check(r.isValid() == !fail, "send() reports ", r.isValid());
                if (!fail) {
                    wire.push_back(model[k]);
                    judged[k] = false, sentOne = true;
                }
                break;
            }
            case 7: {
                if (!fr[k]) fr[k].emplace();
                auto r = fr[k]->receive(*l.b, ZMQ_DONTWAIT);
                s.note("receive into ", k);
                s.check(r.isValid() == !wire.empty(), "receive() reports ", r.isValid());
                judged[k] = !wire.empty();
                if (!wire.empty()) {
                    model[k] = wire.front();
                    wire.pop_front();
                    s.check(r.value() == int(model[k].size()), "receive() reports ", r.value(), " bytes");
                }
                break;
            }
            default: fr[k].reset();
            }
            for (unsigned q = 0; q < 4; ++q)
                if (fr[q] && judged[q]) s.check(fr[q]->data() == model[q] && fr[q]->size() == model[q].size(), "frame ", q, " holds ", show(fr[q]->data()), " instead of ", show(model[q]));
        }
    }
    env.end(s);
    if (moved && sentOne) s.nontrivial();
}
