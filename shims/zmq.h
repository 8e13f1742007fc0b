// In-process, single-threaded stand-in for libzmq 4.3: messages, ROUTER/DEALER, PUSH/PULL, PAIR, PUB/XPUB/SUB,
// polling and the options the code base uses. Time and idling are controlled by the harness (namespace fz).
#ifndef VERIF_FAKE_ZMQ_H
#define VERIF_FAKE_ZMQ_H
#include <algorithm>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <string_view>
#include <vector>

#define ZMQ_PAIR 0
#define ZMQ_PUB 1
#define ZMQ_SUB 2
#define ZMQ_REQ 3
#define ZMQ_REP 4
#define ZMQ_DEALER 5
#define ZMQ_ROUTER 6
#define ZMQ_PULL 7
#define ZMQ_PUSH 8
#define ZMQ_XPUB 9
#define ZMQ_XSUB 10
#define ZMQ_SUBSCRIBE 6
#define ZMQ_UNSUBSCRIBE 7
#define ZMQ_RCVMORE 13
#define ZMQ_LINGER 17
#define ZMQ_SNDHWM 23
#define ZMQ_RCVHWM 24
#define ZMQ_XPUB_VERBOSE 40
#define ZMQ_HEARTBEAT_IVL 75
#define ZMQ_HEARTBEAT_TTL 76
#define ZMQ_HEARTBEAT_TIMEOUT 77
#define ZMQ_XPUB_VERBOSER 78
#define ZMQ_DONTWAIT 1
#define ZMQ_SNDMORE 2
#define ZMQ_POLLIN 1
#define ZMQ_POLLOUT 2
#define ZMQ_POLLERR 4

#ifdef FZ_THREADS // peers in threads of their own (used to run the repository's own tests)
#include <chrono>
#include <mutex>
#include <thread>
namespace fz {
inline std::recursive_mutex mutex;
}
#define FZ_LOCK std::lock_guard fzLock_(fz::mutex);
#else
#define FZ_LOCK
#endif

typedef void (zmq_free_fn)(void *data, void *hint);
struct alignas(void *) zmq_msg_t {
    unsigned char _[64];
};
struct zmq_pollitem_t {
    void *socket;
    int   fd;
    short events;
    short revents;
};

namespace fz {
inline constexpr unsigned kMagic = 0x2a51f00d;
struct Msg { // what a zmq_msg_t holds
    void        *data;
    std::size_t  size;
    zmq_free_fn *ffn;
    void        *hint;
    unsigned     magic;
    bool         more;
};
inline long        liveBuffers = 0; // contents handed to the library and not yet released
inline std::string misuse;          // a call the real library would not survive
inline void        bad(const std::string &m) {
    if (misuse.empty()) misuse = m;
}
inline Msg &of(zmq_msg_t *m) { return *reinterpret_cast<Msg *>(m); }

using Frames = std::vector<std::string>;
struct Socket;
struct Pipe {
    Socket            *end[2] = { nullptr, nullptr }; // [0] binds, [1] connects
    bool               closed[2] = { false, false };
    std::string        id[2];    // identity of end i as the other side's ROUTER knows it
    std::deque<Frames> in[2];    // messages waiting at end i
    std::string        endpoint;
};
struct Ctx {
    std::vector<Socket *>           sockets;
    std::map<std::string, Socket *> bound;
    std::vector<std::shared_ptr<Pipe>> pending; // connected before the endpoint was bound
    unsigned                        nextId = 0x10203040;
};
inline Ctx  network; // endpoints of other transports than inproc are not confined to one context
inline Ctx &names(Ctx &c, std::string_view endpoint) { return endpoint.starts_with("inproc://") ? c : network; }
struct Socket {
    Ctx                               *ctx;
    int                                type;
    std::vector<std::pair<std::shared_ptr<Pipe>, int>> pipes; // with my end
    std::size_t                        rrSend = 0, rrRecv = 0;
    Frames                             sending;
    Frames                             receiving;             // rest of the current multi-part message
    bool                               more = false;
    std::map<std::string, int>         subs;                  // SUB: own subscriptions, counted
    std::map<std::string, std::map<Pipe *, bool>> peerSubs;   // XPUB/PUB: topic -> pipes
    std::deque<std::string>            subEvents;             // XPUB: \1topic or \0topic to be received
    bool                               verbose = false, verboser = false;
    std::set<std::string>              endpoints;
    std::map<int, std::string>         options;
};
inline std::function<bool(long)>       onPoll;          // called when nothing is ready; false: the poll fails (context terminated)
inline std::function<short(int, short)> fdReady;        // readiness of plain file descriptors
inline std::function<bool()>           failSend;        // true: this attempt to send a frame returns EAGAIN
inline std::function<void(zmq_pollitem_t *, int, long)> onWait; // controlled schedules: waits until an item is ready or the time is up
inline void                          (*onCall)() = nullptr; // controlled schedules: a point at which other threads may run
inline long                            sentFrames = 0;
inline Socket                         &sock(void *s) { return *static_cast<Socket *>(s); }

inline bool isPub(int t) { return t == ZMQ_PUB || t == ZMQ_XPUB; }
inline bool isSub(int t) { return t == ZMQ_SUB || t == ZMQ_XSUB; }
inline void subscription(Socket &pub, Pipe *p, bool on, const std::string &topic) {
    auto &set = pub.peerSubs[topic];
    bool  notify;
    if (on) {
        notify = set.empty() || pub.verbose || pub.verboser;
        set[p] = true;
    } else {
        const bool had = set.erase(p) > 0;
        notify         = !had || set.empty() || pub.verboser;
        if (set.empty()) pub.peerSubs.erase(topic);
    }
    if (notify && pub.type == ZMQ_XPUB) pub.subEvents.push_back(std::string(1, on ? '\1' : '\0') + topic);
}
inline void attached(const std::shared_ptr<Pipe> &p) { // both ends are there: a SUB tells its subscriptions
    for (int i = 0; i < 2; ++i)
        if (p->end[i] && isSub(p->end[i]->type) && p->end[1 - i] && isPub(p->end[1 - i]->type))
            for (auto &[t, n] : p->end[i]->subs) subscription(*p->end[1 - i], p.get(), true, t);
}
inline std::string newId(Ctx &c) {
    std::string id(5, '\0');
    const auto  v = c.nextId += 0x01010107;
    for (int i = 0; i < 4; ++i) id[std::size_t(4 - i)] = char(v >> (8 * i));
    return id;
}
inline bool deliver(Socket &s, std::size_t pipeIndex, Frames &&m) {
    auto &[p, me] = s.pipes[pipeIndex];
    if (p->closed[1 - me]) return false;
    p->in[1 - me].push_back(std::move(m));
    return true;
}
inline void purge(Socket &s) { // pipes whose other side has gone and that are empty
    std::erase_if(s.pipes, [&](auto &e) { return e.first->closed[1 - e.second] && e.first->in[e.second].empty(); });
}
inline bool sendMessage(Socket &s, Frames &&m) {
    purge(s);
    switch (s.type) {
    case ZMQ_ROUTER: {
        const auto id = m.front();
        m.erase(m.begin());
        for (std::size_t i = 0; i < s.pipes.size(); ++i)
            if (s.pipes[i].first->id[1 - s.pipes[i].second] == id) {
                deliver(s, i, std::move(m));
                return true;
            }
        return true; // unroutable messages are dropped silently
    }
    case ZMQ_PUB:
    case ZMQ_XPUB: {
        const auto &topic = m.front();
        std::set<Pipe *> to;
        for (auto &[t, ps] : s.peerSubs)
            if (topic.starts_with(t))
                for (auto &[p, x] : ps) to.insert(p);
        for (std::size_t i = 0; i < s.pipes.size(); ++i)
            if (to.contains(s.pipes[i].first.get())) deliver(s, i, Frames(m));
        return true;
    }
    case ZMQ_SUB: errno = ENOTSUP; return false;
    default: {
        for (std::size_t k = 0; k < s.pipes.size(); ++k) {
            const auto i = s.rrSend++ % s.pipes.size();
            if (deliver(s, i, std::move(m))) return true;
        }
        errno = EAGAIN;
        return false;
    }
    }
}
inline bool ready(Socket &s) {
    if (!s.receiving.empty() || !s.subEvents.empty()) return true;
    for (auto &[p, me] : s.pipes)
        if (!p->in[me].empty()) return true;
    return false;
}
inline bool fetch(Socket &s) { // the next message into s.receiving
    if (!s.receiving.empty()) return true;
    if (!s.subEvents.empty()) {
        s.receiving = { s.subEvents.front() };
        s.subEvents.pop_front();
        return true;
    }
    for (std::size_t k = 0; k < s.pipes.size(); ++k) {
        const auto i   = s.rrRecv++ % s.pipes.size();
        auto &[p, me] = s.pipes[i];
        if (p->in[me].empty()) continue;
        s.receiving = std::move(p->in[me].front());
        p->in[me].pop_front();
        if (s.type == ZMQ_ROUTER) s.receiving.insert(s.receiving.begin(), p->id[1 - me]);
        if (s.type == ZMQ_SUB && std::none_of(s.subs.begin(), s.subs.end(), [&](auto &e) { return s.receiving.front().starts_with(e.first); })) {
            s.receiving.clear();
            return fetch(s);
        }
        purge(s);
        return true;
    }
    purge(s);
    return false;
}
} // namespace fz

inline int zmq_msg_init(zmq_msg_t *m) { FZ_LOCK
    fz::of(m) = { nullptr, 0, nullptr, nullptr, fz::kMagic, false };
    return 0;
}
inline int zmq_msg_init_data(zmq_msg_t *m, void *data, size_t size, zmq_free_fn *ffn, void *hint) { FZ_LOCK
    fz::of(m) = { data, size, ffn, hint, fz::kMagic, false };
    if (ffn) ++fz::liveBuffers;
    return 0;
}
inline int zmq_msg_init_size(zmq_msg_t *m, size_t size) { FZ_LOCK
    auto *p = new char[size + 1];
    return zmq_msg_init_data(m, p, size, [](void *d, void *) { delete[] static_cast<char *>(d); }, nullptr);
}
inline int zmq_msg_close(zmq_msg_t *m) { FZ_LOCK
    auto &x = fz::of(m);
    if (x.magic != fz::kMagic) {
        fz::bad("zmq_msg_close() of a message that is not initialised");
        errno = EFAULT;
        return -1;
    }
    if (x.ffn) {
        --fz::liveBuffers;
        x.ffn(x.data, x.hint);
    }
    x = { nullptr, 0, nullptr, nullptr, 0, false };
    return 0;
}
inline int zmq_msg_move(zmq_msg_t *dst, zmq_msg_t *src) { FZ_LOCK
    if (fz::of(src).magic != fz::kMagic || fz::of(dst).magic != fz::kMagic) {
        fz::bad("zmq_msg_move() with a message that is not initialised");
        errno = EFAULT;
        return -1;
    }
    zmq_msg_close(dst);
    fz::of(dst) = fz::of(src);
    return zmq_msg_init(src);
}
inline size_t zmq_msg_size(const zmq_msg_t *m) { FZ_LOCK return fz::of(const_cast<zmq_msg_t *>(m)).size; }
inline void  *zmq_msg_data(zmq_msg_t *m) { FZ_LOCK return fz::of(m).data; }
inline int    zmq_msg_more(const zmq_msg_t *m) { FZ_LOCK return fz::of(const_cast<zmq_msg_t *>(m)).more; }
inline int    zmq_msg_send(zmq_msg_t *m, void *socket, int flags) { FZ_LOCK
    if (fz::onCall) fz::onCall();
    auto &s = fz::sock(socket);
    auto &x = fz::of(m);
    if (x.magic != fz::kMagic) {
        fz::bad("zmq_msg_send() of a message that is not initialised");
        errno = EFAULT;
        return -1;
    }
    if (fz::failSend && fz::failSend()) {
        errno = EAGAIN;
        return -1;
    }
    const int n = int(x.size);
    s.sending.emplace_back(static_cast<const char *>(x.data), x.size);
    ++fz::sentFrames;
    if (!(flags & ZMQ_SNDMORE)) {
        fz::Frames all = s.sending;
        if (!fz::sendMessage(s, std::move(all))) {
            s.sending.pop_back();
            return -1;
        }
        s.sending.clear();
    }
    zmq_msg_close(m);
    zmq_msg_init(m);
    return n;
}
inline int zmq_msg_recv(zmq_msg_t *m, void *socket, int flags) { FZ_LOCK
    if (fz::onCall) fz::onCall();
    auto &s = fz::sock(socket);
    if (fz::of(m).magic != fz::kMagic) {
        fz::bad("zmq_msg_recv() into a message that is not initialised");
        errno = EFAULT;
        return -1;
    }
    zmq_msg_close(m);
    zmq_msg_init(m);
    if (!fz::fetch(s)) {
        if (!(flags & ZMQ_DONTWAIT)) fz::bad("a blocking receive without data");
        errno = EAGAIN;
        return -1;
    }
    const auto f = std::move(s.receiving.front());
    s.receiving.erase(s.receiving.begin());
    s.more = !s.receiving.empty();
    zmq_msg_init_size(m, f.size());
    std::memcpy(fz::of(m).data, f.data(), f.size());
    fz::of(m).more = s.more;
    return int(f.size());
}
inline void *zmq_ctx_new() { FZ_LOCK return new fz::Ctx; }
inline int   zmq_ctx_term(void *c) { FZ_LOCK
    if (!c) return -1;
    auto *x = static_cast<fz::Ctx *>(c);
    if (!x->sockets.empty()) fz::bad("zmq_ctx_term() with open sockets blocks for ever");
    delete x;
    return 0;
}
inline void *zmq_socket(void *c, int type) { FZ_LOCK
    auto *s = new fz::Socket{ static_cast<fz::Ctx *>(c), type };
    s->ctx->sockets.push_back(s);
    return s;
}
inline int zmq_close(void *p) { FZ_LOCK
    if (!p) return -1;
    auto *s = static_cast<fz::Socket *>(p);
    auto &c = *s->ctx;
    std::erase(c.sockets, s);
    std::erase_if(c.bound, [&](auto &e) { return e.second == s; });
    std::erase_if(fz::network.bound, [&](auto &e) { return e.second == s; });
    for (auto &[pipe, me] : s->pipes) {
        pipe->closed[me] = true;
        if (auto *o = pipe->end[1 - me]; o && !pipe->closed[1 - me] && fz::isPub(o->type)) {
            std::vector<std::string> topics;
            for (auto &[t, ps] : o->peerSubs)
                if (ps.contains(pipe.get())) topics.push_back(t);
            for (auto &t : topics) fz::subscription(*o, pipe.get(), false, t);
        }
        pipe->end[me] = nullptr;
    }
    std::erase_if(c.pending, [&](auto &e) { return e->closed[1]; });
    std::erase_if(fz::network.pending, [&](auto &e) { return e->closed[1]; });
    delete s;
    return 0;
}
inline int zmq_bind(void *p, const char *endpoint) { FZ_LOCK
    auto &s = fz::sock(p);
    auto &c = fz::names(*s.ctx, endpoint);
    if (c.bound.contains(endpoint)) {
        errno = EADDRINUSE;
        return -1;
    }
    c.bound[endpoint] = &s;
    for (auto it = c.pending.begin(); it != c.pending.end();) {
        if ((*it)->endpoint != endpoint) {
            ++it;
            continue;
        }
        auto pipe    = *it;
        pipe->end[0] = &s;
        s.pipes.emplace_back(pipe, 0);
        fz::attached(pipe);
        it = c.pending.erase(it);
    }
    return 0;
}
inline int zmq_connect(void *p, const char *endpoint) { FZ_LOCK
    auto &s = fz::sock(p);
    auto &c = fz::names(*s.ctx, endpoint);
    if (!std::string_view(endpoint).starts_with("inproc://") && !std::string_view(endpoint).starts_with("tcp://")) {
        errno = EINVAL;
        return -1;
    }
    if (std::string_view e(endpoint); e.starts_with("tcp://")) {
        const auto c    = e.rfind(':');
        const auto port = e.substr(c + 1);
        if (c <= 6 || port.empty() || port.size() > 5 || port.find_first_not_of("0123456789") != port.npos || std::stoi(std::string(port)) > 65535) {
            errno = EINVAL;
            return -1;
        }
    }
    auto pipe      = std::make_shared<fz::Pipe>();
    pipe->endpoint = endpoint;
    pipe->end[1]   = &s;
    pipe->id[0]    = fz::newId(*s.ctx);
    pipe->id[1]    = fz::newId(*s.ctx);
    s.pipes.emplace_back(pipe, 1);
    if (auto b = c.bound.find(endpoint); b != c.bound.end()) {
        pipe->end[0] = b->second;
        b->second->pipes.emplace_back(pipe, 0);
        fz::attached(pipe);
    } else {
        c.pending.push_back(pipe);
    }
    return 0;
}
inline int zmq_disconnect(void *, const char *) { FZ_LOCK return 0; }
inline int zmq_setsockopt(void *p, int option, const void *value, size_t size) { FZ_LOCK
    auto             &s = fz::sock(p);
    const std::string v(static_cast<const char *>(value), size);
    switch (option) {
    case ZMQ_SUBSCRIBE:
        if (s.type != ZMQ_SUB) break;
        ++s.subs[v];
        for (auto &[pipe, me] : s.pipes)
            if (auto *o = pipe->end[1 - me]; o && fz::isPub(o->type)) fz::subscription(*o, pipe.get(), true, v);
        return 0;
    case ZMQ_UNSUBSCRIBE: {
        if (s.type != ZMQ_SUB) break;
        auto it = s.subs.find(v);
        if (it == s.subs.end() || --it->second > 0) return 0;
        s.subs.erase(it);
        for (auto &[pipe, me] : s.pipes)
            if (auto *o = pipe->end[1 - me]; o && fz::isPub(o->type)) fz::subscription(*o, pipe.get(), false, v);
        return 0;
    }
    case ZMQ_XPUB_VERBOSE:
    case ZMQ_XPUB_VERBOSER: {
        if (s.type != ZMQ_XPUB || size != sizeof(int)) break;
        int on;
        std::memcpy(&on, value, sizeof(on));
        (option == ZMQ_XPUB_VERBOSE ? s.verbose : s.verboser) = on != 0;
        return 0;
    }
    default: s.options[option] = v; return 0;
    }
    errno = EINVAL;
    return -1;
}
inline int zmq_getsockopt(void *p, int option, void *value, size_t *size) { FZ_LOCK
    auto &s = fz::sock(p);
    if (option == ZMQ_RCVMORE && *size >= sizeof(int)) { // as in the library: an int, the rest of the variable is zeroed
        const int v = s.more;
        std::memset(value, 0, *size);
        std::memcpy(value, &v, sizeof(v));
        *size = sizeof(v);
        return 0;
    }
    errno = EINVAL;
    return -1;
}
inline int zmq_poll(zmq_pollitem_t *items, int n, long timeout) {
#ifdef FZ_THREADS
    const auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(timeout < 0 ? 1000000 : timeout);
#endif
    for (int round = 0;; ++round) {
        int count = 0;
#ifdef FZ_THREADS
        std::unique_lock lock(fz::mutex);
#endif
        for (int i = 0; i < n; ++i) {
            items[i].revents = 0;
            if (items[i].socket) {
                auto &s = fz::sock(items[i].socket);
                if ((items[i].events & ZMQ_POLLIN) && fz::ready(s)) items[i].revents |= ZMQ_POLLIN;
            } else if (fz::fdReady) {
                items[i].revents = short(fz::fdReady(items[i].fd, items[i].events) & items[i].events);
            }
            count += items[i].revents != 0;
        }
#ifdef FZ_THREADS
        lock.unlock();
        if (count || std::chrono::steady_clock::now() >= end) return count;
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        continue;
#endif
        if (count || timeout == 0 || round == 1) return count;
        if (fz::onWait) {
            fz::onWait(items, n, timeout);
            continue;
        }
        if (!fz::onPoll) return 0;
        if (!fz::onPoll(timeout)) {
            errno = EINTR;
            return -1;
        }
    }
}
inline const char *zmq_strerror(int e) { return std::strerror(e); }
inline int         zmq_errno() { FZ_LOCK return errno; }
#endif
