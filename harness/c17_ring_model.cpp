// C17: one-threaded histories of a ring buffer, its pollers and gating sequences against a model.
#include "pbt.hpp"
#include <disruptor/RingBuffer.hpp>
#include <map>
#include <set>
using namespace opencmw::disruptor;

struct Event {
    std::int64_t seq  = -1;
    std::string  text = "-";
};
static std::string textOf(std::int64_t q, int tag) { return "event " + std::to_string(q) + "/" + std::to_string(tag); }

template<std::size_t SIZE, typename WS, bool Multi, template<std::size_t, typename> typename CS>
static void history(pbt::Src &s) {
    using RB   = RingBuffer<Event, SIZE, WS, CS>;
    using Poll = EventPoller<Event, SIZE, WS, CS>;
    auto         rb = std::make_shared<RB>();
    std::int64_t start = -1;
    if (Multi && s.below(3) == 0) { // far into the life of the ring
        const std::int64_t bases[] = { (1LL << 31) - 3, (1LL << 32) - 5, (1LL << 40) + 7, 1000, (1LL << 33) - 2 };
        start                      = bases[s.below(5)] + std::int64_t(s.below(6));
        rb->cursorSequence()->setValue(start);
        for (auto q = start - std::int64_t(SIZE) + 1; q <= start; ++q) rb->publish(q); // as if all earlier events had been published
    }
    struct P {
        std::shared_ptr<Poll> poller;
        int                   dependsOn = -1; // index of another poller
        std::int64_t          at = 0;
        bool                  registered = true;
    };
    std::vector<P>                      pollers;
    std::vector<std::pair<std::shared_ptr<Sequence>, std::int64_t>> extra; // gating sequences moved by hand
    std::int64_t                        claimed = start, visible = start;  // visible: the cursor of a single producer
    std::set<std::int64_t>              open;                             // claimed, not yet published
    std::map<std::int64_t, std::string> content;                          // by slot: what the last writer of the slot wrote
    std::map<std::int64_t, std::int64_t> published;                       // slot -> sequence published last
    int                                 tag = 0, polls = 0, refused = 0, delivered = 0, wraps = 0;
    const auto                          slot   = [](std::int64_t q) { return q & std::int64_t(SIZE - 1); };
    const auto                          minGate = [&] {
        std::int64_t m = claimed;
        if constexpr (!Multi) m = claimed;
        for (auto &p : pollers)
            if (p.registered) m = std::min(m, p.at);
        for (auto &e : extra) m = std::min(m, e.second);
        return m;
    };
    const auto cursor = [&] { return Multi ? claimed : visible; };
    const auto isPub  = [&](std::int64_t q) {
        if (!Multi) return q <= visible;
        auto i = published.find(slot(q));
        return i != published.end() && i->second == q;
    };
    const auto observe = [&] {
        s.check(rb->cursor() == cursor(), [&] { return "cursor() = " + std::to_string(rb->cursor()) + ", expected " + std::to_string(cursor()); });
        const auto remaining = std::int64_t(SIZE) - (claimed - minGate());
        s.check(rb->getRemainingCapacity() == remaining, [&] { return "getRemainingCapacity() = " + std::to_string(rb->getRemainingCapacity()) + ", expected " + std::to_string(remaining); });
        const auto n = 1 + int(s.below(SIZE + 1));
        s.check(rb->hasAvailableCapacity(n) == (n <= remaining), [&] { return "hasAvailableCapacity(" + std::to_string(n) + ") with " + std::to_string(remaining) + " free slots is " + std::to_string(rb->hasAvailableCapacity(n)); });
        auto mg = minGate();
        if (!Multi) mg = std::min(mg, visible);
        s.check(rb->getMinimumGatingSequence() == mg, [&] { return "getMinimumGatingSequence() = " + std::to_string(rb->getMinimumGatingSequence()) + ", expected " + std::to_string(mg); });
        const auto lo = std::max(start + 1, claimed - std::int64_t(SIZE) + 1);
        for (auto q = lo; q <= claimed + 1; ++q)
            s.check(rb->isAvailable(q) == isPub(q) && rb->isPublished(q) == isPub(q), [&] { return "isAvailable(" + std::to_string(q) + ") = " + std::to_string(rb->isAvailable(q)) + " at cursor " + std::to_string(cursor()); });
        if (lo <= claimed) { // the highest sequence that may be read without a gap
            const auto from = lo + std::int64_t(s.below(std::uint64_t(claimed - lo + 1)));
            auto       top  = from - 1;
            while (top + 1 <= cursor() && isPub(top + 1)) ++top;
            if (from <= cursor()) s.check(rb->getHighestPublishedSequence(from, cursor()) == top, [&] { return "getHighestPublishedSequence(" + std::to_string(from) + ", " + std::to_string(cursor()) + ") = " + std::to_string(rb->getHighestPublishedSequence(from, cursor())) + ", expected " + std::to_string(top); });
        }
        std::size_t gates = extra.size();
        for (auto &p : pollers) gates += p.registered;
        s.check(rb->getGatingSequences()->size() == gates, "number of gating sequences");
    };
    const auto write = [&](std::int64_t q) {
        Event &e = (*rb)[q];
        e.seq    = q;
        e.text   = textOf(q, ++tag);
        content[slot(q)] = e.text;
        open.insert(q);
    };
    const auto published_ = [&](std::int64_t q) {
        open.erase(q);
        published[slot(q)] = q;
        visible = std::max(visible, q);
        wraps += q - start > std::int64_t(SIZE);
    };
    s.check(rb->bufferSize() == std::int32_t(SIZE), "bufferSize()");
    const int steps = 4 + int(s.below(40));
    for (int st = 0; st < steps; ++st) {
        const auto free = std::int64_t(SIZE) - (claimed - minGate());
        switch (s.below(10)) {
        case 0:
        case 1: { // claim
            const auto n = 1 + std::int32_t(s.below(std::min<std::uint64_t>(SIZE + 1, 5)));
            std::int64_t hi = 0;
            if (n <= free && n < std::int32_t(SIZE) && s.coin()) {
                hi = rb->next(n);
            } else {
                bool full = false;
                try {
                    hi = rb->tryNext(n);
                } catch (const NoCapacityException &) {
                    full = true;
                }
                s.check(full == (n > free), [&] { return "tryNext(" + std::to_string(n) + ") with " + std::to_string(free) + " free slots " + (full ? "found no capacity" : "returned " + std::to_string(hi)); });
                if (full) {
                    ++refused;
                    break;
                }
            }
            s.check(hi == claimed + n, [&] { return "claimed up to " + std::to_string(hi) + " instead of " + std::to_string(claimed + n); });
            claimed = hi;
            for (auto q = hi - n + 1; q <= hi; ++q) write(q);
            break;
        }
        case 2:
        case 3: { // publish claimed events: any order with several producers, in order with one
            if (open.empty()) break;
            if (Multi) {
                auto it = open.begin();
                std::advance(it, std::ptrdiff_t(s.below(open.size())));
                const auto q = *it;
                rb->publish(q);
                published_(q);
            } else {
                const auto upTo = *std::next(open.begin(), std::ptrdiff_t(s.below(open.size())));
                rb->publish(upTo);
                while (!open.empty() && *open.begin() <= upTo) published_(*open.begin());
            }
            break;
        }
        case 4: { // claim, write and publish in one
            if (!Multi && !open.empty()) break;
            const bool   fail = s.below(8) == 0;
            std::int64_t q = -100;
            const auto   tr = [&](Event &&e, std::int64_t seq) {
                q      = seq;
                e.seq  = seq;
                e.text = textOf(seq, ++tag);
                content[slot(seq)] = e.text;
                if (fail) throw std::runtime_error("translator");
            };
            if (free > 0 && (SIZE > 1 || Multi) && s.coin()) {
                rb->publishEvent(tr);
            } else {
                const bool ok = rb->tryPublishEvent(tr);
                s.check(ok == (free > 0), [&] { return "tryPublishEvent() with " + std::to_string(free) + " free slots returned " + std::to_string(ok); });
                if (!ok) {
                    s.check(q == -100, "the translator ran although there was no room");
                    ++refused;
                    break;
                }
            }
            s.check(q == claimed + 1, [&] { return "event published as " + std::to_string(q) + " instead of " + std::to_string(claimed + 1); });
            claimed = q;
            published_(q);
            break;
        }
        case 5: { // a consumer joins
            if (pollers.size() >= 3 || (!Multi && !open.empty())) break;
            P p;
            if (!pollers.empty() && pollers.back().registered && s.coin()) {
                p.dependsOn = int(pollers.size()) - 1;
                p.poller    = rb->newPoller({ pollers.back().poller->sequence() });
            } else {
                p.poller = rb->newPoller();
            }
            rb->addGatingSequences({ p.poller->sequence() });
            p.at = cursor();
            s.check(p.poller->sequence()->value() == p.at, "a new gating sequence does not start at the cursor");
            pollers.push_back(std::move(p));
            break;
        }
        case 6: { // gating sequences come and go
            if (s.coin()) {
                if (extra.size() >= 2 || (!Multi && !open.empty())) break;
                auto q = std::make_shared<Sequence>();
                rb->addGatingSequences({ q });
                extra.emplace_back(q, cursor());
                s.check(q->value() == cursor(), "a new gating sequence does not start at the cursor");
            } else if (!extra.empty()) {
                const auto i = s.below(extra.size());
                if (s.coin()) {
                    const auto to = extra[i].second + std::int64_t(s.below(std::uint64_t(cursor() - extra[i].second + 1)));
                    extra[i].first->setValue(to);
                    extra[i].second = to;
                } else {
                    s.check(rb->removeGatingSequence(extra[i].first), "removeGatingSequence() of a registered sequence");
                    s.check(!rb->removeGatingSequence(extra[i].first), "removeGatingSequence() of an unregistered sequence");
                    extra.erase(extra.begin() + std::ptrdiff_t(i));
                }
            }
            break;
        }
        case 7:
            if (!pollers.empty() && pollers.back().registered && s.below(4) == 0) { // a consumer leaves
                s.check(rb->removeGatingSequence(pollers.back().poller->sequence()), "removeGatingSequence() of a registered poller");
                pollers.pop_back();
            }
            break;
        default: { // a consumer polls
            if (pollers.empty()) break;
            auto      &p    = pollers[s.below(pollers.size())];
            auto       gate = p.dependsOn < 0 ? cursor() : pollers[std::size_t(p.dependsOn)].at;
            auto       top  = p.at;
            while (top + 1 <= gate && isPub(top + 1)) ++top;
            const auto  stopAfter = s.below(4) == 0 ? std::int64_t(s.below(3)) : 1000;
            const int   how       = int(s.below(4)); // 0 void handler, 1 returns false, 2 throws, 3 true
            std::int64_t expect = p.at, count = 0;
            const auto  handle = [&](Event &e, std::int64_t q, bool last) {
                ++expect;
                s.check(q == expect && q <= top, [&] { return "polled " + std::to_string(q) + " instead of " + std::to_string(expect) + " (readable up to " + std::to_string(top) + ")"; });
                s.check(e.seq == q && e.text == content[slot(q)], [&] { return "slot of " + std::to_string(q) + " holds '" + e.text + "', written was '" + content[slot(q)] + "'"; });
                s.check(last == (q == top), [&] { return "end of batch flag " + std::to_string(last) + " at " + std::to_string(q) + " of " + std::to_string(top); });
                ++delivered;
                return count++ < stopAfter;
            };
            PollState state = PollState::UNKNOWN;
            bool      threw = false;
            auto      reach = top;
            if (how == 0) {
                state = p.poller->poll([&](Event &e, std::int64_t q, bool last) { (void) handle(e, q, last); });
            } else if (how == 2) {
                reach = std::min(top, p.at + stopAfter);
                try {
                    state = p.poller->poll([&](Event &e, std::int64_t q, bool last) {
                        if (!handle(e, q, last)) throw std::string("handler");
                    });
                } catch (const std::string &m) {
                    s.check(m == "handler", "another exception");
                    threw = true;
                }
                s.check(threw == (top > reach), "an exception of the handler was lost or invented");
            } else {
                reach = std::min(top, p.at + 1 + stopAfter);
                state = p.poller->poll([&](Event &e, std::int64_t q, bool last) -> bool { return handle(e, q, last); });
            }
            ++polls;
            s.check(p.poller->sequence()->value() == reach, [&] { return "after polling the sequence is " + std::to_string(p.poller->sequence()->value()) + ", expected " + std::to_string(reach); });
            const auto want = top > p.at ? PollState::Processing : cursor() > p.at ? PollState::Gating : PollState::Idle;
            if (!threw) s.check(state == want, [&] { return "poll() returned state " + std::to_string(int(state)) + ", expected " + std::to_string(int(want)); });
            p.at = reach;
            break;
        }
        }
        observe();
    }
    // everything written is still in its slot
    for (auto &[k, v] : content) s.check((*rb)[k].text == v, "the content of a slot changed");
    s.nontrivial(polls >= 1 && delivered >= 2 && (refused || wraps));
    if (refused) s.label("no capacity");
    if (wraps) s.label("wrapped");
    if (start > 1000000) s.label("high sequences");
    s.note("size=" + std::to_string(SIZE) + (Multi ? " multi" : " single") + " start=" + std::to_string(start) + " claimed=" + std::to_string(claimed - start) + " polls=" + std::to_string(polls) + " delivered=" + std::to_string(delivered) + " refused=" + std::to_string(refused));
}
PROPERTY(history, 60000, 3000000, "history of 4-43 claims (1-5 slots), publications (in any order with several producers), polls (handlers that stop or throw), consumers joining and leaving; ring of 1-16 slots; non-trivial = 2 events polled and the ring wrapped or refused a claim") {
    switch (s.below(7)) {
    case 0: history<1, BusySpinWaitStrategy, true, MultiThreadedStrategy>(s); break;
    case 1: history<2, BlockingWaitStrategy, true, MultiThreadedStrategy>(s); break;
    case 2: history<4, BusySpinWaitStrategy, true, MultiThreadedStrategy>(s); break;
    case 3: history<16, YieldingWaitStrategy, true, MultiThreadedStrategy>(s); break;
    case 4: history<2, BlockingWaitStrategy, false, SingleThreadedStrategy>(s); break;
    case 5: history<4, BusySpinWaitStrategy, false, SingleThreadedStrategy>(s); break;
    default: history<8, SleepingWaitStrategy, false, SingleThreadedStrategy>(s); break;
    }
}
PROPERTY(sequence, 20000, 500000, "random operations on a Sequence and minima over lists of sequences; non-trivial = 5 operations") {
    std::vector<std::shared_ptr<Sequence>> all;
    std::vector<std::int64_t>              model;
    for (std::size_t i = 0, n = s.below(4); i < n; ++i) {
        const auto v = s.coin() ? std::int64_t(s.below(20)) - 5 : s.integer<std::int64_t>() / 4;
        all.push_back(s.coin() && v == kInitialCursorValue ? std::make_shared<Sequence>() : std::make_shared<Sequence>(v));
        model.push_back(v);
    }
    const int steps = 1 + int(s.below(12));
    for (int k = 0; k < steps && !all.empty(); ++k) {
        const auto   i = s.below(all.size());
        const auto   v = s.coin() ? std::int64_t(s.below(20)) - 5 : s.integer<std::int64_t>() / 4;
        auto        &q = *all[i];
        switch (s.below(4)) {
        case 0: q.setValue(v); model[i] = v; break;
        case 1: s.check(q.addAndGet(v / 64) == model[i] + v / 64, "addAndGet()"); model[i] += v / 64; break;
        case 2: s.check(q.incrementAndGet() == model[i] + 1, "incrementAndGet()"); ++model[i]; break;
        default: {
            const auto expected = s.coin() ? model[i] : v + 1;
            const bool ok       = q.compareAndSet(expected, v);
            s.check(ok == (expected == model[i]), "compareAndSet() result");
            if (ok) model[i] = v;
        }
        }
        s.check(q.value() == model[i], [&] { return "value() = " + std::to_string(q.value()) + " instead of " + std::to_string(model[i]); });
    }
    const auto limit = s.coin() ? std::numeric_limits<std::int64_t>::max() : std::int64_t(s.below(30)) - 5;
    auto       want  = limit;
    for (auto v : model) want = std::min(want, v);
    s.check(detail::getMinimumSequence(all, limit) == want, [&] { return "minimum " + std::to_string(detail::getMinimumSequence(all, limit)) + " instead of " + std::to_string(want); });
    s.nontrivial(steps >= 5 && !all.empty());
    s.note("sequences=" + std::to_string(all.size()) + " operations=" + std::to_string(steps));
}
