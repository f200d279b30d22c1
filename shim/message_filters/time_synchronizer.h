// Exact-time synchroniser: calls back with the complete set of one stamp, then drops that and every older incomplete set.
#pragma once
#include <message_filters/subscriber.h>
#include <tuple>
namespace shim {
template<typename M> uint64_t stamp_of(const M& m) { return m.header.stamp.toNSec(); }
inline uint64_t stamp_of(const pcl::PCLPointCloud2& m) { return m.header.stamp * 1000ULL; }
template<typename P> uint64_t stamp_of(const pcl::PointCloud<P>& m) { return m.header.stamp * 1000ULL; }
}
namespace message_filters {
template<typename... M>
class TimeSynchronizer {
public:
    typedef std::tuple<typename shim::PtrTraits<M>::ConstPtr...> Set;
    explicit TimeSynchronizer(uint32_t q) : queue(q) {}
    template<typename... S> TimeSynchronizer(S&... s, uint32_t q) : queue(q) { connectInput(s...); }
    void connectInput(Subscriber<M>&... s) { connect(std::index_sequence_for<M...>{}, s...); }
    template<typename C> void registerCallback(const C& c) {
        callback = [c](const typename shim::PtrTraits<M>::ConstPtr&... m) { c(m...); };
    }
private:
    template<std::size_t... I> void connect(std::index_sequence<I...>, Subscriber<M>&... s) { (connect_one<I>(s), ...); }
    template<std::size_t I, typename S> void connect_one(S& s) {
        s.registerCallback([this](const typename S::MConstPtr& m) {
#ifdef __SANITIZE_THREAD__
            std::lock_guard<std::mutex> guard(mutex);  // held during the callback, as by message_filters
#endif
            const uint64_t t = shim::stamp_of(*m);
            std::get<I>(sets[t]) = m;
            const Set set = sets[t];
            if (complete(set, std::index_sequence_for<M...>{})) {
                sets.erase(sets.begin(), std::next(sets.find(t)));
                if (callback) std::apply(callback, set);
            } else {
                while (queue > 0 && sets.size() > queue) sets.erase(sets.begin());
            }
        });
    }
    template<std::size_t... I> static bool complete(const Set& s, std::index_sequence<I...>) { return (static_cast<bool>(std::get<I>(s)) && ...); }
    std::map<uint64_t, Set> sets;
    uint32_t queue;
    std::mutex mutex;
    std::function<void(const typename shim::PtrTraits<M>::ConstPtr&...)> callback;
};
}
