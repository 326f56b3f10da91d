// Stand-in for the cxxpool thread pool: the harness decides how tasks run.
// mc_pool::mode 0 runs each task when it is pushed (deterministic); the schedule engine installs its own hook.
#pragma once
#include <functional>
#include <future>
#include <memory>
#include <utility>
#include <vector>
namespace mc_pool {
using Task = std::function<void()>;
struct Hook {
    virtual ~Hook() = default;
    virtual void created(size_t workers) = 0;
    virtual void pushed(Task t) = 0;
    virtual void wait_all() = 0;
    virtual void destroyed() {}
};
inline Hook *&hook() { static Hook *h = nullptr; return h; }
}  // namespace mc_pool
namespace cxxpool {
class thread_pool {
public:
    thread_pool() : thread_pool(0) {}
    explicit thread_pool(size_t n) : n_(n) { if (mc_pool::hook()) mc_pool::hook()->created(n); }
    ~thread_pool() { if (mc_pool::hook()) { mc_pool::hook()->wait_all(); mc_pool::hook()->destroyed(); } }
    thread_pool(const thread_pool &) = delete;
    template <class F, class... A> auto push(F &&f, A &&... a) -> std::future<std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>> {
        using R = std::invoke_result_t<std::decay_t<F>, std::decay_t<A>...>;
        auto b = std::bind(std::forward<F>(f), std::forward<A>(a)...);
        auto p = std::make_shared<std::promise<R>>();
        auto fut = p->get_future();
        auto run = [p, b]() mutable {
            try {
                if constexpr (std::is_void_v<R>) { b(); p->set_value(); }
                else p->set_value(b());
            } catch (...) { p->set_exception(std::current_exception()); }
        };
        if (mc_pool::hook()) mc_pool::hook()->pushed(std::move(run));
        else run();
        return fut;
    }
    void clear() {}
    void add_threads(size_t n) { n_ += n; }
    size_t n_threads() const { return n_; }
    size_t n_tasks() const { return 0; }

private:
    size_t n_;
};
template <class It, class T> void get(It b, It e, std::vector<T> &v) {
    if (mc_pool::hook()) mc_pool::hook()->wait_all();
    for (; b != e; ++b) v.emplace_back(b->get());
}
template <class It> void get(It b, It e) {
    if (mc_pool::hook()) mc_pool::hook()->wait_all();
    for (; b != e; ++b) b->get();
}
template <class It> void wait(It b, It e) {
    if (mc_pool::hook()) mc_pool::hook()->wait_all();
    for (; b != e; ++b) b->wait();
}
}  // namespace cxxpool
