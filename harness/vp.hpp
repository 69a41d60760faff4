// Opaque types the containers are instantiated with. Nothing here has a
// definition: the analysis sees every use as an event.
#pragma once
#include <chrono>
#include <condition_variable>
#include <cstddef>
#include <functional>
#include <mutex>
#include <new>
#include <optional>
#include <utility>

// element whose special members may throw (copy/default/value construction,
// assignment) but whose move operations do not
struct Elem {
    Elem();
    explicit Elem(int seed);
    Elem(const Elem&);
    Elem(Elem&&) noexcept;
    Elem& operator=(const Elem&);
    Elem& operator=(Elem&&) noexcept;
    ~Elem();
    long payload;
};

struct Mtx {
    void lock();
    void unlock();
    bool try_lock();
    Mtx() noexcept;
    ~Mtx();
    Mtx(const Mtx&) = delete;
    Mtx& operator=(const Mtx&) = delete;
    long raw;
};

struct Dur {
    long ticks;
};

struct Cond {
    Cond() noexcept;
    ~Cond();
    Cond(const Cond&) = delete;
    Cond& operator=(const Cond&) = delete;
    void notify_one() noexcept;
    void notify_all() noexcept;
    void wait(std::unique_lock<Mtx>& lk);
    // returns 0 for no_timeout, 1 for timeout
    int timedWait(std::unique_lock<Mtx>& lk, const void* dur);
    template<class P>
    void wait(std::unique_lock<Mtx>& lk, P pred)
    {
        while (!pred()) {
            wait(lk);
        }
    }
    template<class D>
    std::cv_status wait_for(std::unique_lock<Mtx>& lk, const D& d)
    {
        return static_cast<std::cv_status>(timedWait(lk, &d));
    }
    template<class D>
    std::cv_status wait_until(std::unique_lock<Mtx>& lk, const D& d)
    {
        return static_cast<std::cv_status>(timedWait(lk, &d));
    }
    template<class D, class P>
    bool wait_for(std::unique_lock<Mtx>& lk, const D& d, P pred)
    {
        while (!pred()) {
            if (timedWait(lk, &d) == 1) {
                return pred();
            }
        }
        return true;
    }
    template<class D, class P>
    bool wait_until(std::unique_lock<Mtx>& lk, const D& d, P pred)
    {
        return wait_for(lk, d, pred);
    }
    long raw;
};

// user supplied callback
struct Callback {
    void operator()() const;
    long tag;
};
