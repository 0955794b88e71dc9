from edits import good, LP, D

# refactorings, one or two per function of the lock pool, the headers and the vector searches
ALL = " ".join("A%02d" % i for i in range(1, 27))
S2, S4 = "src/find_address_sse2.cpp", "src/find_address_sse41.cpp"
AI, AR, AF = D + "atomic_impl.hpp", D + "atomic_ref_impl.hpp", D + "atomic_flag_impl.hpp"
WG, WF, WE, LPH = D + "wait_ops_generic.hpp", D + "wait_ops_futex.hpp", D + "wait_ops_emulated.hpp", D + "lock_pool.hpp"
BC, BF, ST = D + "bitwise_cast.hpp", D + "bitwise_fp_cast.hpp", D + "storage_traits.hpp"
EX, EE, EG = D + "extra_ops_gcc_x86.hpp", D + "extra_ops_emulated.hpp", D + "extra_ops_generic.hpp"
CE, CX, CG = D + "core_operations_emulated.hpp", D + "core_arch_ops_gcc_x86.hpp", D + "core_ops_gcc_atomic.hpp"


def g(name, *es):
    good("rf-" + name, ALL, *es)


# --- lock_pool.cpp
g("try-lock", (LP, """            futex_operations::storage_type prev_state = futex_operations::load(m_mutex, boost::memory_order_relaxed);
            if (BOOST_LIKELY((prev_state & mutex_bits::locked) == 0u))
            {
                futex_operations::storage_type new_state = prev_state | mutex_bits::locked;
                if (BOOST_LIKELY(futex_operations::compare_exchange_strong(m_mutex, prev_state, new_state, boost::memory_order_acquire, boost::memory_order_relaxed)))
                    return;
            }

            atomics::thread_pause();
""", """            if (BOOST_LIKELY(try_lock()))
                return;

            atomics::thread_pause();
"""), (LP, """    //! Locks the mutex for a short duration
    void short_lock() noexcept
    {
        long_lock();
    }

    //! Locks the mutex for a long duration
    void long_lock() noexcept
    {
        for""", """    //! Attempts to take the mutex without blocking
    bool try_lock() noexcept
    {
        futex_operations::storage_type prev_state = futex_operations::load(m_mutex, boost::memory_order_relaxed);
        if ((prev_state & mutex_bits::locked) != 0u)
            return false;

        return futex_operations::compare_exchange_strong(m_mutex, prev_state, prev_state | mutex_bits::locked, boost::memory_order_acquire, boost::memory_order_relaxed);
    }

    //! Locks the mutex for a short duration
    void short_lock() noexcept
    {
        long_lock();
    }

    //! Locks the mutex for a long duration
    void long_lock() noexcept
    {
        for"""))
g("slow-path-continue", (LP, """            if (BOOST_LIKELY((prev_state & mutex_bits::locked) == 0u))
            {
                futex_operations::storage_type new_state = prev_state | mutex_bits::locked;
                if (BOOST_LIKELY(futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_acquire, boost::memory_order_relaxed)))
                    return;
            }
            else
            {
                futex_operations::storage_type new_state = prev_state | mutex_bits::contended;
                if (BOOST_LIKELY(futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_relaxed, boost::memory_order_relaxed)))
                {
                    atomics::detail::futex_wait(&m_mutex, new_state, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);
                    prev_state = futex_operations::load(m_mutex, boost::memory_order_relaxed);
                }
            }
""", """            const bool is_locked = (prev_state & mutex_bits::locked) != 0u;
            const futex_operations::storage_type new_state = prev_state | (is_locked ? mutex_bits::contended : mutex_bits::locked);
            if (!is_locked)
            {
                if (futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_acquire, boost::memory_order_relaxed))
                    return;
                continue;
            }

            if (!futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_relaxed, boost::memory_order_relaxed))
                continue;

            atomics::detail::futex_wait(&m_mutex, new_state, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);
            prev_state = futex_operations::load(m_mutex, boost::memory_order_relaxed);
"""))
g("unlock-do-while", (LP, """        futex_operations::storage_type new_state;
        while (true)
        {
            new_state = (prev_state & (~mutex_bits::locked)) + mutex_bits::counter_one;
            if (BOOST_LIKELY(futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_release, boost::memory_order_relaxed)))
                break;
        }

        if ((prev_state & mutex_bits::contended) != 0u)
        {
            int woken_count = atomics::detail::futex_signal(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);
            if (woken_count == 0)
            {
                prev_state = new_state;
                new_state &= ~mutex_bits::contended;
                futex_operations::compare_exchange_strong(m_mutex, prev_state, new_state, boost::memory_order_relaxed, boost::memory_order_relaxed);
            }
        }
""", """        futex_operations::storage_type new_state;
        do
        {
            new_state = prev_state + mutex_bits::counter_one;
            new_state &= ~mutex_bits::locked;
        }
        while (!futex_operations::compare_exchange_weak(m_mutex, prev_state, new_state, boost::memory_order_release, boost::memory_order_relaxed));

        if ((new_state & mutex_bits::contended) == 0u)
            return;

        if (atomics::detail::futex_signal(&m_mutex, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG) > 0)
            return;

        // No threads were blocked, remove the mark unless the state has changed
        futex_operations::compare_exchange_strong(m_mutex, new_state, new_state & ~mutex_bits::contended, boost::memory_order_relaxed, boost::memory_order_relaxed);
"""))
g("wait-for-count-first", (LP, """inline void wait_state::wait(lock_state& state) noexcept
{
    const futex_operations::storage_type prev_cond = futex_operations::load(m_cond, boost::memory_order_relaxed);
    ++m_waiter_count;

    state.unlock();

    do
    {
        int err = atomics::detail::futex_wait(&m_cond, prev_cond, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG);
        if (err < 0)
        {
            err = errno;
            if (BOOST_LIKELY(err != EINTR))
                break;
        }
    }
    while (futex_operations::load(m_cond, boost::memory_order_relaxed) == prev_cond);
""", """inline void wait_state::wait(lock_state& state) noexcept
{
    m_waiter_count += 1u;
    const futex_operations::storage_type prev_cond = futex_operations::load(m_cond, boost::memory_order_relaxed);

    state.unlock();

    while (true)
    {
        if (atomics::detail::futex_wait(&m_cond, prev_cond, BOOST_ATOMIC_DETAIL_FUTEX_PRIVATE_FLAG) < 0 && errno != EINTR)
            break;

        if (futex_operations::load(m_cond, boost::memory_order_relaxed) != prev_cond)
            break;
    }
"""))
g("rel-timeout-helper", (LP, """    futex_timespec ts{};

    const std::chrono::nanoseconds::rep sec = rel_timeout.count() / 1000000000;
    if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
    {
        ts.tv_sec = static_cast< decltype(ts.tv_sec) >(sec);
        ts.tv_nsec = static_cast< decltype(ts.tv_nsec) >(rel_timeout.count() % 1000000000);
    }
    else
    {
        ts.tv_sec = (std::numeric_limits< decltype(ts.tv_sec) >::max)();
        ts.tv_nsec = static_cast< decltype(ts.tv_nsec) >(999999999);
    }

    int err""", """    const futex_timespec ts = to_futex_timespec(rel_timeout.count());

    int err"""), (LP, """//! Blocks in the wait operation until notified
inline void wait_state::wait(lock_state& state) noexcept
{
    const futex""", """//! Converts a duration to a timespec
inline futex_timespec to_futex_timespec(std::chrono::nanoseconds::rep nsec) noexcept
{
    constexpr std::chrono::nanoseconds::rep nsec_per_sec = 1000000000;
    futex_timespec ts{};
    const std::chrono::nanoseconds::rep sec = nsec / nsec_per_sec;
    if (BOOST_UNLIKELY(sec > (std::numeric_limits< decltype(ts.tv_sec) >::max)()))
    {
        ts.tv_sec = (std::numeric_limits< decltype(ts.tv_sec) >::max)();
        ts.tv_nsec = 999999999;
        return ts;
    }

    ts.tv_nsec = static_cast< decltype(ts.tv_nsec) >(nsec - sec * nsec_per_sec);
    ts.tv_sec = static_cast< decltype(ts.tv_sec) >(sec);
    return ts;
}

//! Blocks in the wait operation until notified
inline void wait_state::wait(lock_state& state) noexcept
{
    const futex"""))
g("notify-common", (LP, """inline void wait_state::notify_one(lock_state& state) noexcept
{
    futex_extra_operations::opaque_add(m_cond, 1u, boost::memory_order_relaxed);

    if (BOOST_LIKELY(m_waiter_count > 0u))
    {
        // Move one""", """inline void wait_state::notify_one(lock_state& state) noexcept
{
    futex_operations::fetch_add(m_cond, 1u, boost::memory_order_relaxed);

    if (m_waiter_count != 0u)
    {
        // Move one"""), (LP, """    if (BOOST_LIKELY(m_waiter_count > 0u))
    {
        // Move blocked threads""", """    const std::size_t waiters = m_waiter_count;
    if (waiters == 0u)
        return;

    {
        // Move blocked threads"""))
g("erase-swap", (LP, """        pa[index] = pa[last_index];
        pa[last_index] = nullptr;

        wait_state* last_w = pw[last_index];
        pw[index] = last_w;
        pw[last_index] = w;

        last_w->m_index = index;
        w->m_index = last_index;
    }
    else
    {
        pa[index] = nullptr;
    }

    --m_header->size;
""", """        std::swap(pw[index], pw[last_index]);
        pa[index] = pa[last_index];
        pw[index]->m_index = index;
        pw[last_index]->m_index = last_index;
    }

    pa[last_index] = nullptr;
    m_header->size = last_index;
"""), (LP, "#include <cstddef>\n", "#include <cstddef>\n#include <utility>\n"))
g("find-early", (LP, """        wait_state* ws = nullptr;
        if (BOOST_LIKELY(m_header != nullptr))
        {
            const volatile void* const* addrs = get_atomic_pointers();
            const std::size_t size = m_header->size;
            std::size_t pos = find_address(addr, addrs, size);
            if (pos < size)
                ws = get_wait_states()[pos];
        }

        return ws;
""", """        if (m_header == nullptr)
            return nullptr;

        const std::size_t pos = find_address(addr, get_atomic_pointers(), m_header->size);
        return pos < m_header->size ? get_wait_states()[pos] : nullptr;
"""))
g("create-ensure-capacity", (LP, """    if (BOOST_UNLIKELY(m_header == nullptr))
    {
        m_header = allocate_buffer(initial_capacity);
        if (BOOST_UNLIKELY(m_header == nullptr))
            return nullptr;
    }
    else
    {
        wait_state* ws = this->find(addr);
        if (BOOST_LIKELY(ws != nullptr))
            return ws;

        if (BOOST_UNLIKELY(m_header->size == m_header->capacity))
        {
            header* new_header = allocate_buffer(m_header->capacity * 2u, m_header);
            if (BOOST_UNLIKELY(new_header == nullptr))
                return nullptr;
            boost::alignment::aligned_free(static_cast< void* >(m_header));
            m_header = new_header;
        }
    }
""", """    wait_state* ws = this->find(addr);
    if (ws != nullptr)
        return ws;

    header* const old_header = m_header;
    if (old_header == nullptr || old_header->size >= old_header->capacity)
    {
        header* new_header = allocate_buffer(old_header != nullptr ? old_header->capacity * 2u : initial_capacity, old_header);
        if (new_header == nullptr)
            return nullptr;
        m_header = new_header;
        if (old_header != nullptr)
            boost::alignment::aligned_free(old_header);
    }
"""))
g("create-tail", (LP, """    wait_state** pw = get_wait_states() + index;
    wait_state* w = *pw;
    if (BOOST_UNLIKELY(w == nullptr))
    {
        w = new (std::nothrow) wait_state(index);
        if (BOOST_UNLIKELY(w == nullptr))
            return nullptr;
        *pw = w;
    }

    get_atomic_pointers()[index] = addr;

    ++m_header->size;

    return w;
""", """    wait_state*& slot = get_wait_states()[index];
    if (slot == nullptr)
        slot = new (std::nothrow) wait_state(index);

    if (slot != nullptr)
    {
        m_header->size = index + 1u;
        get_atomic_pointers()[index] = addr;
    }

    return slot;
"""))
g("free-spare-guard", (LP, """    if (BOOST_LIKELY(m_header != nullptr))
    {
        wait_state** ws = get_wait_states();
        for (std::size_t i = m_header->size, n = m_header->capacity; i < n; ++i)
        {
            wait_state* w = ws[i];
            if (!w)
                break;

            delete w;
            ws[i] = nullptr;
        }

        if (m_header->size == 0u)
        {
            boost::alignment::aligned_free(static_cast< void* >(m_header));
            m_header = nullptr;
        }
    }
""", """    if (m_header == nullptr)
        return;

    wait_state** const ws = get_wait_states();
    const std::size_t n = m_header->capacity;
    std::size_t i = m_header->size;
    while (i < n && ws[i] != nullptr)
    {
        wait_state* const w = ws[i];
        ws[i++] = nullptr;
        delete w;
    }

    if (m_header->size > 0u)
        return;

    header* const h = m_header;
    m_header = nullptr;
    boost::alignment::aligned_free(h);
"""))
g("once-exchange", (LP, """    if (BOOST_UNLIKELY(once_flag_operations::load(g_pool_cleanup_registered.m_flag, boost::memory_order_relaxed) == 0u))
    {
        if (once_flag_operations::exchange(g_pool_cleanup_registered.m_flag, 1u, boost::memory_order_relaxed) == 0u)
            std::atexit(&cleanup_lock_pool);
    }
""", """    if (once_flag_operations::load(g_pool_cleanup_registered.m_flag, boost::memory_order_relaxed) == 0u &&
        once_flag_operations::exchange(g_pool_cleanup_registered.m_flag, 1u, boost::memory_order_relaxed) == 0u)
    {
        std::atexit(&cleanup_lock_pool);
    }
"""))
g("cleanup-iter", (LP, """    for (std::size_t i = 0u; i < lock_pool_size; ++i)
    {
        lock_state& state = g_lock_pool[i].state;
        state.long_lock();""", """    for (padded_lock_state_t* p = g_lock_pool, *e = g_lock_pool + lock_pool_size; p != e; ++p)
    {
        lock_state& state = p->state;
        state.long_lock();"""))
g("pool-get-state", (LP, """BOOST_ATOMIC_DECL void* short_lock(atomics::detail::uintptr_t h) noexcept
{
    lock_state& ls = g_lock_pool[get_lock_index(h)].state;
    ls.short_lock();
    return &ls;
}

BOOST_ATOMIC_DECL void* long_lock(atomics::detail::uintptr_t h) noexcept
{
    lock_state& ls = g_lock_pool[get_lock_index(h)].state;
    ls.long_lock();
    return &ls;
}
""", """namespace {

//! Returns the lock for the given hash
inline lock_state* get_lock_state(atomics::detail::uintptr_t h) noexcept
{
    return &g_lock_pool[get_lock_index(h)].state;
}

} // namespace

BOOST_ATOMIC_DECL void* short_lock(atomics::detail::uintptr_t h) noexcept
{
    lock_state* ls = get_lock_state(h);
    ls->short_lock();
    return ls;
}

BOOST_ATOMIC_DECL void* long_lock(atomics::detail::uintptr_t h) noexcept
{
    lock_state* ls = get_lock_state(h);
    ls->long_lock();
    return ls;
}
"""))
g("relock-helper", (LP, """        // A conforming wait operation must unlock and lock the mutex to allow a notify to complete
        ls->unlock();
        atomics::detail::wait_some();
        ls->long_lock();
    }
}
""", """        relock(*ls);
    }
}
"""), (LP, """BOOST_ATOMIC_DECL void wait(void* vls, void* vws) noexcept
""", """namespace {

//! A conforming wait operation must unlock and lock the mutex to allow a notify to complete
inline void relock(lock_state& state) noexcept
{
    state.unlock();
    atomics::detail::wait_some();
    state.long_lock();
}

} // namespace

BOOST_ATOMIC_DECL void wait(void* vls, void* vws) noexcept
"""))
g("until-fallback-guard", (LP, """    lock_state* ls = static_cast< lock_state* >(vls);
    wait_state* ws = static_cast< wait_state* >(vws);
    if (BOOST_LIKELY(ws != nullptr))
    {
        return ws->wait_until(*ls, clock_id, abs_timeout);
    }
    else
    {
        // A conforming wait operation must unlock and lock the mutex to allow a notify to complete
        ls->unlock();
        atomics::detail::wait_some();
        ls->long_lock();

        timespec ts{};
        return clock_gettime(clock_id, &ts) == 0 &&
            (ts.tv_sec > abs_timeout.tv_sec || (ts.tv_sec == abs_timeout.tv_sec && ts.tv_nsec >= abs_timeout.tv_nsec));
    }
""", """    lock_state* ls = static_cast< lock_state* >(vls);
    if (vws != nullptr)
        return static_cast< wait_state* >(vws)->wait_until(*ls, clock_id, abs_timeout);

    // A conforming wait operation must unlock and lock the mutex to allow a notify to complete
    ls->unlock();
    atomics::detail::wait_some();
    ls->long_lock();

    timespec ts{};
    if (clock_gettime(clock_id, &ts) != 0)
        return false;
    if (ts.tv_sec != abs_timeout.tv_sec)
        return ts.tv_sec > abs_timeout.tv_sec;
    return ts.tv_nsec >= abs_timeout.tv_nsec;
"""))
g("notify-if-init", (LP, """    wait_state* ws = ls->m_wait_states.find(addr);
    if (BOOST_LIKELY(ws != nullptr))
        ws->notify_one(*ls);
""", """    wait_state* const ws = ls->m_wait_states.find(addr);
    if (!ws)
        return;

    ws->notify_one(*ls);
"""))
g("generic-ptr-loop", (LP, """    for (std::size_t i = 0u; i < size; ++i)
    {
        if (addrs[i] == addr)
            return i;
    }

    return size;
""", """    const volatile void* const* p = addrs;
    const volatile void* const* const end = addrs + size;
    while (p != end && *p != addr)
        ++p;

    return static_cast< std::size_t >(p - addrs);
"""))
g("memset-whole-buffer", (LP, """        std::memcpy(a, old_a, old_header->size * sizeof(const volatile void*));
        std::memset(a + old_header->size, 0, (new_capacity - old_header->size) * sizeof(const volatile void*));
""", """        const std::size_t old_size = old_header->size;
        std::memset(a, 0, new_capacity * sizeof(const volatile void*));
        std::memcpy(a, old_a, old_size * sizeof(const volatile void*));
"""))
# --- search
g("sse41-loop-while", (S4, "    if (pos < n)\n", "    if (pos != n)\n"))
g("sse2-loop-while", (S2, "    for (std::size_t m = n & ~static_cast< std::size_t >(15u); pos < m; pos += 16u)", "    const std::size_t m = n - (n % 16u);\n    for (; pos != m; pos += 16u)"))
# --- waits
g("generic-wait-for", (WG, """        storage_type new_val = base_type::load(storage, order);
        if (new_val == old_val)
        {
            scoped_wait_state wait_state(&storage);
            new_val = base_type::load(storage, order);
            while (new_val == old_val)
            {
                wait_state.wait();
                new_val = base_type::load(storage, order);
            }
        }

        return new_val;
""", """        storage_type new_val = base_type::load(storage, order);
        if (new_val != old_val)
            return new_val;

        scoped_wait_state wait_state(&storage);
        for (new_val = base_type::load(storage, order); new_val == old_val; new_val = base_type::load(storage, order))
            wait_state.wait();

        return new_val;
"""))
g("emulated-until-flag", (WE, """                const bool wait_timed_out = wait_state.wait_until(posix_clock_traits< Clock >::clock_id, abs_timeout);
                new_val = s;

                if (wait_timed_out)
                    goto timeout_expired;
            }
        }
        else
        {
        timeout_expired:
            timed_out = new_val == old_val;
        }
""", """                if (wait_state.wait_until(posix_clock_traits< Clock >::clock_id, abs_timeout))
                {
                    new_val = s;
                    timed_out = new_val == old_val;
                    break;
                }

                new_val = s;
            }
        }
        else
        {
            timed_out = new_val == old_val;
        }
"""))
g("futex-wait-do", (WF, """        storage_type new_val = base_type::load(storage, order);
        while (new_val == old_val)
        {
            atomics::detail::futex_wait(const_cast< storage_type* >(&storage), old_val, futex_private_flag);
            new_val = base_type::load(storage, order);
        }

        return new_val;
""", """        while (true)
        {
            const storage_type new_val = base_type::load(storage, order);
            if (new_val != old_val)
                return new_val;

            atomics::detail::futex_wait(const_cast< storage_type* >(&storage), old_val, futex_private_flag);
        }
"""))
g("scoped-lock-unlock-order", (LPH, """    explicit scoped_wait_state(const volatile void* addr) noexcept :
        scoped_lock< Alignment, true >(addr)
    {
        m_wait_state = lock_pool::allocate_wait_state(this->get_lock_state(), addr);
    }
""", """    explicit scoped_wait_state(const volatile void* addr) noexcept :
        scoped_lock< Alignment, true >(addr),
        m_wait_state(lock_pool::allocate_wait_state(this->get_lock_state(), addr))
    {
    }
"""))
# --- values
g("clear-tail-loop", (BC, """    BOOST_ATOMIC_DETAIL_MEMSET(reinterpret_cast< unsigned char* >(atomics::detail::addressof(to)) + ValueSize, 0, sizeof(To) - ValueSize);
""", """    unsigned char* const p = reinterpret_cast< unsigned char* >(atomics::detail::addressof(to));
    for (std::size_t i = ValueSize; i < sizeof(To); ++i)
        p[i] = 0u;
"""))
g("emulated-mask-helper", (EE, """        storage_type mask = static_cast< storage_type >(static_cast< storage_type >(1u) << bit_number);
        storage_type old_val = base_type::fetch_or(storage, mask, order);
        return !!(old_val & mask);
""", """        const storage_type old_val = base_type::fetch_or(storage, static_cast< storage_type >(static_cast< storage_type >(1u) << bit_number), order);
        return ((old_val >> bit_number) & 1u) != 0u;
"""))
g("emulated-add-direct", (EE, """        storage_type new_val = s;
        new_val += v;
        s = new_val;
        return new_val;
""", """        s = static_cast< storage_type >(s + v);
        return s;
"""))
g("emulated-xchg", (CE, """        storage_type old_val = s;
        s = v;
        return old_val;
""", """        const storage_type new_val = v;
        storage_type old_val = s;
        s = new_val;
        return old_val;
"""))
g("fp-op-assign", (AI, """    BOOST_FORCEINLINE value_type operator+=(difference_type v) volatile noexcept
    {
        return add(v);
    }

    BOOST_FORCEINLINE value_type operator-=(difference_type v) volatile noexcept
    {
        return sub(v);
    }

    BOOST_FORCEINLINE value_type wait""", """    BOOST_FORCEINLINE value_type operator+=(difference_type v) volatile noexcept
    {
        return fetch_add(v) + v;
    }

    BOOST_FORCEINLINE value_type operator-=(difference_type v) volatile noexcept
    {
        const value_type old_val = this->fetch_sub(v);
        return old_val - v;
    }

    BOOST_FORCEINLINE value_type wait"""))
g("flag-x86-fence-nested", (D + "fence_arch_ops_gcc_x86.hpp", """        else if ((static_cast< unsigned int >(order) & (static_cast< unsigned int >(memory_order_consume) | static_cast< unsigned int >(memory_order_acquire) | static_cast< unsigned int >(memory_order_release))) != 0u)
        {
            __asm__ __volatile__ ("" ::: "memory");
        }
""", """        else
        {
            signal_fence(order);
        }
"""))
g("flag-store", (AF, "core_operations::clear(m_storage, order);", "core_operations::store(m_storage, 0u, order);"))
