// Force-included into concurrency harnesses: std::counting_semaphore is replaced by one the scheduler understands.
#pragma once
#include <chrono>
#include <cstddef>
#include <semaphore>
extern "C" {
void mcrt_sem_init(void* s, std::ptrdiff_t n);
void mcrt_sem_destroy(void* s);
void mcrt_sem_release(void* s, std::ptrdiff_t n);
void mcrt_sem_acquire(void* s);
bool mcrt_sem_try_acquire(void* s);
bool mcrt_sem_acquire_timed(void* s);
}
namespace std {
template<std::ptrdiff_t Max = 0x7fffffff>
class mc_counting_semaphore {
public:
    explicit mc_counting_semaphore(std::ptrdiff_t n) { mcrt_sem_init(this, n); }
    ~mc_counting_semaphore() { mcrt_sem_destroy(this); }
    mc_counting_semaphore(const mc_counting_semaphore&) = delete;
    mc_counting_semaphore& operator=(const mc_counting_semaphore&) = delete;
    static constexpr std::ptrdiff_t max() noexcept { return Max; }
    void release(std::ptrdiff_t n = 1) { mcrt_sem_release(this, n); }
    void acquire() { mcrt_sem_acquire(this); }
    bool try_acquire() noexcept { return mcrt_sem_try_acquire(this); }
    template<class R, class P>
    bool try_acquire_for(const std::chrono::duration<R, P>&) {
        return mcrt_sem_acquire_timed(this);
    }
    template<class C, class D>
    bool try_acquire_until(const std::chrono::time_point<C, D>&) {
        return mcrt_sem_acquire_timed(this);
    }

private:
    char dummy[8]{};
};
using mc_binary_semaphore = mc_counting_semaphore<1>;
} // namespace std
#define counting_semaphore mc_counting_semaphore
#define binary_semaphore mc_binary_semaphore
