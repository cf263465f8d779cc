// Component types that record every construction, destruction and use, and can throw on request.
#pragma once
#include "explore.hpp"
#include <stdexcept>

struct Boom : std::runtime_error {
    Boom() : std::runtime_error("injected") {}
};

struct Ledger {
    static constexpr size_t N = 1 << 12;
    const void* slot[N];
    int count = 0;
    bool strict = false;  // report lifetime violations
    bool faults = false;  // constructors may throw (a deviation)
    int thrown = 0;
    size_t h(const void* p) const { return (reinterpret_cast<uintptr_t>(p) * 0x9e3779b97f4a7c15ull) >> 52; }
    void reset() {
        memset(slot, 0, sizeof slot);
        count = 0;
        thrown = 0;
        faults = false;
    }
    bool live(const void* p) const {
        for (size_t i = h(p);; i = (i + 1) & (N - 1)) {
            if (slot[i] == p) return true;
            if (!slot[i]) return false;
        }
    }
    void add(const void* p) {
        size_t i = h(p);
        while (slot[i] && slot[i] != (void*)1) i = (i + 1) & (N - 1);
        slot[i] = p;
        if (++count > int(N / 2)) mc::internal_error("ledger full");
    }
    void del(const void* p) {
        for (size_t i = h(p); slot[i]; i = (i + 1) & (N - 1))
            if (slot[i] == p) {
                slot[i] = (void*)1;
                --count;
                return;
            }
    }
    void born(const void* p, const char* t) {
        if (live(p)) {
            if (strict) mc::fail("%s constructed on top of an object that is still alive", t);
            return;
        }
        add(p);
    }
    void dead(const void* p, const char* t) {
        if (!live(p)) {
            if (strict) mc::fail("%s destroyed although it is not alive (destroyed twice or never constructed)", t);
            return;
        }
        del(p);
    }
    void used(const void* p, const char* t, const char* what) {
        if (strict && !live(p)) mc::fail("%s %s outside its lifetime", t, what);
    }
    void maybe_throw() {
        if (faults && mc::choose(2, mc::ENV) == 1) {
            ++thrown;
            mc::log("    (component constructor throws)");
            throw Boom{};
        }
    }
};
inline Ledger L;

// Comp<N, Pad>: value v, sizeof >= 8 + Pad. Copyable; value and copy construction may throw when faults are on.
template<int Id, size_t Pad, bool Copyable = true>
struct Comp;

template<int Id, size_t Pad>
struct PadBytes {
    unsigned char pad[Pad];
};
template<int Id>
struct PadBytes<Id, 0> {};

inline const char* tname(int id) {
    static const char* n[] = { "A", "B", "Big", "Tag", "NC", "H1", "H2", "C" };
    return n[id];
}

template<int Id, size_t Pad, bool Copyable>
struct Comp : PadBytes<Id, Pad> {
    static constexpr int id = Id;
    static constexpr int moved = -77;
    int v;
    Comp() : v(0) {
        L.born(this, tname(Id));
        fill();
    }
    explicit Comp(const int& x) : v((throwpoint(), x)) {
        L.born(this, tname(Id));
        fill();
    }
    Comp(const Comp& o)
        requires(Copyable)
        : v((throwpoint(), L.used(&o, tname(Id), "copied from"), o.v)) {
        L.born(this, tname(Id));
        copypad(o);
    }
    Comp(const Comp& o)
        requires(!Copyable)
    = delete;
    Comp(Comp&& o) noexcept : v((L.used(&o, tname(Id), "moved from"), o.v)) {
        L.born(this, tname(Id));
        copypad(o);
        o.v = moved;
    }
    Comp& operator=(const Comp& o)
        requires(Copyable)
    {
        L.used(&o, tname(Id), "copied from");
        L.used(this, tname(Id), "assigned");
        v = o.v;
        copypad(o);
        return *this;
    }
    Comp& operator=(Comp&& o) noexcept {
        L.used(&o, tname(Id), "moved from");
        L.used(this, tname(Id), "assigned");
        v = o.v;
        copypad(o);
        if (&o != this) o.v = moved;
        return *this;
    }
    ~Comp() {
        L.dead(this, tname(Id));
    }
    bool intact() const {
        if constexpr (Pad > 0) {
            return this->pad[0] == (unsigned char)(Id + 1) && this->pad[Pad - 1] == (unsigned char)(Id + 101);
        }
        return true;
    }

private:
    static void throwpoint() { L.maybe_throw(); }
    void fill() {
        if constexpr (Pad > 0) {
            this->pad[0] = (unsigned char)(Id + 1);
            this->pad[Pad - 1] = (unsigned char)(Id + 101);
        }
    }
    void copypad(const Comp& o) {
        if constexpr (Pad > 0) {
            this->pad[0] = o.pad[0];
            this->pad[Pad - 1] = o.pad[Pad - 1];
        }
    }
};
