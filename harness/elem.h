// Instrumented element: every construction, move, assignment and destruction is
// checked against a registry of live objects.
#pragma once
#include "mc.h"
#include <unordered_map>

constexpr uint64_t ELEM_TAG   = 0xE1E1ull << 48;
constexpr uint64_t ELEM_MOVED = ELEM_TAG | 0xFFFFFFFFull;

struct Reg {
    std::unordered_map<const void*, int> live;
    uint64_t constructed = 0, destroyed = 0, copies = 0, moves = 0;
    const char* err = nullptr;
    void bad(const char* what) { if (!err) err = what; mc::fail(mc::str("lifetime-", what), what); }
    void ctor(const void* p) {
        constructed++;
        if (!live.emplace(p, 1).second) bad("constructed-over-live-element");
    }
    void dtor(const void* p) {
        destroyed++;
        if (!live.erase(p)) bad("destroyed-dead-element");
    }
    void use(const void* p) { if (!live.count(p)) bad("used-dead-element"); }
    void reset() { live.clear(); constructed = destroyed = copies = moves = 0; err = nullptr; }
};
inline Reg& reg() { static Reg r; return r; }

struct Elem {
    uint64_t v;
    explicit Elem(int id) : v(ELEM_TAG | (uint32_t)id) { reg().ctor(this); }
    Elem() : v(ELEM_TAG | 0xFFFF0000u) { reg().ctor(this); }
    Elem(const Elem& o) { reg().use(&o); v = o.v; reg().ctor(this); reg().copies++; }
    Elem(Elem&& o) { reg().use(&o); v = o.v; reg().ctor(this); if (&o != this) o.v = ELEM_MOVED; reg().moves++; }
    Elem& operator=(const Elem& o) { reg().use(this); reg().use(&o); v = o.v; reg().copies++; return *this; }
    Elem& operator=(Elem&& o) { reg().use(this); reg().use(&o); if (&o != this) { v = o.v; o.v = ELEM_MOVED; } reg().moves++; return *this; }
    ~Elem() { reg().dtor(this); v = ELEM_TAG | 0xDEADull; }
    bool operator==(const Elem& o) const { reg().use(this); reg().use(&o); return v == o.v; }
    bool operator!=(const Elem& o) const { return !(*this == o); }
    int id() const { reg().use(this); return (int)(uint32_t)v; }
};

inline int id_of(const Elem& e) { return e.id(); }
inline int id_of(int e) { return e; }
inline int id_of(const std::string& e) { return e.empty() ? -1 : std::atoi(e.c_str() + 24); }
inline int id_of(const std::unique_ptr<int>& e) { return e ? *e : -1; }
template <typename T> T make(int id);
template <> inline Elem make<Elem>(int id) { return Elem(id); }
template <> inline int make<int>(int id) { return id; }
template <> inline std::string make<std::string>(int id) { return id == -1 ? std::string() : std::string(24, 'x') + std::to_string(id); }
template <> inline std::unique_ptr<int> make<std::unique_ptr<int>>(int id) { return std::make_unique<int>(id); }

// Canonical image of an object's raw bytes: element payloads, heap pointers and
// pointers into the object itself are replaced by tokens; all other words (sizes,
// heads, capacities, whatever they are called) are kept. Sound as a state key for
// data-independent containers: two objects with the same image and size have the
// same futures up to renaming of the elements.
inline uint64_t image_key(const void* obj, size_t bytes) {
    const uint64_t* w = (const uint64_t*)obj;
    uint64_t h = 7;
    uint64_t lo = (uint64_t)obj, hi = lo + bytes;
    for (size_t i = 0; i < bytes / 8; ++i) {
        uint64_t x = w[i];
        if ((x >> 48) == 0xE1E1) x = 1;
        else if (x >= lo and x < hi) x = 0x5E1F000000000000ull + (x - lo);
        else if (x > (1ull << 20) and x < (1ull << 48)) x = 0xBEA7000000000000ull;
        else if (x >= (1ull << 48) and x < ~0ull - (1ull << 20)) x = 2;   // uninitialised garbage
        h = mc::mix(h, x);
    }
    return h;
}
