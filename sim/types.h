// Element, functor and allocator types the simulator hands to the maps.
#pragma once
#include "core.h"
#include "scenario.h"
#include <string>
#include <utility>
#include <type_traits>
#include <functional>

namespace sim {
static const u32 kMovedId = 0xFFFFFFFEu, kDefaultId = 0xFFFFFFFDu;
static const u64 kMovedVal = 0xFFFFFFFFFFFFFF01ull, kDefaultVal = 0xDEFull;

struct Probe { u32 id; u32 tag; };        // another key type for heterogeneous lookup
struct VProbe { u64 v; };                 // another type that values are constructed from

enum { MV_NX = 0, MV_THROW = 1, MV_COPYONLY = 2, MV_MOVEONLY = 3 };

template <int Size> struct Pad {
  u8 b[Size];
  void set(u64 x) { for (int i = 0; i < Size; i++) b[i] = u8((x + i) * 37 + i); }
  bool ok(u64 x) const { for (int i = 0; i < Size; i++) if (b[i] != u8((x + i) * 37 + i)) return false; return true; }
};
template <> struct Pad<0> { void set(u64) {} bool ok(u64) const { return true; } };

// ---- tracked key ---------------------------------------------------------------
template <int PadSize, int Mv, int Align>
struct alignas(Align) TKeyB {
  u32 id_, tag_; [[no_unique_address]] Pad<PadSize> pad_;
  void init(u32 id, u32 tag) { id_ = id; tag_ = tag; pad_.set(id); }
  TKeyB() { point(F_KEY); obj_ctor(this, T_KEY); init(kDefaultId, 0); }
  TKeyB(u32 id, u32 tag) { point(F_KEY); obj_ctor(this, T_KEY); init(id, tag); }
  TKeyB(const Probe & p) { point(F_KEY); obj_ctor(this, T_KEY); init(p.id, p.tag); }
  TKeyB(const TKeyB & o) { point(F_KEY); obj_read(&o, T_KEY, "copied"); obj_copied(&o); obj_ctor(this, T_KEY); init(o.id_, o.tag_); }
  TKeyB(TKeyB && o) noexcept(Mv != MV_THROW) { if (Mv == MV_THROW) point(F_KEY); obj_read(&o, T_KEY, "moved from"); obj_moved(&o); obj_ctor(this, T_KEY); init(o.id_, o.tag_); o.init(kMovedId, 0); step(); }
  TKeyB & operator=(const TKeyB & o) { point(F_KEY); obj_read(&o, T_KEY, "copied"); obj_read(this, T_KEY, "assigned"); obj_copied(&o); init(o.id_, o.tag_); return *this; }
  TKeyB & operator=(TKeyB && o) noexcept(Mv != MV_THROW) { if (Mv == MV_THROW) point(F_KEY); obj_read(&o, T_KEY, "moved from"); obj_read(this, T_KEY, "assigned"); obj_moved(&o); u32 i = o.id_, t = o.tag_; o.init(kMovedId, 0); if (&o != this) init(i, t); step(); return *this; }
  ~TKeyB() { obj_dtor(this, T_KEY); id_ = 0xDEADDEADu; step(); }
};
template <int PadSize, int Align>
struct alignas(Align) TKeyB<PadSize, MV_COPYONLY, Align> {
  u32 id_, tag_; [[no_unique_address]] Pad<PadSize> pad_;
  void init(u32 id, u32 tag) { id_ = id; tag_ = tag; pad_.set(id); }
  TKeyB() { point(F_KEY); obj_ctor(this, T_KEY); init(kDefaultId, 0); }
  TKeyB(u32 id, u32 tag) { point(F_KEY); obj_ctor(this, T_KEY); init(id, tag); }
  TKeyB(const Probe & p) { point(F_KEY); obj_ctor(this, T_KEY); init(p.id, p.tag); }
  TKeyB(const TKeyB & o) { point(F_KEY); obj_read(&o, T_KEY, "copied"); obj_copied(&o); obj_ctor(this, T_KEY); init(o.id_, o.tag_); }
  TKeyB & operator=(const TKeyB & o) { point(F_KEY); obj_read(&o, T_KEY, "copied"); obj_read(this, T_KEY, "assigned"); obj_copied(&o); init(o.id_, o.tag_); return *this; }
  ~TKeyB() { obj_dtor(this, T_KEY); id_ = 0xDEADDEADu; step(); }
};
// ---- tracked value -----------------------------------------------------------------
template <int PadSize, int Mv, int Align>
struct alignas(Align) TValB {
  u64 v_; [[no_unique_address]] Pad<PadSize> pad_;
  void init(u64 v) { v_ = v; pad_.set(v); }
  TValB() { point(F_VAL); obj_ctor(this, T_VAL); init(kDefaultVal); }
  explicit TValB(u64 v) { point(F_VAL); obj_ctor(this, T_VAL); init(v); }
  explicit TValB(const VProbe & p) { point(F_VAL); obj_ctor(this, T_VAL); init(p.v); }
  TValB & operator=(const VProbe & p) { point(F_VAL); obj_read(this, T_VAL, "assigned"); init(p.v); return *this; }
  TValB(const TValB & o) { point(F_VAL); obj_read(&o, T_VAL, "copied"); obj_copied(&o); obj_ctor(this, T_VAL); init(o.v_); }
  TValB(TValB && o) noexcept(Mv != MV_THROW) { if (Mv == MV_THROW) point(F_VAL); obj_read(&o, T_VAL, "moved from"); obj_moved(&o); obj_ctor(this, T_VAL); init(o.v_); o.init(kMovedVal); step(); }
  TValB & operator=(const TValB & o) { point(F_VAL); obj_read(&o, T_VAL, "copied"); obj_read(this, T_VAL, "assigned"); obj_copied(&o); init(o.v_); return *this; }
  TValB & operator=(TValB && o) noexcept(Mv != MV_THROW) { if (Mv == MV_THROW) point(F_VAL); obj_read(&o, T_VAL, "moved from"); obj_read(this, T_VAL, "assigned"); obj_moved(&o); u64 v = o.v_; o.init(kMovedVal); if (&o != this) init(v); step(); return *this; }
  ~TValB() { obj_dtor(this, T_VAL); v_ = 0xDEADDEADDEADull; step(); }
};
template <int PadSize, int Align>
struct alignas(Align) TValB<PadSize, MV_COPYONLY, Align> {
  u64 v_; [[no_unique_address]] Pad<PadSize> pad_;
  void init(u64 v) { v_ = v; pad_.set(v); }
  TValB() { point(F_VAL); obj_ctor(this, T_VAL); init(kDefaultVal); }
  explicit TValB(u64 v) { point(F_VAL); obj_ctor(this, T_VAL); init(v); }
  explicit TValB(const VProbe & p) { point(F_VAL); obj_ctor(this, T_VAL); init(p.v); }
  TValB & operator=(const VProbe & p) { point(F_VAL); obj_read(this, T_VAL, "assigned"); init(p.v); return *this; }
  TValB(const TValB & o) { point(F_VAL); obj_read(&o, T_VAL, "copied"); obj_copied(&o); obj_ctor(this, T_VAL); init(o.v_); }
  TValB & operator=(const TValB & o) { point(F_VAL); obj_read(&o, T_VAL, "copied"); obj_read(this, T_VAL, "assigned"); obj_copied(&o); init(o.v_); return *this; }
  ~TValB() { obj_dtor(this, T_VAL); v_ = 0xDEADDEADDEADull; step(); }
};
template <int PadSize, int Align>
struct alignas(Align) TValB<PadSize, MV_MOVEONLY, Align> {
  u64 v_; [[no_unique_address]] Pad<PadSize> pad_;
  void init(u64 v) { v_ = v; pad_.set(v); }
  TValB() { point(F_VAL); obj_ctor(this, T_VAL); init(kDefaultVal); }
  explicit TValB(u64 v) { point(F_VAL); obj_ctor(this, T_VAL); init(v); }
  explicit TValB(const VProbe & p) { point(F_VAL); obj_ctor(this, T_VAL); init(p.v); }
  TValB & operator=(const VProbe & p) { point(F_VAL); obj_read(this, T_VAL, "assigned"); init(p.v); return *this; }
  TValB(const TValB &) = delete; TValB & operator=(const TValB &) = delete;
  TValB(TValB && o) noexcept { obj_read(&o, T_VAL, "moved from"); obj_moved(&o); obj_ctor(this, T_VAL); init(o.v_); o.init(kMovedVal); step(); }
  TValB & operator=(TValB && o) noexcept { obj_read(&o, T_VAL, "moved from"); obj_read(this, T_VAL, "assigned"); obj_moved(&o); u64 v = o.v_; o.init(kMovedVal); if (&o != this) init(v); step(); return *this; }
  ~TValB() { obj_dtor(this, T_VAL); v_ = 0xDEADDEADDEADull; step(); }
};

// ---- access to keys and values -----------------------------------------------------
template <class K> struct KeyAcc;
template <int P, int M, int A> struct KeyAcc<TKeyB<P, M, A>> {
  typedef TKeyB<P, M, A> K; static const bool tracked = true, tagged = true, convertible = true;
  static u32 max_id() { return 1u << 30; }
  static K make(u32 id, u32 tag) { return K(id, tag); }
  static u32 id(const K & k) { if (!obj_read(&k, T_KEY, "read")) return 0xDEAD0001u; if (!k.pad_.ok(k.id_)) violate(V_OBJECT, "the bytes of a key object were damaged"); return k.id_; }
  static u32 tag(const K & k) { return k.tag_; }
};
template <> struct KeyAcc<u64> { static const bool tracked = false, tagged = false, convertible = true; static u32 max_id() { return 1u << 30; }
  static u64 make(u32 id, u32) { return id * 1ull; } static u32 id(u64 k) { return k > 0xFFFFFFFF ? 0xDEAD0002u : u32(k); } static u32 tag(u64) { return 0; } };
template <> struct KeyAcc<int> { static const bool tracked = false, tagged = false, convertible = true; static u32 max_id() { return 1u << 30; }
  static int make(u32 id, u32) { return int(id) - 1000; } static u32 id(int k) { return u32(k + 1000); } static u32 tag(int) { return 0; } };
template <> struct KeyAcc<u16> { static const bool tracked = false, tagged = false, convertible = true; static u32 max_id() { return 65536; }
  static u16 make(u32 id, u32) { return u16(id); } static u32 id(u16 k) { return k; } static u32 tag(u16) { return 0; } };
template <> struct KeyAcc<u8> { static const bool tracked = false, tagged = false, convertible = true; static u32 max_id() { return 256; }
  static u8 make(u32 id, u32) { return u8(id); } static u32 id(u8 k) { return k; } static u32 tag(u8) { return 0; } };
template <> struct KeyAcc<std::string> { static const bool tracked = false, tagged = false, convertible = true; static u32 max_id() { return 1u << 30; }
  static std::string make(u32 id, u32) { char b[128]; int n = snprintf(b, sizeof b, "%u:", id); std::string s(b, n); s.append(mix64(id) % 40, char('a' + id % 26)); return s; }
  static u32 id(const std::string & k) { u32 x = 0; size_t i = 0; for (; i < k.size() && k[i] >= '0' && k[i] <= '9'; i++) x = x * 10 + (k[i] - '0'); if (i == 0 || i >= k.size() || k[i] != ':' || k.size() != i + 1 + mix64(x) % 40) return 0xDEAD0003u; return x; }
  static u32 tag(const std::string &) { return 0; } };
struct PodKey24 { u64 a, b, c; bool operator==(const PodKey24 & o) const { return a == o.a && b == o.b && c == o.c; } };
template <> struct KeyAcc<PodKey24> { static const bool tracked = false, tagged = false, convertible = false; static u32 max_id() { return 1u << 30; }
  static PodKey24 make(u32 id, u32) { return PodKey24{id, ~(u64)id, mix64(id)}; } static u32 id(const PodKey24 & k) { if (k.b != ~k.a || k.a > 0xFFFFFFFF || k.c != mix64(k.a)) return 0xDEAD0004u; return u32(k.a); } static u32 tag(const PodKey24 &) { return 0; } };

template <class V> struct ValAcc;      // aux(): an argument of another type that makes the value
struct StrAux { std::string s; operator std::string() const { return s; } };
template <int P, int M, int A> struct ValAcc<TValB<P, M, A>> {
  typedef TValB<P, M, A> V; static const bool tracked = true, copyable = (M != MV_MOVEONLY);
  static u64 norm(u64 v) { return v; } static u64 dflt() { return kDefaultVal; }
  static V make(u64 v) { return V(v); } static VProbe aux(u64 v) { return VProbe{v}; }
  static u64 get(const V & v) { if (!obj_read(&v, T_VAL, "read")) return ~0ull; if (!v.pad_.ok(v.v_)) violate(V_OBJECT, "the bytes of a value object were damaged"); return v.v_; }
};
template <> struct ValAcc<u64> { static const bool tracked = false, copyable = true; static u64 norm(u64 v) { return v; } static u64 dflt() { return 0; } static u64 make(u64 v) { return v; } static long long aux(u64 v) { return (long long)v; } static u64 get(u64 v) { return v; } };
template <> struct ValAcc<int> { static const bool tracked = false, copyable = true; static u64 norm(u64 v) { return v & 0x7FFFFFFF; } static u64 dflt() { return 0; } static int make(u64 v) { return int(v & 0x7FFFFFFF); } static long aux(u64 v) { return long(v & 0x7FFFFFFF); } static u64 get(int v) { return u64(v); } };
template <> struct ValAcc<u8> { static const bool tracked = false, copyable = true; static u64 norm(u64 v) { return v & 0xFF; } static u64 dflt() { return 0; } static u8 make(u64 v) { return u8(v); } static int aux(u64 v) { return int(v & 0xFF); } static u64 get(u8 v) { return v; } };
template <> struct ValAcc<std::string> { static const bool tracked = false, copyable = true; static u64 norm(u64 v) { return v; } static u64 dflt() { return ~1ull; }
  static std::string make(u64 v) { std::string s = std::to_string(v); s += ':'; s.append(mix64(v) % 50, 'x'); return s; }
  static StrAux aux(u64 v) { return StrAux{make(v)}; }
  static u64 get(const std::string & s) { if (s.empty()) return ~1ull; u64 x = strtoull(s.c_str(), nullptr, 10); return s == make(x) ? x : ~2ull; } };
struct alignas(64) OverVal { u64 v; u64 chk; OverVal() : v(0), chk(~0ull) { check("constructed"); } explicit OverVal(u64 x) : v(x), chk(~x) { check("constructed"); }
  void check(const char * w) const { if ((size_t)this & 63) violate(V_OBJECT, "an over-aligned value is %s at a misaligned address", w); }
  OverVal(const OverVal & o) : v(o.v), chk(o.chk) { check("constructed"); } OverVal & operator=(u64 x) { v = x; chk = ~x; check("assigned"); return *this; } OverVal & operator=(const OverVal & o) { v = o.v; chk = o.chk; check("assigned"); return *this; } };
template <> struct ValAcc<OverVal> { static const bool tracked = false, copyable = true; static u64 norm(u64 v) { return v; } static u64 dflt() { return 0; } static OverVal make(u64 v) { return OverVal(v); } static u64 aux(u64 v) { return v; } static u64 get(const OverVal & v) { v.check("stored"); return v.chk == ~v.v ? v.v : ~3ull; } };

// ---- hash functions -----------------------------------------------------------------
inline u64 hash_id(u32 mode, u64 salt, u32 id) {
  switch (mode) {
    case H_IDENT: return id;
    case H_CONST: return salt;
    case H_LOWBITS: return id & ((1u << (2 + salt % 8)) - 1);
    case H_HIGHBITS: return (u64)id << (36 + salt % 28);
    case H_STRIDE: return (u64)id << (1 + salt % 24);
    case H_PAIRS: return mix64((id / 2) ^ salt);
    case H_FEW: return mix64((id % (3 + salt % 60)) ^ salt);
    case H_FIXLOW: return (mix64(id ^ salt) & ~0xFFull) | (salt & 0xFF);
    case H_FIXHIGH: return (mix64(id ^ salt) & ~(0xFFFull << 52)) | (salt << 52);
    case H_DESC: return ~(u64)id;
    case H_GROUPY: return ((mix64(id ^ salt) & 0xFF) << 56) | (id & 3);
    case H_EXTREME: { u64 m = mix64(id ^ salt); switch (id & 7) { case 0: return ~0ull; case 1: return 0; case 2: return 1ull << 63; case 3: return 1; default: return m; } }
    default: return mix64(id ^ salt);
  }
}
struct HashState { u32 mode = H_GOOD; u32 token = 0; u64 salt = 0; };

template <class K> struct SimHashBase {
  HashState st;
  std::size_t eval(const K & k) const { Uncounted uc_; point(F_HASH); u32 id = KeyAcc<K>::id(k); return hash_id(st.mode, st.salt, id); }
  std::size_t operator()(const K & k) const { return eval(k); }
};
template <class K, bool Av, bool Tr> struct SimHash;
template <class K> struct SimHash<K, false, false> : SimHashBase<K> { using SimHashBase<K>::operator(); };
template <class K> struct SimHash<K, true, false> : SimHashBase<K> { using SimHashBase<K>::operator(); typedef void is_avalanching; };
template <class K> struct SimHash<K, false, true> : SimHashBase<K> { using SimHashBase<K>::operator(); typedef void is_transparent;
  std::size_t operator()(const Probe & p) const { Uncounted uc_; point(F_HASH); return hash_id(this->st.mode, this->st.salt, p.id); } };
template <class K> struct SimHash<K, true, true> : SimHash<K, false, true> { using SimHash<K, false, true>::operator(); typedef void is_avalanching; };

template <class K, bool Tr> struct SimEq { u32 token = 0;
  bool operator()(const K & a, const K & b) const { Uncounted uc_; point(F_EQ); return KeyAcc<K>::id(a) == KeyAcc<K>::id(b); } };
template <class K> struct SimEq<K, true> { u32 token = 0; typedef void is_transparent;
  bool operator()(const K & a, const K & b) const { Uncounted uc_; point(F_EQ); return KeyAcc<K>::id(a) == KeyAcc<K>::id(b); }
  bool operator()(const K & a, const Probe & b) const { Uncounted uc_; point(F_EQ); return KeyAcc<K>::id(a) == b.id; }
  bool operator()(const Probe & a, const K & b) const { Uncounted uc_; point(F_EQ); return a.id == KeyAcc<K>::id(b); } };

// ---- allocator ---------------------------------------------------------------------
enum { A_POCCA = 1, A_POCMA = 2, A_POCS = 4, A_SOCCC = 8 };
template <class T, int F> struct SimAlloc {
  typedef T value_type; typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
  typedef std::integral_constant<bool, (F & A_POCCA) != 0> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool, (F & A_POCMA) != 0> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool, (F & A_POCS) != 0> propagate_on_container_swap;
  typedef std::false_type is_always_equal;
  template <class U> struct rebind { typedef SimAlloc<U, F> other; };
  u32 arena = 0;
  SimAlloc() noexcept {} explicit SimAlloc(u32 a) noexcept : arena(a) {}
  template <class U> SimAlloc(const SimAlloc<U, F> & o) noexcept : arena(o.arena) {}
  T * allocate(size_t n) { return static_cast<T *>(mem.allocate(arena, n, sizeof(T), alignof(T))); }
  void deallocate(T * p, size_t n) { mem.deallocate(arena, p, n, sizeof(T)); }
  SimAlloc select_on_container_copy_construction() const { SimAlloc a(*this); if (F & A_SOCCC) a.arena = arena ^ 64; return a; }
};
template <class T, class U, int F> bool operator==(const SimAlloc<T, F> & a, const SimAlloc<U, F> & b) noexcept { return a.arena == b.arena; }
template <class T, class U, int F> bool operator!=(const SimAlloc<T, F> & a, const SimAlloc<U, F> & b) noexcept { return a.arena != b.arena; }
} // namespace sim
