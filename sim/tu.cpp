// One engine: compiled with -DTU_MAP=0|1|2 (robin, group15, group16) and -DTU_CFG=<name>.
#include <jstd/basic/stddef.h>
#if TU_MAP == 0
#include <jstd/hashmap/robin_hash_map.h>
#elif TU_MAP == 1
#include <jstd/hashmap/group15_flat_map.hpp>
#else
#include <jstd/hashmap/group16_flat_map.hpp>
#endif
#include "engine.h"
namespace sim {
#define CAT3(a, b, c) Cfg_##a##_##b##c
#define CAT(a, b) CAT3(x, a, b)
#define TheCfg CAT(TU_CFG, TU_MAP)      // a distinct type per engine: all engines are linked into one binary
#define STR2(x) #x
#define STR(x) STR2(x)
template <bool StoreHash, bool Indirect> struct FixedLayout {
  static constexpr bool autoDetectPairLayout = true, isIsolatedKeyValue = false;
  static constexpr bool autoDetectIsIndirectKey = false, isIndirectKey = Indirect, autoDetectIsIndirectValue = false, isIndirectValue = Indirect;
  static constexpr bool autoDetectStoreHash = false, needStoreHash = StoreHash;
};
// Element configurations: key, value, layout (robin), avalanching, transparent, allocator traits.
template <class K_, class V_, bool Av, bool Tr, int F, class L_ = void> struct KV {
  typedef K_ K; typedef V_ V; typedef SimHash<K_, Av, Tr> Hash; typedef SimEq<K_, Tr> Eq; typedef L_ L;
  typedef SimAlloc<std::pair<const K_, V_>, F> Alloc; static const int flags = F; static const bool simfunc = true, hetero = Tr;
};
template <class K_, class V_> struct KVStd {
  typedef K_ K; typedef V_ V; typedef std::hash<K_> Hash; typedef std::equal_to<K_> Eq; typedef void L;
  typedef std::allocator<std::pair<const K_, V_>> Alloc; static const int flags = 0; static const bool simfunc = false, hetero = false;
};
namespace cfg {
typedef TKeyB<0, MV_NX, 4> KS; typedef TValB<0, MV_NX, 8> VS; typedef TKeyB<40, MV_NX, 4> KB; typedef TValB<56, MV_NX, 8> VB;
enum { FALL = A_POCCA | A_POCMA | A_POCS };
typedef KV<u64, u64, false, false, 0> P;                                       // trivially copyable scalars
typedef KV<u16, u8, true, false, FALL> P2;                                     // tiny, avalanching
typedef KV<u8, u8, false, false, A_POCMA> P1;                                   // one-byte keys
typedef KV<int, int, false, false, A_SOCCC> PI;                                // negative keys
typedef KV<KS, VS, false, true, 0> T;                                          // counted objects, transparent
typedef KV<KS, VS, true, true, FALL> TA;                                       // counted, transparent, avalanching
typedef KV<KB, VB, false, true, A_POCMA | A_SOCCC> B;                          // large counted objects
typedef KV<KS, TValB<0, MV_MOVEONLY, 8>, false, false, A_POCS> M;              // move-only values
typedef KV<TKeyB<180, MV_NX, 4>, TValB<56, MV_MOVEONLY, 8>, false, false, A_POCMA> MB;     // keys of several cache lines
typedef KV<TKeyB<0, MV_COPYONLY, 4>, TValB<0, MV_COPYONLY, 8>, false, false, A_POCCA> C;   // no move operations
typedef KV<TKeyB<0, MV_THROW, 4>, TValB<0, MV_THROW, 8>, false, false, 0> X;   // moves may throw
typedef KV<PodKey24, OverVal, false, false, A_POCCA> O;                        // over-aligned value
typedef KV<std::string, std::string, false, false, 0> S;
typedef KVStd<u64, std::string> D;                                             // the library's default parameters
typedef KVStd<std::string, int> DS;
typedef KV<u64, u64, false, false, FALL, FixedLayout<true, false>> LH;         // robin: stored hash, direct
typedef KV<u64, u64, false, false, 0, FixedLayout<false, true>> LI;            // robin: indirect plain values
typedef KV<KS, VS, false, true, A_POCCA, FixedLayout<true, false>> LT;         // robin: counted, stored hash, direct
typedef KV<KS, VS, false, false, A_POCS, FixedLayout<false, false>> LN;        // robin: counted, no stored hash
typedef KV<KB, VB, false, false, 0, FixedLayout<false, false>> LB;             // robin: large counted, direct
typedef KV<PodKey24, OverVal, false, false, 0, FixedLayout<false, false>> LO;   // robin: over-aligned value, direct
}
struct TheCfg : cfg::TU_CFG {
  typedef cfg::TU_CFG Base;
#if TU_MAP == 0
  template <class L, class X> struct Sel { typedef jstd::robin_hash_map<K, V, Hash, Eq, L, Alloc> type; };
  template <class X> struct Sel<void, X> { typedef jstd::robin_hash_map<K, V, Hash, Eq, jstd::default_layout_policy<K, V>, Alloc> type; };
  typedef Sel<Base::L, int>::type Map; static const bool group = false; static const char * name() { return "robin/" STR(TU_CFG); }
#elif TU_MAP == 1
  typedef jstd::group15_flat_map<K, V, Hash, Eq, Alloc> Map; static const bool group = true; static const char * name() { return "group15/" STR(TU_CFG); }
#else
  typedef jstd::group16_flat_map<K, V, Hash, Eq, Alloc> Map; static const bool group = true; static const char * name() { return "group16/" STR(TU_CFG); }
#endif
  static const bool copyval = std::is_copy_constructible<V>::value && std::is_copy_assignable<V>::value;
  static const bool nxmove = std::is_nothrow_move_constructible<K>::value && std::is_nothrow_move_constructible<V>::value && std::is_nothrow_move_assignable<K>::value && std::is_nothrow_move_assignable<V>::value;
};
static const char * const kMaps[] = {"robin", "group15", "group16"};
static EngineReg reg_([] { EngineInfo i; i.name = TheCfg::name(); i.map = kMaps[TU_MAP]; i.cfg = STR(TU_CFG); i.make = make_engine<TheCfg>; i.group = TheCfg::group; i.tracked = KeyAcc<TheCfg::K>::tracked; i.copyval = TheCfg::copyval;
  i.hetero = TheCfg::hetero; i.nxmove = TheCfg::nxmove; i.stringy = std::is_same<TheCfg::K, std::string>::value; i.defaults = !TheCfg::simfunc; i.max_id = KeyAcc<TheCfg::K>::max_id(); return i; }());
} // namespace sim
