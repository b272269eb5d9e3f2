#include <mathic/KDTree.h>
#include "div_if.h"
using namespace divmon;
// Masks: 0 none, 1 on entries, 2 on entries and subtrees.
template<bool Packed, int Masks, size_t Leaf, bool Removals, class Exp> struct TreeConf : ConfBase<Exp> {
  static const bool UseDivMask = Masks > 0;
  static const bool UseTreeDivMask = Masks > 1;
  static const bool PackedTree = Packed;
  static const size_t LeafSize = Leaf;
  static const bool AllowRemovals = Removals;
};
#define REG(P, M, L, R, E, name) \
  static mon::Registrar r_##name("tree-" #name, "C02 C04 C06 C07 C08 C09 C28 C35 C29 C30 C36", \
    &TreeAdapter<mathic::KDTree<TreeConf<P, M, L, R, E> > >::run);
#if MON_PART == 0
REG(false, 0, 1, true, int, bin_none_1)
REG(true, 2, 8, true, int, packed_tree_8)
#elif MON_PART == 1
REG(false, 0, 3, true, unsigned, bin_none_3)
REG(true, 2, 1, true, int, packed_tree_1)
#elif MON_PART == 2
REG(false, 1, 2, true, int, bin_entry_2)
REG(true, 2, 2, true, long long, packed_tree_2)
#elif MON_PART == 3
REG(false, 1, 1, true, unsigned char, bin_entry_1)
REG(true, 1, 3, true, int, packed_entry_3)
#elif MON_PART == 4
REG(false, 2, 1, true, int, bin_tree_1)
REG(true, 1, 1, true, int, packed_entry_1)
#elif MON_PART == 5
REG(false, 2, 2, true, int, bin_tree_2)
REG(true, 0, 1, true, int, packed_none_1)
#elif MON_PART == 6
REG(false, 2, 8, true, unsigned char, bin_tree_8)
REG(true, 0, 2, true, unsigned char, packed_none_2)
#elif MON_PART == 7
REG(false, 2, 1, false, int, bin_tree_1_keep)
REG(true, 2, 1, false, int, packed_tree_1_keep)
#elif MON_PART == 8
REG(false, 1, 20, true, int, bin_entry_20)
REG(true, 2, 20, false, int, packed_tree_20_keep)
#else
REG(false, 0, 2, false, int, bin_none_2_keep)
REG(true, 2, 3, true, unsigned char, packed_tree_3)
#endif
