#include <mathic/DivList.h>
#include "div_if.h"
using namespace divmon;
template<bool Linked, bool Mask, class Exp> struct ListConf : ConfBase<Exp> {
  static const bool UseLinkedList = Linked;
  static const bool UseDivMask = Mask;
};
#define REG(L, M, E, name) \
  static mon::Registrar r_##name("list-" #name, "C01 C03 C06 C07 C09 C28 C35 C29 C30 C36", \
    &ListAdapter<mathic::DivList<ListConf<L, M, E> > >::run);
#if MON_PART == 0
REG(false, false, int, arrayInt)
#elif MON_PART == 1
REG(true, false, int, linkedInt)
#elif MON_PART == 2
REG(false, true, int, arrayMaskInt)
#elif MON_PART == 3
REG(true, true, int, linkedMaskInt)
#elif MON_PART == 4
REG(false, true, unsigned char, arrayMaskByte)
#else
REG(true, true, long long, linkedMaskLong)
#endif
