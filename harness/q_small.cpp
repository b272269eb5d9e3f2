// The heap, the tournament tree and the set-based queue, with the engine of q_engine.cpp.
#include <mathic/Heap.h>
#include <mathic/TourTree.h>
#include <mathic/StlSet.h>
#include "q_if.h"
using namespace qmon;
namespace {
  template<class Conf> IQueue* makeHeap() {
    return new QAdapter<mathic::Heap<Conf>, true, true, true>(Conf());
  }
  template<class Conf> void heapCase(Ctx& ctx) {
    QKind k = kindOf<typename Conf::Entry>("heap", Conf::supportDeduplication);
    k.hasMove = true;
    runQueueCase(ctx, k, &makeHeap<Conf>);
  }
  template<class Conf> IQueue* makeTour() {
    return new QAdapter<mathic::TourTree<Conf>, false, true, false>(Conf());
  }
  template<class Conf> void tourCase(Ctx& ctx) {
    QKind k = kindOf<typename Conf::Entry>("tour", false);
    k.hasSize = false;
    runQueueCase(ctx, k, &makeTour<Conf>);
  }
  template<class Conf> IQueue* makeSet() {
    return new QAdapter<mathic::StlSet<Conf>, false, false, false>(Conf());
  }
  template<class Conf> void setCase(Ctx& ctx) {
    QKind k = kindOf<typename Conf::Entry>("set", false);
    k.hasSize = k.hasDecrease = k.hasForAll = k.hasClear = false;
    runQueueCase(ctx, k, &makeSet<Conf>);
  }
}
#define HEAP(name, w, modes, ...) static mon::Registrar rh_##name("heap-" #name, "C10 C37 C15 C28 C35 " modes, &heapCase<__VA_ARGS__ >, w);
#define TOUR(name, w, modes, ...) static mon::Registrar rt_##name("tour-" #name, "C11 C37 C15 C28 C35 " modes, &tourCase<__VA_ARGS__ >, w);
#define SET(name, w, modes, ...) static mon::Registrar rs_##name("set-" #name, "C13 C37 C28 C35 " modes, &setCase<__VA_ARGS__ >, w);
#if MON_PART == 0
HEAP(p16, 3, "C29 C30", ConfObj<P16, false, false>)
HEAP(p16fi, 3, "C29 C30", ConfObj<P16, false, true>)
HEAP(ownedfi, 3, "", ConfObj<Owned, false, true>)
HEAP(odd24, 2, "C30", ConfObj<Odd24, false, false>)
HEAP(int4fi, 2, "C29 C30", ConfStatic<Int4, false, true>)
HEAP(byte1fi, 2, "C30", ConfStatic<Byte1, false, true>)
HEAP(big32fi, 2, "C30", ConfStatic<Big32, false, true>)
HEAP(odd12, 2, "C30", ConfObj<Odd12, false, false>)
#elif MON_PART == 1
HEAP(p16_dedup, 8, "C14 C29 C30", ConfObj<P16, true, false>)
HEAP(p16fi_dedup, 8, "C14 C29 C30", ConfObj<P16, true, true>)
HEAP(owned_dedup, 6, "C14", ConfStatic<Owned, true, false>)
HEAP(ownedfi_dedup, 6, "C14", ConfObj<Owned, true, true>)
HEAP(odd24_dedup, 4, "C14", ConfStatic<Odd24, true, false>)
#else
TOUR(p16, 6, "C29 C30", ConfObj<P16, false, false>)
TOUR(p16fi, 3, "C29", ConfStatic<P16, false, true>)
TOUR(owned, 4, "", ConfObj<Owned, false, false>)
TOUR(odd24, 3, "C30", ConfObj<Odd24, false, false>)
TOUR(int4, 3, "C29 C30", ConfStatic<Int4, false, false>)
TOUR(byte1, 2, "C30", ConfStatic<Byte1, false, false>)
SET(p16, 3, "C30", ConfObj<P16, false, false>)
SET(owned, 3, "", ConfObj<Owned, false, false>)
SET(odd24, 2, "C30", ConfStatic<Odd24, false, false>)
SET(int4, 2, "C30", ConfStatic<Int4, false, false>)
#endif
