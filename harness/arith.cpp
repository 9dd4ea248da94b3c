// SOURCES: score/memory/shared/pointer_arithmetic_util.cpp
// ENTRY: h_arith property=C16 reach=add,sub,signed_off,diff,abs,undo,add_u,sub_u,rejected quick=120 thorough=600
// ENTRY: h_align property=C16 reach=pow2,any,rejected quick=120 thorough=600
// ENTRY: h_sequence property=C16 reach=laid_out,rejected quick=120 thorough=900 defs=N=3 tdefs=N=4
// BOUND: every 64-bit pointer, offset and size; alignments: every power of two, and every value up to 40 for sizes below 2^16; sequences of up to 3 (4) elements with alignments 1, 8, 64, 4096 and every size that is a multiple of the alignment
#include "sym.h"
#include <cstdlib>
#include <vector>
#include "score/memory/shared/pointer_arithmetic_util.h"
using namespace score::memory::shared;
using I = __int128;
#ifndef N
#define N 3
#endif
static constexpr I kU = I{0xFFFFFFFFFFFFFFFFull}, kMax = I{0x7FFFFFFFFFFFFFFFll}, kMin = -kMax - 1;
// the operation gives the exact mathematical result if that is representable, and never returns anything else
template <class F> static void exact(I want, I lo, I hi, F f, const char* what) {
  I got = 0; bool dead = sym_try_f([&] { got = f(); });
  if (dead) { sym_assert((want < lo) | (want > hi), "an operation with a representable result terminates"); sym_reach("rejected"); }
  else sym_assert(got == want, what);
}
extern "C" void h_arith() {
  std::uint64_t a = sym_u64("a"), b = sym_u64("b"); auto sa = static_cast<std::int64_t>(a), sb = static_cast<std::int64_t>(b); auto pa = CastIntegerToPointer<const char*>(a), pb = CastIntegerToPointer<const char*>(b);
  switch (sym_choose(9, "operation")) {
    case 0: exact(I{a} + I{b}, 0, kU, [&] { return I{AddOffsetToPointerAsInteger(a, b)}; }, "pointer plus offset"); exact(I{a} + I{b}, 0, kU, [&] { return I{CastPointerToInteger(AddOffsetToPointer(pa, b))}; }, "pointer plus offset"); sym_reach("add"); break;
    case 1: exact(I{a} - I{b}, 0, kU, [&] { return I{SubtractOffsetFromPointerAsInteger(a, b)}; }, "pointer minus offset"); sym_reach("sub"); break;
    case 2: exact(I{a} + I{sb}, 0, kU, [&] { return I{AddSignedOffsetToPointerAsInteger(a, sb)}; }, "pointer plus signed offset"); exact(I{a} + I{sb}, 0, kU, [&] { return I{CastPointerToInteger(AddOffsetToPointer(pa, static_cast<std::ptrdiff_t>(sb)))}; }, "pointer plus signed offset"); sym_reach("signed_off"); break;
    case 3: exact(I{a} - I{b}, kMin, kMax, [&] { return I{SubtractPointersBytes(pa, pb)}; }, "pointer difference"); sym_reach("diff"); break;
    case 4: exact(sa < 0 ? -I{sa} : I{sa}, 0, kU, [&] { return I{AbsoluteValue(sa)}; }, "absolute value"); { auto s = static_cast<std::int32_t>(a); exact(s < 0 ? -I{s} : I{s}, 0, kU, [&] { return I{AbsoluteValue(s)}; }, "absolute value"); } sym_reach("abs"); break;
    case 5: exact(I{sa}, kMin, kMax, [&] { return I{UndoSignedToUnsignedIntegerCast(a)}; }, "undo cast"); { auto u = static_cast<std::uint32_t>(a); exact(I{static_cast<std::int32_t>(u)}, kMin, kMax, [&] { return I{UndoSignedToUnsignedIntegerCast(u)}; }, "undo cast"); } sym_reach("undo"); break;
    case 6: exact(I{sa} + I{b}, kMin, kMax, [&] { return I{AddUnsignedToSigned(sa, b)}; }, "signed plus unsigned"); sym_reach("add_u"); break;
    case 7: exact(I{sa} - I{b}, kMin, kMax, [&] { return I{SubtractUnsignedFromSigned(sa, b)}; }, "signed minus unsigned"); sym_reach("sub_u"); break;
    default: { auto s = static_cast<std::int32_t>(a); auto u = static_cast<std::uint32_t>(b); exact(I{s} + I{u}, -I{2147483648ll}, I{2147483647ll}, [&] { return I{AddUnsignedToSigned(s, u)}; }, "signed plus unsigned"); exact(I{s} - I{u}, -I{2147483648ll}, I{2147483647ll}, [&] { return I{SubtractUnsignedFromSigned(s, u)}; }, "signed minus unsigned"); }
  }
}
extern "C" void h_align() {
  if (sym_choose(2, "kind") == 0) {
    std::uint64_t s = sym_u64("size"), al = 1ull << sym_choose(64, "alignment"); I up = I{s} + ((al - (s & (al - 1))) & (al - 1)); exact(up, 0, kU, [&] { return I{CalculateAlignedSize(s, al)}; }, "aligned size"); sym_reach("pow2");
  } else {
    std::uint16_t s = sym_u16("size"); std::uint64_t al = sym_choose(41, "alignment"); std::uint64_t r = 0; bool dead = sym_try_f([&] { r = CalculateAlignedSize(s, al); });
    sym_assert(dead == (al == 0), "terminates exactly for alignment zero");
    if (!dead) { sym_assert(r < 0x20000, "aligned size"); auto q = static_cast<std::uint32_t>(r); auto d = static_cast<std::uint32_t>(al); sym_assert((q >= s) & (q < std::uint32_t{s} + d) & (q % d == 0), "smallest multiple of the alignment that is not below the size"); sym_reach("any"); } else sym_reach("rejected");
  }
}
extern "C" void h_sequence() {
  int n = sym_choose(N + 1, "elements"); std::vector<score::memory::DataTypeSizeInfo> v; I end = 0; bool fits = true; static const std::uint64_t kAl[] = {1, 8, 64, 4096};
  for (int i = 0; i < n; i++) {
    std::uint64_t s = sym_u64("size"), al = kAl[sym_choose(4, "alignment")]; sym_assume((s & (al - 1)) == 0); v.emplace_back(s, al);
    if (i) { std::uint64_t e = static_cast<std::uint64_t>(end); end += (al - (e & (al - 1))) & (al - 1); if (end > kU) fits = false; }   // padding up to this element's alignment
    end += s; if (end > kU) fits = false; if (!fits) break;
  }
  std::uint64_t r = 0; bool dead = sym_try_f([&] { r = CalculateAlignedSizeOfSequence(v); });
  if (dead) { sym_assert(!fits, "a representable layout is rejected"); sym_reach("rejected"); } else { sym_assert(fits && I{r} == end, "size of the elements laid out one after the other with their alignments"); sym_reach("laid_out"); }
}
