// One group of profiles per translation unit (-DVH_GROUP=n).
#include "profiles.hpp"
using namespace vh;

#define MP(T, M) (&T::M)
// Unused bits of a member: with only TINY_OPTIONAL_USE_SEPARATE_BOOL_INSTEAD_OF_UNUSED_BITS a sentinel is required.
#if VH_NOBIT && !VH_NOMEM
  #define VH_PROFILE_MB(...)
#else
  #define VH_PROFILE_MB(...) VH_PROFILE(__VA_ARGS__)
#endif

#if VH_GROUP == 0 // std::optional: validates the specification itself
VH_PROFILE(std_full, "full", Tracked<FStd<TFull<int>>>)
VH_PROFILE(std_nothrow, "nothrow", Tracked<FStd<TNothrow<int>>>)
VH_PROFILE(std_copyonly, "copyonly", Tracked<FStd<TCopyOnly<int>>>)
VH_PROFILE(std_moveonly, "moveonly", Tracked<FStd<TMoveOnly<int>>>)
VH_PROFILE(std_noassign, "noassign", Tracked<FStd<TNoAssign<int>>>)
VH_PROFILE(std_immovable, "immovable", Tracked<FStd<TImm<int>>>)
VH_PROFILE(std_const, "const", Tracked<FStd<TFull<int> const>>)
#elif VH_GROUP == 1
VH_PROFILE(std_int, "scalar", Scalar<FStd<int>, TabInt<int>>)
VH_PROFILE(std_double, "scalar", Scalar<FStd<double>, TabFloat<double, std::uint64_t>>)
VH_PROFILE(std_cdouble, "sconst", Scalar<FStd<double const>, TabFloat<double, std::uint64_t>>)
VH_PROFILE(std_string, "plain", Class<FStd<std::string>, TabString, CAP_DEFAULT | CAP_CONV | CAP_HASH | CAP_LOOSE>)
VH_PROFILE(std_unique, "pmoveonly", Class<FStd<std::unique_ptr<int>>, TabUnique, CAP_DEFAULT | CAP_HASH>)
#elif VH_GROUP == 2
VH_PROFILE(full_sep, "full", Tracked<FTiny<TFull<int>>>)
VH_PROFILE_MB(full_memdouble, "full", Tracked<FTiny<TFull<double>, &TFull<double>::m>>)
VH_PROFILE_MB(full_memptr, "full", Tracked<FTiny<TFull<void *>, &TFull<void *>::m>>)
VH_PROFILE(full_memint, "full", Tracked<FTiny<TFull<int>, &TFull<int>::m, -7>>)
#elif VH_GROUP == 3
VH_PROFILE_MB(full_membool, "full", Tracked<FTiny<TFull<bool>, &TFull<bool>::m>>)
VH_PROFILE_MB(nothrow_memfloat, "nothrow", Tracked<FTiny<TNothrow<float>, &TNothrow<float>::m>>)
VH_PROFILE(full_viatype, "full", Tracked<FRaw<tiny::optional_sentinel_via_type<TFull<int>, std::integral_constant<int, -7>, &TFull<int>::m>>>)
VH_PROFILE(full_memchar, "full", Tracked<FTiny<TFull<char>, &TFull<char>::m, 'x'>>)
#elif VH_GROUP == 4
VH_PROFILE(full_inplace, "full", Tracked<FRaw<tiny::optional_inplace<TFull<int>, InplaceManip>>, CAP_FLAGS>)
VH_PROFILE(nothrow_custom, "nothrow", Tracked<FTiny<TCustom>, CAP_FLAGS>)
VH_PROFILE(full_heap, "full", Tracked<FTiny<THeap>, CAP_FLAGS>)
VH_PROFILE(full_memopq, "full", Tracked<FTiny<TFull<Opq>, &TFull<Opq>::m>, VH_NOMEM ? 0u : unsigned(CAP_FLAGS)>)
#elif VH_GROUP == 5
VH_PROFILE(nothrow_sep, "nothrow", Tracked<FTiny<TNothrow<int>>>)
VH_PROFILE(copyonly_sep, "copyonly", Tracked<FTiny<TCopyOnly<int>>>)
VH_PROFILE_MB(copyonly_memdouble, "copyonly", Tracked<FTiny<TCopyOnly<double>, &TCopyOnly<double>::m>>)
VH_PROFILE(moveonly_sep, "moveonly", Tracked<FTiny<TMoveOnly<int>>>)
VH_PROFILE_MB(moveonly_memptr, "moveonly", Tracked<FTiny<TMoveOnly<void *>, &TMoveOnly<void *>::m>>)
#elif VH_GROUP == 6
VH_PROFILE(noassign_sep, "noassign", Tracked<FTiny<TNoAssign<int>>>)
VH_PROFILE_MB(noassign_memfloat, "noassign", Tracked<FTiny<TNoAssign<float>, &TNoAssign<float>::m>>)
VH_PROFILE(immovable_sep, "immovable", Tracked<FTiny<TImm<int>>>)
VH_PROFILE(immovable_inplace, "immovable", Tracked<FRaw<tiny::optional_inplace<TImm<int>, InplaceManip>>, CAP_FLAGS>)
VH_PROFILE(immovable_memushort, "immovable", Tracked<FTiny<TImm<unsigned short>, &TImm<unsigned short>::m, 65535>>)
VH_PROFILE(const_sep, "const", Tracked<FTiny<TFull<int> const>>)
#elif VH_GROUP == 7
VH_PROFILE(amp_sep, "full", Tracked<FTiny<TAmp<int>>>)
VH_PROFILE_MB(amp_memdouble, "full", Tracked<FTiny<TAmp<double>, &TAmp<double>::m>>)
VH_PROFILE(amp_inplace, "full", Tracked<FRaw<tiny::optional_inplace<TAmp<int>, InplaceManip>>, CAP_FLAGS>)
VH_PROFILE(greedy_sep, "full", Tracked<FTiny<TGreedy<int>>>)
VH_PROFILE_MB(greedy_memfloat, "full", Tracked<FTiny<TGreedy<float>, &TGreedy<float>::m>>)
VH_PROFILE(greedy_inplace, "full", Tracked<FRaw<tiny::optional_inplace<TGreedy<int>, InplaceManip>>, CAP_FLAGS>)
VH_PROFILE(full_memcol, "full", Tracked<FTiny<TFull<Col>, &TFull<Col>::m>>)
VH_PROFILE(full_memcolsent, "full", Tracked<FTiny<TFull<Col>, &TFull<Col>::m, Col::blue>>)
#elif VH_GROUP == 8
VH_PROFILE(int_sep, "scalar", Scalar<FTiny<int>, TabInt<int>>)
VH_PROFILE(int_sent, "scalar", Scalar<FTiny<int, -12345>, TabIntS<int, -12345>>)
VH_PROFILE(int_sentmax, "scalar", Scalar<FTiny<int, INT_MAX>, TabIntS<int, INT_MAX>>)
VH_PROFILE(uchar_sent, "scalar", Scalar<FTiny<unsigned char, 255>, TabIntS<unsigned char, 255>>)
VH_PROFILE(schar_sent0, "scalar", Scalar<FTiny<signed char, 0>, TabIntS<signed char, 0>, CAP_CONV | CAP_HASH>)
VH_PROFILE(ushort_aip, "scalar", Scalar<FRaw<tiny::optional_aip<unsigned short>>, TabIntS<unsigned short, USHRT_MAX>>)
VH_PROFILE(llong_aip, "scalar", Scalar<FRaw<tiny::optional_aip<long long>>, TabIntS<long long, LLONG_MIN>>)
VH_PROFILE(ulong_aip, "scalar", Scalar<FRaw<tiny::optional_aip<unsigned long>>, TabIntS<unsigned long, ULONG_MAX>>)
#elif VH_GROUP == 9
VH_PROFILE(bool_bit, "scalar", Scalar<FTiny<bool>, TabBool<false, true>>)
VH_PROFILE(bool_true, "scalar", Scalar<FTiny<bool, true>, TabBool<false, false>>)
VH_PROFILE(bool_false, "scalar", Scalar<FTiny<bool, false>, TabBool<true, true>, CAP_CONV | CAP_HASH>)
VH_PROFILE(float_bit, "scalar", Scalar<FTiny<float>, TabFloat<float, std::uint32_t>>)
VH_PROFILE(double_bit, "scalar", Scalar<FTiny<double>, TabFloat<double, std::uint64_t>>)
VH_PROFILE(ldouble_sep, "scalar", Scalar<FTiny<long double>, TabLongDouble>)
VH_PROFILE(double_viatype, "scalar", Scalar<FRaw<tiny::optional_sentinel_via_type<double, SentDoubleNeg>>, TabFloat<double, std::uint64_t>>)
#elif VH_GROUP == 10
VH_PROFILE(ptr_bit, "scalar", Scalar<FTiny<int *>, TabPtr<int>>)
VH_PROFILE(cptr_bit, "scalar", Scalar<FTiny<void const *>, TabPtr<void const>>)
VH_PROFILE(fn_bit, "scalar", Scalar<FTiny<void (*)()>, TabFn>)
VH_PROFILE(memptr_sep, "scalar", Scalar<FTiny<int HasMem::*>, TabMemPtr, CAP_DEFAULT | CAP_CONV>)
VH_PROFILE(enum_sep, "scalar", Scalar<FTiny<Plain>, TabEnum<Plain, P0, P1, P3>>)
VH_PROFILE(enum_sent, "scalar", Scalar<FTiny<Sent, Sent::none>, TabEnum<Sent, Sent::s0, Sent::s1, Sent::s2>>)
VH_PROFILE(enum_manip, "scalar", Scalar<FTiny<Col>, TabEnum<Col, Col::red, Col::green, Col::blue>>)
VH_PROFILE(int_inplace, "scalar", Scalar<FRaw<tiny::optional_inplace<int, InplaceIntManip>>, TabIntS<int, 1000>>)
#elif VH_GROUP == 11
VH_PROFILE(string_sep, "plain", Class<FTiny<std::string>, TabString, CAP_DEFAULT | CAP_CONV | CAP_HASH | CAP_LOOSE>)
VH_PROFILE(vector_sep, "plain", Class<FTiny<std::vector<int>>, TabVector, CAP_DEFAULT | CAP_IL | CAP_CONV | CAP_LOOSE>)
VH_PROFILE(unique_sep, "pmoveonly", Class<FTiny<std::unique_ptr<int>>, TabUnique, CAP_DEFAULT | CAP_HASH>)
VH_PROFILE(shared_sep, "plain", Class<FTiny<std::shared_ptr<int>>, TabShared, CAP_DEFAULT | CAP_CONV | CAP_HASH>)
VH_PROFILE(nest_sep, "scalar", Class<FTiny<tiny::optional<double>>, TabNest, CAP_DEFAULT>)
#elif VH_GROUP == 12
VH_PROFILE(big_sep, "scalar", Class<FTiny<Big>, TabBig, CAP_CONV>)
VH_PROFILE(poly_sep, "scalar", Class<FTiny<Poly>, TabPoly, CAP_DEFAULT | CAP_CONV>)
VH_PROFILE(empty_sep, "scalar", Class<FTiny<EmptyS>, TabEmpty, CAP_DEFAULT | CAP_CONV>)
VH_PROFILE(pt_viatype, "scalar", Class<FRaw<tiny::optional_sentinel_via_type<SentPt, SentPtValue>>, TabPt, CAP_CONV>)
VH_PROFILE(arr_sep, "scalar", Class<FTiny<Arr>, TabArr, CAP_CONV>)
  #if defined(TINY_OPTIONAL_CPP20)
VH_PROFILE(pt_nttp, "scalar", Class<FTiny<SentPt, SentPt{-1, -1}>, TabPt, CAP_CONV>)
  #endif
#elif VH_GROUP == 13
VH_PROFILE(cint_sep, "sconst", Scalar<FTiny<int const>, TabInt<int>>)
VH_PROFILE(cint_sent, "sconst", Scalar<FTiny<int const, 3>, TabIntS<int, 3>>)
VH_PROFILE(cdouble_bit, "sconst", Scalar<FTiny<double const>, TabFloat<double, std::uint64_t>>)
VH_PROFILE(cbool_bit, "sconst", Scalar<FTiny<bool const>, TabBool<false, true>>)
VH_PROFILE(cptr_const, "sconst", Scalar<FTiny<int * const>, TabPtr<int>>)
VH_PROFILE(vint_sep, "scalar", Scalar<FTiny<int volatile>, TabInt<int>, 0>)
VH_PROFILE(vint_sent, "scalar", Scalar<FTiny<int volatile, -5>, TabIntS<int, -5>, 0>)
VH_PROFILE(vdouble_bit, "scalar", Scalar<FTiny<double volatile>, TabFloat<double, std::uint64_t>, 0>)
#elif VH_GROUP == 14
VH_PROFILE(std_plain, "plain", Tracked<FStd<TVar<int, NxAll>>>)
VH_PROFILE(plain_sep, "plain", Tracked<FTiny<TVar<int, NxAll>>>)
VH_PROFILE_MB(plain_memptr, "plain", Tracked<FTiny<TVar<void *, NxAll>, &TVar<void *, NxAll>::m>>)
VH_PROFILE(std_empty, "full", Tracked<FStd<TEmpty<NxNone>>>)
VH_PROFILE(empty_full, "full", Tracked<FTiny<TEmpty<NxNone>>>)
VH_PROFILE(empty_plain, "plain", Tracked<FTiny<TEmpty<NxAll>>>)
#elif VH_GROUP == 15
VH_PROFILE(std_trivd, "full", Tracked<FStd<TTrivD<int, NxNone>>, CAP_NODTOR>)
VH_PROFILE(trivd_sep, "full", Tracked<FTiny<TTrivD<int, NxNone>>, CAP_NODTOR>)
VH_PROFILE_MB(trivd_memfloat, "full", Tracked<FTiny<TTrivD<float, NxNone>, &TTrivD<float, NxNone>::m>, CAP_NODTOR>)
VH_PROFILE(trivd_inplace, "plain", Tracked<FRaw<tiny::optional_inplace<TTrivD<int, NxAll>, InplaceManip>>, CAP_FLAGS | CAP_NODTOR>)
VH_PROFILE(poly_full, "full", Tracked<FTiny<TPoly<int, NxNone>>>)
VH_PROFILE_MB(poly_memdouble, "plain", Tracked<FTiny<TPoly<double, NxAll>, &TPoly<double, NxAll>::m>>)
#elif VH_GROUP == 16
VH_PROFILE(std_copynx, "copynx", Tracked<FStd<TVar<int, NxCopy>>>)
VH_PROFILE(copynx_aligned, "copynx", Tracked<FTiny<TAligned<int, NxCopy>>>)
VH_PROFILE_MB(copynx_membool, "copynx", Tracked<FTiny<TVar<bool, NxCopy>, &TVar<bool, NxCopy>::m>>)
VH_PROFILE(std_mcnx, "mcnx", Tracked<FStd<TVar<int, NxMoveC>>>)
VH_PROFILE(mcnx_sep, "mcnx", Tracked<FTiny<TVar<int, NxMoveC>>>)
VH_PROFILE(mcnx_memint, "mcnx", Tracked<FTiny<TVar<int, NxMoveC>, &TVar<int, NxMoveC>::m, -9>>)
#elif VH_GROUP == 17
VH_PROFILE(std_manx, "manx", Tracked<FStd<TVar<int, NxMoveA>>>)
VH_PROFILE(manx_sep, "manx", Tracked<FTiny<TVar<int, NxMoveA>>>)
VH_PROFILE_MB(manx_memptr, "manx", Tracked<FTiny<TVar<void *, NxMoveA>, &TVar<void *, NxMoveA>::m>>)
VH_PROFILE(manx_viatype, "manx", Tracked<FRaw<tiny::optional_sentinel_via_type<TVar<int, NxMoveA>, std::integral_constant<int, -7>, &TVar<int, NxMoveA>::m>>>)
VH_PROFILE(copynx_inplace, "copynx", Tracked<FRaw<tiny::optional_inplace<TAligned<int, NxCopy>, InplaceManip>>, CAP_FLAGS>)
#elif VH_GROUP == 18
VH_PROFILE(std_triv, "triv", Tracked<FStd<TTriv<int, NxCM>>, CAP_NODTOR | CAP_NOCM>)
VH_PROFILE(triv_sep, "triv", Tracked<FTiny<TTriv<int, NxCM>>, CAP_NODTOR | CAP_NOCM>)
VH_PROFILE(triv_memint, "triv", Tracked<FTiny<TTriv<int, NxCM>, &TTriv<int, NxCM>::m, -9>, CAP_NODTOR | CAP_NOCM>)
VH_PROFILE_MB(triv_memptr, "triv", Tracked<FTiny<TTriv<void *, NxCM>, &TTriv<void *, NxCM>::m>, CAP_NODTOR | CAP_NOCM>)
VH_PROFILE(triv_inplace, "triv", Tracked<FRaw<tiny::optional_inplace<TTriv<int, NxCM>, TrivManip>>, CAP_FLAGS | CAP_NODTOR | CAP_NOCM>)
VH_PROFILE(triv_custom, "triv", Tracked<FTiny<TTriv<char, NxCM>>, CAP_FLAGS | CAP_NODTOR | CAP_NOCM>)
VH_PROFILE(intflag_inplace, "scalar", Scalar<FRaw<tiny::optional_inplace<int, TrivManip>>, TabIntS<int, 1000>, CAP_DEFAULT | CAP_CONV | CAP_HASH | CAP_FLAGS>)
#else
  #error unknown group
#endif
