// Included before every source: the classes behind std::regex are instantiated
// once, without instrumentation, in re_inst.cpp. They work on memory that is
// private to the thread, and would be 95% of the work of a run.
#ifndef RE_DECL_H
#define RE_DECL_H
#include <regex>
#include <string>
#ifndef RE_INST
#define RE_INST extern
#endif
namespace std {
    namespace __detail {
        using ReIt1 = const char*;
        using ReIt2 = std::string::const_iterator;
        using ReA1 = std::allocator<std::__cxx11::sub_match<ReIt1>>;
        using ReA2 = std::allocator<std::__cxx11::sub_match<ReIt2>>;
        using ReTr = std::__cxx11::regex_traits<char>;
        RE_INST template class _Scanner<char>;
        RE_INST template class _Compiler<ReTr>;
        RE_INST template class _NFA<ReTr>;
        RE_INST template void _Executor<ReIt1, ReA1, ReTr, true>::_M_dfs(
            _Match_mode, _StateIdT);
        RE_INST template bool _Executor<ReIt1, ReA1, ReTr, true>::_M_search();
        RE_INST template void _Executor<ReIt1, ReA1, ReTr, false>::_M_dfs(
            _Match_mode, _StateIdT);
        RE_INST template bool _Executor<ReIt1, ReA1, ReTr, false>::_M_search();
        RE_INST template void _Executor<ReIt2, ReA2, ReTr, true>::_M_dfs(
            _Match_mode, _StateIdT);
        RE_INST template bool _Executor<ReIt2, ReA2, ReTr, true>::_M_search();
        RE_INST template void _Executor<ReIt2, ReA2, ReTr, false>::_M_dfs(
            _Match_mode, _StateIdT);
        RE_INST template bool _Executor<ReIt2, ReA2, ReTr, false>::_M_search();
    } // namespace __detail
} // namespace std
#endif
