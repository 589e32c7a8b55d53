// locale facets stay in libstdc++.so
#ifndef SX_locale_facets_nonio_tcc
#define SX_locale_facets_nonio_tcc
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#include_next <bits/locale_facets_nonio.tcc>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#endif
