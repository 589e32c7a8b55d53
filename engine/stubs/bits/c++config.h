// Symbolic build: strings and streams are instantiated (and so instrumented) instead of being called in libstdc++.so.
#pragma once
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
