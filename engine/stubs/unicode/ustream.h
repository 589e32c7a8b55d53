#pragma once
#include <unicode/unistr.h>
