// stands for the libassert library
#pragma once
#define LIBASSERT_ASSUME(expression, ...) ((expression) ? static_cast<void>(0) : __builtin_abort())
