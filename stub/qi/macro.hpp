// Stand-in for libqi's macro header (not installed here): export everything.
#pragma once
#define QI_LIB_API(x) __attribute__((visibility("default")))
