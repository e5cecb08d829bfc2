// Stand-in for the header jrl-cmakemodules generates.
#pragma once
#define PROXSUITE_NLP_WARNING_HEADER(...)
#define PROXSUITE_NLP_WARN(...) __VA_ARGS__
