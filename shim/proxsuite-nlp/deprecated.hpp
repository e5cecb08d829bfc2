// Stand-in for the header jrl-cmakemodules generates.
#pragma once
#define PROXSUITE_NLP_DEPRECATED
#define PROXSUITE_NLP_DEPRECATED_MESSAGE(...)
#define PROXSUITE_NLP_DEPRECATED_HEADER(...)
