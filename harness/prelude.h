// Included before every translation unit of /repo which the checks compile.
#ifndef VERIF_PRELUDE_H_
#define VERIF_PRELUDE_H_
#ifdef __cplusplus
#include <iomanip>
#endif
#endif
