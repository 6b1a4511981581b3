/*
 * SortIncludes: CaseSensitive
 */

#include "b.h"
#include "a.h"
