/*
 * SortIncludes: CaseSensitive
 */

#include "test.h"
#include "a.h"
