/*
 * SortIncludes: CaseSensitive
 */

#include "a.h"
#include "test.h"
