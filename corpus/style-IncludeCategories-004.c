/*
 * IncludeBlocks: Regroup
 * IncludeCategories:
 *   - Regex: '"a.h"'
 *     Priority: 2147483647
 *   - Regex: '"b.h"'
 *     Priority: -2147483647
 * SortIncludes: CaseSensitive
 */

#include "a.h"
#include "b.h"
