/*
 * IncludeBlocks: Regroup
 * IncludeCategories:
 *   - Regex: '"b.h"'
 *     Priority: 1
 *   - Regex: '"a.h"'
 *     Priority: 2
 * SortIncludes: CaseSensitive
 */

#include "a.h"
#include "B.h"
