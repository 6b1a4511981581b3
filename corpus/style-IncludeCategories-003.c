/*
 * IncludeBlocks: Regroup
 * IncludeCategories:
 *   - Regex: '^<'
 *     Priority: 1
 *   - Regex: '^"'
 *     Priority: 2
 * SortIncludes: CaseSensitive
 */

#include "a.h"
#include "b.h"
