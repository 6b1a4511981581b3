/*
 * IncludeBlocks: Regroup
 * IncludeCategories:
 *   - Regex: '"b.h"'
 *     Regex: '"a.h"'
 */

#include "a.h"
