/*
 * Sort includes.
 */

#include "a/b.h"
#include "a/a.h"
