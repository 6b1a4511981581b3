/*
 * Storage keywords before cpp x macros.
 */

static IMPLEMENT_LHASH_HASH_FN(ex_class_item, EX_CLASS_ITEM)
