/*
 * ForEachMacros:
 *   - VFOREACH_T
 *   - VFORI
 *   - VFORT
 *   - VFORP
 */
