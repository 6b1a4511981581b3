/*
 * ---
 * AttributeMacros:
 *  - __capability
 */
