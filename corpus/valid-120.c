/*
 * Broken cpp branch.
 */

#if 0
