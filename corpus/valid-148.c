/*
 * Empty enum.
 */

enum {};
