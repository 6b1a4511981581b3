/*
 * Form feed character must be interpreted as a space.
 */

#define FOO 1


