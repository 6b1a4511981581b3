/*
 * AFL
 */

foo(�)
