/*
 * Empty struct.
 */

struct a {

};
