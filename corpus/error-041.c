/*
 * AFL
 */

static
#foo
static
