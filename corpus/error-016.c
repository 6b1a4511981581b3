/*
 * AFL
 */

void
test_do_while({ .d ; }
