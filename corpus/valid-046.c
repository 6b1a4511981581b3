/*
 * Declaration of queue(3) array.
 */

TAILQ_HEAD(slpque, proc)	slpque[TABLESIZE];
