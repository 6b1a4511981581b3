/*
 * AFL
 */

f(src, target, targsize)
char *src;
char *target;
size_t targsize;
