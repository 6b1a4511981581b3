/*
 * Declaration with many trailing comments.
 */

const struct filterops *const	sysfilt_ops[] = { NULL, /*&aio_filtops,*/ /* EVFILT_AIO */ };
