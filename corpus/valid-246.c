/*
 * Comment followed by comment.
 */

/* 
 * Time of day and interval timer support.
 */

/* This function is used by clock_settime and settimeofday */
int
settime(const struct timespec *ts)
{
}
