/*
 * Function pointer initialization.
 */

int	(*wdog_ctl_cb)(void *, int) = NULL;
