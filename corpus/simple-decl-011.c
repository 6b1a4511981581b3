/*
 * Group variable declarations regression.
 */

int download_schedule(download_t *, const char *url, download_cb_t,
    void *opaque
);
