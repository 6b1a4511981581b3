/*
 * Empty argument expression regression.
 */

typedef SIMPLEQ_HEAD(, uvideo_mmap) q_mmap;
