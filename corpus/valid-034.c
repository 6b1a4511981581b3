/*
 * Declarations using preprocessor directives.
 */

TAILQ_HEAD(, kcov_dev)	kd_list = TAILQ_HEAD_INITIALIZER(kd_list);
