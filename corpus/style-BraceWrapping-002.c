/*
 * BraceWrapping:
 *   AfterControlStatement: false
 *   AfterControlStatement: true
 */
