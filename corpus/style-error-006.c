/*
 * # AFL
 * 10
 */
