/*
 * AFL
 */

n(/**/union[);]
