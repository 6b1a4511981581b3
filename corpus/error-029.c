/*
 * AFL
 */

c*;c*; 
2
