/*
 * Sort includes.
 */

int x;

#include <curses.h>
#include <term.h>
#define HAVE_PLEDGE	1
