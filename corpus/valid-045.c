/*
 * Declaration of queue(3) pointer.
 */

struct rwlock			 uidinfolk;
LIST_HEAD(uihashhead, uidinfo)	*uihashtbl;
