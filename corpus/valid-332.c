/*
 * Long declaration, doc_fits() not accounting for alignment regression.
 */

struct aaaaaaaaaaaaaaaaa	*bbbbbbbbbbbbbbbbbbbbbbb(void);
void				 ccccccccccccccccccccccc(struct ddddddddddddddddd *);
