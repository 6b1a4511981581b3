/*
 * Long function pointer declaration.
 */

int	(*ex_eval)(struct expr *, struct match_list *, struct message *,
    const struct environment *);
