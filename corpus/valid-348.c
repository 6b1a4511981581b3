/*
 * Honor optional line in declarations after comma.
 */

typedef struct {
	uint32 vector:8,
	       reserved0:3,
	       reserved1:1,
	       reserved2:1,
	       reserved3:1,
	       reserved4:1;
};
