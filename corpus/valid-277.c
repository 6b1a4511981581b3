/*
 * Attributes
 */

typedef struct {
	uint8 type;
	uint32 len;
} __attribute__((__packed__)) msg;
