/*
 * Hard recover.
 */

struct mfii_task_mgmt {
	union {
		int	x;
	} __packed __aligned(8);
} __packed __aligned(8);
