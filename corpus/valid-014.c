/*
 * String concatenation.
 */

int
main(void)
{
	if (error) {
		DPRINTF("%s: battery feature index failure: device_id=%d, "
		    "error=%d\n", __func__, dev->d_id, error);
	}
}
