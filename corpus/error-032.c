/*
 * AFL
 */

int
main(void)
{
	switch (0) {
	case 0:
	{
	}
		int x;
	}
	}
}
