/*
 * AFL
 */

i x ({
	x ({
		if 
	})

	({ ; });
}
