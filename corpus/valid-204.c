/*
 * AFL
 */

#Gef									\
		)��							\
		)��				�		\			 Gef	�\�		)��							\			!(0B
