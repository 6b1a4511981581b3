/*
 * Huge brace initializers.
 */

static const u32 rtw8822c_rf_a[] = {
	0x000, 0x00030000,
	0x018, 0x00013124,
	0x093, 0x0008483F,
	0x0DE, 0x00000020,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000B9140,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000B9140,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x08E, 0x000A5540,
	0xA0000000, 0x00000000,
	0x08E, 0x000A5540,
	0xB0000000, 0x00000000,
	0x081, 0x0000FC01,
	0x081, 0x0002FC01,
	0x081, 0x0003FC01,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x085, 0x0006A06C,
	0xA0000000, 0x00000000,
	0x085, 0x0006A06C,
	0xB0000000, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000003F,
	0x033, 0x00000001,
	0x03F, 0x0000003F,
	0x033, 0x00000002,
	0x03F, 0x0000003F,
	0x0EE, 0x00000000,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000003F,
	0x033, 0x00000001,
	0x03F, 0x0000003F,
	0x033, 0x00000002,
	0x03F, 0x0000003F,
	0x0EE, 0x00000000,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000001,
	0x03F, 0x0000002A,
	0x033, 0x00000002,
	0x03F, 0x0000002A,
	0x0EE, 0x00000000,
	0xA0000000, 0x00000000,
	0x0EE, 0x00000010,
	0x033, 0x00000001,
	0x03F, 0x0000003F,
	0x033, 0x00000001,
	0x03F, 0x0000003F,
	0x033, 0x00000002,
	0x03F, 0x0000003F,
	0x0EE, 0x00000000,
	0xB0000000, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773E8,
	0x033, 0x0000000E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000D,
	0x03F, 0x00000380,
	0x033, 0x0000000C,
	0x03F, 0x000FF380,
	0x033, 0x0000000B,
	0x03F, 0x00000300,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773E8,
	0x033, 0x0000000E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000D,
	0x03F, 0x00000380,
	0x033, 0x0000000C,
	0x03F, 0x000FF380,
	0x033, 0x0000000B,
	0x03F, 0x00000300,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773C0,
	0x033, 0x0000000E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000000D,
	0x03F, 0x000773E8,
	0x033, 0x0000000C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000000B,
	0x03F, 0x00000287,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000207,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0xA0000000, 0x00000000,
	0x0EF, 0x00010000,
	0x033, 0x0000000F,
	0x03F, 0x000773E8,
	0x033, 0x0000000E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000000D,
	0x03F, 0x00000380,
	0x033, 0x0000000C,
	0x03F, 0x000FF380,
	0x033, 0x0000000B,
	0x03F, 0x00000300,
	0x033, 0x0000000A,
	0x03F, 0x000002A8,
	0x033, 0x00000009,
	0x03F, 0x00000280,
	0x033, 0x00000008,
	0x03F, 0x000FF280,
	0x033, 0x00000007,
	0x03F, 0x00000200,
	0x033, 0x00000006,
	0x03F, 0x000001C0,
	0x033, 0x00000005,
	0x03F, 0x00000180,
	0x033, 0x00000004,
	0x03F, 0x00000040,
	0xB0000000, 0x00000000,
	0x033, 0x00000003,
	0x03F, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773E8,
	0x033, 0x0000001E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001D,
	0x03F, 0x00000380,
	0x033, 0x0000001C,
	0x03F, 0x000FF380,
	0x033, 0x0000001B,
	0x03F, 0x00000300,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773E8,
	0x033, 0x0000001E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001D,
	0x03F, 0x00000380,
	0x033, 0x0000001C,
	0x03F, 0x000FF380,
	0x033, 0x0000001B,
	0x03F, 0x00000300,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773C0,
	0x033, 0x0000001E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000001D,
	0x03F, 0x000773E8,
	0x033, 0x0000001C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000001B,
	0x03F, 0x00000287,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000207,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0xA0000000, 0x00000000,
	0x033, 0x0000001F,
	0x03F, 0x000773E8,
	0x033, 0x0000001E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000001D,
	0x03F, 0x00000380,
	0x033, 0x0000001C,
	0x03F, 0x000FF380,
	0x033, 0x0000001B,
	0x03F, 0x00000300,
	0x033, 0x0000001A,
	0x03F, 0x000002A8,
	0x033, 0x00000019,
	0x03F, 0x00000280,
	0x033, 0x00000018,
	0x03F, 0x000FF280,
	0x033, 0x00000017,
	0x03F, 0x00000200,
	0x033, 0x00000016,
	0x03F, 0x000001C0,
	0x033, 0x00000015,
	0x03F, 0x00000180,
	0x033, 0x00000014,
	0x03F, 0x00000040,
	0xB0000000, 0x00000000,
	0x033, 0x00000013,
	0x03F, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773E8,
	0x033, 0x0000002E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002D,
	0x03F, 0x00000380,
	0x033, 0x0000002C,
	0x03F, 0x000FF380,
	0x033, 0x0000002B,
	0x03F, 0x00000300,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773E8,
	0x033, 0x0000002E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002D,
	0x03F, 0x00000380,
	0x033, 0x0000002C,
	0x03F, 0x000FF380,
	0x033, 0x0000002B,
	0x03F, 0x00000300,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773C0,
	0x033, 0x0000002E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000002D,
	0x03F, 0x000773E8,
	0x033, 0x0000002C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000002B,
	0x03F, 0x00000287,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000207,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0xA0000000, 0x00000000,
	0x033, 0x0000002F,
	0x03F, 0x000773E8,
	0x033, 0x0000002E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000002D,
	0x03F, 0x00000380,
	0x033, 0x0000002C,
	0x03F, 0x000FF380,
	0x033, 0x0000002B,
	0x03F, 0x00000300,
	0x033, 0x0000002A,
	0x03F, 0x000002A8,
	0x033, 0x00000029,
	0x03F, 0x00000280,
	0x033, 0x00000028,
	0x03F, 0x000FF280,
	0x033, 0x00000027,
	0x03F, 0x00000200,
	0x033, 0x00000026,
	0x03F, 0x000001C0,
	0x033, 0x00000025,
	0x03F, 0x00000180,
	0x033, 0x00000024,
	0x03F, 0x00000040,
	0xB0000000, 0x00000000,
	0x033, 0x00000023,
	0x03F, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773E8,
	0x033, 0x0000003E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003D,
	0x03F, 0x00000380,
	0x033, 0x0000003C,
	0x03F, 0x000FF380,
	0x033, 0x0000003B,
	0x03F, 0x00000300,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773E8,
	0x033, 0x0000003E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003D,
	0x03F, 0x00000380,
	0x033, 0x0000003C,
	0x03F, 0x000FF380,
	0x033, 0x0000003B,
	0x03F, 0x00000300,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773C0,
	0x033, 0x0000003E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000003D,
	0x03F, 0x000773E8,
	0x033, 0x0000003C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000003B,
	0x03F, 0x00000287,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000207,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0xA0000000, 0x00000000,
	0x033, 0x0000003F,
	0x03F, 0x000773E8,
	0x033, 0x0000003E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000003D,
	0x03F, 0x00000380,
	0x033, 0x0000003C,
	0x03F, 0x000FF380,
	0x033, 0x0000003B,
	0x03F, 0x00000300,
	0x033, 0x0000003A,
	0x03F, 0x000002A8,
	0x033, 0x00000039,
	0x03F, 0x00000280,
	0x033, 0x00000038,
	0x03F, 0x000FF280,
	0x033, 0x00000037,
	0x03F, 0x00000200,
	0x033, 0x00000036,
	0x03F, 0x000001C0,
	0x033, 0x00000035,
	0x03F, 0x00000180,
	0x033, 0x00000034,
	0x03F, 0x00000040,
	0xB0000000, 0x00000000,
	0x033, 0x00000033,
	0x03F, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773E8,
	0x033, 0x0000004E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004D,
	0x03F, 0x00000380,
	0x033, 0x0000004C,
	0x03F, 0x000FF380,
	0x033, 0x0000004B,
	0x03F, 0x00000300,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773E8,
	0x033, 0x0000004E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004D,
	0x03F, 0x00000380,
	0x033, 0x0000004C,
	0x03F, 0x000FF380,
	0x033, 0x0000004B,
	0x03F, 0x00000300,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773C0,
	0x033, 0x0000004E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000004D,
	0x03F, 0x000773E8,
	0x033, 0x0000004C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000004B,
	0x03F, 0x00000287,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000207,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0xA0000000, 0x00000000,
	0x033, 0x0000004F,
	0x03F, 0x000773E8,
	0x033, 0x0000004E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000004D,
	0x03F, 0x00000380,
	0x033, 0x0000004C,
	0x03F, 0x000FF380,
	0x033, 0x0000004B,
	0x03F, 0x00000300,
	0x033, 0x0000004A,
	0x03F, 0x000002A8,
	0x033, 0x00000049,
	0x03F, 0x00000280,
	0x033, 0x00000048,
	0x03F, 0x000FF280,
	0x033, 0x00000047,
	0x03F, 0x00000200,
	0x033, 0x00000046,
	0x03F, 0x000001C0,
	0x033, 0x00000045,
	0x03F, 0x00000180,
	0x033, 0x00000044,
	0x03F, 0x00000040,
	0xB0000000, 0x00000000,
	0x033, 0x00000043,
	0x03F, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773E8,
	0x033, 0x0000005E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005D,
	0x03F, 0x00000380,
	0x033, 0x0000005C,
	0x03F, 0x000FF380,
	0x033, 0x0000005B,
	0x03F, 0x00000300,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773E8,
	0x033, 0x0000005E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005D,
	0x03F, 0x00000380,
	0x033, 0x0000005C,
	0x03F, 0x000FF380,
	0x033, 0x0000005B,
	0x03F, 0x00000300,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773C0,
	0x033, 0x0000005E,
	0x03F, 0x000FF3C0,
	0x033, 0x0000005D,
	0x03F, 0x000773E8,
	0x033, 0x0000005C,
	0x03F, 0x000FF3E8,
	0x033, 0x0000005B,
	0x03F, 0x00000287,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000207,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0xA0000000, 0x00000000,
	0x033, 0x0000005F,
	0x03F, 0x000773E8,
	0x033, 0x0000005E,
	0x03F, 0x000FF3A0,
	0x033, 0x0000005D,
	0x03F, 0x00000380,
	0x033, 0x0000005C,
	0x03F, 0x000FF380,
	0x033, 0x0000005B,
	0x03F, 0x00000300,
	0x033, 0x0000005A,
	0x03F, 0x000002A8,
	0x033, 0x00000059,
	0x03F, 0x00000280,
	0x033, 0x00000058,
	0x03F, 0x000FF280,
	0x033, 0x00000057,
	0x03F, 0x00000200,
	0x033, 0x00000056,
	0x03F, 0x000001C0,
	0x033, 0x00000055,
	0x03F, 0x00000180,
	0x033, 0x00000054,
	0x03F, 0x00000040,
	0xB0000000, 0x00000000,
	0x033, 0x00000053,
	0x03F, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00000000,
	0xA0000000, 0x00000000,
	0x0EF, 0x00000000,
	0xB0000000, 0x00000000,
	0x08A, 0x000E7DE3,
	0x08B, 0x0008FE00,
	0x0EE, 0x00000008,
	0x033, 0x00000000,
	0x03F, 0x00000023,
	0x033, 0x00000001,
	0x03F, 0x00000023,
	0x0EE, 0x00000000,
	0x0EF, 0x00004000,
	0x033, 0x00000000,
	0x03F, 0x0000000F,
	0x033, 0x00000002,
	0x03F, 0x00000000,
	0x0EF, 0x00000000,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000008,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000010,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000008,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000010,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000008,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002F81C,
	0x033, 0x00000010,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001C86,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0xA0000000, 0x00000000,
	0x0EF, 0x00020000,
	0x033, 0x00000000,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000001,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000002,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000003,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000004,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000005,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000006,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000007,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000008,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000009,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000000A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000000B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000000C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000000D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000000E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000000F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000010,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000011,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000012,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000013,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000014,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000015,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000016,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000017,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000018,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000019,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000001A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000001B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000001C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000001D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000001E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000001F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000020,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000021,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x00000022,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x00000023,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x00000024,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x00000025,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x00000026,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x00000027,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x033, 0x00000028,
	0x03E, 0x00001910,
	0x03F, 0x00020000,
	0x033, 0x00000029,
	0x03E, 0x00001C02,
	0x03F, 0x00020000,
	0x033, 0x0000002A,
	0x03E, 0x00000F02,
	0x03F, 0x00020000,
	0x033, 0x0000002B,
	0x03E, 0x00000F00,
	0x03F, 0x00020000,
	0x033, 0x0000002C,
	0x03E, 0x00000086,
	0x03F, 0x00020000,
	0x033, 0x0000002D,
	0x03E, 0x00000002,
	0x03F, 0x00020000,
	0x033, 0x0000002E,
	0x03E, 0x00000000,
	0x03F, 0x00020000,
	0x033, 0x0000002F,
	0x03E, 0x00000000,
	0x03F, 0x0002C010,
	0x0EF, 0x00000000,
	0xB0000000, 0x00000000,
	0x0FE, 0x00000000,
	0x01B, 0x00003A40,
	0x061, 0x0000D233,
	0x062, 0x0004D232,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000C02,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000C02,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x93000002, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x93000003, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x93000004, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x93000005, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x93000006, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x93000015, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x93000016, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x94000001, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x94000002, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x94000003, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x94000004, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x94000005, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x94000006, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x94000015, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x94000016, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x95000001, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x95000002, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x95000003, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x95000004, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x95000005, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x95000006, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x95000015, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0x95000016, 0x00000000, 0x40000000, 0x00000000,
	0x063, 0x00000002,
	0xA0000000, 0x00000000,
	0x063, 0x00000C02,
	0xB0000000, 0x00000000,
	0x0EF, 0x00000200,
	0x8f000000, 0x00000000, 0x40000000, 0x00000000,
	0x030, 0x00000233,
	0x030, 0x00001233,
	0x030, 0x00002233,
	0x030, 0x00003233,
	0x030, 0x00004203,
	0x030, 0x00005233,
	0x030, 0x00006233,
	0x030, 0x00007233,
	0x030, 0x00008203,
	0x030, 0x00009233,
	0x030, 0x0000A233,
	0x030, 0x0000B233,
	0x030, 0x0000C233,
	0x030, 0x0000D233,
	0x030, 0x0000E203,
	0x030, 0x0000F233,
	0x030, 0x00010233,
	0x030, 0x00011233,
	0x030, 0x00012203,
	0x030, 0x00013233,
	0x030, 0x00014233,
	0x030, 0x00015233,
	0x030, 0x00016203,
	0x030, 0x00017233,
	0x030, 0x00018203,
	0x030, 0x00019233,
	0x9f000001, 0x00000000, 0x40000000, 0x00000000,
	0x030, 0x00000233,
	0x030, 0x00001233,
	0x030, 0x00002233,
	0x030, 0x00003233,
	0x030, 0x00004203,
	0x030, 0x00005233,
	0x030, 0x00006233,
	0x030, 0x00007233,
	0x030, 0x00008203,
	0x030, 0x00009233,
	0x030, 0x0000A233,
	0x030, 0x0000B233,
	0x030, 0x0000C233,
	0x030, 0x0000D233,
	0x030, 0x0000E203,
	0x030, 0x0000F233,
	0x030, 0x00010233,
	0x030, 0x00011233,
	0x030, 0x00012203,
	0x030, 0x00013233,
	0x030, 0x00014233,
	0x030, 0x00015233,
	0x030, 0x00016203,
	0x030, 0x00017233,
	0x030, 0x00018203,
	0x030, 0x00019233,
	0x91000001, 0x00000000, 0x40000000, 0x00000000,
	0x030, 0x00000237,
	0x030, 0x00001237,
	0x030, 0x00002237,
	0x030, 0x00003237,
	0x030, 0x00004207,
	0x030, 0x00005237,
	0x030, 0x00006237,
	0x030, 0x00007237,
	0x030, 0x00008207,
	0x030, 0x00009237,
	0x030, 0x0000A237,
	0x030, 0x0000B237,
	0x030, 0x0000C237,
	0x030, 0x0000D237,
	0x030, 0x0000E207,
	0x030, 0x0000F237,
	0x030, 0x00010237,
	0x030, 0x00011237,
	0x030, 0x00012207,
	0x030, 0x00013237,
	0x030, 0x00014237,
	0x030, 0x00015237,
	0x030, 0x00016207,
	0x030, 0x00017237,
	0x030, 0x00018207,
	0x030, 0x00019237,
	0x91000002, 0x00000000, 0x40000000, 0x00000000,
	0x030, 0x00000237,
	0x030, 0x00001237,
	0x030, 0x00002237,
	0x030, 0x00003237,
	0x030, 0x00004207,
	0x030, 0x00005237,
	0x030, 0x00006237,
	0x030, 0x00007237,
	0x030, 0x00008207,
	0x030, 0x00009237,
	0x030, 0x0000A237,
	0x030, 0x0000B237,
	0x030, 0x0000C237,
	0x030, 0x0000D237,
	0x030, 0x0000E207,
	0x030, 0x0000F237,
	0x030, 0x00010237,
	0x030, 0x00011237,
	0x030, 0x00012207,
	0x030, 0x00013237,
	0x030, 0x00014237,
	0x030, 0x00015237,
	0x030, 0x00016207,
	0x030, 0x00017237,
	0x030, 0x00018207,
	0x030, 0x00019237,
	0x92000001, 0x00000000, 0x40000000, 0x00000000,
	0x030, 0x00000237,
	0x030, 0x00001237,
	0x030, 0x00002237,
	0x030, 0x00003237,
	0x030, 0x00004207,
	0x030, 0x00005237,
	0x030, 0x00006237,
	0x030, 0x00007237,
	0x030, 0x00008207,
	0x030, 0x00009237,
	0x030, 0x0000A237,
	0x030, 0x0000B237,
	0x030, 0x0000C237,
	0x030, 0x0000D237,
	0x030, 0x0000E207,
	0x030, 0x0000F237,
	0x030, 0x00010237,
	0x030, 0x00011237,
	0x030, 0x00012207,
	0x030, 0x00013237,
	0x030, 0x00014237,
	0x030, 0x00015237,
	0x030, 0x00016207,
	0x030, 0x00017237,
	0x030, 0x00018207,
	0x030, 0x00019237,
	0x92000002, 0x00000000, 0x40000000, 0x00000000,
	0x030, 0x00000237,
	0x030, 0x00001237,
	0x030, 0x00002237,
	0x030, 0x00003237,
	0x030, 0x00004207,
	0x030, 0x00005237,
	0x030, 0x00006237,
	0x030, 0x00007237,
	0x030, 0x00008207,
	0x030, 0x00009237,
	0x030, 0x0000A237,
	0x030, 0x0000B237,
	0x030, 0x0000C237,
	0x030, 0x0000D237,
	0x030, 0x0000E207,
	0x030, 0x0000F237,
	0x030, 0x00010237,
	0x030, 0x00011237,
	0x030, 0x00012207,
	0x030, 0x00013237,
	0x030, 0x00014237,
	0x030, 0x00015237,
	0x030, 0x00016207,
	0x030, 0x00017237,
	0x030, 0x00018207,
	0x030, 0x00019237,
	0x93000001, 0x00000000, 0x40000000, 0x00000000,
	0x030, 0x00000238,
	0x030, 0x00001238,
	0x030, 0x00002238,
	0x030, 0x00003238,
	0x030, 0x00004228,
	0x030, 0x00005238,
	0x030, 0x00006238,
	0x030, 0x00007238,
	0x030, 0x00008228,
	0x030, 0x00009238,
	0x030, 0x0000A238,
	0x030, 0x0000B238,
	0x030, 0x0000C238,
	0x030, 0x0000D238,
	0x030, 0x0000E228,
	0x030, 0x0000F238,
	0x030, 0x00010238,
	0x030, 0x00011238,
	0x030, 0x00012228,
	0x030, 0x00013238,
};
