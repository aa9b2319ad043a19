/* C05: NULL marks are independent of each other */
#include <compiler/common.h>
#include <lib/bit.h>
#include <primitive/row.h>

void harness(void)
{
	unsigned char f[32], old[32];
	for (int i = 0; i < 32; i++)
		old[i] = f[i] = vp_u8();
	int k = vp_range(0, 255);
	int op = vp_range(0, 3);
	bool was = (old[k / 8] >> (k % 8)) & 1;
	bool now = was;
	VP_ENSURE(bit_test(f, k, sizeof(f)) == was, "bit.test: a mark reads as it is");
	if (op == 0) {
		bit_set(f, k, sizeof(f));
		now = true;
	} else if (op == 1) {
		bit_clear(f, k, sizeof(f));
		now = false;
	} else if (op == 2) {
		bit_toggle(f, k, sizeof(f));
		now = !was;
	} else {
		bit_test(f, k, sizeof(f));
	}
	int j = vp_range(0, 255);
	bool bj = (f[j / 8] >> (j % 8)) & 1, oj = (old[j / 8] >> (j % 8)) & 1;
	VP_ENSURE(j == k ? bj == now : bj == oj, "bit.frame: exactly the one mark changes");
	VP_COVER("end");
}
