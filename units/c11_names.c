/* C11 at the real limits: every string of up to 130 characters is accepted or refused as the rule says */
#include <primitive/table.h>
#include <primitive/column.h>
#define L (TABLE_MAX_NAME + 3)
static char s[L + 1];
static bool alpha(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool spec(const char *n, size_t max)
{
	size_t i = 0;
	if (!alpha(n[0])) return false;
	for (i = 1; n[i]; i++) {
		if (i >= max) return false;
		if (!alpha(n[i]) && !(n[i] >= '0' && n[i] <= '9') && n[i] != '_') return false;
	}
	return true;
}
void harness(void)
{
	int which = vp_choice(0, 1);
	int style = vp_range(0, 3); /* native runs: mostly near-misses, so that accepted names are tried too */
	for (int i = 0; i < L; i++) {
		uint8_t c = vp_u8();
#ifndef VP_CBMC
		static const char *ok = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789";
		if (style) c = c < 250 - style * 3 ? ok[(c + i * 7) % (i ? 63 : 52)] : "\0 -a$@`{[/:.\x80\0\0\0"[c % 16];
#else
		(void)style;
#endif
		s[i] = c;
	}
	s[L] = 0;
	bool r = which == 0 ? table_validate_name(s) : table_validate_column_name(s);
	VP_ENSURE(r == spec(s, which == 0 ? TABLE_MAX_NAME : TABLE_MAX_COLUMN_NAME), "name.valid: accepted exactly when it is an identifier of 1 to 127 characters");
	VP_COVER("names");
}
