/*
 * Builders of arbitrary well-formed tables (the preconditions of the storage contracts) and the abstract view
 * ("model") the postconditions are stated over.
 *
 * Well-formed table: every block's used slots are a prefix of it, a row in slot i ends before the end of the page,
 * the slots after the prefix are initialised empty, free_dtbkl_offset is the first free byte of the last block, and
 * every used slot (live or deleted) owns one heap buffer of `precision` bytes per VARCHAR column.
 */
#ifndef VP_TABLE_H_
#define VP_TABLE_H_
#include <primitive/table.h>
#include <primitive/column.h>
#include <primitive/row.h>
#include <primitive/datablock.h>
#include <pthread.h>

#ifndef VP_MAXCOLS
#define VP_MAXCOLS 3
#endif
#ifndef VP_MAXPREC
#define VP_MAXPREC 4 /* longest VARCHAR, in bytes */
#endif
#ifndef VP_MAXBLOCKS
#define VP_MAXBLOCKS 3
#endif
#ifndef VP_MAXROWS
#define VP_MAXROWS 4 /* rows in all blocks */
#endif
#define VP_HDR offsetof(struct row, data)
#define VP_SLOTS(len) ((DATABLOCK_PAGE_SIZE - 1) / (len)) /* slots whose row ends before the page does */

struct vp_cell {
	bool null;
	uint64_t v;
	char s[VP_MAXPREC];
};
struct vp_mrow {
	bool deleted;
	struct datablock *b;
	size_t off;
	struct vp_cell c[VP_MAXCOLS];
};
struct vp_model {
	int n;
	struct vp_mrow r[VP_MAXROWS];
};

static inline size_t spec_space(const struct column *c)
{
	return c->type == CT_VARCHAR ? 8 : c->type == CT_TINYINT ? 1 : 8;
}

static inline void vp_column(struct column *c, int i)
{
	c->name[0] = 'a' + i % 24;
	c->name[1] = i < 24 ? 0 : 'a' + i / 24;
	c->name[2] = 0;
	c->indexed = c->unique = c->auto_inc = c->primary_key = c->is_count = false;
	c->type = vp_choice(CT_VARCHAR, CT_DATETIME);
	if (c->type == CT_VARCHAR)
		c->precision = vp_choice(1, VP_MAXPREC);
	else
		c->precision = c->type == CT_TINYINT ? 1 : 8;
	c->nullable = vp_bool();
}

static inline struct table *vp_table(int mincols, int maxcols)
{
	struct table *t = malloc(sizeof(*t));
	VP_REQUIRE(t != NULL);
	t->name[0] = 'T';
	t->name[1] = 0;
	t->column_count = vp_choice(mincols, maxcols);
	for (int i = 0; i < maxcols; i++)
		if (i < t->column_count)
			vp_column(&t->columns[i], i);
	t->datablock_head = malloc(sizeof(struct list_head));
	VP_REQUIRE(t->datablock_head != NULL);
	t->datablock_head->next = t->datablock_head->prev = t->datablock_head;
	t->free_dtbkl_offset = 0;
	/* a row, and a row with one column more, fits in a page: true of every schema at the real page size */
	size_t len = VP_HDR + 8;
	for (int i = 0; i < maxcols; i++)
		if (i < t->column_count)
			len += t->columns[i].type == CT_TINYINT ? 1 : 8;
	VP_REQUIRE(len < DATABLOCK_PAGE_SIZE);
	pthread_mutex_init(&t->mutex, NULL);
	return t;
}

static inline size_t spec_row_size(const struct table *t)
{
	size_t s = VP_HDR;
	for (int i = 0; i < t->column_count; i++)
		s += spec_space(&t->columns[i]);
	return s;
}

static inline size_t spec_col_off(const struct table *t, int col)
{
	size_t s = 0;
	for (int i = 0; i < col; i++)
		s += spec_space(&t->columns[i]);
	return s;
}

static inline bool spec_bit(const char *bm, int i)
{
	return (((const unsigned char*)bm)[i / 8] >> (i % 8)) & 1;
}

/* append an uninitialised block to the list */
static inline struct datablock *vp_block(struct table *t)
{
	struct datablock *b = malloc(sizeof(*b));
	VP_REQUIRE(b != NULL);
	b->head.next = t->datablock_head;
	b->head.prev = t->datablock_head->prev;
	t->datablock_head->prev->next = &b->head;
	t->datablock_head->prev = &b->head;
	return b;
}

static inline int spec_blocks(const struct table *t)
{
	int n = 0;
	for (struct list_head *p = t->datablock_head->next; p != t->datablock_head; p = p->next)
		n++;
	return n;
}

/* fill a row image with arbitrary values; *m gets the abstract view */
static inline void vp_rowimg(const struct table *t, struct row *r, struct vp_mrow *m)
{
	size_t o = 0;
	unsigned char bm[VP_MAXCOLS / 8 + 1];
	for (int i = 0; i < VP_MAXCOLS / 8 + 1; i++)
		bm[i] = 0;
	for (int c = 0; c < VP_MAXCOLS; c++) {
		if (c >= t->column_count)
			break;
		const struct column *col = &t->columns[c];
		m->c[c].null = vp_bool();
		if (m->c[c].null)
			bm[c / 8] |= 1u << (c % 8);
		m->c[c].v = 0;
		if (col->type == CT_VARCHAR) {
			char *s = malloc(col->precision);
			VP_REQUIRE(s != NULL);
			for (int k = 0; k < VP_MAXPREC; k++)
				if (k < col->precision)
					s[k] = m->c[c].s[k] = vp_u8();
			memcpy(&r->data[o], &s, 8);
		} else if (col->type == CT_TINYINT) {
			r->data[o] = m->c[c].v = vp_bool();
		} else {
			uint64_t v = vp_u64();
			m->c[c].v = v;
			memcpy(&r->data[o], &v, 8);
		}
		o += spec_space(col);
	}
	for (int i = 0; i < (int)sizeof(r->null_bitmap); i++)
		r->null_bitmap[i] = i < VP_MAXCOLS / 8 + 1 ? bm[i] : 0;
	r->flags.empty = r->flags.deleted = false;
	m->deleted = false;
}

static inline void spec_cell(const struct table *t, const struct row *r, int c, struct vp_cell *out)
{
	size_t o = spec_col_off(t, c);
	const struct column *col = &t->columns[c];
	out->null = spec_bit(r->null_bitmap, c);
	out->v = 0;
	if (col->type == CT_VARCHAR) {
		char *p;
		memcpy(&p, &r->data[o], 8);
		for (int k = 0; k < VP_MAXPREC; k++)
			if (k < col->precision)
				out->s[k] = p[k];
	} else if (col->type == CT_TINYINT) {
		out->v = *(unsigned char*)&r->data[o];
	} else {
		memcpy(&out->v, &r->data[o], 8);
	}
}

/* same abstract value: same NULL mark, and the same content unless NULL */
static inline bool spec_same(const struct column *col, const struct vp_cell *a, const struct vp_cell *b)
{
	if (a->null != b->null)
		return false;
	if (a->null)
		return true;
	if (col->type != CT_VARCHAR)
		return a->v == b->v;
	for (int k = 0; k < VP_MAXPREC; k++)
		if (k < col->precision && a->s[k] != b->s[k])
			return false;
	return true;
}

static inline bool spec_row_same(const struct table *t, const struct row *r, const struct vp_mrow *m)
{
	for (int c = 0; c < VP_MAXCOLS; c++) {
		struct vp_cell x;
		if (c >= t->column_count)
			break;
		spec_cell(t, r, c, &x);
		if (!spec_same(&t->columns[c], &x, &m->c[c]))
			return false;
	}
	return true;
}

/* give the table arbitrary blocks and rows */
static inline void vp_rows(struct table *t, struct vp_model *m)
{
	size_t len = spec_row_size(t);
	int nb = vp_choice(0, VP_MAXBLOCKS);
	uint64_t mask = nb ? vp_choice(0, 255) : 0; /* which rows are deleted (the first eight; then arbitrary) */
	m->n = 0;
	for (int b = 0; b < VP_MAXBLOCKS; b++) {
		if (b >= nb)
			break;
		struct datablock *blk = vp_block(t);
		int cap = VP_SLOTS(len);
#ifdef VP_BIGPAGE
		int used = vp_choice(0, 2) ? cap : (int)vp_choice(0, cap);
#else
		int used = vp_choice(0, VP_MAXROWS);
		if (used > cap)
			used = cap;
#endif
		for (int s = 0; s < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); s++) {
			if (s >= (int)(DATABLOCK_PAGE_SIZE / len))
				break;
			struct row *r = (struct row*)&blk->data[s * len];
			if (s < used) {
				VP_REQUIRE(m->n < VP_MAXROWS);
				struct vp_mrow *mr = &m->r[m->n++];
				vp_rowimg(t, r, mr);
				mr->b = blk;
				mr->off = s * len;
				mr->deleted = r->flags.deleted = m->n <= 8 ? (mask >> (m->n - 1)) & 1 : vp_bool();
			} else {
				memset(r, 0, len);
				r->flags.empty = true;
			}
		}
		t->free_dtbkl_offset = used * len;
	}
}

/* the table is well-formed, and its live rows are, in order, the rows r with keep[r] of the model (NULL: those not
 * deleted); returns false if not. *live counts them. */
static inline bool spec_holds(const struct table *t, const struct vp_model *m, const bool *keep)
{
	size_t len = spec_row_size(t);
	int at = 0;
	for (struct list_head *p = t->datablock_head->next; p != t->datablock_head; p = p->next) {
		struct datablock *b = list_entry(p, struct datablock, head);
		bool ended = false;
		if (p->next->prev != p)
			return false;
		for (int s = 0; s < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); s++) {
			if (s >= (int)(DATABLOCK_PAGE_SIZE / len))
				break;
			struct row *r = (struct row*)&b->data[s * len];
			if (r->flags.empty) {
				if (!ended && p == t->datablock_head->prev && t->free_dtbkl_offset != s * len)
					return false;
				ended = true;
				if (r->flags.deleted)
					return false;
				continue;
			}
			if (ended || (s + 1) * len > DATABLOCK_PAGE_SIZE)
				return false; /* a used slot after a free one */
			if (r->flags.deleted)
				continue;
			for (; at < m->n && !(keep ? keep[at] : !m->r[at].deleted); at++)
				;
			if (at >= m->n || !spec_row_same(t, r, &m->r[at]))
				return false;
			at++;
		}
		if (!ended && p == t->datablock_head->prev && t->free_dtbkl_offset < (DATABLOCK_PAGE_SIZE / len) * len)
			return false;
	}
	for (; at < m->n && !(keep ? keep[at] : !m->r[at].deleted); at++)
		;
	return at == m->n;
}

/* live rows in the table / in the model */
static inline int spec_live(const struct table *t)
{
	size_t len = spec_row_size(t);
	int n = 0;
	for (struct list_head *p = t->datablock_head->next; p != t->datablock_head; p = p->next) {
		struct datablock *b = list_entry(p, struct datablock, head);
		for (int s = 0; s < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); s++) {
			if (s >= (int)(DATABLOCK_PAGE_SIZE / len))
				break;
			struct row *r = (struct row*)&b->data[s * len];
			if (!r->flags.empty && !r->flags.deleted)
				n++;
		}
	}
	return n;
}

static inline int spec_mlive(const struct vp_model *m)
{
	int n = 0;
	for (int i = 0; i < VP_MAXROWS; i++)
		if (i < m->n && !m->r[i].deleted)
			n++;
	return n;
}

/* every row of the model is where it was, with the values and the deleted mark the model gives it; no other slot is used */
static inline bool spec_in_place(const struct table *t, const struct vp_model *m)
{
	size_t len = spec_row_size(t);
	int used = 0;
	for (struct list_head *p = t->datablock_head->next; p != t->datablock_head; p = p->next) {
		struct datablock *b = list_entry(p, struct datablock, head);
		for (int s = 0; s < (int)(DATABLOCK_PAGE_SIZE / VP_HDR); s++) {
			if (s >= (int)(DATABLOCK_PAGE_SIZE / len))
				break;
			if (!((struct row*)&b->data[s * len])->flags.empty)
				used++;
		}
	}
	if (used != m->n)
		return false;
	for (int i = 0; i < VP_MAXROWS; i++) {
		if (i >= m->n)
			break;
		struct row *r = (struct row*)&m->r[i].b->data[m->r[i].off];
		if (r->flags.empty || r->flags.deleted != m->r[i].deleted || !spec_row_same(t, r, &m->r[i]))
			return false;
	}
	return true;
}
#endif
