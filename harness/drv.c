// Conformance driver: executes scripts of public libsml operations and records, for
// every operation, the abstract state the specification talks about.
//
//   drv CASES RESULTS [threads repeat]
//
// CASES is text, one operation per line; "case N" starts a case.  RESULTS gets one JSON
// object per operation.  See tools/ for the scripts that write and read both.
#define _GNU_SOURCE
#include <sys/resource.h>
#include <errno.h>
#include <fcntl.h>
#include <inttypes.h>
#include <math.h>
#include <poll.h>
#include <pthread.h>
#include <signal.h>
#include <stddef.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/select.h>
#include <sys/time.h>
#include <unistd.h>

#include <sml/sml_crc16.h>
#include <sml/sml_file.h>
#include <sml/sml_message.h>
#include <sml/sml_transport.h>

/* ------------------------------------------------------------------ goals */

typedef enum {
	G_NONE, G_OCT, G_BOOL, G_U8, G_U16, G_U32, G_U64, G_I8, G_I16, G_I32, G_I64,
	G_VALUE, G_STATUS, G_TIME, G_PATH, G_LIST, G_OBJLIST, G_TREE, G_CHILDREN, G_PPV, G_PERIOD,
	G_TUPEL, G_HDRSEQ, G_PERSEQ, G_VALSEQ, G_PERIODSEQ, G_OCTSEQ, G_HDR, G_PER, G_VALENTRY,
	G_OPENREQ, G_OPENRES, G_CLOSEREQ, G_CLOSERES, G_PACKREQ, G_PACKRES, G_PLISTREQ, G_PLISTRES,
	G_PROCREQ, G_PROCRES, G_SETREQ, G_LISTREQ, G_LISTRES, G_ATTENTION, G_BODY, G_MSG, G_FILE,
	G_COUNT
} goal;

static const char *goal_names[G_COUNT] = {
	"none", "oct", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64",
	"value", "status", "time", "path", "list", "objlist", "tree", "children", "ppv", "period",
	"tupel", "hdrseq", "perseq", "valseq", "periodseq", "octseq", "hdr", "per", "valentry",
	"openreq", "openres", "closereq", "closeres", "packreq", "packres", "plistreq", "plistres",
	"procreq", "procres", "setreq", "listreq", "listres", "attention", "body", "msg", "file"};

typedef struct {
	goal g;
	size_t off;
} field;

typedef struct {
	goal g;
	int n;
	void *(*init)(void);
	void *(*parse)(sml_buffer *);
	void (*write)(void *, sml_buffer *);
	void (*free)(void *);
	field f[23];
} structure;

#define WRAP(T)                                                                                    \
	static void *T##_i(void) { return sml_##T##_init(); }                                          \
	static void *T##_p(sml_buffer *b) { return sml_##T##_parse(b); }                               \
	static void T##_w(void *o, sml_buffer *b) { sml_##T##_write(o, b); }                           \
	static void T##_f(void *o) { sml_##T##_free(o); }
WRAP(open_request)
WRAP(open_response)
WRAP(close_request)
WRAP(close_response)
WRAP(get_profile_pack_request)
WRAP(get_profile_pack_response)
WRAP(get_profile_list_request)
WRAP(get_profile_list_response)
WRAP(get_proc_parameter_request)
WRAP(get_proc_parameter_response)
WRAP(set_proc_parameter_request)
WRAP(get_list_request)
WRAP(get_list_response)
WRAP(attention_response)
WRAP(prof_obj_header_entry)
WRAP(prof_obj_period_entry)
WRAP(value_entry)
WRAP(period_entry)
WRAP(tupel_entry)
WRAP(time)
WRAP(tree)
WRAP(tree_path)
WRAP(proc_par_value)
WRAP(status)
WRAP(value)
WRAP(list)
static void *oct_p(sml_buffer *b) { return sml_octet_string_parse(b); }
static void oct_w(void *o, sml_buffer *b) { sml_octet_string_write(o, b); }
static void oct_f(void *o) { sml_octet_string_free(o); }

#define S(G, T, N) .g = G, .n = N, .init = T##_i, .parse = T##_p, .write = T##_w, .free = T##_f
#define O(T, F) offsetof(sml_##T, F)
static const structure structures[] = {
	{S(G_OPENREQ, open_request, 7),
	 .f = {{G_OCT, O(open_request, codepage)}, {G_OCT, O(open_request, client_id)},
		   {G_OCT, O(open_request, req_file_id)}, {G_OCT, O(open_request, server_id)},
		   {G_OCT, O(open_request, username)}, {G_OCT, O(open_request, password)},
		   {G_U8, O(open_request, sml_version)}}},
	{S(G_OPENRES, open_response, 6),
	 .f = {{G_OCT, O(open_response, codepage)}, {G_OCT, O(open_response, client_id)},
		   {G_OCT, O(open_response, req_file_id)}, {G_OCT, O(open_response, server_id)},
		   {G_TIME, O(open_response, ref_time)}, {G_U8, O(open_response, sml_version)}}},
	{S(G_CLOSEREQ, close_request, 1), .f = {{G_OCT, O(close_request, global_signature)}}},
	{S(G_CLOSERES, close_response, 1), .f = {{G_OCT, O(close_response, global_signature)}}},
#define PACKREQ                                                                                    \
	{{G_OCT, O(get_profile_pack_request, server_id)}, {G_OCT, O(get_profile_pack_request, username)}, \
	 {G_OCT, O(get_profile_pack_request, password)},                                               \
	 {G_BOOL, O(get_profile_pack_request, with_rawdata)},                                          \
	 {G_TIME, O(get_profile_pack_request, begin_time)},                                            \
	 {G_TIME, O(get_profile_pack_request, end_time)},                                              \
	 {G_PATH, O(get_profile_pack_request, parameter_tree_path)},                                   \
	 {G_OBJLIST, O(get_profile_pack_request, object_list)},                                        \
	 {G_TREE, O(get_profile_pack_request, das_details)}}
	{S(G_PACKREQ, get_profile_pack_request, 9), .f = PACKREQ},
	{S(G_PLISTREQ, get_profile_list_request, 9), .f = PACKREQ},
	{S(G_PACKRES, get_profile_pack_response, 8),
	 .f = {{G_OCT, O(get_profile_pack_response, server_id)},
		   {G_TIME, O(get_profile_pack_response, act_time)},
		   {G_U32, O(get_profile_pack_response, reg_period)},
		   {G_PATH, O(get_profile_pack_response, parameter_tree_path)},
		   {G_HDRSEQ, O(get_profile_pack_response, header_list)},
		   {G_PERSEQ, O(get_profile_pack_response, period_list)},
		   {G_OCT, O(get_profile_pack_response, rawdata)},
		   {G_OCT, O(get_profile_pack_response, profile_signature)}}},
	{S(G_PLISTRES, get_profile_list_response, 9),
	 .f = {{G_OCT, O(get_profile_list_response, server_id)},
		   {G_TIME, O(get_profile_list_response, act_time)},
		   {G_U32, O(get_profile_list_response, reg_period)},
		   {G_PATH, O(get_profile_list_response, parameter_tree_path)},
		   {G_TIME, O(get_profile_list_response, val_time)},
		   {G_U64, O(get_profile_list_response, status)},
		   {G_PERIODSEQ, O(get_profile_list_response, period_list)},
		   {G_OCT, O(get_profile_list_response, rawdata)},
		   {G_OCT, O(get_profile_list_response, period_signature)}}},
	{S(G_PROCREQ, get_proc_parameter_request, 5),
	 .f = {{G_OCT, O(get_proc_parameter_request, server_id)},
		   {G_OCT, O(get_proc_parameter_request, username)},
		   {G_OCT, O(get_proc_parameter_request, password)},
		   {G_PATH, O(get_proc_parameter_request, parameter_tree_path)},
		   {G_OCT, O(get_proc_parameter_request, attribute)}}},
	{S(G_PROCRES, get_proc_parameter_response, 3),
	 .f = {{G_OCT, O(get_proc_parameter_response, server_id)},
		   {G_PATH, O(get_proc_parameter_response, parameter_tree_path)},
		   {G_TREE, O(get_proc_parameter_response, parameter_tree)}}},
	{S(G_SETREQ, set_proc_parameter_request, 5),
	 .f = {{G_OCT, O(set_proc_parameter_request, server_id)},
		   {G_OCT, O(set_proc_parameter_request, username)},
		   {G_OCT, O(set_proc_parameter_request, password)},
		   {G_PATH, O(set_proc_parameter_request, parameter_tree_path)},
		   {G_TREE, O(set_proc_parameter_request, parameter_tree)}}},
	{S(G_LISTREQ, get_list_request, 5),
	 .f = {{G_OCT, O(get_list_request, client_id)}, {G_OCT, O(get_list_request, server_id)},
		   {G_OCT, O(get_list_request, username)}, {G_OCT, O(get_list_request, password)},
		   {G_OCT, O(get_list_request, list_name)}}},
	{S(G_LISTRES, get_list_response, 7),
	 .f = {{G_OCT, O(get_list_response, client_id)}, {G_OCT, O(get_list_response, server_id)},
		   {G_OCT, O(get_list_response, list_name)},
		   {G_TIME, O(get_list_response, act_sensor_time)},
		   {G_LIST, O(get_list_response, val_list)},
		   {G_OCT, O(get_list_response, list_signature)},
		   {G_TIME, O(get_list_response, act_gateway_time)}}},
	{S(G_ATTENTION, attention_response, 4),
	 .f = {{G_OCT, O(attention_response, server_id)},
		   {G_OCT, O(attention_response, attention_number)},
		   {G_OCT, O(attention_response, attention_message)},
		   {G_TREE, O(attention_response, attention_details)}}},
	{S(G_HDR, prof_obj_header_entry, 3),
	 .f = {{G_OCT, O(prof_obj_header_entry, obj_name)}, {G_U8, O(prof_obj_header_entry, unit)},
		   {G_I8, O(prof_obj_header_entry, scaler)}}},
	{S(G_PER, prof_obj_period_entry, 4),
	 .f = {{G_TIME, O(prof_obj_period_entry, val_time)}, {G_U64, O(prof_obj_period_entry, status)},
		   {G_VALSEQ, O(prof_obj_period_entry, value_list)},
		   {G_OCT, O(prof_obj_period_entry, period_signature)}}},
	{S(G_VALENTRY, value_entry, 2),
	 .f = {{G_VALUE, O(value_entry, value)}, {G_OCT, O(value_entry, value_signature)}}},
	{S(G_PERIOD, period_entry, 5),
	 .f = {{G_OCT, O(period_entry, obj_name)}, {G_U8, O(period_entry, unit)},
		   {G_I8, O(period_entry, scaler)}, {G_VALUE, O(period_entry, value)},
		   {G_OCT, O(period_entry, value_signature)}}},
	{S(G_TUPEL, tupel_entry, 23),
	 .f = {{G_OCT, O(tupel_entry, server_id)}, {G_TIME, O(tupel_entry, sec_index)},
		   {G_U64, O(tupel_entry, status)}, {G_U8, O(tupel_entry, unit_pA)},
		   {G_I8, O(tupel_entry, scaler_pA)}, {G_I64, O(tupel_entry, value_pA)},
		   {G_U8, O(tupel_entry, unit_R1)}, {G_I8, O(tupel_entry, scaler_R1)},
		   {G_I64, O(tupel_entry, value_R1)}, {G_U8, O(tupel_entry, unit_R4)},
		   {G_I8, O(tupel_entry, scaler_R4)}, {G_I64, O(tupel_entry, value_R4)},
		   {G_OCT, O(tupel_entry, signature_pA_R1_R4)}, {G_U8, O(tupel_entry, unit_mA)},
		   {G_I8, O(tupel_entry, scaler_mA)}, {G_I64, O(tupel_entry, value_mA)},
		   {G_U8, O(tupel_entry, unit_R2)}, {G_I8, O(tupel_entry, scaler_R2)},
		   {G_I64, O(tupel_entry, value_R2)}, {G_U8, O(tupel_entry, unit_R3)},
		   {G_I8, O(tupel_entry, scaler_R3)}, {G_I64, O(tupel_entry, value_R3)},
		   {G_OCT, O(tupel_entry, signature_mA_R2_R3)}}},
};

static const structure *structure_of(goal g) {
	for (size_t i = 0; i < sizeof(structures) / sizeof(structures[0]); i++)
		if (structures[i].g == g)
			return &structures[i];
	return NULL;
}

static goal elem_of(goal g) {
	switch (g) {
	case G_HDRSEQ: return G_HDR;
	case G_PERSEQ: return G_PER;
	case G_VALSEQ: return G_VALENTRY;
	case G_PERIODSEQ: return G_PERIOD;
	case G_OCTSEQ: return G_OCT;
	default: return G_NONE;
	}
}
static void *(*elem_parse(goal g))(sml_buffer *) {
	return elem_of(g) == G_OCT ? oct_p : structure_of(elem_of(g))->parse;
}
static void (*elem_write(goal g))(void *, sml_buffer *) {
	return elem_of(g) == G_OCT ? oct_w : structure_of(elem_of(g))->write;
}
static void (*elem_free(goal g))(void *) {
	return elem_of(g) == G_OCT ? oct_f : structure_of(elem_of(g))->free;
}

static goal goal_of_tag(u32 tag) {
	switch (tag) {
	case SML_MESSAGE_OPEN_REQUEST: return G_OPENREQ;
	case SML_MESSAGE_OPEN_RESPONSE: return G_OPENRES;
	case SML_MESSAGE_CLOSE_REQUEST: return G_CLOSEREQ;
	case SML_MESSAGE_CLOSE_RESPONSE: return G_CLOSERES;
	case SML_MESSAGE_GET_PROFILE_PACK_REQUEST: return G_PACKREQ;
	case SML_MESSAGE_GET_PROFILE_PACK_RESPONSE: return G_PACKRES;
	case SML_MESSAGE_GET_PROFILE_LIST_REQUEST: return G_PLISTREQ;
	case SML_MESSAGE_GET_PROFILE_LIST_RESPONSE: return G_PLISTRES;
	case SML_MESSAGE_GET_PROC_PARAMETER_REQUEST: return G_PROCREQ;
	case SML_MESSAGE_GET_PROC_PARAMETER_RESPONSE: return G_PROCRES;
	case SML_MESSAGE_SET_PROC_PARAMETER_REQUEST: return G_SETREQ;
	case SML_MESSAGE_GET_LIST_REQUEST: return G_LISTREQ;
	case SML_MESSAGE_GET_LIST_RESPONSE: return G_LISTRES;
	case SML_MESSAGE_ATTENTION_RESPONSE: return G_ATTENTION;
	default: return G_NONE;
	}
}

static int num_width(goal g) {
	switch (g) {
	case G_U8: case G_I8: return 1;
	case G_U16: case G_I16: return 2;
	case G_U32: case G_I32: return 4;
	case G_U64: case G_I64: return 8;
	default: return 0;
	}
}
static int num_type(goal g) { return g <= G_U64 ? SML_TYPE_UNSIGNED : SML_TYPE_INTEGER; }

/* ---------------------------------------------------------------- context */

#define NSLOT 64
typedef struct {
	FILE *out;
	int casenr, opnr;
	struct { goal g; void *o; } slot[NSLOT];
	sml_buffer *buf[NSLOT];
	int first;
} ctx;

static int threaded;

/* heap observation: addresses of live blocks allocated while lib is set */
static __thread int lib;
static int track; // log events
#define HCAP (1 << 21)
static struct { void *p; int id; size_t n; } heap[HCAP];
static int *touched;
static size_t n_touched;
static int live, next_id, bad_free;
static size_t used, used_peak; // bytes in live blocks, the most of an operation
static int *hev;
static size_t hev_n, hev_cap;
static size_t hslot(void *p) { return ((uintptr_t)p >> 4) * 0x9E3779B97F4A7C15ull >> 43; }
static void hlog(int e) {
	if (!track)
		return;
	if (hev_n == hev_cap)
		return;
	hev[hev_n++] = e;
}
static void on_malloc(const volatile void *q, size_t n) {
	void *p = (void *)q;
	if (!lib || threaded || !p)
		return;
	size_t i = hslot(p);
	while (heap[i].p && heap[i].p != p && heap[i].id)
		i = (i + 1) % HCAP;
	if (!heap[i].p)
		touched[n_touched++] = (int)i;
	heap[i].p = p;
	heap[i].id = ++next_id;
	heap[i].n = n;
	live++;
	used += n;
	if (used > used_peak)
		used_peak = used;
	hlog(next_id);
}
static void on_free(const volatile void *q) {
	void *p = (void *)q;
	if (threaded || !p)
		return;
	size_t i = hslot(p);
	while (heap[i].p && heap[i].p != p)
		i = (i + 1) % HCAP;
	if (heap[i].p == p && heap[i].id) {
		live--;
		used -= heap[i].n;
		hlog(-heap[i].id);
		heap[i].id = 0; // tombstone: p stays, so that probing goes on
	} else if (lib)
		bad_free++; // the library frees what it did not allocate
}
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t),
													 void (*)(const volatile void *))
	__attribute__((weak));
static void heap_reset(void) {
	while (n_touched)
		memset(&heap[touched[--n_touched]], 0, sizeof(heap[0]));
	live = next_id = bad_free = 0;
	used = used_peak = 0;
	hev_n = 0;
}

#define LIB(X) do { lib = 1; X; lib = 0; } while (0)

/* ------------------------------------------------------------------- JSON */

static void jbytes(FILE *f, const unsigned char *b, size_t n) {
	fputc('[', f);
	for (size_t i = 0; i < n; i++)
		fprintf(f, i ? ",%d" : "%d", b[i]);
	fputc(']', f);
}
static void jrle(FILE *f, const unsigned char *b, size_t n) {
	fputc('[', f);
	for (size_t i = 0; i < n;) {
		size_t j = i;
		while (j < n && b[j] == b[i])
			j++;
		fprintf(f, i ? ",%d,%zu" : "%d,%zu", b[i], j - i);
		i = j;
	}
	fputc(']', f);
}
static void res(ctx *c, const char *op) {
	fprintf(c->out, "{\"c\":%d,\"i\":%d,\"op\":\"%s\"", c->casenr, c->opnr, op);
}
static void res_end(ctx *c) {
	fputs("}\n", c->out);
	if (!threaded)
		fflush(c->out);
}

/* ------------------------------------------------------------------- dump */

typedef struct {
	char *p;
	size_t n, cap;
	int toks;
} str;
static void sput(str *s, const char *fmt, ...) {
	va_list ap;
	va_start(ap, fmt);
	if (s->n + 64 > s->cap) {
		s->cap = s->cap * 2 + 256;
		s->p = realloc(s->p, s->cap);
	}
	s->n += vsnprintf(s->p + s->n, s->cap - s->n, fmt, ap);
	va_end(ap);
}
static void tok(str *s) {
	sput(s, s->toks++ ? ",[" : "[");
}
static void t_nil(str *s) { tok(s); sput(s, "0]"); }
static void t_lst(str *s, int n) { tok(s); sput(s, "4,%d]", n); }
static void t_bad(str *s, int n) { tok(s); sput(s, "9,%d]", n); }
static void t_oct(str *s, const octet_string *o) {
	if (!o) {
		t_nil(s);
		return;
	}
	tok(s);
	if (o->len < 0 || (o->len > 0 && !o->str)) {
		sput(s, "9,%d]", o->len);
	} else if (o->len <= 600) {
		sput(s, "1");
		for (int i = 0; i < o->len; i++)
			sput(s, ",%d", o->str[i]);
		sput(s, "]");
	} else {
		sput(s, "6");
		for (int i = 0; i < o->len;) {
			int j = i;
			while (j < o->len && o->str[j] == o->str[i])
				j++;
			sput(s, ",%d,%d", o->str[i], j - i);
			i = j;
		}
		sput(s, "]");
	}
}
static void t_num(str *s, const void *np, int type, int w) {
	if (!np) {
		t_nil(s);
		return;
	}
	u64 v = 0;
	switch (w) {
	case 1: v = *(const u8 *)np; break;
	case 2: v = *(const u16 *)np; break;
	case 4: v = *(const u32 *)np; break;
	case 8: v = *(const u64 *)np; break;
	default: t_bad(s, type | w); return;
	}
	tok(s);
	sput(s, "3,%d", type);
	for (int i = w - 1; i >= 0; i--)
		sput(s, ",%d", (int)((v >> (8 * i)) & 0xff));
	sput(s, "]");
}
static void t_bool(str *s, const sml_boolean *b) {
	if (!b) {
		t_nil(s);
		return;
	}
	tok(s);
	sput(s, "2,%d]", *b);
}

static void dump(str *s, goal g, void *o);

static void dump_body(str *s, sml_message_body *b) {
	if (!b) {
		t_nil(s);
		return;
	}
	t_lst(s, 2);
	t_num(s, b->tag, SML_TYPE_UNSIGNED, 4);
	goal g = b->tag ? goal_of_tag(*b->tag) : G_NONE;
	if (g == G_NONE)
		t_bad(s, b->data != NULL);
	else
		dump(s, g, b->data);
}

static void dump(str *s, goal g, void *o) {
	if (!o) {
		t_nil(s);
		return;
	}
	const structure *st = structure_of(g);
	if (st) {
		t_lst(s, st->n);
		for (int i = 0; i < st->n; i++)
			dump(s, st->f[i].g, *(void **)((char *)o + st->f[i].off));
		return;
	}
	switch (g) {
	case G_OCT: t_oct(s, o); break;
	case G_BOOL: t_bool(s, o); break;
	case G_U8: case G_U16: case G_U32: case G_U64:
	case G_I8: case G_I16: case G_I32: case G_I64: t_num(s, o, num_type(g), num_width(g)); break;
	case G_VALUE: {
		sml_value *v = o;
		switch (v->type & 0xf0) {
		case SML_TYPE_OCTET_STRING:
			if (v->type != SML_TYPE_OCTET_STRING)
				t_bad(s, v->type);
			else
				t_oct(s, v->data.bytes);
			break;
		case SML_TYPE_BOOLEAN:
			if (v->type != SML_TYPE_BOOLEAN)
				t_bad(s, v->type);
			else
				t_bool(s, v->data.boolean);
			break;
		case SML_TYPE_INTEGER:
		case SML_TYPE_UNSIGNED: t_num(s, v->data.uint8, v->type & 0xf0, v->type & 0x0f); break;
		default: t_bad(s, v->type);
		}
		break;
	}
	case G_STATUS: {
		sml_status *v = o;
		if ((v->type & 0xf0) == SML_TYPE_UNSIGNED)
			t_num(s, v->data.status8, v->type & 0xf0, v->type & 0x0f);
		else
			t_bad(s, v->type);
		break;
	}
	case G_TIME: {
		sml_time *t = o;
		t_lst(s, 2);
		t_num(s, t->tag, SML_TYPE_UNSIGNED, 1);
		t_num(s, t->data.timestamp, SML_TYPE_UNSIGNED, 4);
		break;
	}
	case G_PATH: {
		sml_tree_path *p = o;
		t_lst(s, p->path_entries_len);
		for (int i = 0; i < p->path_entries_len; i++)
			t_oct(s, p->path_entries[i]);
		break;
	}
	case G_LIST: {
		int n = 0;
		for (sml_list *l = o; l; l = l->next)
			n++;
		t_lst(s, n);
		for (sml_list *l = o; l; l = l->next) {
			t_lst(s, 7);
			t_oct(s, l->obj_name);
			dump(s, G_STATUS, l->status);
			dump(s, G_TIME, l->val_time);
			dump(s, G_U8, l->unit);
			dump(s, G_I8, l->scaler);
			dump(s, G_VALUE, l->value);
			t_oct(s, l->value_signature);
		}
		break;
	}
	case G_OBJLIST: {
		int n = 0;
		for (sml_obj_req_entry_list *l = o; l; l = l->next)
			n++;
		t_lst(s, n);
		for (sml_obj_req_entry_list *l = o; l; l = l->next)
			t_oct(s, l->object_list_entry);
		break;
	}
	case G_TREE: {
		sml_tree *t = o;
		t_lst(s, 3);
		t_oct(s, t->parameter_name);
		dump(s, G_PPV, t->parameter_value);
		if (!t->child_list || t->child_list_len <= 0) {
			if (t->child_list_len < 0)
				t_bad(s, t->child_list_len);
			else
				t_nil(s);
		} else {
			t_lst(s, t->child_list_len);
			for (int i = 0; i < t->child_list_len; i++)
				dump(s, G_TREE, t->child_list[i]);
		}
		break;
	}
	case G_PPV: {
		sml_proc_par_value *p = o;
		t_lst(s, 2);
		t_num(s, p->tag, SML_TYPE_UNSIGNED, 1);
		switch (p->tag ? *p->tag : 0) {
		case 1: dump(s, G_VALUE, p->data.value); break;
		case 2: dump(s, G_PERIOD, p->data.period_entry); break;
		case 3: dump(s, G_TUPEL, p->data.tupel_entry); break;
		case 4: dump(s, G_TIME, p->data.time); break;
		default: t_bad(s, 0);
		}
		break;
	}
	case G_HDRSEQ: case G_PERSEQ: case G_VALSEQ: case G_PERIODSEQ: case G_OCTSEQ: {
		sml_sequence *q = o;
		t_lst(s, q->elems_len);
		for (int i = 0; i < q->elems_len; i++)
			dump(s, elem_of(g), q->elems[i]);
		break;
	}
	case G_BODY: dump_body(s, o); break;
	case G_MSG: {
		sml_message *m = o;
		t_lst(s, 6);
		t_oct(s, m->transaction_id);
		dump(s, G_U8, m->group_id);
		dump(s, G_U8, m->abort_on_error);
		dump_body(s, m->message_body);
		dump(s, G_U16, m->crc);
		break;
	}
	default: t_bad(s, 99);
	}
}

static void jtoks(ctx *c, const char *key, goal g, void *o) {
	str s = {0};
	dump(&s, g, o);
	fprintf(c->out, ",\"%s\":[%s]", key, s.p);
	free(s.p);
}

/* ------------------------------------------------------------------ build */

typedef struct {
	int k, n, type;
	unsigned char *b;
	int len;
} token;

static int hexv(int ch) { return ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10; }
static unsigned char *unhex(const char *h, size_t *n) {
	size_t l = 0;
	while (h[l] && h[l] != ' ' && h[l] != '\n')
		l++;
	*n = l / 2;
	unsigned char *b = malloc(*n + 1);
	for (size_t i = 0; i < *n; i++)
		b[i] = (hexv(h[2 * i]) << 4) | hexv(h[2 * i + 1]);
	b[*n] = 0;
	return b;
}
// bytes of a token: hex or rBB:N
static void tbytes(token *t, const char *h) {
	size_t n;
	if (*h == 'r') {
		unsigned v;
		int cnt;
		sscanf(h + 1, "%x:%d", &v, &cnt);
		t->b = malloc(cnt + 1);
		memset(t->b, (int)v, cnt);
		t->len = cnt;
	} else {
		t->b = unhex(h, &n);
		t->len = (int)n;
	}
}
typedef struct {
	char *p, *save;
} tstream;
static token next_tok(tstream *ts) {
	token t = {0};
	char *w = strtok_r(ts->p, " \n", &ts->save);
	ts->p = NULL;
	if (!w) {
		t.k = -1;
		return t;
	}
	t.k = w[0] - '0';
	switch (t.k) {
	case 1: tbytes(&t, w + 1); break;
	case 2: t.n = atoi(w + 1); break;
	case 3: {
		char *c = strchr(w, ':');
		t.type = atoi(w + 1);
		tbytes(&t, c + 1);
		break;
	}
	case 4: t.n = atoi(w + 1); break;
	}
	return t;
}

static octet_string *b_oct(const token *t) {
	if (t->k != 1)
		return NULL;
	octet_string *o;
	unsigned char *copy = malloc(t->len ? t->len : 1);
	memcpy(copy, t->b, t->len);
	LIB(o = sml_octet_string_init(copy, t->len));
	memset(copy, 0xee, t->len);
	free(copy);
	return o;
}
static void *b_num(const token *t) {
	if (t->k != 3)
		return NULL;
	u64 v = 0;
	for (int i = 0; i < t->len; i++)
		v = (v << 8) | t->b[i];
	// sign extended as a caller's conversion would do it
	if (t->type == SML_TYPE_INTEGER && t->len < 8 && (t->b[0] & 0x80))
		v |= ~0ull << (8 * t->len);
	void *p = NULL;
	lib = 1;
	switch (t->type | t->len) {
	case 0x61: p = sml_u8_init(v); break;
	case 0x62: p = sml_u16_init(v); break;
	case 0x64: p = sml_u32_init(v); break;
	case 0x68: p = sml_u64_init(v); break;
	case 0x51: p = sml_i8_init(v); break;
	case 0x52: p = sml_i16_init(v); break;
	case 0x54: p = sml_i32_init(v); break;
	case 0x58: p = sml_i64_init(v); break;
	}
	lib = 0;
	return p;
}
static void *build(goal g, tstream *ts);
static void *build_t(goal g, token t, tstream *ts);

static void *build(goal g, tstream *ts) {
	token t = next_tok(ts);
	void *o = build_t(g, t, ts);
	free(t.b);
	return o;
}
static void *build_t(goal g, token t, tstream *ts) {
	void *o = NULL;
	const structure *st = structure_of(g);
	if (st) {
		if (t.k == 0)
			return NULL;
		LIB(o = st->init());
		for (int i = 0; i < st->n; i++)
			*(void **)((char *)o + st->f[i].off) = build(st->f[i].g, ts);
		return o;
	}
	switch (g) {
	case G_OCT: return b_oct(&t);
	case G_BOOL:
		if (t.k == 2)
			LIB(o = sml_boolean_init(t.n));
		return o;
	case G_U8: case G_U16: case G_U32: case G_U64:
	case G_I8: case G_I16: case G_I32: case G_I64: return b_num(&t);
	case G_VALUE: {
		if (t.k == 0)
			return NULL;
		sml_value *v;
		LIB(v = sml_value_init());
		if (t.k == 1) {
			v->type = SML_TYPE_OCTET_STRING;
			v->data.bytes = b_oct(&t);
		} else if (t.k == 2) {
			v->type = SML_TYPE_BOOLEAN;
			LIB(v->data.boolean = sml_boolean_init(t.n));
		} else {
			v->type = t.type | t.len;
			v->data.uint8 = b_num(&t);
		}
		return v;
	}
	case G_STATUS: {
		if (t.k == 0)
			return NULL;
		sml_status *v;
		LIB(v = sml_status_init());
		v->type = t.type | t.len;
		v->data.status8 = b_num(&t);
		return v;
	}
	case G_TIME: {
		if (t.k == 0)
			return NULL;
		sml_time *v;
		LIB(v = sml_time_init());
		v->tag = build(G_U8, ts);
		v->data.timestamp = build(G_U32, ts);
		return v;
	}
	case G_PATH: {
		if (t.k == 0)
			return NULL;
		sml_tree_path *p;
		LIB(p = sml_tree_path_init());
		for (int i = 0; i < t.n; i++) {
			octet_string *s = build(G_OCT, ts);
			LIB(sml_tree_path_add_path_entry(p, s));
		}
		return p;
	}
	case G_LIST: {
		if (t.k == 0)
			return NULL;
		sml_list *first = NULL, *last = NULL;
		for (int i = 0; i < t.n; i++) {
			token e = next_tok(ts); // 4 7
			(void)e;
			sml_list *l;
			LIB(l = sml_list_init());
			l->obj_name = build(G_OCT, ts);
			l->status = build(G_STATUS, ts);
			l->val_time = build(G_TIME, ts);
			l->unit = build(G_U8, ts);
			l->scaler = build(G_I8, ts);
			l->value = build(G_VALUE, ts);
			l->value_signature = build(G_OCT, ts);
			// added to the last entry, or (lists of odd length) to the first
			if (last)
				LIB(sml_list_add(t.n % 2 ? first : last, l));
			else
				first = l;
			last = l;
		}
		return first;
	}
	case G_OBJLIST: {
		if (t.k == 0)
			return NULL;
		sml_obj_req_entry_list *first = NULL, **pos = &first;
		for (int i = 0; i < t.n; i++) {
			LIB(*pos = malloc(sizeof(**pos)));
			(*pos)->next = NULL;
			(*pos)->object_list_entry = build(G_OCT, ts);
			pos = &(*pos)->next;
		}
		return first;
	}
	case G_TREE: {
		if (t.k == 0)
			return NULL;
		sml_tree *r;
		LIB(r = sml_tree_init());
		r->parameter_name = build(G_OCT, ts);
		r->parameter_value = build(G_PPV, ts);
		token e = next_tok(ts);
		if (e.k == 4)
			for (int i = 0; i < e.n; i++) {
				sml_tree *ch = build(G_TREE, ts);
				LIB(sml_tree_add_tree(r, ch));
			}
		return r;
	}
	case G_PPV: {
		if (t.k == 0)
			return NULL;
		sml_proc_par_value *p;
		LIB(p = sml_proc_par_value_init());
		p->tag = build(G_U8, ts);
		switch (*p->tag) {
		case 1: p->data.value = build(G_VALUE, ts); break;
		case 2: p->data.period_entry = build(G_PERIOD, ts); break;
		case 3: p->data.tupel_entry = build(G_TUPEL, ts); break;
		case 4: p->data.time = build(G_TIME, ts); break;
		}
		return p;
	}
	case G_HDRSEQ: case G_PERSEQ: case G_VALSEQ: case G_PERIODSEQ: case G_OCTSEQ: {
		if (t.k == 0)
			return NULL;
		sml_sequence *q;
		LIB(q = sml_sequence_init(elem_free(g)));
		for (int i = 0; i < t.n; i++) {
			void *e = build(elem_of(g), ts);
			LIB(sml_sequence_add(q, e));
		}
		return q;
	}
	case G_BODY: {
		if (t.k == 0)
			return NULL;
		token e = next_tok(ts);
		u32 tag = 0;
		for (int i = 0; i < e.len; i++)
			tag = (tag << 8) | e.b[i];
		free(e.b);
		void *data = build(goal_of_tag(tag), ts);
		LIB(o = sml_message_body_init(tag, data));
		return o;
	}
	case G_MSG: {
		sml_message *m;
		LIB(m = sml_message_init());
		LIB(sml_octet_string_free(m->transaction_id));
		m->transaction_id = build(G_OCT, ts);
		m->group_id = build(G_U8, ts);
		m->abort_on_error = build(G_U8, ts);
		m->message_body = build(G_BODY, ts);
		m->crc = build(G_U16, ts);
		return m;
	}
	default: return NULL;
	}
}

/* ------------------------------------------------- parse, write, free by goal */

static void *do_parse(goal g, sml_buffer *b) {
	void *o = NULL;
	const structure *st = structure_of(g);
	lib = 1;
	if (st)
		o = st->parse(b);
	else
		switch (g) {
		case G_OCT: o = sml_octet_string_parse(b); break;
		case G_BOOL: o = sml_boolean_parse(b); break;
		case G_U8: o = sml_u8_parse(b); break;
		case G_U16: o = sml_u16_parse(b); break;
		case G_U32: o = sml_u32_parse(b); break;
		case G_U64: o = sml_u64_parse(b); break;
		case G_I8: o = sml_i8_parse(b); break;
		case G_I16: o = sml_i16_parse(b); break;
		case G_I32: o = sml_i32_parse(b); break;
		case G_I64: o = sml_i64_parse(b); break;
		case G_VALUE: o = sml_value_parse(b); break;
		case G_STATUS: o = sml_status_parse(b); break;
		case G_TIME: o = sml_time_parse(b); break;
		case G_PATH: o = sml_tree_path_parse(b); break;
		case G_LIST: o = sml_list_parse(b); break;
		case G_TREE: o = sml_tree_parse(b); break;
		case G_PPV: o = sml_proc_par_value_parse(b); break;
		case G_HDRSEQ: case G_PERSEQ: case G_VALSEQ: case G_PERIODSEQ: case G_OCTSEQ:
			o = sml_sequence_parse(b, elem_parse(g), elem_free(g));
			break;
		case G_BODY: o = sml_message_body_parse(b); break;
		case G_MSG: o = sml_message_parse(b); break;
		default: break;
		}
	lib = 0;
	return o;
}

static void do_write(goal g, void *o, sml_buffer *b) {
	const structure *st = structure_of(g);
	lib = 1;
	if (st)
		st->write(o, b);
	else
		switch (g) {
		case G_OCT: sml_octet_string_write(o, b); break;
		case G_BOOL: sml_boolean_write(o, b); break;
		case G_U8: sml_u8_write(o, b); break;
		case G_U16: sml_u16_write(o, b); break;
		case G_U32: sml_u32_write(o, b); break;
		case G_U64: sml_u64_write(o, b); break;
		case G_I8: sml_i8_write(o, b); break;
		case G_I16: sml_i16_write(o, b); break;
		case G_I32: sml_i32_write(o, b); break;
		case G_I64: sml_i64_write(o, b); break;
		case G_VALUE: sml_value_write(o, b); break;
		case G_STATUS: sml_status_write(o, b); break;
		case G_TIME: sml_time_write(o, b); break;
		case G_PATH: sml_tree_path_write(o, b); break;
		case G_LIST: sml_list_write(o, b); break;
		case G_TREE: sml_tree_write(o, b); break;
		case G_PPV: sml_proc_par_value_write(o, b); break;
		case G_HDRSEQ: case G_PERSEQ: case G_VALSEQ: case G_PERIODSEQ: case G_OCTSEQ:
			sml_sequence_write(o, b, elem_write(g));
			break;
		case G_BODY: sml_message_body_write(o, b); break;
		case G_MSG: sml_message_write(o, b); break;
		default: break;
		}
	lib = 0;
}

static void do_free(goal g, void *o) {
	const structure *st = structure_of(g);
	lib = 1;
	if (st)
		st->free(o);
	else
		switch (g) {
		case G_OCT: sml_octet_string_free(o); break;
		case G_BOOL: sml_boolean_free(o); break;
		case G_U8: sml_u8_free(o); break;
		case G_U16: sml_u16_free(o); break;
		case G_U32: sml_u32_free(o); break;
		case G_U64: sml_u64_free(o); break;
		case G_I8: sml_i8_free(o); break;
		case G_I16: sml_i16_free(o); break;
		case G_I32: sml_i32_free(o); break;
		case G_I64: sml_i64_free(o); break;
		case G_VALUE: sml_value_free(o); break;
		case G_STATUS: sml_status_free(o); break;
		case G_TIME: sml_time_free(o); break;
		case G_PATH: sml_tree_path_free(o); break;
		case G_LIST: sml_list_free(o); break;
		case G_TREE: sml_tree_free(o); break;
		case G_PPV: sml_proc_par_value_free(o); break;
		case G_HDRSEQ: case G_PERSEQ: case G_VALSEQ: case G_PERIODSEQ: case G_OCTSEQ:
			sml_sequence_free(o);
			break;
		case G_BODY: sml_message_body_free(o); break;
		case G_MSG: sml_message_free(o); break;
		case G_FILE: sml_file_free(o); break;
		default: break;
		}
	lib = 0;
}

/* -------------------------------------------------- environment of transport */

// What the operating system does is scripted by position in the stream, so that it does
// not depend on how many bytes the code asks for in one call.
typedef struct {
	int at, what, times; // what: 0 chunk boundary, 1 EINTR, 2 EAGAIN, 3 error, 4 EOF, 5 waiting is interrupted, 6 a wait with a limit runs out
} envev;
typedef struct {
	int fd, on;
	off_t pos;
	envev ev[512];
	int n;
	int wmore;   // write: after the limit or a failure everything is taken
	int wlimit;  // write: take at most this many bytes, -1 no limit, -2 fail
	int wcount;
} envt;
static __thread envt *envs[4];

ssize_t __real_read(int fd, void *buf, size_t n);
int __real_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv);
ssize_t __real_write(int fd, const void *buf, size_t n);

static envt *env_of(int fd) {
	for (int i = 0; i < 4; i++)
		if (envs[i] && envs[i]->on && envs[i]->fd == fd)
			return envs[i];
	return NULL;
}
ssize_t __wrap_read(int fd, void *buf, size_t n) {
	envt *e = env_of(fd);
	if (!e)
		return __real_read(fd, buf, n);
	if (n == 0)
		return 0;
	size_t lim = n;
	for (int i = 0; i < e->n; i++) {
		envev *v = &e->ev[i];
		if (v->at == e->pos && v->times) {
			switch (v->what) {
			case 1: v->times--; errno = EINTR; return -1;
			case 2: v->times--; errno = EAGAIN; return -1;
			case 3: v->times--; errno = EIO; return -1;
			case 4: v->times--; return 0;
			}
		} else if (v->at > e->pos && v->what < 5 && (size_t)(v->at - e->pos) < lim) {
			lim = v->at - e->pos;
		}
	}
	ssize_t r = __real_read(fd, buf, lim);
	if (r > 0)
		e->pos += r;
	return r;
}
// is the wait for fd interrupted by a signal, or (if it has a limit) as long as the limit
static int wait_event(envt *e, int what) {
	for (int i = 0; i < e->n; i++) {
		envev *v = &e->ev[i];
		if (v->what == what && v->at <= e->pos && v->times) {
			v->times--;
			return 1;
		}
	}
	return 0;
}
static int wait_interrupted(envt *e) {
	if (!wait_event(e, 5))
		return 0;
	errno = EINTR;
	return 1;
}
int __real_poll(struct pollfd *p, nfds_t n, int t);
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	for (nfds_t i = 0; i < n; i++) {
		envt *e = env_of(p[i].fd);
		if (e && wait_interrupted(e))
			return -1;
		if (e && t >= 0 && wait_event(e, 6)) {
			for (nfds_t k = 0; k < n; k++)
				p[k].revents = 0;
			return 0;
		}
	}
	return __real_poll(p, n, t);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *x, struct timeval *tv) {
	for (int k = 0; k < 4; k++) {
		envt *e = envs[k];
		if (!e || !e->on || !r || e->fd >= n || e->fd >= FD_SETSIZE || !FD_ISSET(e->fd, r))
			continue;
		if (wait_interrupted(e))
			return -1;
		if (tv && wait_event(e, 6)) {
			FD_ZERO(r);
			if (w)
				FD_ZERO(w);
			if (x)
				FD_ZERO(x);
			tv->tv_sec = tv->tv_usec = 0;
			return 0;
		}
	}
	return __real_select(n, r, w, x, tv);
}
ssize_t __wrap_write(int fd, const void *buf, size_t n) {
	envt *e = env_of(fd);
	if (e && e->wlimit >= 0) {
		if ((size_t)e->wlimit < n) {
			n = e->wlimit;
		}
		if (n == 0)
			return 0;
		e->wlimit -= n;
		if (e->wmore && e->wlimit == 0)
			e->wlimit = -1;
	} else if (e && e->wlimit <= -2) {
		errno = e->wlimit == -2 ? EIO : e->wlimit == -3 ? EAGAIN : EINTR;
		if (e->wmore || e->wlimit == -4)
			e->wlimit = -1;
		return -1;
	}
	return __real_write(fd, buf, n);
}

// events "at:what:times,..." or "-"
static void env_events(envt *e, char *s) {
	e->n = 0;
	if (*s == '-')
		return;
	char *save = NULL;
	for (char *w = strtok_r(s, ",", &save); w; w = strtok_r(NULL, ",", &save)) {
		envev *v = &e->ev[e->n++];
		sscanf(w, "%d:%d:%d", &v->at, &v->what, &v->times);
	}
}
static int memfd_with(const unsigned char *b, size_t n) {
	int fd = memfd_create("stream", 0);
	size_t o = 0;
	while (o < n) {
		ssize_t r = __real_write(fd, b + o, n - o);
		if (r <= 0)
			abort();
		o += r;
	}
	lseek(fd, 0, SEEK_SET);
	return fd;
}

typedef struct {
	int fd;
	unsigned char *b;
	size_t n;
	char *ev;
} feeder;
// feeds a pipe in the given chunks, with a pause after each
static void *feed(void *p) {
	feeder *f = p;
	size_t o = 0;
	char *save = NULL;
	char *w = *f->ev == '-' ? NULL : strtok_r(f->ev, ",", &save);
	while (o < f->n) {
		size_t end = f->n;
		int pause = 200;
		if (w) {
			end = (size_t)atoi(w);
			w = strtok_r(NULL, ",", &save);
		}
		if (end > f->n)
			end = f->n;
		while (o < end) {
			ssize_t r = __real_write(f->fd, f->b + o, end - o);
			if (r <= 0)
				goto out;
			o += r;
		}
		usleep(pause);
	}
out:
	close(f->fd);
	return NULL;
}

/* listen */
static __thread ctx *listen_ctx;
static __thread int listen_n, listen_mode, listen_fd2;
static void jfile(ctx *c, sml_file *f);
static void on_frame(unsigned char *b, size_t n) {
	ctx *c = listen_ctx;
	int l = lib;
	lib = 0;
	fprintf(c->out, listen_n++ ? "," : "");
	if (listen_mode == 0) {
		jbytes(c->out, b, n);
		memset(b, "\x55\x1b\0\1"[listen_n % 4], n); // the receiver may do so
	} else {
		// nested use of the library inside the callback
		unsigned char *copy = malloc(n);
		memcpy(copy, b, n);
		unsigned char *b2 = malloc(600);
		if (listen_mode == 2) {
			size_t r;
			LIB(r = sml_transport_read(listen_fd2, b2, 600));
			(void)r;
		}
		sml_file *f = NULL;
		if (n >= 16) {
			LIB(f = sml_file_parse(b + 8, n - 16));
			memset(b, 0x55, n);
			LIB(sml_file_free(f));
		}
		jbytes(c->out, copy, n);
		free(copy);
		free(b2);
	}
	lib = l;
}

// frames that follow each other and are the same, once, with their number
static __thread struct {
	unsigned char *b;
	size_t n;
	long cnt;
	int runs;
} run;
static void run_flush(FILE *out) {
	if (run.cnt) {
		fprintf(out, "%s[%ld,", run.runs++ ? "," : "", run.cnt);
		jbytes(out, run.b, run.n);
		fputc(']', out);
	}
	free(run.b);
	run.b = NULL;
	run.cnt = 0;
}
static void run_frame(unsigned char *b, size_t n) {
	int l = lib;
	lib = 0;
	if (run.cnt && run.n == n && !memcmp(run.b, b, n)) {
		run.cnt++;
	} else {
		run_flush(listen_ctx->out);
		run.b = malloc(n ? n : 1);
		memcpy(run.b, b, n);
		run.n = n;
		run.cnt = 1;
	}
	memset(b, 0x1b, n);
	lib = l;
}

/* ------------------------------------------------------------- operations */

static void jfile(ctx *c, sml_file *f) {
	fprintf(c->out, ",\"n\":%d,\"msgs\":[", f->messages_len);
	// runs of equal messages are written once, with their number
	str prev = {0};
	int cnt = 0, runs = 0;
	for (int i = 0; i <= f->messages_len; i++) {
		str s = {0};
		if (i < f->messages_len)
			dump(&s, G_MSG, f->messages[i]);
		if (cnt && (i == f->messages_len || s.n != prev.n || memcmp(s.p, prev.p, s.n))) {
			fprintf(c->out, "%s[%d,[%s]]", runs++ ? "," : "", cnt, prev.p);
			cnt = 0;
		}
		free(prev.p);
		prev = s;
		cnt++;
	}
	free(prev.p);
	fputc(']', c->out);
}

static goal goal_by_name(const char *s) {
	for (int i = 0; i < G_COUNT; i++)
		if (!strcmp(s, goal_names[i]))
			return i;
	fprintf(stderr, "drv: unknown goal %s\n", s);
	exit(3);
}

static double now(void) {
	struct timeval t;
	gettimeofday(&t, NULL);
	return t.tv_sec + t.tv_usec * 1e-6;
}

static void free_all(ctx *c) {
	for (int i = 0; i < NSLOT; i++) {
		if (c->slot[i].o)
			do_free(c->slot[i].g, c->slot[i].o);
		c->slot[i].o = NULL;
		if (c->buf[i])
			LIB(sml_buffer_free(c->buf[i]));
		c->buf[i] = NULL;
	}
}

// the most memory that was in use since the operation began
static size_t used_before;
static void jmem(ctx *c) {
	if (!threaded)
		fprintf(c->out, ",\"mem\":%zu", used_peak - used_before);
}

static void jheap(ctx *c) {
	fprintf(c->out, ",\"live\":%d,\"badfree\":%d", live, bad_free);
}

static void small_stack(void) {
	struct rlimit sl;
	getrlimit(RLIMIT_STACK, &sl);
	sl.rlim_cur = 512 << 10;
	setrlimit(RLIMIT_STACK, &sl);
}

// the same descriptor, beyond what select can do
static int high(int fd) {
	struct rlimit l;
	if (!getrlimit(RLIMIT_NOFILE, &l) && l.rlim_cur < 2000) {
		l.rlim_cur = l.rlim_max < 4000 ? l.rlim_max : 4000;
		setrlimit(RLIMIT_NOFILE, &l);
	}
	int h = fcntl(fd, F_DUPFD, 1100);
	if (h < 0)
		return fd;
	close(fd);
	return h;
}

// a buffer as it is
static void jraw(ctx *c, char *op, sml_buffer *b) {
	int e;
	LIB(e = sml_buf_has_errors(b));
	res(c, op);
	fprintf(c->out, ",\"len\":%zu,\"cur\":%d,\"err\":%d,\"b\":", b->buffer_len,
			b->cursor <= b->buffer_len ? (int)b->cursor : -1, e != 0);
	jbytes(c->out, b->buffer, b->buffer_len);
}

static void run_op(ctx *c, char *line) {
	char *save = NULL;
	char *op = strtok_r(line, " \n", &save);
	if (!threaded)
		used_before = used_peak = used;
#define ARG() strtok_r(NULL, " \n", &save)
	if (!op)
		return;
	c->opnr++;

	if (!strcmp(op, "parse")) { // parse GOAL SLOT HEX
		goal g = goal_by_name(ARG());
		int k = atoi(ARG());
		char *h = ARG();
		size_t n;
		unsigned char *b = unhex(h ? h : "", &n);
		sml_buffer *buf;
		LIB(buf = sml_buffer_init(n));
		memcpy(buf->buffer, b, n);
		free(b);
		void *o = do_parse(g, buf);
		res(c, op);
		fprintf(c->out, ",\"null\":%d,\"err\":%d,\"cur\":%d", o == NULL, buf->error != 0,
				buf->cursor <= buf->buffer_len ? (int)buf->cursor : -1);
		jmem(c);
		memset(buf->buffer, 0x5a, n);
		LIB(sml_buffer_free(buf));
		jtoks(c, "toks", g, o);
		res_end(c);
		c->slot[k].g = g;
		c->slot[k].o = o;
	} else if (!strcmp(op, "file")) { // file SLOT HEX [repeat]
		int k = atoi(ARG());
		char *h = ARG();
		char *rs = ARG();
		int rep = rs ? atoi(rs) : 1;
		size_t n;
		unsigned char *b = unhex(h && *h != '-' ? h : "", &n);
		unsigned char *in = malloc(n * rep);
		for (int i = 0; i < rep; i++)
			memcpy(in + n * i, b, n);
		free(b);
		n *= rep;
		sml_file *f;
		LIB(f = sml_file_parse(in, n));
		memset(in, 0x5a, n);
		free(in);
		res(c, op);
		fprintf(c->out, ",\"err\":%d,\"cur\":%d", f->buf->error != 0,
				f->buf->cursor <= f->buf->buffer_len ? (int)f->buf->cursor : -1);
		jmem(c);
		memset(f->buf->buffer, 0xa5, f->buf->buffer_len);
		jfile(c, f);
		res_end(c);
		c->slot[k].g = G_FILE;
		c->slot[k].o = f;
	} else if (!strcmp(op, "build")) { // build GOAL SLOT TOKENS
		goal g = goal_by_name(ARG());
		int k = atoi(ARG());
		tstream ts = {save, NULL};
		void *o = build(g, &ts);
		c->slot[k].g = g;
		c->slot[k].o = o;
		res(c, op);
		jtoks(c, "toks", g, o);
		res_end(c);
	} else if (!strcmp(op, "idmsg")) { // idmsg SLOT TOKENS: like build, but keeps the id of sml_message_init
		int k = atoi(ARG());
		tstream ts = {save, NULL};
		sml_message *m = build(G_MSG, &ts), *n;
		LIB(n = sml_message_init());
		octet_string *id = n->transaction_id;
		n->transaction_id = m->transaction_id;
		m->transaction_id = id;
		LIB(sml_message_free(n));
		c->slot[k].g = G_MSG;
		c->slot[k].o = m;
		res(c, op);
		jtoks(c, "toks", G_MSG, m);
		res_end(c);
	} else if (!strcmp(op, "reparse")) { // reparse SLOT BUF: parse the message in the buffer
		int k = atoi(ARG()), q = atoi(ARG());
		sml_buffer *buf;
		LIB(buf = sml_buffer_init(c->buf[q]->cursor));
		memcpy(buf->buffer, c->buf[q]->buffer, c->buf[q]->cursor);
		void *o = do_parse(G_MSG, buf);
		res(c, op);
		fprintf(c->out, ",\"in\":");
		jbytes(c->out, buf->buffer, buf->buffer_len);
		fprintf(c->out, ",\"null\":%d,\"err\":%d", o == NULL, buf->error != 0);
		LIB(sml_buffer_free(buf));
		jtoks(c, "toks", G_MSG, o);
		res_end(c);
		c->slot[k].g = G_MSG;
		c->slot[k].o = o;
	} else if (!strcmp(op, "init")) { // init GOAL SLOT: a fresh object
		goal g = goal_by_name(ARG());
		int k = atoi(ARG());
		const structure *st = structure_of(g);
		void *o = NULL;
		lib = 1;
		if (st)
			o = st->init();
		else if (g == G_MSG)
			o = sml_message_init();
		else if (g == G_FILE)
			o = sml_file_init();
		else if (g == G_TREE)
			o = sml_tree_init();
		else if (g == G_PATH)
			o = sml_tree_path_init();
		else if (g == G_LIST)
			o = sml_list_init();
		else if (g == G_TIME)
			o = sml_time_init();
		else if (g == G_OCTSEQ)
			o = sml_sequence_init(oct_f);
		lib = 0;
		c->slot[k].g = g;
		c->slot[k].o = o;
		res(c, op);
		if (g == G_FILE)
			jfile(c, o);
		else
			jtoks(c, "toks", g, o);
		res_end(c);
	} else if (!strcmp(op, "dump")) { // dump SLOT
		int k = atoi(ARG());
		res(c, op);
		if (c->slot[k].g == G_FILE)
			jfile(c, c->slot[k].o);
		else
			jtoks(c, "toks", c->slot[k].g, c->slot[k].o);
		res_end(c);
	} else if (!strcmp(op, "free")) { // free SLOT
		int k = atoi(ARG());
		do_free(c->slot[k].g, c->slot[k].o);
		c->slot[k].o = NULL;
		res(c, op);
		res_end(c);
	} else if (!strcmp(op, "absent")) { // absent GOAL WRITE: write and free what is not there
		goal g = goal_by_name(ARG());
		int w = atoi(ARG());
		sml_buffer *b;
		LIB(b = sml_buffer_init(64));
		if (w)
			do_write(g, NULL, b);
		do_free(g, NULL);
		res(c, op);
		fprintf(c->out, ",\"bytes\":");
		jbytes(c->out, b->buffer, b->cursor);
		LIB(sml_buffer_free(b); sml_buffer_free(NULL));
		jheap(c);
		res_end(c);
	} else if (!strcmp(op, "heap")) { // blocks still allocated by the library
		res(c, op);
		jheap(c);
		if (track) {
			fprintf(c->out, ",\"full\":%d,\"ev\":[", hev_n == hev_cap);
			for (size_t i = 0; i < hev_n; i++)
				fprintf(c->out, i ? ",%d" : "%d", hev[i]);
			fputc(']', c->out);
		}
		res_end(c);
	} else if (!strcmp(op, "newbuf")) { // newbuf BUF SIZE FILL
		int k = atoi(ARG());
		size_t n = atoi(ARG());
		int fill = atoi(ARG());
		LIB(c->buf[k] = sml_buffer_init(n));
		memset(c->buf[k]->buffer, fill, n);
		res(c, op);
		fprintf(c->out, ",\"len\":%zu,\"cur\":%zu,\"err\":%d", c->buf[k]->buffer_len,
				c->buf[k]->cursor, c->buf[k]->error);
		res_end(c);
	} else if (!strcmp(op, "rewind")) { // rewind BUF
		c->buf[atoi(ARG())]->cursor = 0;
		res(c, op);
		res_end(c);
	} else if (!strcmp(op, "freebuf")) { // freebuf BUF
		int k = atoi(ARG());
		LIB(sml_buffer_free(c->buf[k]));
		c->buf[k] = NULL;
		res(c, op);
		res_end(c);
	} else if (!strcmp(op, "write") || !strcmp(op, "writer")) { // write SLOT BUF
		int k = atoi(ARG()), q = atoi(ARG());
		sml_buffer *b = c->buf[q];
		size_t start = b->cursor;
		unsigned char *pre = malloc(start + 1);
		memcpy(pre, b->buffer, start);
		do_write(c->slot[k].g, c->slot[k].o, b);
		res(c, op);
		fprintf(c->out, ",\"from\":%zu,\"pre\":%d,\"%s\":", start,
				memcmp(pre, b->buffer, start) == 0, op[5] ? "rle" : "bytes");
		free(pre);
		if (op[5])
			jrle(c->out, b->buffer + start, b->cursor - start);
		else
			jbytes(c->out, b->buffer + start, b->cursor - start);
		res_end(c);
	} else if (!strcmp(op, "addmsg")) { // addmsg FILESLOT MSGSLOT
		int k = atoi(ARG()), m = atoi(ARG());
		LIB(sml_file_add_message(c->slot[k].o, c->slot[m].o));
		c->slot[m].o = NULL;
		res(c, op);
		fprintf(c->out, ",\"n\":%d", ((sml_file *)c->slot[k].o)->messages_len);
		res_end(c);
	} else if (!strcmp(op, "add")) { // add SLOT ELEMSLOT: to a container, a list or a tree
		int k = atoi(ARG()), m = atoi(ARG()), n = 0;
		void *o = c->slot[k].o, *e = c->slot[m].o;
		lib = 1;
		switch (c->slot[k].g) {
		case G_PATH:
			sml_tree_path_add_path_entry(o, e);
			n = ((sml_tree_path *)o)->path_entries_len;
			break;
		case G_TREE:
			sml_tree_add_tree(o, e);
			n = ((sml_tree *)o)->child_list_len;
			break;
		case G_LIST:
			sml_list_add(o, e);
			for (sml_list *l = o; l; l = l->next)
				n++;
			break;
		default:
			sml_sequence_add(o, e);
			n = ((sml_sequence *)o)->elems_len;
		}
		lib = 0;
		c->slot[m].o = NULL;
		res(c, op);
		fprintf(c->out, ",\"n\":%d", n);
		res_end(c);
	} else if (!strcmp(op, "setbody")) { // setbody MSGSLOT BODYSLOT
		sml_message *m = c->slot[atoi(ARG())].o;
		int b = atoi(ARG());
		LIB(sml_message_body_free(m->message_body));
		m->message_body = c->slot[b].o;
		c->slot[b].o = NULL;
		res(c, op);
		res_end(c);
	} else if (!strcmp(op, "fwrite")) { // fwrite FILESLOT REWIND: encode a file
		sml_file *f = c->slot[atoi(ARG())].o;
		if (atoi(ARG()))
			f->buf->cursor = 0;
		size_t start = f->buf->cursor;
		LIB(sml_file_write(f));
		res(c, op);
		fprintf(c->out, ",\"from\":%zu,\"bytes\":", start);
		jbytes(c->out, f->buf->buffer + start, f->buf->cursor - start);
		res_end(c);
	} else if (!strcmp(op, "twrite")) { // twrite FILESLOT LIMIT(-1 none, -2 EIO, -3 EAGAIN, -4 EINTR) MORE(takes the rest later)
		sml_file *f = c->slot[atoi(ARG())].o;
		envt e = {.on = 1, .wlimit = atoi(ARG())};
		e.wmore = atoi(ARG());
		e.fd = memfd_create("out", 0);
		envs[0] = &e;
		int r;
		LIB(r = sml_transport_write(e.fd, f));
		envs[0] = NULL;
		size_t n = lseek(e.fd, 0, SEEK_CUR);
		unsigned char *b = malloc(n + 1);
		if (pread(e.fd, b, n, 0) != (ssize_t)n)
			abort();
		close(e.fd);
		res(c, op);
		fprintf(c->out, ",\"ret\":%d,\"bytes\":", r);
		jbytes(c->out, b, n);
		res_end(c);
		free(b);
	} else if (!strcmp(op, "tread") || !strcmp(op, "preads")) {
		// tread CALLS MAXLEN EVENTS HEX: scripted; preads: a real pipe fed by a thread
		int calls = atoi(ARG());
		size_t max = atoi(ARG());
		char *ev = strdup(ARG());
		char *h = ARG();
		size_t n;
		unsigned char *b = unhex(h ? h : "", &n);
		envt e = {.on = 1, .wlimit = -1};
		feeder fd = {0};
		pthread_t th;
		int p[2];
		if (op[0] == 't') {
			e.fd = memfd_with(b, n);
			env_events(&e, ev);
			envs[0] = &e;
		} else {
			if (pipe(p))
				abort();
			e.fd = p[0];
			if (max & 1)
				fcntl(p[0], F_SETFL, O_NONBLOCK);
			fd = (feeder){p[1], b, n, ev};
			pthread_create(&th, NULL, feed, &fd);
		}
		if (max % 3 == 0)
			e.fd = high(e.fd);
		res(c, op);
		fprintf(c->out, ",\"calls\":[");
		for (int i = 0; i < calls; i++) {
			unsigned char *out = malloc(max ? max : 1);
			size_t r;
			if (max)
				memset(out, 0xcc, max);
			LIB(r = sml_transport_read(e.fd, out, max));
			fprintf(c->out, "%s{\"ret\":%zu,\"pos\":%ld,\"bytes\":", i ? "," : "", r,
					op[0] == 't' ? (long)e.pos : 0l);
			jbytes(c->out, out, r <= max ? r : 0);
			fputc('}', c->out);
			free(out);
		}
		envs[0] = NULL;
		fputc(']', c->out);
		if (op[0] == 'p') { // what is left in the pipe
			unsigned char rest[4096];
			ssize_t r;
			fcntl(e.fd, F_SETFL, 0);
			fprintf(c->out, ",\"rest\":");
			unsigned char *acc = malloc(n + 1);
			size_t an = 0;
			while ((r = __real_read(e.fd, rest, sizeof rest)) > 0) {
				memcpy(acc + an, rest, r);
				an += r;
			}
			jbytes(c->out, acc, an);
			free(acc);
			pthread_join(th, NULL);
		}
		close(e.fd);
		free(b);
		free(ev);
		res_end(c);
	} else if (!strcmp(op, "listen")) { // listen MODE EVENTS HEX
		int mode = atoi(ARG());
		char *ev = strdup(ARG());
		char *h = ARG();
		size_t n;
		unsigned char *b = unhex(h ? h : "", &n);
		envt e = {.on = 1, .wlimit = -1};
		e.fd = memfd_with(b, n);
		if (n % 3 == 0)
			e.fd = high(e.fd);
		env_events(&e, ev);
		envs[0] = &e;
		listen_ctx = c;
		listen_n = 0;
		listen_mode = mode;
		listen_fd2 = memfd_with(b, n);
		res(c, op);
		fprintf(c->out, ",\"frames\":[");
		LIB(sml_transport_listen(e.fd, on_frame));
		envs[0] = NULL;
		fprintf(c->out, "],\"pos\":%ld", (long)e.pos);
		close(e.fd);
		close(listen_fd2);
		free(b);
		free(ev);
		res_end(c);
	} else if (!strcmp(op, "lrun")) { // lrun MAX N HEX HEX: N times the first, then the second; MAX 0: listen
		size_t max = atol(ARG()), times = atol(ARG()), ln, n;
		char *h = ARG();
		unsigned char *lead = unhex(*h != '-' ? h : "", &ln);
		h = ARG();
		unsigned char *b = unhex(*h != '-' ? h : "", &n);
		unsigned char *all = malloc(ln * times + n + 1);
		for (size_t i = 0; i < times; i++)
			memcpy(all + i * ln, lead, ln);
		memcpy(all + ln * times, b, n);
		int fd = memfd_with(all, ln * times + n);
		listen_ctx = c;
		run.runs = 0;
		res(c, op);
		fprintf(c->out, ",\"runs\":[");
		if (max == 0) {
			LIB(sml_transport_listen(fd, run_frame));
		} else {
			unsigned char *out = malloc(max);
			size_t r;
			do {
				LIB(r = sml_transport_read(fd, out, max));
				if (r)
					run_frame(out, r <= max ? r : max);
			} while (r);
			free(out);
		}
		run_flush(c->out);
		fputc(']', c->out);
		close(fd);
		free(all);
		free(lead);
		free(b);
		res_end(c);
	} else if (!strcmp(op, "crc")) { // crc HEX
		char *h = ARG();
		size_t n;
		unsigned char *t = unhex(h && *h != '-' ? h : "", &n);
		unsigned char *b = malloc(n ? n : 1); // exact size
		memcpy(b, t, n);
		free(t);
		unsigned x, k;
		LIB(x = sml_crc16_calculate(b, n));
		LIB(k = sml_crc16kermit_calculate(b, n));
		res(c, op);
		fprintf(c->out, ",\"x25\":%u,\"kermit\":%u", x, k);
		res_end(c);
		free(b);
	} else if (!strcmp(op, "double")) { // double SLOT: of a value
		double d;
		LIB(d = sml_value_to_double(c->slot[atoi(ARG())].o));
		u64 u;
		memcpy(&u, &d, 8);
		unsigned char b[8];
		for (int i = 0; i < 8; i++)
			b[i] = u >> (56 - 8 * i);
		res(c, op);
		fprintf(c->out, ",\"bits\":");
		jbytes(c->out, b, 8);
		res_end(c);
	} else if (!strcmp(op, "strhex")) { // strhex SLOT MIXED
		int k = atoi(ARG()), mixed = atoi(ARG());
		char *r = (char *)1, *ret;
		LIB(ret = sml_value_to_strhex(c->slot[k].o, &r, mixed));
		res(c, op);
		fprintf(c->out, ",\"null\":%d,\"same\":%d,\"text\":", ret == NULL, ret == NULL || ret == r);
		jbytes(c->out, (unsigned char *)(ret ? ret : ""), ret ? strlen(ret) : 0);
		res_end(c);
		if (ret)
			LIB(free(ret));
	} else if (!strcmp(op, "fromhex")) { // fromhex SLOT TEXT
		int k = atoi(ARG());
		char *t = ARG();
		char *copy = strdup(t && *t != '-' ? t : "");
		octet_string *o;
		LIB(o = sml_octet_string_init_from_hex(copy));
		memset(copy, 'z', strlen(copy));
		free(copy);
		c->slot[k].g = G_OCT;
		c->slot[k].o = o;
		res(c, op);
		jtoks(c, "toks", G_OCT, o);
		res_end(c);
	} else if (!strcmp(op, "hexrun")) { // hexrun BYTE N: N times the byte as text
		int x = atoi(ARG());
		size_t n = strtoul(ARG(), NULL, 10);
		char *t = malloc(2 * n + 1), d[3];
		snprintf(d, sizeof d, n % 2 ? "%02x" : "%02X", x);
		for (size_t i = 0; i < 2 * n; i++)
			t[i] = d[i % 2];
		t[2 * n] = 0;
		small_stack();
		octet_string *s;
		int eq;
		LIB(s = sml_octet_string_init_from_hex(t));
		LIB(eq = sml_octet_string_cmp_with_hex(s, t));
		free(t);
		res(c, op);
		fprintf(c->out, ",\"eq\":%d,\"rle\":", eq == 0);
		if (s)
			jrle(c->out, s->str, s->len);
		else
			fputs("[]", c->out);
		LIB(sml_octet_string_free(s));
		res_end(c);
	} else if (!strcmp(op, "cmp")) { // cmp SLOT SLOT
		int a = atoi(ARG()), b = atoi(ARG()), r;
		LIB(r = sml_octet_string_cmp(c->slot[a].o, c->slot[b].o));
		res(c, op);
		fprintf(c->out, ",\"eq\":%d", r == 0);
		res_end(c);
	} else if (!strcmp(op, "cmphex")) { // cmphex SLOT TEXT
		int a = atoi(ARG()), r;
		char *t = ARG();
		char *copy = strdup(t && *t != '-' ? t : "");
		LIB(r = sml_octet_string_cmp_with_hex(c->slot[a].o, copy));
		free(copy);
		res(c, op);
		fprintf(c->out, ",\"eq\":%d", r == 0);
		res_end(c);
	} else if (!strcmp(op, "putmsgid")) { // putmsgid SLOT: replace the transaction id, no-op
		res(c, op);
		res_end(c);
	} else if (!strcmp(op, "ids")) { // ids N: create N messages, report duplicates and shape
		int n = atoi(ARG());
		unsigned char *all = malloc(16 * (size_t)n);
		int shape = 1, absent = 1, dup = 0;
		sml_message **m = malloc(sizeof(*m) * n);
		for (int i = 0; i < n; i++) {
			LIB(m[i] = sml_message_init());
			if (!m[i]->transaction_id || m[i]->transaction_id->len != 16)
				shape = 0;
			else
				memcpy(all + 16 * i, m[i]->transaction_id->str, 16);
			if (m[i]->group_id || m[i]->abort_on_error || m[i]->message_body || m[i]->crc)
				absent = 0;
		}
		for (int i = 0; shape && i < n; i++)
			if (memcmp(all + 16 * i, m[i]->transaction_id->str, 16))
				shape = 0; // changed by the creation of another one
		int (*cmp)(const void *, const void *) = NULL;
		(void)cmp;
		res(c, op);
		fprintf(c->out, ",\"shape\":%d,\"absent\":%d,\"ids\":[", shape, absent);
		for (int i = 0; i < n && shape; i++) {
			if (i)
				fputc(',', c->out);
			jbytes(c->out, all + 16 * i, 16);
		}
		(void)dup;
		fprintf(c->out, "]");
		for (int i = 0; i < n; i++) {
			lib = 1;
			sml_octet_string_free(m[i]->transaction_id);
			m[i]->transaction_id = NULL;
			free(m[i]);
			lib = 0;
		}
		free(m);
		free(all);
		res_end(c);
	} else if (!strcmp(op, "hdrw")) { // hdrw TYPE LENGTH FILL: write a header
		int type = atoi(ARG());
		unsigned l = strtoul(ARG(), NULL, 10);
		int fill = atoi(ARG());
		sml_buffer *b;
		LIB(b = sml_buffer_init(16));
		memset(b->buffer, fill, 16);
		LIB(sml_buf_set_type_and_length(b, type, l));
		res(c, op);
		fprintf(c->out, ",\"bytes\":");
		jbytes(c->out, b->buffer, b->cursor);
		b->buffer_len = 16; // and read it back
		b->cursor = 0;
		int t, n;
		LIB(t = sml_buf_get_next_type(b));
		LIB(n = sml_buf_get_next_length(b));
		fprintf(c->out, ",\"type\":%d,\"len\":%d,\"err\":%d,\"cur\":%zu", t, n, b->error != 0,
				b->cursor);
		LIB(sml_buffer_free(b));
		res_end(c);
	} else if (!strcmp(op, "hdrr")) { // hdrr HEX: read a header
		char *h = ARG();
		size_t n;
		unsigned char *d = unhex(h && *h != '-' ? h : "", &n);
		sml_buffer *b;
		LIB(b = sml_buffer_init(n));
		memcpy(b->buffer, d, n);
		free(d);
		int t, l;
		LIB(t = sml_buf_get_next_type(b));
		int e0 = b->error;
		b->error = 0;
		LIB(l = sml_buf_get_next_length(b));
		res(c, op);
		fprintf(c->out, ",\"type\":%d,\"terr\":%d,\"len\":%d,\"err\":%d,\"cur\":%d", t, e0 != 0, l,
				b->error != 0, b->cursor <= n ? (int)b->cursor : -1);
		LIB(sml_buffer_free(b));
		res_end(c);
	} else if (!strcmp(op, "opt")) { // opt HEX: is the optional field skipped
		char *h = ARG();
		size_t n;
		unsigned char *d = unhex(h && *h != '-' ? h : "", &n);
		sml_buffer *b;
		LIB(b = sml_buffer_init(n));
		memcpy(b->buffer, d, n);
		free(d);
		int r;
		LIB(r = sml_buf_optional_is_skipped(b));
		res(c, op);
		fprintf(c->out, ",\"skipped\":%d,\"err\":%d,\"cur\":%d", r == 1, b->error != 0,
				(int)b->cursor);
		LIB(sml_buffer_free(b));
		res_end(c);
	} else if (!strcmp(op, "rnew")) { // rnew BUF SIZE FILL: a buffer to work on directly
		int q = atoi(ARG());
		size_t n = atoi(ARG());
		int fill = atoi(ARG());
		LIB(c->buf[q] = sml_buffer_init(n));
		memset(c->buf[q]->buffer, fill, n);
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "rload")) { // rload BUF HEX
		int q = atoi(ARG());
		char *h = ARG();
		size_t n;
		unsigned char *d = unhex(h && *h != '-' ? h : "", &n);
		LIB(c->buf[q] = sml_buffer_init(n));
		memcpy(c->buf[q]->buffer, d, n);
		free(d);
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "rcut")) { // rcut BUF: go on with a buffer of what was written
		int q = atoi(ARG());
		sml_buffer *b = c->buf[q];
		LIB(c->buf[q] = sml_buffer_init(b->cursor));
		memcpy(c->buf[q]->buffer, b->buffer, b->cursor);
		LIB(sml_buffer_free(b));
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "rset")) { // rset BUF CURSOR
		int q = atoi(ARG());
		c->buf[q]->cursor = atoi(ARG());
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "rhdr")) { // rhdr BUF TYPE LENGTH
		int q = atoi(ARG()), type = atoi(ARG());
		unsigned l = strtoul(ARG(), NULL, 10);
		LIB(sml_buf_set_type_and_length(c->buf[q], type, l));
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "ropt")) { // ropt BUF
		int q = atoi(ARG());
		LIB(sml_buf_optional_write(c->buf[q]));
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "rput")) { // rput BUF HEX: make room, copy, advance
		int q = atoi(ARG());
		char *h = ARG();
		size_t n;
		unsigned char *d = unhex(h && *h != '-' ? h : "", &n), *to;
		LIB(sml_buffer_reserve(c->buf[q], n));
		LIB(to = sml_buf_get_current_buf(c->buf[q]));
		memcpy(to, d, n);
		free(d);
		LIB(sml_buf_update_bytes_read(c->buf[q], (int)n));
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "rwrite")) { // rwrite SLOT BUF
		int k = atoi(ARG()), q = atoi(ARG());
		do_write(c->slot[k].g, c->slot[k].o, c->buf[q]);
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "reserve")) { // reserve BUF N
		int q = atoi(ARG());
		size_t n = atoi(ARG());
		LIB(sml_buffer_reserve(c->buf[q], n));
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "rtype") || !strcmp(op, "rlen") || !strcmp(op, "rskip") ||
			   !strcmp(op, "rbyte")) { // BUF: read something
		int q = atoi(ARG()), ret = 0;
		lib = 1;
		switch (op[1]) {
		case 't': ret = sml_buf_get_next_type(c->buf[q]); break;
		case 'l': ret = sml_buf_get_next_length(c->buf[q]); break;
		case 's': ret = sml_buf_optional_is_skipped(c->buf[q]); break;
		case 'b': ret = sml_buf_get_current_byte(c->buf[q]); break;
		}
		lib = 0;
		jraw(c, op, c->buf[q]);
		fprintf(c->out, ",\"ret\":%d", ret);
		res_end(c);
	} else if (!strcmp(op, "radv")) { // radv BUF N: advance
		int q = atoi(ARG()), n = atoi(ARG());
		LIB(sml_buf_update_bytes_read(c->buf[q], n));
		jraw(c, op, c->buf[q]);
		res_end(c);
	} else if (!strcmp(op, "rparse")) { // rparse BUF GOAL SLOT
		int q = atoi(ARG());
		goal g = goal_by_name(ARG());
		int k = atoi(ARG());
		void *o = do_parse(g, c->buf[q]);
		jraw(c, op, c->buf[q]);
		fprintf(c->out, ",\"null\":%d", o == NULL);
		jtoks(c, "toks", g, o);
		res_end(c);
		c->slot[k].g = g;
		c->slot[k].o = o;
	} else if (!strcmp(op, "rfree")) { // rfree BUF
		int q = atoi(ARG());
		LIB(sml_buffer_free(c->buf[q]));
		c->buf[q] = NULL;
		res(c, op);
		res_end(c);
	} else if (!strcmp(op, "hexdump")) { // hexdump HEX: what it prints
		char *h = ARG();
		size_t n;
		unsigned char *d = unhex(h && *h != '-' ? h : "", &n), *x = malloc(n ? n : 1);
		memcpy(x, d, n); // exactly as large as it is
		free(d);
		fflush(stdout);
		int old = dup(1), fd = memfd_create("hexdump", 0);
		dup2(fd, 1);
		LIB(sml_hexdump(x, n));
		fflush(stdout);
		dup2(old, 1);
		close(old);
		off_t len = lseek(fd, 0, SEEK_END);
		unsigned char *t = malloc(len + 1);
		len = pread(fd, t, len, 0);
		close(fd);
		res(c, op);
		fprintf(c->out, ",\"text\":");
		jbytes(c->out, t, len);
		free(t);
		free(x);
		res_end(c);
	} else if (!strcmp(op, "bigadd")) { // bigadd KIND N: add N elements, report what is there
		char *kind = ARG();
		int n = atoi(ARG());
		octet_string **e = malloc(sizeof(*e) * (size_t)n);
		void **p = malloc(sizeof(*p) * (size_t)n);
		int cnt = -1, ok = 0;
		lib = 1;
		if (!strcmp(kind, "octseq")) {
			sml_sequence *q = sml_sequence_init(oct_f);
			for (int i = 0; i < n; i++)
				sml_sequence_add(q, p[i] = sml_octet_string_init((unsigned char *)&i, 4));
			cnt = q->elems_len;
			for (int i = 0; i < n && i < cnt; i++)
				ok += q->elems[i] == p[i];
			sml_sequence_free(q);
		} else if (!strcmp(kind, "path")) {
			sml_tree_path *q = sml_tree_path_init();
			for (int i = 0; i < n; i++)
				sml_tree_path_add_path_entry(q, p[i] = sml_octet_string_init((unsigned char *)&i, 4));
			cnt = q->path_entries_len;
			for (int i = 0; i < n && i < cnt; i++)
				ok += q->path_entries[i] == p[i];
			sml_tree_path_free(q);
		} else if (!strcmp(kind, "tree")) {
			sml_tree *q = sml_tree_init();
			for (int i = 0; i < n; i++)
				sml_tree_add_tree(q, p[i] = sml_tree_init());
			cnt = q->child_list_len;
			for (int i = 0; i < n && i < cnt; i++)
				ok += q->child_list[i] == p[i];
			sml_tree_free(q);
		} else if (!strcmp(kind, "list")) {
			sml_list *first = NULL, *last = NULL;
			for (int i = 0; i < n; i++) {
				sml_list *l = p[i] = sml_list_init();
				if (last)
					sml_list_add(n % 2 ? first : last, l);
				else
					first = l;
				last = l;
			}
			cnt = 0;
			for (sml_list *l = first; l; l = l->next, cnt++)
				if (cnt < n)
					ok += l == p[cnt];
			sml_list_free(first);
		} else if (!strcmp(kind, "file")) {
			sml_file *q = sml_file_init();
			for (int i = 0; i < n; i++) {
				sml_message *m = p[i] = sml_message_init();
				sml_file_add_message(q, m);
			}
			cnt = q->messages_len;
			for (int i = 0; i < n && i < cnt; i++)
				ok += q->messages[i] == p[i];
			sml_file_free(q);
		}
		lib = 0;
		free(e);
		free(p);
		res(c, op);
		fprintf(c->out, ",\"n\":%d,\"inplace\":%d", cnt, ok);
		jheap(c);
		res_end(c);
	} else if (!strcmp(op, "survive")) { // survive GOAL HEX: parse anything, then print, encode and free it
		goal g = goal_by_name(ARG());
		char *h = ARG();
		size_t n;
		unsigned char *b = unhex(h && *h != '-' ? h : "", &n);
		char *cs = ARG(), *us = ARG();
		if (us) { // N times UNIT behind it, and one more byte
			size_t un, cnt = atoi(cs);
			unsigned char *u = unhex(us, &un), *b2 = malloc(n + cnt * un + 1);
			memcpy(b2, b, n);
			for (size_t i = 0; i < cnt; i++)
				memcpy(b2 + n + i * un, u, un);
			free(b);
			free(u);
			b = b2;
			n += cnt * un;
			b[n++] = 0x4d;
			small_stack(); // holds less than a frame for every element
		}
		int bad = 0, null = 0;
		if (g == G_FILE) {
			sml_file *f;
			LIB(f = sml_file_parse(b, n));
			memset(b, 0x5a, n);
			bad = f->buf->cursor > f->buf->buffer_len;
			LIB(sml_file_print(f));
			f->buf->cursor = 0;
			LIB(sml_file_write(f));
			bad |= f->buf->cursor > f->buf->buffer_len;
			LIB(sml_file_free(f));
		} else {
			sml_buffer *buf;
			LIB(buf = sml_buffer_init(n));
			memcpy(buf->buffer, b, n);
			void *o = do_parse(g, buf);
			bad = buf->cursor > buf->buffer_len;
			null = o == NULL;
			LIB(sml_buffer_free(buf));
			if (o) {
				LIB(buf = sml_buffer_init(4));
				do_write(g, o, buf);
				LIB(sml_buffer_free(buf));
				do_free(g, o);
			}
		}
		free(b);
		res(c, op);
		fprintf(c->out, ",\"outside\":%d,\"null\":%d", bad, null);
		jheap(c);
		jmem(c);
		res_end(c);
	} else if (!strcmp(op, "print")) { // print SLOT: sml_file_print (to stdout)
		fflush(stdout);
		LIB(sml_file_print(c->slot[atoi(ARG())].o));
		fflush(stdout);
		res(c, op);
		res_end(c);
	} else {
		fprintf(stderr, "drv: unknown op %s\n", op);
		exit(3);
	}
}

/* ------------------------------------------------------------------- main */

static char **lines;
static size_t nlines;

typedef struct {
	int id, nthreads, repeat;
	char *outname;
} thr;
static pthread_barrier_t bar;

static void *run_thread(void *p) {
	thr *t = p;
	ctx *c = calloc(1, sizeof(*c));
	c->out = fopen(t->outname, "w");
	pthread_barrier_wait(&bar);
	for (int r = 0; r < t->repeat; r++) {
		int mine = 0;
		for (size_t i = 0; i < nlines; i++) {
			if (!strncmp(lines[i], "case ", 5)) {
				free_all(c);
				c->casenr = atoi(lines[i] + 5);
				c->opnr = 0;
				mine = c->casenr % t->nthreads == t->id;
				continue;
			}
			if (mine) {
				char *l = strdup(lines[i]);
				run_op(c, l);
				free(l);
			}
		}
		free_all(c);
	}
	fclose(c->out);
	free(c);
	return NULL;
}

static ctx *main_ctx;
static void on_alarm(int s) {
	(void)s;
	static const char m[] = "drv: HANG\n";
	if (__real_write(2, m, sizeof m - 1) < 0)
		_exit(98);
	_exit(99);
}

int main(int argc, char **argv) {
	if (argc < 3)
		return 3;
	setvbuf(stdout, NULL, _IOFBF, 1 << 16);
	FILE *in = fopen(argv[1], "r");
	size_t cap = 0;
	char *l = NULL;
	size_t lc = 0;
	while (getline(&l, &lc, in) > 0) {
		if (nlines == cap)
			lines = realloc(lines, sizeof(*lines) * (cap = cap * 2 + 1024));
		lines[nlines++] = strdup(l);
	}
	free(l);
	fclose(in);
	{ // whatever the uuid library allocates once is not ours
		octet_string *o = sml_octet_string_generate_uuid();
		sml_octet_string_free(o);
	}

	if (argc >= 5) {
		threaded = 1;
		int n = atoi(argv[3]);
		pthread_t th[64];
		thr t[64];
		pthread_barrier_init(&bar, NULL, n);
		for (int i = 0; i < n; i++) {
			t[i] = (thr){i, n, atoi(argv[4]), malloc(strlen(argv[2]) + 16)};
			sprintf(t[i].outname, "%s.%d", argv[2], i);
			pthread_create(&th[i], NULL, run_thread, &t[i]);
		}
		for (int i = 0; i < n; i++) {
			pthread_join(th[i], NULL);
			free(t[i].outname);
		}
		return 0;
	}

	track = getenv("DRV_TRACK") != NULL;
	if (track) {
		hev_cap = 200000;
		hev = malloc(sizeof(int) * hev_cap);
	}
	touched = malloc(sizeof(int) * HCAP);
	if (__sanitizer_install_malloc_and_free_hooks)
		__sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
	signal(SIGVTALRM, on_alarm);
	signal(SIGALRM, on_alarm);
	ctx *c = main_ctx = calloc(1, sizeof(*c));
	c->out = fopen(argv[2], "a");
	setvbuf(c->out, malloc(1 << 16), _IOFBF, 1 << 16);
	for (size_t i = 0; i < nlines; i++) {
		if (!strncmp(lines[i], "case ", 5)) {
			free_all(c);
			if (next_id)
				heap_reset();
			c->casenr = atoi(lines[i] + 5);
			c->opnr = 0;
			fprintf(c->out, "{\"c\":%d,\"i\":0}\n", c->casenr);
			fflush(c->out);
			struct itimerval iv = {{0, 0}, {25, 0}};
			setitimer(ITIMER_VIRTUAL, &iv, NULL);
			alarm(150);
			continue;
		}
		run_op(c, lines[i]);
	}
	free_all(c);
	fclose(c->out);
	(void)now;
	return 0;
}
