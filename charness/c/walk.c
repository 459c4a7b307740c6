// Reads raw programs through the published header, and lays out copies of them.
#include "koopa.h"

#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

// --- a growing text

typedef struct {
  char *p;
  size_t n, cap;
} text_t;

static void put(text_t *t, const char *fmt, ...) {
  for (;;) {
    va_list ap;
    va_start(ap, fmt);
    size_t room = t->cap - t->n;
    int k = vsnprintf(t->p ? t->p + t->n : NULL, t->p ? room : 0, fmt, ap);
    va_end(ap);
    if (t->p && (size_t)k < room) {
      t->n += (size_t)k;
      return;
    }
    t->cap = (t->cap + (size_t)k + 64) * 2;
    t->p = realloc(t->p, t->cap);
    if (!t->p) abort();
  }
}

// --- a map from pointers to pointers

typedef struct {
  const void **k;
  void **v;
  size_t n, cap;
} map_t;

static size_t slot(const map_t *m, const void *k) {
  size_t i = (size_t)((uintptr_t)k >> 3) * 0x9e3779b97f4a7c15ull >> 20;
  i &= m->cap - 1;
  while (m->k[i] && m->k[i] != k) i = (i + 1) & (m->cap - 1);
  return i;
}

static void **map_at(map_t *m, const void *k, int *fresh) {
  if (m->n * 2 >= m->cap) {
    map_t o = *m;
    m->cap = o.cap ? o.cap * 2 : 64;
    m->k = calloc(m->cap, sizeof(void *));
    m->v = calloc(m->cap, sizeof(void *));
    for (size_t i = 0; i < o.cap; ++i) {
      if (o.k[i]) {
        size_t j = slot(m, o.k[i]);
        m->k[j] = o.k[i];
        m->v[j] = o.v[i];
      }
    }
    free(o.k);
    free(o.v);
  }
  size_t i = slot(m, k);
  *fresh = !m->k[i];
  if (*fresh) {
    m->k[i] = k;
    ++m->n;
  }
  return &m->v[i];
}

static void map_free(map_t *m) {
  free(m->k);
  free(m->v);
  memset(m, 0, sizeof *m);
}

// --- walking

typedef struct {
  text_t out;
  map_t seen;
  // what is still to be read: kind and pointer
  struct {
    int kind;
    const void *p;
  } *todo;
  size_t n, cap;
} walk_t;

enum { TY, FN, BB, VAL };

static const void *later(walk_t *w, int kind, const void *p) {
  int fresh;
  if (!p) return p;
  map_at(&w->seen, p, &fresh);
  if (fresh) {
    if (w->n == w->cap) {
      w->cap = w->cap ? w->cap * 2 : 256;
      w->todo = realloc(w->todo, w->cap * sizeof *w->todo);
    }
    w->todo[w->n].kind = kind;
    w->todo[w->n].p = p;
    ++w->n;
  }
  return p;
}

static const char *kind_name(koopa_raw_slice_item_kind_t k) {
  switch (k) {
    case KOOPA_RSIK_UNKNOWN: return "unknown";
    case KOOPA_RSIK_TYPE: return "type";
    case KOOPA_RSIK_FUNCTION: return "function";
    case KOOPA_RSIK_BASIC_BLOCK: return "block";
    case KOOPA_RSIK_VALUE: return "value";
  }
  return "invalid";
}

static void slice(walk_t *w, int kind, const koopa_raw_slice_t *s) {
  put(&w->out, " %s %u", kind_name(s->kind), (unsigned)s->len);
  for (uint32_t i = 0; i < s->len; ++i) put(&w->out, " %p", later(w, kind, s->buffer[i]));
}

static void name(walk_t *w, const char *s) {
  if (!s) {
    put(&w->out, " -");
    return;
  }
  put(&w->out, " =");
  for (; *s; ++s) put(&w->out, "%02x", (unsigned char)*s);
}

static const char *op_name(koopa_raw_binary_op_t op) {
  switch (op) {
    case KOOPA_RBO_NOT_EQ: return "ne";
    case KOOPA_RBO_EQ: return "eq";
    case KOOPA_RBO_GT: return "gt";
    case KOOPA_RBO_LT: return "lt";
    case KOOPA_RBO_GE: return "ge";
    case KOOPA_RBO_LE: return "le";
    case KOOPA_RBO_ADD: return "add";
    case KOOPA_RBO_SUB: return "sub";
    case KOOPA_RBO_MUL: return "mul";
    case KOOPA_RBO_DIV: return "div";
    case KOOPA_RBO_MOD: return "mod";
    case KOOPA_RBO_AND: return "and";
    case KOOPA_RBO_OR: return "or";
    case KOOPA_RBO_XOR: return "xor";
    case KOOPA_RBO_SHL: return "shl";
    case KOOPA_RBO_SHR: return "shr";
    case KOOPA_RBO_SAR: return "sar";
  }
  return "invalid";
}

static void value(walk_t *w, koopa_raw_value_t v) {
  text_t *o = &w->out;
  put(o, "V %p %p", (const void *)v, later(w, TY, v->ty));
  name(w, v->name);
  slice(w, VAL, &v->used_by);
#define P(x) later(w, VAL, x)
  switch (v->kind.tag) {
    case KOOPA_RVT_INTEGER: put(o, " integer %lld", (long long)v->kind.data.integer.value); break;
    case KOOPA_RVT_ZERO_INIT: put(o, " zeroinit"); break;
    case KOOPA_RVT_UNDEF: put(o, " undef"); break;
    case KOOPA_RVT_AGGREGATE:
      put(o, " aggregate");
      slice(w, VAL, &v->kind.data.aggregate.elems);
      break;
    case KOOPA_RVT_FUNC_ARG_REF: put(o, " farg %lld", (long long)v->kind.data.func_arg_ref.index); break;
    case KOOPA_RVT_BLOCK_ARG_REF: put(o, " barg %lld", (long long)v->kind.data.block_arg_ref.index); break;
    case KOOPA_RVT_ALLOC: put(o, " alloc"); break;
    case KOOPA_RVT_GLOBAL_ALLOC: put(o, " global %p", P(v->kind.data.global_alloc.init)); break;
    case KOOPA_RVT_LOAD: put(o, " load %p", P(v->kind.data.load.src)); break;
    case KOOPA_RVT_STORE: put(o, " store %p %p", P(v->kind.data.store.value), P(v->kind.data.store.dest)); break;
    case KOOPA_RVT_GET_PTR: put(o, " getptr %p %p", P(v->kind.data.get_ptr.src), P(v->kind.data.get_ptr.index)); break;
    case KOOPA_RVT_GET_ELEM_PTR:
      put(o, " getelemptr %p %p", P(v->kind.data.get_elem_ptr.src), P(v->kind.data.get_elem_ptr.index));
      break;
    case KOOPA_RVT_BINARY:
      put(o, " binary %s %p %p", op_name(v->kind.data.binary.op), P(v->kind.data.binary.lhs), P(v->kind.data.binary.rhs));
      break;
    case KOOPA_RVT_BRANCH:
      put(o, " br %p %p %p", P(v->kind.data.branch.cond), later(w, BB, v->kind.data.branch.true_bb),
          later(w, BB, v->kind.data.branch.false_bb));
      slice(w, VAL, &v->kind.data.branch.true_args);
      slice(w, VAL, &v->kind.data.branch.false_args);
      break;
    case KOOPA_RVT_JUMP:
      put(o, " jump %p", later(w, BB, v->kind.data.jump.target));
      slice(w, VAL, &v->kind.data.jump.args);
      break;
    case KOOPA_RVT_CALL:
      put(o, " call %p", later(w, FN, v->kind.data.call.callee));
      slice(w, VAL, &v->kind.data.call.args);
      break;
    case KOOPA_RVT_RETURN: put(o, " ret %p", P(v->kind.data.ret.value)); break;
    default: put(o, " tag%d", (int)v->kind.tag); break;
  }
#undef P
  put(o, "\n");
}

static void type(walk_t *w, koopa_raw_type_t t) {
  text_t *o = &w->out;
  put(o, "T %p", (const void *)t);
  switch (t->tag) {
    case KOOPA_RTT_INT32: put(o, " i32"); break;
    case KOOPA_RTT_UNIT: put(o, " unit"); break;
    case KOOPA_RTT_ARRAY: put(o, " array %p %llu", later(w, TY, t->data.array.base), (unsigned long long)t->data.array.len); break;
    case KOOPA_RTT_POINTER: put(o, " pointer %p", later(w, TY, t->data.pointer.base)); break;
    case KOOPA_RTT_FUNCTION:
      put(o, " function");
      slice(w, TY, &t->data.function.params);
      put(o, " %p", later(w, TY, t->data.function.ret));
      break;
    default: put(o, " tag%d", (int)t->tag); break;
  }
  put(o, "\n");
}

// Writes down everything reachable from the program. The caller frees it.
char *lk_walk(const koopa_raw_program_t *raw) {
  walk_t w;
  memset(&w, 0, sizeof w);
  put(&w.out, "P");
  slice(&w, VAL, &raw->values);
  slice(&w, FN, &raw->funcs);
  put(&w.out, "\n");
  while (w.n) {
    --w.n;
    const void *p = w.todo[w.n].p;
    switch (w.todo[w.n].kind) {
      case TY: type(&w, p); break;
      case FN: {
        koopa_raw_function_t f = p;
        put(&w.out, "F %p %p", p, later(&w, TY, f->ty));
        name(&w, f->name);
        slice(&w, VAL, &f->params);
        slice(&w, BB, &f->bbs);
        put(&w.out, "\n");
        break;
      }
      case BB: {
        koopa_raw_basic_block_t b = p;
        put(&w.out, "B %p", p);
        name(&w, b->name);
        slice(&w, VAL, &b->params);
        slice(&w, VAL, &b->used_by);
        slice(&w, VAL, &b->insts);
        put(&w.out, "\n");
        break;
      }
      default: value(&w, p); break;
    }
  }
  map_free(&w.seen);
  free(w.todo);
  return w.out.p;
}

void lk_free(char *p) { free(p); }

// --- the interface, as a C compiler sees it

void *lk_builder(void) { return koopa_new_raw_program_builder(); }
void lk_builder_delete(void *b) { koopa_delete_raw_program_builder(b); }

koopa_raw_program_t *lk_build(void *b, const void *program) {
  koopa_raw_program_t *r = malloc(sizeof *r);
  *r = koopa_build_raw_program(b, program);
  return r;
}

void lk_raw_free(koopa_raw_program_t *r) { free(r); }

int lk_generate(const koopa_raw_program_t *raw, const void **program) {
  koopa_program_t p = (koopa_program_t)0x5a5a5a5a;
  int e = (int)koopa_generate_raw_to_koopa(raw, &p);
  *program = p;
  return e;
}

void lk_delete(const void *program) { koopa_delete_program(program); }

int lk_code(int i) {
  static const koopa_error_code_t c[] = {
      KOOPA_EC_SUCCESS,          KOOPA_EC_INVALID_UTF8_STRING, KOOPA_EC_INVALID_FILE,
      KOOPA_EC_INVALID_KOOPA_PROGRAM, KOOPA_EC_IO_ERROR,       KOOPA_EC_NULL_BYTE_ERROR,
      KOOPA_EC_INSUFFICIENT_BUFFER_LENGTH, KOOPA_EC_RAW_SLICE_ITEM_KIND_MISMATCH,
      KOOPA_EC_NULL_POINTER_ERROR, KOOPA_EC_TYPE_MISMATCH,     KOOPA_EC_FUNC_PARAM_NUM_MISMATCH,
  };
  return (int)c[i];
}

// --- laying out a copy

enum {
  FRESH_TYPES = 1,   // a copy of a type for every mention
  FRESH_CONSTS = 2,  // a copy of a constant for every mention
  NO_USERS = 4,      // user lists are left empty
  PERMUTE = 8,       // functions, and blocks after the entry, in another order
  SHARE_INTS = 16,   // one object per small integer, undefined value and zero
                     // initializer of a type, for the whole program
};

// Kinds of places where the copy can be broken.
enum {
  BRK_NONE,
  BRK_SLICE_KIND,
  BRK_FUNC_NAME_NULL,
  BRK_FUNC_TYPE,
  BRK_PARAM_COUNT,
  BRK_UTF8,
  BRK_NULL,
  BRK_ALLOC_TYPE,
};

typedef struct copy {
  void **mem;
  size_t n, cap;
  map_t tys, fns, bbs, vals;
  unsigned flags;
  uint64_t rnd;
  int brk;
  long at, sites;
  int cur_bb;
  koopa_raw_value_t ints[64];
  // other shared constants, and what they are copies of
  koopa_raw_value_t kept[64], kept_of[64];
  int n_kept;
} copy_t;

static uint64_t rnd(copy_t *c) {
  c->rnd ^= c->rnd << 13;
  c->rnd ^= c->rnd >> 7;
  c->rnd ^= c->rnd << 17;
  return c->rnd;
}

static void *mem(copy_t *c, size_t n) {
  if (c->n == c->cap) {
    c->cap = c->cap ? c->cap * 2 : 256;
    c->mem = realloc(c->mem, c->cap * sizeof(void *));
  }
  void *p = malloc(n ? n : 1);
  memset(p, 0xd7, n);
  return c->mem[c->n++] = p;
}

// Is this the place to break?
static int site(copy_t *c, int kind) {
  if (c->brk != kind) return 0;
  return c->sites++ == c->at;
}

static const char *name_of(copy_t *c, const char *s) {
  if (!s) return NULL;
  size_t n = strlen(s) + 1;
  char *p = mem(c, n);
  memcpy(p, s, n);
  if (site(c, BRK_UTF8)) p[1 + rnd(c) % (n - 2)] = (char)(0x80 + rnd(c) % 0x40);
  return p;
}

static koopa_raw_type_t copy_ty(copy_t *c, koopa_raw_type_t t, int read);

typedef const void *(*item_fn)(copy_t *, const void *);

static const void *item_ty(copy_t *c, const void *p) { return copy_ty(c, p, 1); }
static const void *item_ty_unread(copy_t *c, const void *p) { return copy_ty(c, p, 0); }
static const void *copy_fn(copy_t *c, const void *p);
static const void *copy_bb(copy_t *c, const void *p);
static const void *copy_val(copy_t *c, const void *p);

static koopa_raw_slice_t list(copy_t *c, const koopa_raw_slice_t *s, koopa_raw_slice_item_kind_t kind, item_fn f, int read) {
  koopa_raw_slice_t r;
  r.buffer = s->len || rnd(c) % 2 ? mem(c, s->len * sizeof(void *)) : NULL;
  r.len = s->len;
  r.kind = kind;
  for (uint32_t i = 0; i < s->len; ++i) {
    r.buffer[i] = f(c, s->buffer[i]);
    if (read && site(c, BRK_NULL)) r.buffer[i] = NULL;
  }
  if (read && site(c, BRK_SLICE_KIND)) r.kind = (kind + 1 + rnd(c) % 4) % 5;
  return r;
}

// `read`: the library has to look at this type.
static koopa_raw_type_t copy_ty(copy_t *c, koopa_raw_type_t t, int read) {
  int fresh;
  int own = (c->flags & FRESH_TYPES) != 0;
  if (!own) {
    void **v = map_at(&c->tys, t, &fresh);
    if (!fresh) return *v;
  }
  koopa_raw_type_kind_t *n = mem(c, sizeof *n);
  n->tag = t->tag;
  switch (t->tag) {
    case KOOPA_RTT_ARRAY:
      n->data.array.base = copy_ty(c, t->data.array.base, read && own);
      n->data.array.len = t->data.array.len;
      break;
    case KOOPA_RTT_POINTER: n->data.pointer.base = copy_ty(c, t->data.pointer.base, read && own); break;
    case KOOPA_RTT_FUNCTION:
      n->data.function.params = list(c, &t->data.function.params, KOOPA_RSIK_TYPE, read && own ? item_ty : item_ty_unread, read && own);
      n->data.function.ret = copy_ty(c, t->data.function.ret, read && own);
      break;
    default: break;
  }
  if (!own) *map_at(&c->tys, t, &fresh) = n;
  return n;
}

static koopa_raw_slice_t users(copy_t *c, const koopa_raw_slice_t *s) {
  koopa_raw_slice_t r;
  memset(&r, 0, sizeof r);
  if (!(c->flags & NO_USERS)) return *s;  // filled in at the end
  r.kind = s->kind;
  return r;
}

static int is_const(koopa_raw_value_t v) {
  switch (v->kind.tag) {
    case KOOPA_RVT_INTEGER:
    case KOOPA_RVT_ZERO_INIT:
    case KOOPA_RVT_UNDEF:
    case KOOPA_RVT_AGGREGATE: return 1;
    default: return 0;
  }
}

static koopa_raw_value_t operand(copy_t *c, koopa_raw_value_t v) {
  koopa_raw_value_t n = copy_val(c, v);
  return site(c, BRK_NULL) ? NULL : n;
}

static const void *copy_val(copy_t *c, const void *p) {
  koopa_raw_value_t v = p;
  int fresh;
  int con = is_const(v);
  int own = con && (c->flags & FRESH_CONSTS);
  int share = (c->flags & SHARE_INTS) && v->kind.tag == KOOPA_RVT_INTEGER && v->kind.data.integer.value >= 0 &&
              v->kind.data.integer.value < 64;
  if (share && c->ints[v->kind.data.integer.value]) return c->ints[v->kind.data.integer.value];
  int keep = (c->flags & SHARE_INTS) && (v->kind.tag == KOOPA_RVT_UNDEF || v->kind.tag == KOOPA_RVT_ZERO_INIT);
  if (keep) {
    for (int i = 0; i < c->n_kept; ++i) {
      if (c->kept_of[i]->kind.tag == v->kind.tag && c->kept_of[i]->ty == v->ty) return c->kept[i];
    }
    keep = c->n_kept < 64;
  }
  if (!own) {
    void **at = map_at(&c->vals, v, &fresh);
    if (!fresh) return *at;
  }
  koopa_raw_value_data_t *n = mem(c, sizeof *n);
  if (!own) *map_at(&c->vals, v, &fresh) = n;
  if (share) c->ints[v->kind.data.integer.value] = n;
  if (keep) {
    c->kept_of[c->n_kept] = v;
    c->kept[c->n_kept++] = n;
  }
  koopa_raw_value_tag_t tag = v->kind.tag;
  // the type of these cannot be told from anything else
  int read = tag == KOOPA_RVT_ZERO_INIT || tag == KOOPA_RVT_UNDEF || tag == KOOPA_RVT_ALLOC || tag == KOOPA_RVT_BLOCK_ARG_REF;
  n->ty = copy_ty(c, v->ty, read);
  if (read && site(c, BRK_NULL)) n->ty = NULL;
  if (tag == KOOPA_RVT_ALLOC && site(c, BRK_ALLOC_TYPE)) {
    koopa_raw_type_kind_t *t = mem(c, sizeof *t);
    t->tag = KOOPA_RTT_INT32;
    n->ty = t;
  }
  n->name = name_of(c, v->name);
  n->used_by = users(c, &v->used_by);
  if (own || share || keep) n->used_by.len = 0;
  n->kind.tag = tag;
#define OP(f) n->kind.data.f = operand(c, v->kind.data.f)
#define ARGS(f) n->kind.data.f = list(c, &v->kind.data.f, KOOPA_RSIK_VALUE, copy_val, 1)
  switch (tag) {
    case KOOPA_RVT_INTEGER: n->kind.data.integer.value = v->kind.data.integer.value; break;
    case KOOPA_RVT_AGGREGATE: ARGS(aggregate.elems); break;
    case KOOPA_RVT_FUNC_ARG_REF: n->kind.data.func_arg_ref.index = v->kind.data.func_arg_ref.index; break;
    case KOOPA_RVT_BLOCK_ARG_REF: n->kind.data.block_arg_ref.index = v->kind.data.block_arg_ref.index; break;
    case KOOPA_RVT_GLOBAL_ALLOC: OP(global_alloc.init); break;
    case KOOPA_RVT_LOAD: OP(load.src); break;
    case KOOPA_RVT_STORE: OP(store.value); OP(store.dest); break;
    case KOOPA_RVT_GET_PTR: OP(get_ptr.src); OP(get_ptr.index); break;
    case KOOPA_RVT_GET_ELEM_PTR: OP(get_elem_ptr.src); OP(get_elem_ptr.index); break;
    case KOOPA_RVT_BINARY:
      n->kind.data.binary.op = v->kind.data.binary.op;
      OP(binary.lhs);
      OP(binary.rhs);
      break;
    case KOOPA_RVT_BRANCH:
      OP(branch.cond);
      n->kind.data.branch.true_bb = copy_bb(c, v->kind.data.branch.true_bb);
      n->kind.data.branch.false_bb = copy_bb(c, v->kind.data.branch.false_bb);
      if (site(c, BRK_NULL)) n->kind.data.branch.false_bb = NULL;
      ARGS(branch.true_args);
      ARGS(branch.false_args);
      break;
    case KOOPA_RVT_JUMP:
      n->kind.data.jump.target = copy_bb(c, v->kind.data.jump.target);
      if (site(c, BRK_NULL)) n->kind.data.jump.target = NULL;
      ARGS(jump.args);
      break;
    case KOOPA_RVT_CALL:
      n->kind.data.call.callee = copy_fn(c, v->kind.data.call.callee);
      if (site(c, BRK_NULL)) n->kind.data.call.callee = NULL;
      ARGS(call.args);
      break;
    case KOOPA_RVT_RETURN: n->kind.data.ret.value = v->kind.data.ret.value ? copy_val(c, v->kind.data.ret.value) : NULL; break;
    default: break;
  }
#undef OP
#undef ARGS
  return n;
}

static const void *copy_bb(copy_t *c, const void *p) {
  koopa_raw_basic_block_t b = p;
  int fresh;
  void **at = map_at(&c->bbs, b, &fresh);
  if (!fresh) return *at;
  koopa_raw_basic_block_data_t *n = mem(c, sizeof *n);
  *at = n;
  n->name = name_of(c, b->name);
  n->used_by = users(c, &b->used_by);
  n->params = list(c, &b->params, KOOPA_RSIK_VALUE, copy_val, 1);
  n->insts = list(c, &b->insts, KOOPA_RSIK_VALUE, copy_val, 1);
  return n;
}

static void shuffle(copy_t *c, koopa_raw_slice_t *s, uint32_t from) {
  if (!(c->flags & PERMUTE)) return;
  for (uint32_t i = s->len; i > from + 1; --i) {
    uint32_t j = from + (uint32_t)(rnd(c) % (i - from));
    const void *t = s->buffer[i - 1];
    s->buffer[i - 1] = s->buffer[j];
    s->buffer[j] = t;
  }
}

static const void *copy_fn(copy_t *c, const void *p) {
  koopa_raw_function_t f = p;
  int fresh;
  void **at = map_at(&c->fns, f, &fresh);
  if (!fresh) return *at;
  koopa_raw_function_data_t *n = mem(c, sizeof *n);
  *at = n;
  n->ty = copy_ty(c, f->ty, 1);
  if (site(c, BRK_NULL)) n->ty = NULL;
  if (site(c, BRK_FUNC_TYPE)) {
    koopa_raw_type_kind_t *t = mem(c, sizeof *t);
    t->tag = rnd(c) % 2 ? KOOPA_RTT_INT32 : KOOPA_RTT_UNIT;
    n->ty = t;
  }
  n->name = name_of(c, f->name);
  if (site(c, BRK_FUNC_NAME_NULL)) n->name = NULL;
  // the parameters of declarations carry no information
  n->params = list(c, &f->params, KOOPA_RSIK_VALUE, copy_val, f->bbs.len != 0);
  if (f->bbs.len && site(c, BRK_PARAM_COUNT)) {
    if (n->params.len && rnd(c) % 2) {
      --n->params.len;
    } else {
      const void **b = mem(c, (n->params.len + 1) * sizeof(void *));
      koopa_raw_value_data_t *v = mem(c, sizeof *v);
      memset(v, 0, sizeof *v);
      koopa_raw_type_kind_t *t = mem(c, sizeof *t);
      t->tag = KOOPA_RTT_INT32;
      v->ty = t;
      v->kind.tag = KOOPA_RVT_FUNC_ARG_REF;
      v->kind.data.func_arg_ref.index = n->params.len;
      for (uint32_t i = 0; i < n->params.len; ++i) b[i] = n->params.buffer[i];
      b[n->params.len++] = v;
      n->params.buffer = b;
    }
  }
  n->bbs = list(c, &f->bbs, KOOPA_RSIK_BASIC_BLOCK, copy_bb, f->bbs.len != 0);
  shuffle(c, &n->bbs, 1);
  return n;
}

static void fill_users(copy_t *c, koopa_raw_slice_t *s) {
  const void **b = mem(c, s->len * sizeof(void *));
  uint32_t n = 0;
  int fresh;
  for (uint32_t i = 0; i < s->len; ++i) {
    void *v = *map_at(&c->vals, s->buffer[i], &fresh);
    if (v) b[n++] = v;
  }
  s->buffer = b;
  s->len = n;
}

typedef struct {
  koopa_raw_program_t raw;
  copy_t c;
} laid_t;

// Copies the program into memory of our own. `at` < 0 only counts the places
// where it could be broken.
laid_t *lk_lay(const koopa_raw_program_t *raw, unsigned flags, uint64_t seed, int brk, long at, long *sites) {
  laid_t *l = calloc(1, sizeof *l);
  copy_t *c = &l->c;
  c->flags = flags;
  c->rnd = seed | 1;
  c->brk = brk;
  c->at = at;
  l->raw.values = list(c, &raw->values, KOOPA_RSIK_VALUE, copy_val, 1);
  l->raw.funcs = list(c, &raw->funcs, KOOPA_RSIK_FUNCTION, copy_fn, 1);
  shuffle(c, &l->raw.funcs, 0);
  if (!(flags & NO_USERS)) {
    for (size_t i = 0; i < c->vals.cap; ++i) {
      if (c->vals.k[i] && c->vals.v[i]) fill_users(c, &((koopa_raw_value_data_t *)c->vals.v[i])->used_by);
    }
    for (size_t i = 0; i < c->bbs.cap; ++i) {
      if (c->bbs.k[i]) fill_users(c, &((koopa_raw_basic_block_data_t *)c->bbs.v[i])->used_by);
    }
  }
  *sites = c->sites;
  return l;
}

void lk_laid_free(laid_t *l) {
  for (size_t i = 0; i < l->c.n; ++i) free(l->c.mem[i]);
  free(l->c.mem);
  map_free(&l->c.tys);
  map_free(&l->c.fns);
  map_free(&l->c.bbs);
  map_free(&l->c.vals);
  free(l);
}
