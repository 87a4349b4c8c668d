/* A native module using every function the FFI hands over; what each does is modelled in vf/checks/S20.py. */
#include VF_HEADER
#include <stdlib.h>
#include <string.h>

static Value echo(DictuVM *vm, int n, Value *a) {
    ObjList *l = newList(vm);
    push(vm, OBJ_VAL(l));
    for (int i = 0; i < n; i++) writeValueArray(vm, &l->values, a[i]);
    pop(vm);
    return OBJ_VAL(l);
}
static Value count(DictuVM *vm, int n, Value *a) { (void)vm; (void)a; return NUMBER_VAL(n); }
static Value first(DictuVM *vm, int n, Value *a) { (void)vm; return n ? a[0] : NIL_VAL; }
static Value dict(DictuVM *vm, int n, Value *a) {
    ObjDict *d = newDict(vm);
    push(vm, OBJ_VAL(d));
    for (int i = 0; i + 1 < n; i += 2) dictSet(vm, d, a[i], a[i + 1]);
    pop(vm);
    return OBJ_VAL(d);
}
static Value dset(DictuVM *vm, int n, Value *a) { (void)n; return BOOL_VAL(dictSet(vm, AS_DICT(a[0]), a[1], a[2])); }
static Value dget(DictuVM *vm, int n, Value *a) {
    Value v = NIL_VAL;
    (void)n;
    if (!IS_DICT(a[0])) { runtimeError(vm, "dget() wants a dict, not %d", n); return EMPTY_VAL; }
    if (!dictGet(AS_DICT(a[0]), a[1], &v)) return newResultError(vm, "no such key");
    return newResultSuccess(vm, v);
}
static Value ddel(DictuVM *vm, int n, Value *a) { (void)n; return BOOL_VAL(dictDelete(vm, AS_DICT(a[0]), a[1])); }
static Value set(DictuVM *vm, int n, Value *a) {
    ObjSet *s = newSet(vm);
    push(vm, OBJ_VAL(s));
    for (int i = 0; i < n; i++) setInsert(vm, s, a[i]);
    pop(vm);
    return OBJ_VAL(s);
}
static Value sadd(DictuVM *vm, int n, Value *a) { (void)n; setInsert(vm, AS_SET(a[0]), a[1]); return NIL_VAL; }
static Value sget(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; return BOOL_VAL(setGet(AS_SET(a[0]), a[1])); }
static Value sdel(DictuVM *vm, int n, Value *a) { (void)n; return BOOL_VAL(setDelete(vm, AS_SET(a[0]), a[1])); }
static Value ladd(DictuVM *vm, int n, Value *a) { (void)n; writeValueArray(vm, &AS_LIST(a[0])->values, a[1]); return NIL_VAL; }
static Value str(DictuVM *vm, int n, Value *a) {
    (void)n;
    char *s = valueToString(a[0]);
    ObjString *r = copyString(vm, s, (int)strlen(s));
    free(s);
    return OBJ_VAL(r);
}
static Value typ(DictuVM *vm, int n, Value *a) {
    (void)n;
    int len = -1;
    char *s = valueTypeToString(vm, a[0], &len);
    ObjString *r = copyString(vm, s, len);
    reallocate(vm, s, (size_t)len + 1, 0);
    return OBJ_VAL(r);
}
static Value eq(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; return BOOL_VAL(valuesEqual(a[0], a[1])); }
static Value falsey(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; return BOOL_VAL(isFalsey(a[0])); }
static Value less(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; return BOOL_VAL(compareStringLess(a[0], a[1])); }
static Value greater(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; return BOOL_VAL(compareStringGreater(a[0], a[1])); }
static Value ok(DictuVM *vm, int n, Value *a) { (void)n; return newResultSuccess(vm, a[0]); }
static Value err(DictuVM *vm, int n, Value *a) { (void)n; return newResultError(vm, AS_CSTRING(a[0])); }
static Value res(DictuVM *vm, int n, Value *a) { (void)n; return OBJ_VAL(newResult(vm, AS_BOOL(a[0]) ? SUCCESS : ERR, a[1])); }
static Value fail(DictuVM *vm, int n, Value *a) { runtimeError(vm, "failed with %d: %s", n, AS_CSTRING(a[0])); return EMPTY_VAL; }
static Value pr(DictuVM *vm, int n, Value *a) { (void)vm; for (int i = 0; i < n; i++) { printValue(a[i]); printf("\n"); } return NIL_VAL; }
static Value pre(DictuVM *vm, int n, Value *a) { (void)vm; for (int i = 0; i < n; i++) { printValueError(a[i]); fprintf(stderr, "\n"); } return NIL_VAL; }
/* the arguments pushed, looked at and popped again, in reverse */
static Value stack(DictuVM *vm, int n, Value *a) {
    ObjList *l = newList(vm);
    push(vm, OBJ_VAL(l));
    for (int i = 0; i < n; i++) push(vm, a[i]);
    for (int i = 0; i < n; i++) writeValueArray(vm, &l->values, peek(vm, i));
    for (int i = 0; i < n; i++) writeValueArray(vm, &l->values, pop(vm));
    pop(vm);
    return OBJ_VAL(l);
}
/* the sum of the numbers among the arguments, by way of an array of values of its own */
static Value sum(DictuVM *vm, int n, Value *a) {
    ValueArray arr;
    initValueArray(&arr);
    for (int i = 0; i < n; i++) if (IS_NUMBER(a[i])) writeValueArray(vm, &arr, a[i]);
    double t = 0;
    for (int i = 0; i < arr.count; i++) t += AS_NUMBER(arr.values[i]);
    freeValueArray(vm, &arr);
    return NUMBER_VAL(t);
}
/* grows and shrinks a block, and says whether its contents were kept */
static Value mem(DictuVM *vm, int n, Value *a) {
    size_t have = 0;
    unsigned char *p = NULL;
    bool good = true;
    for (int i = 0; i < n; i++) {
        size_t want = (size_t)AS_NUMBER(a[i]);
        p = reallocate(vm, p, have, want);
        for (size_t k = 0; k < have && k < want; k++) good &= p[k] == (unsigned char)(k * 7 + 1);
        for (size_t k = have; k < want; k++) p[k] = (unsigned char)(k * 7 + 1);
        have = want;
    }
    reallocate(vm, p, have, 0);
    return BOOL_VAL(good);
}
static Value sub(DictuVM *vm, int n, Value *a) {
    (void)n;
    ObjString *s = AS_STRING(a[0]);
    return OBJ_VAL(copyString(vm, s->chars + (int)AS_NUMBER(a[1]), (int)AS_NUMBER(a[2])));
}
static Value kind(DictuVM *vm, int n, Value *a) {
    (void)n;
    const char *k = IS_BOOL(a[0]) ? "bool" : IS_NIL(a[0]) ? "nil" : IS_NUMBER(a[0]) ? "number" : IS_STRING(a[0]) ? "string" : IS_LIST(a[0]) ? "list" :
        IS_DICT(a[0]) ? "dict" : IS_SET(a[0]) ? "set" : IS_RESULT(a[0]) ? "result" : IS_NATIVE(a[0]) ? "native" : IS_ABSTRACT(a[0]) ? "abstract" :
        IS_CLOSURE(a[0]) ? "function" : IS_CLASS(a[0]) ? "class" : IS_INSTANCE(a[0]) ? "instance" : IS_ENUM(a[0]) ? "enum" : IS_MODULE(a[0]) ? "module" :
        IS_BOUND_METHOD(a[0]) ? "method" : "?";
    return OBJ_VAL(copyString(vm, k, (int)strlen(k)));
}
/* the counts and contents as the header's structures show them */
static Value inside(DictuVM *vm, int n, Value *a) {
    (void)n;
    ObjList *l = newList(vm);
    push(vm, OBJ_VAL(l));
    if (IS_LIST(a[0])) {
        for (int i = 0; i < AS_LIST(a[0])->values.count; i++) writeValueArray(vm, &l->values, AS_LIST(a[0])->values.values[i]);
    } else if (IS_DICT(a[0])) {
        ObjDict *d = AS_DICT(a[0]);
        for (int i = 0; i <= d->capacityMask; i++) if (!IS_EMPTY(d->entries[i].key)) { writeValueArray(vm, &l->values, d->entries[i].key); writeValueArray(vm, &l->values, d->entries[i].value); }
    } else if (IS_SET(a[0])) {
        ObjSet *s = AS_SET(a[0]);
        for (int i = 0; i <= s->capacityMask; i++) if (!IS_EMPTY(s->entries[i].value) && !s->entries[i].deleted) writeValueArray(vm, &l->values, s->entries[i].value);
    } else if (IS_STRING(a[0])) {
        for (int i = 0; i < AS_STRING(a[0])->length; i++) writeValueArray(vm, &l->values, NUMBER_VAL((unsigned char)AS_STRING(a[0])->chars[i]));
    } else if (IS_RESULT(a[0])) {
        writeValueArray(vm, &l->values, BOOL_VAL(AS_RESULT(a[0])->status == SUCCESS));
        writeValueArray(vm, &l->values, AS_RESULT(a[0])->value);
    }
    pop(vm);
    return OBJ_VAL(l);
}

typedef struct { double at; } Counter;
static int alive = 0;
static void freeCounter(DictuVM *vm, ObjAbstract *o) { alive--; FREE(vm, Counter, o->data); }
static char *typeCounter(ObjAbstract *o) {
    char *s = malloc(64);
    snprintf(s, 64, "<Counter %g>", ((Counter *)o->data)->at);
    return s;
}
static Value counterAdd(DictuVM *vm, int n, Value *a) {
    Counter *c = AS_ABSTRACT(a[0])->data;
    if (n != 1 || !IS_NUMBER(a[1])) { runtimeError(vm, "add() wants a number"); return EMPTY_VAL; }
    return NUMBER_VAL(c->at += AS_NUMBER(a[1]));
}
static Value counterGet(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; return NUMBER_VAL(((Counter *)AS_ABSTRACT(a[0])->data)->at); }
static Value counter(DictuVM *vm, int n, Value *a) {
    ObjAbstract *o = newAbstract(vm, freeCounter, typeCounter);
    push(vm, OBJ_VAL(o));
    alive++;
    Counter *c = ALLOCATE(vm, Counter, 1);
    c->at = n ? AS_NUMBER(a[0]) : 0;
    o->data = c;
    defineNative(vm, &o->values, "add", counterAdd);
    defineNative(vm, &o->values, "get", counterGet);
    defineNativeProperty(vm, &o->values, "start", NUMBER_VAL(c->at));
    pop(vm);
    return OBJ_VAL(o);
}
static Value living(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; (void)a; return NUMBER_VAL(alive); }

static Value openFile(DictuVM *vm, int n, Value *a) {
    (void)n;
    ObjFile *f = newFile(vm);
    f->path = AS_STRING(a[0]);
    f->openType = AS_STRING(a[1]);
    f->file = fopen(AS_CSTRING(a[0]), AS_CSTRING(a[1]));
    return OBJ_VAL(f);
}
static Value closeFile(DictuVM *vm, int n, Value *a) { (void)vm; (void)n; fclose(AS_FILE(a[0])->file); AS_FILE(a[0])->file = NULL; return NIL_VAL; }

int dictu_ffi_init(DictuVM *vm, Table *t) {
    static const struct { const char *n; NativeFn f; } fs[] = {
        {"echo", echo}, {"count", count}, {"first", first}, {"dict", dict}, {"dset", dset}, {"dget", dget}, {"ddel", ddel}, {"set", set}, {"sadd", sadd},
        {"sget", sget}, {"sdel", sdel}, {"ladd", ladd}, {"str", str}, {"typ", typ}, {"eq", eq}, {"falsey", falsey}, {"less", less}, {"greater", greater},
        {"ok", ok}, {"err", err}, {"res", res}, {"fail", fail}, {"pr", pr}, {"pre", pre}, {"stack", stack}, {"sum", sum}, {"mem", mem}, {"sub", sub},
        {"kind", kind}, {"inside", inside}, {"counter", counter}, {"living", living}, {"openFile", openFile}, {"closeFile", closeFile} };
    for (size_t i = 0; i < sizeof fs / sizeof *fs; i++) defineNative(vm, t, fs[i].n, fs[i].f);
    defineNativeProperty(vm, t, "answer", NUMBER_VAL(42.5));
    defineNativeProperty(vm, t, "name", OBJ_VAL(copyString(vm, "mod", 3)));
    defineNativeProperty(vm, t, "yes", BOOL_VAL(true));
    defineNativeProperty(vm, t, "none", NIL_VAL);
#ifdef VF_INIT
    return VF_INIT;
#else
    return 0;
#endif
}
