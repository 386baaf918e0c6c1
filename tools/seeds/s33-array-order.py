PROPERTY='C31'
EDITS=[('src/array.c','''    void *item_to_write = NULL;
    
    if (item) {
        item_to_write = copy ? array->item_copy_func(item) : item;
        
        if (!item_to_write) {
            return false;
        }
    }
    
    void *one_item = __wickr_array_pointer_to_index(array, index);
    
    if (one_item && copy) {
        array->item_destroy_func(&one_item);
    }
    
''','''    void *one_item = __wickr_array_pointer_to_index(array, index);
    
    /* Make room before the new item is copied, so that both are never held at once */
    if (one_item && copy && one_item != item) {
        array->item_destroy_func(&one_item);
    }
    
    void *item_to_write = NULL;
    
    if (item) {
        item_to_write = copy ? array->item_copy_func(item) : item;
        
        if (!item_to_write) {
            return false;
        }
    }
    
''')]
NEEDS='an item of an array replaced by a copy, while the copy cannot be allocated'
BREAKS='the array keeps the item it has already released: the next use of the array reads released memory, or releases it again'
FLAGS='-Wl,--wrap=malloc,--wrap=calloc'
DEMO=r'''
static int deny;
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t);
void *__wrap_malloc(size_t n) { return deny ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return deny ? NULL : __real_calloc(n, m); }
static int alive, twice;
typedef struct { int dead; int value; } item_t;
static item_t pool[16];
static int used;
static void *item_copy(void *p) { void *probe = malloc(1); if (!probe) return NULL; free(probe); item_t *n = &pool[used++]; n->value = ((item_t *)p)->value; alive++; return n; }
static void item_destroy(void **p) { item_t *i = *p; if (i->dead) twice++; i->dead = 1; alive--; *p = NULL; }
int main(void)
{
    item_t a = { 0, 1 }, b = { 0, 2 };
    wickr_array_t *x = wickr_array_new(2, 0, (wickr_array_copy_func)item_copy, (wickr_array_destroy_func)item_destroy);
    CHECK(x && wickr_array_set_item(x, 0, &a, true), "put");
    deny = 1;
    bool r = wickr_array_set_item(x, 0, &b, true);
    deny = 0;
    CHECK(!r, "reports success");
    item_t *i = wickr_array_fetch_item(x, 0, false);
    CHECK(i && !i->dead && i->value == 1, "the array holds an item that has been destroyed");
    CHECK(wickr_array_set_item(x, 0, &b, true) && !twice && alive == 1, "replaced");
    i = wickr_array_fetch_item(x, 0, false);
    CHECK(i && i->value == 2, "value");
    wickr_array_destroy(&x, true);
    CHECK(!alive && !twice, "%d left, %d destroyed twice", alive, twice);
    return 0;
}
'''
