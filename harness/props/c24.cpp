// C24: buffers are byte strings and arrays are lists. Random programs over a pool of buffers and arrays are run next to
// a model (std::vector), and every result and every object in the pool is compared after every step.
#include "../common.hpp"

namespace v {
const char *PROP_ID = "C24";
static const size_t MAXB = (size_t)INT32_MAX - sizeof(wickr_buffer_t);

// ------------------------------------------------------------------ items with counted lifetimes
struct Item { uint64_t id, val; };
static std::map<Item *, uint64_t> g_live;        // item -> value
static uint64_t g_next = 1, g_copies = 0, g_destroys = 0;
static int64_t g_fail_copy = -1;                 // countdown to the copy that fails
static Item *new_item(uint64_t val) { Item *i = new Item{ g_next++, val }; g_live[i] = val; return i; }
static void *item_copy(void *p)
{
    Item *i = (Item *)p;
    g_copies++;
    if (!g_live.count(i)) { viol("array-copy-dead", "the array copied an item that is not alive"); return NULL; }
    if (g_fail_copy == 0) { g_fail_copy = -1; return NULL; }
    if (g_fail_copy > 0) g_fail_copy--;
    return new_item(i->val);
}
static void item_destroy(void **p)
{
    if (!p || !*p) { viol("array-destroy-null", "the array destroyed an empty slot"); return; }
    Item *i = (Item *)*p;
    g_destroys++;
    if (!g_live.count(i)) { viol("array-double-destroy", "the array destroyed an item twice"); return; }
    g_live.erase(i);
    delete i;
    *p = NULL;
}

void prop_init() { rand_install(); }
void prop_fini() {}

static size_t gen_pos(Rng &r, size_t len)
{
    switch (r.below(12)) {
        case 0: return 0;
        case 1: return len;
        case 2: return len + 1;
        case 3: return len ? len - 1 : 0;
        case 4: return MAXB - r.below(3) + 1;
        case 5: return SIZE_MAX - r.below(len + 2);
        case 6: return (size_t)UINT32_MAX + r.below(len + 2);      // 32-bit truncation
        case 7: return (size_t)1 << 63;
        default: return r.below(len + 1);
    }
}

static int g_cmp_calls, g_cmp_mode;
static int cmp_fn(const volatile void *a, const volatile void *b, size_t n)
{
    g_cmp_calls++;
    if (g_cmp_mode == 1) return 0;
    if (g_cmp_mode == 2) return 7;
    if (g_cmp_mode == 3) return -7;
    int d = 0;
    for (size_t i = 0; i < n; i++) d |= ((const volatile uint8_t *)a)[i] ^ ((const volatile uint8_t *)b)[i];
    return d;
}

static void buffers_case(Rng &r)
{
    std::vector<H<wickr_buffer_t>> pool;
    std::vector<Bytes> model;
    auto add = [&](wickr_buffer_t *b, const Bytes &m, const char *op) {
        if (m.empty()) { EXPECT(!b, fmt("%s:empty", op), "%s made a buffer of no bytes (length %zu)", op, b->length); if (b) wickr_buffer_destroy(&b); return; }
        EXPECT(b, fmt("%s:null", op), "%s of %zu bytes failed", op, m.size());
        if (!b) return;
        EXPECT(eq(b, m), fmt("%s:bytes", op), "%s: expected %s, got %s", op, hex(m).c_str(), hex(B(b)).c_str());
        for (auto &o : pool) EXPECT(b != o.get() && b->bytes != o->bytes, fmt("%s:shared", op), "%s shares memory with an existing buffer", op);
        pool.push_back(own(b)); model.push_back(m);
    };
    int steps = 30 + (int)r.below(40);
    for (int s = 0; s < steps; s++) {
        size_t n = pool.size();
        if (n > 24) { size_t k = r.below(n); pool.erase(pool.begin() + k); model.erase(model.begin() + k); n--; }
        size_t i = n ? r.below(n) : 0, j = n ? r.below(n) : 0;
        int op = n ? (int)r.below(13) : 0;
        switch (op) {
            case 0: case 1: {
                Bytes b = r.chance(1, 20) ? Bytes() : gen_bytes(r, 9000);
                View w(b);
                add(wickr_buffer_create(w.p, b.size()), b, "create");
                EXPECT(Bytes(w.p, w.p + b.size()) == b, "create:input", "create changed its input");
                EXPECT(!wickr_buffer_create(NULL, 5), "create:null-bytes", "create accepted NULL bytes");
                EXPECT(!wickr_buffer_create(w.p, MAXB + 1 + r.below(100)), "create:too-large", "create accepted more than the maximum");
                ev("created");
                break;
            }
            case 2: {
                size_t len = gen_size(r, 20000);
                { // fill the heap with a pattern first so that zeroing is visible
                    void *p = malloc(len); memset(p, 0xa7, len); free(p);
                }
                add(wickr_buffer_create_empty_zero(len), Bytes(len, 0), "create_empty_zero");
                auto e = own(wickr_buffer_create_empty(len));
                EXPECT(e && e->length == len, "create_empty", "create_empty(%zu) gave length %zu", len, e ? e->length : 0);
                if (e) { memset(e->bytes, 0x5a, len); model.push_back(Bytes(len, 0x5a)); pool.push_back(std::move(e)); }
                for (size_t bad : { (size_t)0, MAXB + 1, SIZE_MAX, SIZE_MAX - 15, (size_t)INT32_MAX, (size_t)UINT32_MAX + 1 }) {
                    EXPECT(!own(wickr_buffer_create_empty(bad)) && !own(wickr_buffer_create_empty_zero(bad)), "create_empty:invalid", "an empty buffer of %zu bytes was created", bad);
                }
                ev("created_empty");
                break;
            }
            case 3: add(wickr_buffer_copy(pool[i].get()), model[i], "copy"); ev("copied"); break;
            case 4: case 5: {
                size_t st = gen_pos(r, model[i].size()), len = gen_pos(r, model[i].size());
                if (r.chance(1, 3) && st <= model[i].size()) len = model[i].size() - st + r.below(2);
                if (r.chance(1, 8)) len = (size_t)0 - st + r.below(4);   // start + len wraps to something small
                bool ok = len && st < model[i].size() && len <= model[i].size() - st;
                wickr_buffer_t *sct = wickr_buffer_copy_section(pool[i].get(), st, len);
                if (ok) add(sct, sub(model[i], st, len), "copy_section");
                else { EXPECT(!sct, "copy_section:range", "a section [%zu, +%zu) of %zu bytes was copied", st, len, model[i].size()); if (sct) wickr_buffer_destroy(&sct); }
                ev(ok ? "sections" : "section_refused");
                distinct(fmt("section %d %zu %zu", ok, std::min<size_t>(st, 40), std::min<size_t>(len, 40)));
                break;
            }
            case 6: case 7: {
                size_t st = gen_pos(r, model[i].size()), len = gen_pos(r, model[i].size());
                if (r.chance(1, 3) && st <= model[i].size()) len = model[i].size() - st + r.below(2);
                if (r.chance(1, 8)) len = (size_t)0 - st + r.below(4);
                bool ok = len && st < model[i].size() && len <= model[i].size() - st;
                Bytes nb = r.bytes(ok ? len : std::min<size_t>(len, 64));
                View w(nb);
                bool got = wickr_buffer_modify_section(pool[i].get(), w.p, st, len);
                EXPECT(got == ok, "modify:range", "modifying [%zu, +%zu) of %zu bytes answered %d", st, len, model[i].size(), got);
                if (got && ok) std::copy(nb.begin(), nb.end(), model[i].begin() + st);
                EXPECT(Bytes(w.p, w.p + nb.size()) == nb, "modify:input", "modify changed the bytes it copies from");
                EXPECT(!wickr_buffer_modify_section(pool[i].get(), NULL, 0, 1), "modify:null", "modify accepted NULL bytes");
                ev(ok ? "modified" : "modify_refused");
                break;
            }
            case 8: {
                auto c = wickr_buffer_concat(pool[i].get(), pool[j].get());
                if (model[i].size() + model[j].size() < 60000) add(c, cat({ model[i], model[j] }), "concat");
                else { EXPECT(eq(c, cat({ model[i], model[j] })), "concat:bytes", "concat of %zu and %zu bytes", model[i].size(), model[j].size()); wickr_buffer_destroy(&c); }
                EXPECT(!wickr_buffer_concat(pool[i].get(), NULL) && !wickr_buffer_concat(NULL, pool[i].get()), "concat:null", "concat accepted NULL");
                // lengths that can not be represented: the bytes must not be touched
                wickr_buffer_t fake; fake.bytes = pool[i]->bytes;
                for (size_t bad : { MAXB - pool[i]->length + 1, MAXB + 1, SIZE_MAX, SIZE_MAX - pool[i]->length, SIZE_MAX - pool[i]->length + 1 }) {
                    fake.length = bad;
                    EXPECT(!wickr_buffer_concat(pool[i].get(), &fake) && !wickr_buffer_concat(&fake, pool[i].get()), "concat:overflow", "concat accepted lengths %zu and %zu", pool[i]->length, bad);
                    wickr_buffer_t *l[] = { pool[i].get(), &fake, pool[j].get() };
                    if (bad > MAXB - pool[i]->length) EXPECT(!wickr_buffer_concat_multi(l, 3), "concat_multi:overflow", "concat_multi accepted lengths %zu and %zu", pool[i]->length, bad);
                }
                ev("concats");
                break;
            }
            case 9: {
                int cnt = r.chance(1, 8) ? 255 : (int)r.below(12);
                std::vector<wickr_buffer_t *> l;
                Bytes want;
                wickr_buffer_t none; none.bytes = NULL; none.length = 0;
                for (int k = 0; k < cnt; k++) {
                    size_t q = r.below(n);
                    if (cnt == 255 && model[q].size() > 300) { l.push_back(&none); continue; }
                    if (r.chance(1, 6)) { l.push_back(&none); continue; }
                    l.push_back(pool[q].get());
                    want.insert(want.end(), model[q].begin(), model[q].end());
                }
                auto c = wickr_buffer_concat_multi(l.empty() ? NULL : l.data(), (uint8_t)cnt);
                if (want.size() < 60000) add(c, want, "concat_multi");
                else { EXPECT(eq(c, want), "concat_multi:bytes", "concat_multi of %d buffers (%zu bytes)", cnt, want.size()); wickr_buffer_destroy(&c); }
                ev("concat_multis");
                distinct(fmt("multi %d", cnt));
                break;
            }
            case 10: {
                bool want = model[i] == model[j];
                EXPECT(wickr_buffer_is_equal(pool[i].get(), pool[j].get(), NULL) == want, "equal", "buffers %s and %s compare %d", hex(model[i]).c_str(), hex(model[j]).c_str(), !want);
                // one byte different, one byte shorter
                Bytes m = model[i];
                auto same_b = mk(m);
                size_t pos = r.below(m.size());
                m[pos] ^= (uint8_t)(1u << r.below(8));
                auto other = mk(m);
                g_cmp_mode = 0; g_cmp_calls = 0;
                EXPECT(wickr_buffer_is_equal(pool[i].get(), same_b.get(), NULL) && wickr_buffer_is_equal(pool[i].get(), same_b.get(), cmp_fn), "equal:same", "equal buffers of %zu bytes differ", m.size());
                EXPECT(!wickr_buffer_is_equal(pool[i].get(), other.get(), NULL) && !wickr_buffer_is_equal(pool[i].get(), other.get(), cmp_fn), "equal:byte", "buffers of %zu bytes differing at %zu are equal", m.size(), pos);
                wickr_buffer_t shorter = *same_b; shorter.length--;
                EXPECT(!wickr_buffer_is_equal(pool[i].get(), &shorter, NULL) && !wickr_buffer_is_equal(&shorter, pool[i].get(), NULL), "equal:length", "a buffer equals its own prefix");
                g_cmp_mode = 1;
                EXPECT(!wickr_buffer_is_equal(pool[i].get(), &shorter, cmp_fn), "equal:length-func", "a comparison function was asked about different lengths");
                EXPECT(wickr_buffer_is_equal(pool[i].get(), other.get(), cmp_fn), "equal:func", "the given comparison function was not used");
                g_cmp_mode = 3;
                EXPECT(!wickr_buffer_is_equal(pool[i].get(), same_b.get(), cmp_fn), "equal:func", "a comparison function that answers a negative number was taken to mean equal");
                g_cmp_mode = 2;
                EXPECT(!wickr_buffer_is_equal(pool[i].get(), same_b.get(), cmp_fn), "equal:func", "the given comparison function was not used");
                EXPECT(!wickr_buffer_is_equal(NULL, pool[i].get(), NULL) && !wickr_buffer_is_equal(pool[i].get(), NULL, NULL), "equal:null", "a buffer equals NULL");
                ev("compared");
                break;
            }
            case 11: {
                wickr_buffer_t *p = pool[i].release();
                if (r.chance(1, 2)) wickr_buffer_destroy(&p); else wickr_buffer_destroy_zero(&p);
                EXPECT(!p, "destroy:pointer", "destroying a buffer left the caller's pointer");
                wickr_buffer_destroy(&p); wickr_buffer_destroy_zero(&p);
                pool.erase(pool.begin() + i); model.erase(model.begin() + i);
                ev("destroyed");
                break;
            }
            default: {
                EXPECT(!wickr_buffer_copy(NULL) && !wickr_buffer_copy_section(NULL, 0, 1) && !wickr_buffer_modify_section(NULL, pool[i]->bytes, 0, 1) && !wickr_buffer_concat_multi(NULL, 3), "null-arg", "an operation on no buffer succeeded");
                break;
            }
        }
        for (size_t k = 0; k < pool.size(); k++) REQUIRE(eq(pool[k].get(), model[k]), "value", "after operation %d buffer %zu of the pool is %s, expected %s", op, k, hex(B(pool[k])).c_str(), hex(model[k]).c_str());
        evals(pool.size());
    }
}

struct Arr { wickr_array_t *a; std::vector<Item *> m; };

static void arrays_case(Rng &r)
{
    REQUIRE(g_live.empty(), "harness", "items left over");
    std::vector<Arr> arrs;
    arrs.reserve(64);
    int steps = 40 + (int)r.below(60);
    uint64_t v = 1;
    auto check = [&](const char *op) {
        for (auto &x : arrs) {
            EXPECT(wickr_array_get_item_count(x.a) == x.m.size(), "array:count", "after %s an array of %zu counts %u", op, x.m.size(), wickr_array_get_item_count(x.a));
            for (size_t i = 0; i < x.m.size(); i++) REQUIRE(wickr_array_fetch_item(x.a, (uint32_t)i, false) == x.m[i], "array:item", "after %s item %zu of %zu is %p, expected %p", op, i, x.m.size(), wickr_array_fetch_item(x.a, (uint32_t)i, false), (void *)x.m[i]);
            for (auto *i : x.m) if (i) REQUIRE(g_live.count(i) && i->val == g_live[i], "array:dead", "after %s an array holds an item that was destroyed", op);
        }
    };
    for (int s = 0; s < steps; s++) {
        const char *op = "?";
        size_t k = arrs.empty() ? 0 : r.below(arrs.size());
        int what = arrs.empty() ? 0 : (int)r.below(10);
        if (arrs.size() > 6) what = 9;
        switch (what) {
            case 0: {
                op = "new";
                size_t n = r.pick({ 0, 1, 2, 3, 7, 8, 9, 33, 200 });
                Arr x{ wickr_array_new((uint32_t)n, 3, item_copy, item_destroy), std::vector<Item *>(n, nullptr) };
                REQUIRE(x.a, "array:new", "an array of %zu items could not be made", n);
                arrs.push_back(x);
                EXPECT(!wickr_array_new(3, 1, NULL, item_destroy) && !wickr_array_new(3, 1, item_copy, NULL), "array:no-func", "an array without functions was made");
                EXPECT(!wickr_array_new(UINT32_MAX - (uint32_t)r.below(5), 1, item_copy, item_destroy), "array:huge", "an array beyond the maximum buffer was made");
                ev("arrays");
                break;
            }
            case 1: case 2: {
                op = "set";
                Arr &x = arrs[k];
                if (x.m.empty()) break;
                uint32_t i = (uint32_t)r.below(x.m.size());
                Item *it = new_item(v++);
                Item *old = x.m[i];
                if (!wickr_array_set_item(x.a, i, it, false)) { viol("array:set", fmt("setting item %u of %zu was refused", i, x.m.size())); break; }
                x.m[i] = it;
                // not a copy: the old item stays the caller's
                if (old) { REQUIRE(g_live.count(old), "array:set-destroys", "setting an item without copying destroyed the previous one"); void *p = old; item_destroy(&p); }
                ev("set");
                break;
            }
            case 3: case 4: {
                op = "set copy";
                Arr &x = arrs[k];
                if (x.m.empty()) break;
                uint32_t i = (uint32_t)r.below(x.m.size());
                bool self = x.m[i] && r.chance(1, 4);
                Item *it = self ? x.m[i] : new_item(v++);
                bool fail = r.chance(1, 4);
                Item *old = x.m[i];
                uint64_t c0 = g_copies, val = it->val;
                g_fail_copy = fail ? 0 : -1;
                bool ok = wickr_array_set_item(x.a, i, it, true);
                g_fail_copy = -1;
                EXPECT(ok == !fail, "array:set-copy", "setting a copy answered %d when copying %s", ok, fail ? "fails" : "works");
                EXPECT(g_copies == c0 + 1, "array:copies", "setting a copy copied %llu times", (unsigned long long)(g_copies - c0));
                if (ok) {
                    Item *now = (Item *)wickr_array_fetch_item(x.a, i, false);
                    REQUIRE(now && now != it && g_live.count(now) && now->val == val, "array:set-copy-item", "the array does not hold a copy of the item set");
                    if (old) EXPECT(!g_live.count(old), "array:replaced", "replacing an item with a copy left the replaced one alive");
                    x.m[i] = now;
                }
                if (!self) { void *p = it; item_destroy(&p); }
                ev(ok ? "set_copy" : "copy_failed");
                break;
            }
            case 5: {
                op = "clear";
                Arr &x = arrs[k];
                if (x.m.empty()) break;
                uint32_t i = (uint32_t)r.below(x.m.size());
                bool copy = r.chance(1, 2);
                Item *old = x.m[i];
                EXPECT(wickr_array_set_item(x.a, i, NULL, copy), "array:clear", "clearing item %u was refused", i);
                x.m[i] = nullptr;
                if (old) {
                    EXPECT(!!g_live.count(old) == !copy, "array:clear-owner", "clearing an item (copy=%d) left it %s", copy, copy ? "alive" : "destroyed");
                    if (g_live.count(old)) { void *p = old; item_destroy(&p); }
                }
                ev("cleared");
                break;
            }
            case 6: {
                op = "range";
                Arr &x = arrs[k];
                size_t n = x.m.size();
                Item *it = new_item(v++);
                for (uint64_t i : { (uint64_t)n, (uint64_t)n + 1, (uint64_t)UINT32_MAX, (uint64_t)INT32_MAX, (uint64_t)1 << 29, ((uint64_t)1 << 29) + n, (uint64_t)256 + n, (uint64_t)65536 + n }) {
                    bool copy = r.chance(1, 2);
                    EXPECT(!wickr_array_set_item(x.a, (uint32_t)i, it, copy), "array:set-range", "item %llu of %zu was set", (unsigned long long)i, n);
                    EXPECT(!wickr_array_fetch_item(x.a, (uint32_t)i, copy), "array:fetch-range", "item %llu of %zu was fetched", (unsigned long long)i, n);
                }
                EXPECT(!wickr_array_set_item(NULL, 0, it, true) && !wickr_array_fetch_item(NULL, 0, false) && !wickr_array_copy(NULL, true) && wickr_array_get_item_count(NULL) == 0, "array:null", "an operation on no array succeeded");
                { void *p = it; item_destroy(&p); }
                ev("range_refused");
                break;
            }
            case 7: {
                op = "fetch copy";
                Arr &x = arrs[k];
                if (x.m.empty()) break;
                uint32_t i = (uint32_t)r.below(x.m.size());
                bool fail = r.chance(1, 5);
                g_fail_copy = fail ? 0 : -1;
                Item *c = (Item *)wickr_array_fetch_item(x.a, i, true);
                g_fail_copy = -1;
                if (!x.m[i] || fail) EXPECT(!c, "array:fetch-null", "an empty item was fetched");
                else REQUIRE(c && c != x.m[i] && g_live.count(c) && c->val == x.m[i]->val, "array:fetch-copy", "fetching a copy did not give a copy of the item");
                if (c) { void *p = c; item_destroy(&p); }
                ev("fetch_copy");
                break;
            }
            case 8: {
                bool deep = r.chance(2, 3);
                op = deep ? "deep copy" : "shallow copy";
                Arr &x = arrs[k];
                size_t items = 0;
                for (auto *i : x.m) items += !!i;
                bool fail = deep && items && r.chance(1, 3);
                uint64_t live0 = g_live.size();
                g_fail_copy = fail ? (int64_t)r.below(items) : -1;
                wickr_array_t *c = wickr_array_copy(x.a, deep);
                g_fail_copy = -1;
                EXPECT(!!c == !fail, "array:copy", "a %s of %zu items answered %d (copying an item %s)", op, items, !!c, fail ? "fails" : "works");
                if (!c) { EXPECT(g_live.size() == live0, "array:copy-leak", "a failed copy left %lld items", (long long)(g_live.size() - live0)); break; }
                Arr y{ c, {} };
                REQUIRE(wickr_array_get_item_count(c) == x.m.size(), "array:copy-count", "a copy of %zu items counts %u", x.m.size(), wickr_array_get_item_count(c));
                for (size_t i = 0; i < x.m.size(); i++) {
                    Item *n = (Item *)wickr_array_fetch_item(c, (uint32_t)i, false);
                    if (deep && x.m[i]) REQUIRE(n && n != x.m[i] && g_live.count(n) && n->val == x.m[i]->val, "array:deep-item", "item %zu of a deep copy is not a copy", i);
                    else REQUIRE(n == x.m[i], "array:shallow-item", "item %zu of a copy differs", i);
                    y.m.push_back(n);
                }
                if (deep) arrs.push_back(y);
                else {
                    // a shallow copy does not own its items
                    EXPECT(g_live.size() == live0, "array:shallow-copies", "a shallow copy copied items");
                    wickr_array_destroy(&c, false);
                    EXPECT(!c && g_live.size() == live0, "array:shallow-destroy", "destroying a shallow copy destroyed items");
                }
                ev(deep ? "deep_copies" : "shallow_copies");
                distinct(fmt("%s %zu of %zu", op, items, x.m.size()));
                break;
            }
            default: {
                op = "destroy";
                Arr x = arrs[k];
                bool items = r.chance(1, 2);
                wickr_array_destroy(&x.a, items);
                EXPECT(!x.a, "array:destroy-pointer", "destroying an array left the caller's pointer");
                wickr_array_destroy(&x.a, items);
                for (auto *i : x.m) if (i) {
                    EXPECT(!!g_live.count(i) == !items, "array:destroy-items", "destroying an array (items %d) left an item %s", items, items ? "alive" : "destroyed");
                    if (g_live.count(i)) { void *p = i; item_destroy(&p); }
                }
                arrs.erase(arrs.begin() + k);
                ev("array_destroyed");
            }
        }
        check(op);
    }
    for (auto &x : arrs) wickr_array_destroy(&x.a, true);
    EXPECT(g_live.empty(), "array:leak", "%zu items are alive after everything was destroyed", g_live.size());
    for (auto &x : g_live) delete x.first;
    g_live.clear();
}

// arrays of devices, as used by the messaging API
static void nodes_case(Rng &r)
{
    wickr_crypto_engine_t e = plain_engine();
    static Device d = make_device(r, e);
    size_t n = r.range(1, 6);
    wickr_node_array_t *a = wickr_node_array_new((uint32_t)n);
    std::vector<wickr_node_t *> m(n, nullptr);
    REQUIRE(a && wickr_array_get_item_count(a) == n, "nodes:new", "a node array of %zu", n);
    for (size_t i = 0; i < n; i++) if (r.chance(4, 5)) {
        auto eph = gen_eph(d, i);
        auto nd = public_node(d, eph.get(), e);
        EXPECT(wickr_node_array_set_item(a, (uint32_t)i, m[i] = nd.release()), "nodes:set", "setting node %zu of %zu", i, n);
    }
    auto eph = gen_eph(d, 99);
    auto extra = public_node(d, eph.get(), e);
    EXPECT(!wickr_node_array_set_item(a, (uint32_t)n, extra.get()) && !wickr_node_array_fetch_item(a, (uint32_t)n), "nodes:range", "node %zu of %zu exists", n, n);
    wickr_node_array_t *c = wickr_node_array_copy(a);
    REQUIRE(c && wickr_array_get_item_count(c) == n, "nodes:copy", "copying a node array of %zu", n);
    std::vector<wickr_node_t *> cm;
    for (size_t i = 0; i < n; i++) {
        EXPECT(wickr_node_array_fetch_item(a, (uint32_t)i) == m[i], "nodes:fetch", "node %zu of %zu", i, n);
        wickr_node_t *x = wickr_node_array_fetch_item(c, (uint32_t)i);
        cm.push_back(x);
        EXPECT((!x && !m[i]) || (x != m[i] && same(x, m[i])), "nodes:copy-item", "node %zu of a copied array is not a copy", i);
    }
    // the original goes away first
    wickr_node_array_destroy(&a);
    EXPECT(!a, "nodes:destroy", "destroying a node array left the pointer");
    for (auto &x : m) if (x) wickr_node_destroy(&x);
    for (auto *x : cm) if (x) EXPECT(wickr_node_verify_signature_chain(x, &e), "nodes:independent", "a copied node can not be used after the original is gone");
    wickr_array_destroy(&c, true);
    ev("node_arrays");
}

// sizes around and past what two or three bytes of length can express
static void large_case(Rng &r, size_t base)
{
    size_t n = base + r.below(base / 64);
    Bytes m = r.bytes(n);
    View w(m);
    auto b = own(wickr_buffer_create(w.p, n));
    REQUIRE(eq(b.get(), m), "create:bytes", "a buffer of %zu bytes differs from its input", n);
    auto c = own(wickr_buffer_copy(b.get()));
    EXPECT(eq(c.get(), m) && wickr_buffer_is_equal(b.get(), c.get(), NULL), "copy:bytes", "a copy of %zu bytes differs", n);
    for (int i = 0; i < 12; i++) {
        size_t st = i == 0 ? 0 : i == 1 ? n - 1 : i == 2 ? base : i == 3 ? base - 1 : r.below(n);
        size_t len = i % 2 ? n - st : r.range(1, n - st);
        auto s = own(wickr_buffer_copy_section(b.get(), st, len));
        EXPECT(eq(s.get(), sub(m, st, len)), "copy_section:bytes", "section [%zu, +%zu) of %zu bytes differs", st, len, n);
        EXPECT(!own(wickr_buffer_copy_section(b.get(), st, n - st + 1)), "copy_section:range", "a section past the end of %zu bytes was copied", n);
        Bytes x = r.bytes(std::min<size_t>(len, 5000));
        View xv(x);
        EXPECT(wickr_buffer_modify_section(c.get(), xv.p, st, x.size()), "modify:range", "modifying [%zu, +%zu) of %zu bytes was refused", st, x.size(), n);
        Bytes want = B(b);
        std::copy(x.begin(), x.end(), want.begin() + st);
        EXPECT(eq(c.get(), want), "modify:bytes", "modifying [%zu, +%zu) of %zu bytes", st, x.size(), n);
        EXPECT(wickr_buffer_is_equal(b.get(), c.get(), NULL) == (want == m), "equal", "buffers of %zu bytes that differ at %zu are equal", n, st);
        EXPECT(wickr_buffer_modify_section(c.get(), m.data() + st, st, x.size()), "modify:range", "modifying [%zu, +%zu) of %zu bytes was refused", st, x.size(), n);
        EXPECT(wickr_buffer_is_equal(b.get(), c.get(), NULL) && eq(c.get(), m), "equal", "equal buffers of %zu bytes differ", n);
    }
    // lengths that agree in their low bytes
    for (size_t other : { n - 256, n - 4096, n - 65536, n & 0xff, n & 0xffff, n & 0xffffff, (size_t)1 }) {
        if (other >= n || other == 0) continue;
        wickr_buffer_t part = { other, b->bytes };
        EXPECT(!wickr_buffer_is_equal(b.get(), &part, NULL) && !wickr_buffer_is_equal(&part, b.get(), NULL), "equal:length", "%zu bytes equal their first %zu", n, other);
        ev("prefixes_compared");
    }
    Bytes t = r.bytes(r.range(1, 70000));
    auto tb = mk(t);
    { auto q = own(wickr_buffer_concat(b.get(), tb.get())); EXPECT(eq(q.get(), cat({ m, t })), "concat:bytes", "concat of %zu and %zu bytes", n, t.size()); }
    { auto q = own(wickr_buffer_concat(tb.get(), b.get())); EXPECT(eq(q.get(), cat({ t, m })), "concat:bytes", "concat of %zu and %zu bytes", t.size(), n); }
    { wickr_buffer_t *l[] = { tb.get(), b.get(), tb.get(), c.get() }; auto q = own(wickr_buffer_concat_multi(l, 4)); EXPECT(eq(q.get(), cat({ t, m, t, m })), "concat_multi:bytes", "concat_multi of %zu bytes", 2 * (n + t.size())); }
    auto z = own(wickr_buffer_create_empty_zero(n));
    EXPECT(eq(z.get(), Bytes(n, 0)), "create_empty_zero:bytes", "a zero buffer of %zu bytes is not zero", n);
    ev(base > 1000000 ? "over_16M" : "over_64K");
}
// a list with more items than two bytes can count
static void large_array(Rng &r)
{
    size_t n = 65536 + r.range(1, 5000);
    wickr_array_t *a = wickr_array_new((uint32_t)n, 1, item_copy, item_destroy);
    REQUIRE(a && wickr_array_get_item_count(a) == n, "array:new", "an array of %zu items", n);
    std::map<uint32_t, Item *> m;
    for (int i = 0; i < 300; i++) {
        uint32_t at = i < 4 ? (uint32_t)(i == 0 ? 0 : i == 1 ? n - 1 : i == 2 ? 65535 : 65536) : (uint32_t)r.below(n);
        if (m.count(at)) continue;
        EXPECT(wickr_array_set_item(a, at, m[at] = new_item(i), false), "array:set", "setting item %u of %zu", at, n);
    }
    for (uint32_t i = 0; i < n; i++) { auto f = m.find(i); REQUIRE(wickr_array_fetch_item(a, i, false) == (f == m.end() ? NULL : f->second), "array:item", "item %u of %zu", i, n); }
    EXPECT(!wickr_array_fetch_item(a, (uint32_t)n, false), "array:range", "item %zu of %zu exists", n, n);
    wickr_array_t *c = wickr_array_copy(a, true);
    REQUIRE(c && wickr_array_get_item_count(c) == n, "array:copy-count", "a copy of %zu items", n);
    for (uint32_t i = 0; i < n; i++) { auto f = m.find(i); Item *x = (Item *)wickr_array_fetch_item(c, i, false); REQUIRE(f == m.end() ? !x : x && x != f->second && x->val == f->second->val, "array:deep-item", "item %u of a copy of %zu", i, n); }
    wickr_array_destroy(&a, true);
    wickr_array_destroy(&c, true);
    EXPECT(g_live.empty(), "array:leak", "%zu items are alive after everything was destroyed", g_live.size());
    ev("large_arrays");
}

void prop_case(uint64_t k, Rng &r)
{
    rand_seed(r.u64());
    if (k == 2) large_case(r, 16u << 20);
    if (k % 64 == 10) large_case(r, 65536);
    if (k % 256 == 20) large_array(r);
    if (k % 16 == 15) nodes_case(r);
    else if (k % 2) arrays_case(r);
    else buffers_case(r);
}
} // namespace v
